"""Figures drawn by the library, kept for inspection."""

from __future__ import annotations

import os
import shutil
import tempfile
from typing import Any

import numpy as np


class Canvas:
    """Context in which figures are recorded when they are shown or closed,
    nothing is displayed, and files go to a scratch directory."""

    def __enter__(self) -> Canvas:
        import matplotlib

        matplotlib.use("Agg")
        import matplotlib.axes
        import matplotlib.figure
        import matplotlib.pyplot as plt

        self.plt = plt
        plt.close("all")
        self.figures: list[dict[str, Any]] = []
        self.seen: set[int] = set()
        self.keep: list[Any] = []
        self.contours: list[dict[str, Any]] = []
        self.saved: list[str] = []
        self.shows = 0
        self.dir = tempfile.mkdtemp(prefix="vf-canvas-")
        self.cwd = os.getcwd()
        os.chdir(self.dir)
        self.undo: list[tuple[Any, str, Any]] = []
        A = matplotlib.axes.Axes
        for name in ("tricontour", "tricontourf"):
            self.patch(A, name, self.contour(name, getattr(A, name)))
        close, save = plt.close, matplotlib.figure.Figure.savefig

        def closed(*a: Any, **k: Any) -> Any:
            self.snapshot()
            return close(*a, **k)

        def shown(*a: Any, **k: Any) -> None:
            self.snapshot()
            self.shows += 1

        def saved(fig: Any, fname: Any, *a: Any, **k: Any) -> Any:
            self.saved.append(str(fname))
            k["dpi"] = 20
            return save(fig, fname, *a, **k)

        self.patch(plt, "close", closed)
        self.patch(plt, "show", shown)
        self.patch(matplotlib.figure.Figure, "savefig", saved)
        return self

    def patch(self, where: Any, name: str, new: Any) -> None:
        self.undo.append((where, name, getattr(where, name)))
        setattr(where, name, new)

    def contour(self, name: str, real: Any) -> Any:
        def call(ax: Any, *a: Any, **k: Any) -> Any:
            from matplotlib.tri import Triangulation

            if isinstance(a[0], Triangulation):
                T, z, rest = a[0], a[1], a[2:]
            else:
                T = Triangulation(a[0], a[1], k.get("triangles"), k.get("mask"))
                z, rest = a[2], a[3:]
            tri = np.array(T.triangles)
            mask = np.zeros(len(tri), bool) if T.mask is None else np.array(T.mask, bool)
            rec = {
                "kind": name, "x": np.array(T.x), "y": np.array(T.y), "triangles": tri, "mask": mask,
                "z": np.array(z, dtype=float), "levels": k.get("levels", rest[0] if rest else None), "figure": ax.figure.number,
            }
            self.contours.append(rec)
            rec["set"] = real(ax, *a, **k)
            return rec["set"]

        return call

    def snapshot(self) -> None:
        """Record the current figure once."""
        plt = self.plt
        if not plt.get_fignums():
            return
        fig = plt.gcf()
        if id(fig) in self.seen:
            return
        self.seen.add(id(fig))
        self.keep.append(fig)
        self.figures.append(describe(fig))

    def files(self) -> dict[str, int]:
        """Files in the scratch directory and their sizes."""
        out = {}
        for base, _, names in os.walk(self.dir):
            for n in names:
                p = os.path.join(base, n)
                out[os.path.relpath(p, self.dir)] = os.path.getsize(p)
        return out

    def open_figures(self) -> int:
        return len(self.plt.get_fignums())

    def finish(self) -> None:
        """Record figures that are still open."""
        self.snapshot()

    def __exit__(self, *a: Any) -> None:
        for where, name, old in self.undo[::-1]:
            setattr(where, name, old)
        self.plt.close("all")
        os.chdir(self.cwd)
        shutil.rmtree(self.dir, ignore_errors=True)


def describe(fig: Any) -> dict[str, Any]:
    """Contents of a figure."""
    from matplotlib.colors import to_rgba
    from matplotlib.quiver import Quiver

    axes = []
    for ax in fig.axes:
        leg = ax.get_legend()
        axes.append({
            "lines": [np.array([np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float)]) for l in ax.get_lines()],
            "colors": [to_rgba(l.get_color()) for l in ax.get_lines()],
            "styles": [l.get_linestyle() for l in ax.get_lines()],
            "title": ax.get_title(),
            "xticks": np.array(ax.get_xticks(), float),
            "xlabels": [t.get_text() for t in ax.get_xticklabels()],
            "yscale": ax.get_yscale(),
            "limits": tuple(ax.axis()) if True else None,
            "legend": [t.get_text() for t in leg.get_texts()] if leg else [],
            "axis": bool(ax.axison),
            "grid": any(g.get_visible() for g in ax.get_xgridlines()),
            "arrows": [
                (np.array(c.X, float), np.array(c.Y, float), np.array(c.U, float), np.array(c.V, float), c)
                for c in ax.collections if isinstance(c, Quiver)
            ],
        })
    return {"axes": axes, "size": tuple(fig.get_size_inches())}
