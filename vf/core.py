"""Core of the machinery: sub-checks, the per-case recorder and its oracles'
comparison helpers.

A property is decided by one or more ``Sub`` objects.  Each pairs a Hypothesis
strategy that generates a JSON-able *spec* with a function ``check(spec, r)``
which builds the objects of the library described by the spec, exercises them
and compares what is observed against an explicit oracle.  Any exception that
leaves ``check`` is a violation: the specs generated are always in the domain
of the property.
"""

from __future__ import annotations

from dataclasses import dataclass, field
from typing import Any, Callable, Optional

import numpy as np


class Violation(Exception):
    """The property does not hold for the spec."""


class Rejected(Exception):
    """The spec is not in the domain of the property (counted, not run)."""


class Recorder:
    """What one case did: labels, non-triviality, and worst errors."""

    def __init__(self) -> None:
        self.labels: set[str] = set()
        self.nontrivial = False
        self.metrics: dict[str, float] = {}
        self.checks = 0

    def label(self, *names: str) -> None:
        """Classify the case."""
        self.labels.update(names)

    def nt(self, cond: Any = True) -> None:
        """Mark the case as non-trivial (by the rule of the Sub)."""
        if cond:
            self.nontrivial = True

    def metric(self, name: str, value: float) -> None:
        """Track the worst value of error / tolerance."""
        name = name.rsplit(": ", 1)[-1]
        old = self.metrics.get(name, 0.0)
        if not value <= old:
            self.metrics[name] = float(value)

    def true(self, cond: Any, msg: str, *details: Any) -> None:
        """The condition must hold."""
        self.checks += 1
        if not bool(cond):
            text = msg
            if details:
                text += ": " + ", ".join(short(d) for d in details)
            raise Violation(text)

    def eq(self, name: str, a: Any, b: Any) -> None:
        """Exact equality."""
        self.checks += 1
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            same = np.shape(a) == np.shape(b) and np.array_equal(a, b)
        else:
            same = a == b
        if not same:
            raise Violation(f"{name}: got {short(a)}, expected {short(b)}")

    def close(
        self,
        name: str,
        a: Any,
        b: Any,
        tol: float,
        scale: Optional[float] = None,
    ) -> None:
        """max |a - b| <= tol * scale (scale defaults to max(1, |b|))."""
        self.checks += 1
        if a is None:
            raise Violation(f"{name}: got None")
        try:
            aa = np.asarray(a, dtype=float)
        except (TypeError, ValueError) as exc:
            raise Violation(f"{name}: got {short(a)} ({exc})") from exc
        bb = np.asarray(b, dtype=float)
        if bb.ndim > 0 and aa.shape != bb.shape:
            raise Violation(
                f"{name}: got shape {aa.shape}, expected {bb.shape}"
            )
        if aa.size == 0:
            return
        if scale is None:
            scale = max(1.0, float(np.max(np.abs(bb))))
        if not np.all(np.isfinite(aa)):
            k = int(np.argmin(np.isfinite(np.ravel(aa))))
            raise Violation(f"{name}: value {k} is {np.ravel(aa)[k]}")
        d = np.abs(aa - bb)
        err = float(np.max(d)) / scale
        self.metric(name, err / tol)
        if not err <= tol:
            k = int(np.argmax(np.ravel(d)))
            raise Violation(
                f"{name}: error {err:.3e} > {tol:.1e} (scale {scale:.3g}); "
                f"at position {k} got {np.ravel(aa)[k]!r}, expected "
                f"{np.ravel(np.broadcast_to(bb, aa.shape))[k]!r}"
            )

    def le(self, name: str, a: float, b: float, tol: float, scale: float = 1.0) -> None:
        """a <= b + tol * scale."""
        self.checks += 1
        err = (float(a) - float(b)) / scale
        if np.isfinite(err):
            self.metric(name, max(err, 0.0) / tol)
        if not err <= tol:
            raise Violation(f"{name}: {a!r} is not <= {b!r} (scale {scale:.3g})")

    def raises(
        self, name: str, exc: Any, fun: Callable[..., Any], *a: Any, **k: Any
    ) -> None:
        """fun must raise one of the exceptions, and nothing else."""
        self.checks += 1
        try:
            res = fun(*a, **k)
        except exc:
            return
        except Exception as err:  # pylint: disable=broad-except
            raise Violation(
                f"{name}: raised {type(err).__name__}({err}) instead of a "
                f"documented error"
            ) from err
        raise Violation(f"{name}: was accepted, returned {short(res)}")


def short(x: Any, n: int = 300) -> str:
    """repr, abbreviated."""
    s = repr(x)
    return s if len(s) <= n else s[: n - 3] + "..."


@dataclass
class Sub:
    """One generated check that takes part in deciding a property."""

    name: str
    strategy: Any
    check: Callable[[Any, Recorder], None]
    quick: int
    thorough: int
    rule: str
    shards: int = 1
    tshards: int = 8
    case_timeout: float = 150.0
    examples: list[Any] = field(default_factory=list)


@dataclass
class Prop:
    """A property and the sub-checks that decide it."""

    pid: str
    subs: list[Sub]
    warm: Optional[Callable[[], None]] = None
    assumptions: list[str] = field(default_factory=list)
