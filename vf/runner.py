"""Run the sub-checks of one property: python -m vf.runner C01 [...]."""

from __future__ import annotations

import argparse
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import resource
import signal
import sys
import time
import traceback
import warnings
from typing import Any, Optional

from . import env

NPROC = 8
SHRINK_SECONDS = 45.0


class StopJob(BaseException):
    """Leave Hypothesis: out of budget or a failure needs no more shrinking."""


class CaseHang(BaseException):
    """A single case ran for far longer than any case needs."""


def derive_seed(*parts: Any) -> int:
    """A seed that is a pure function of its parts."""
    h = hashlib.sha256("/".join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:7], "big")


def dumps(spec: Any) -> str:
    """Canonical JSON of a spec."""
    return json.dumps(spec, sort_keys=True)


def run_case(sub: Any, spec: Any) -> tuple[Any, Optional[str]]:
    """Run one case; return its recorder and the failure text, if any."""
    from .core import Recorder, Rejected, Violation

    r = Recorder()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            sub.check(spec, r)
    except Rejected:
        r.label("rejected")
        r.nontrivial = False
        return r, None
    except Violation as exc:
        return r, f"{exc}"
    except Exception as exc:  # pylint: disable=broad-except
        tb = traceback.extract_tb(exc.__traceback__)
        where = ", ".join(
            f"{os.path.basename(f.filename)}:{f.lineno}({f.name})"
            for f in tb[-5:]
        )
        return r, f"unexpected {type(exc).__name__}: {exc} [{where}]"
    return r, None


def _alarm(_sig: int, _frm: Any) -> None:
    raise CaseHang()


class Job:
    """All cases of one shard of one sub-check, run in its own process."""

    def __init__(
        self, pid: str, sub: Any, shard: int, n: int, seed: int, budget: float
    ) -> None:
        self.pid, self.sub, self.shard, self.n = pid, sub, shard, n
        self.seed, self.budget = seed, budget
        self.out: dict[str, Any] = {
            "sub": sub.name,
            "shard": shard,
            "evaluations": 0,
            "rejected": 0,
            "checks": 0,
            "labels": {},
            "metrics": {},
            "hashes": [],
            "samples": [],
            "truncated": False,
            "failure": None,
            "error": None,
        }
        self.seen: set[str] = set()
        self.fail_spec: Any = None
        self.fail_msg = ""
        self.fail_len = 1 << 60
        self.first_fail_time = 0.0
        self.t0 = time.monotonic()
        self.num_failing = 0
        self.begun = False

    def one(self, spec: Any) -> Optional[str]:
        """Run one case and record it."""
        now = time.monotonic()
        if self.fail_spec is not None:
            if now - self.first_fail_time > SHRINK_SECONDS:
                raise StopJob()
        elif now - self.t0 > self.budget:
            self.out["truncated"] = True
            raise StopJob()
        signal.setitimer(signal.ITIMER_REAL, self.sub.case_timeout)
        try:
            r, fail = run_case(self.sub, spec)
        except CaseHang:
            self.fail_spec, self.fail_len = spec, 0
            self.fail_msg = (
                f"hang: the case did not finish in {self.sub.case_timeout} s"
            )
            self.first_fail_time = now
            self.num_failing += 1
            raise StopJob() from None
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0.0)
        o = self.out
        if "rejected" in r.labels:
            o["rejected"] += 1
        o["evaluations"] += 1
        o["checks"] += r.checks
        for lab in r.labels:
            o["labels"][lab] = o["labels"].get(lab, 0) + 1
        if fail is None:
            for k, v in r.metrics.items():
                o["metrics"][k] = max(v, o["metrics"].get(k, 0.0))
            if r.nontrivial:
                js = dumps(spec)
                h = hashlib.sha256(js.encode()).hexdigest()[:16]
                if h not in self.seen:
                    self.seen.add(h)
                    if len(o["samples"]) < 3 and len(js) < 3000:
                        o["samples"].append(spec)
        else:
            self.num_failing += 1
            if self.fail_spec is None:
                self.first_fail_time = time.monotonic()
            ln = len(dumps(spec))
            if ln < self.fail_len:
                self.fail_spec, self.fail_msg = spec, fail
                self.fail_len = ln
        return fail

    def run(self) -> dict[str, Any]:
        """Run the examples and then the generated cases."""
        from hypothesis import HealthCheck, Phase, given, seed, settings

        signal.signal(signal.SIGALRM, _alarm)
        job = self

        class CaseFailed(Exception):
            pass

        try:
            if self.shard == 0:
                for spec in self.sub.examples:
                    if self.one(spec) is not None:
                        raise StopJob()

            @seed(self.seed)
            @settings(
                max_examples=self.n + (1 if self.shard else 0),
                deadline=None,
                database=None,
                print_blob=False,
                report_multiple_bugs=False,
                suppress_health_check=list(HealthCheck),
                phases=[Phase.generate, Phase.shrink],
            )
            @given(self.sub.strategy)
            def test(spec: Any) -> None:
                # hypothesis begins with the simplest case: once is enough
                if job.shard and not job.begun:
                    job.begun = True
                    return
                if job.one(spec) is not None:
                    raise CaseFailed()

            test()
        except StopJob:
            pass
        except CaseFailed:
            pass
        except Exception as exc:  # pylint: disable=broad-except
            if self.fail_spec is None:
                self.out["error"] = "".join(
                    traceback.format_exception(exc)
                )[-3000:]
        if self.fail_spec is not None:
            self.out["failure"] = {
                "spec": self.fail_spec,
                "msg": self.fail_msg,
                "failing_cases": self.num_failing,
            }
        self.out["hashes"] = sorted(self.seen)
        self.out["wall"] = time.monotonic() - self.t0
        return self.out


def _child(job: Job, path: str) -> None:
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)
    out = job.run()
    with open(path + ".part", "w", encoding="utf-8") as f:
        json.dump(out, f)
    os.rename(path + ".part", path)
    sys.stdout.flush()
    os._exit(0)


def run_jobs(jobs: list[Job], hard: float) -> list[dict[str, Any]]:
    """Run the jobs in forked processes, at most NPROC at a time."""
    ctx = mp.get_context("fork")
    scratch = os.environ["VF_SCRATCH"]
    t0 = time.monotonic()
    pending = list(enumerate(jobs))
    running: dict[int, Any] = {}
    results: dict[int, dict[str, Any]] = {}
    while pending or running:
        while pending and len(running) < NPROC:
            i, job = pending.pop(0)
            path = os.path.join(scratch, f"job{i}.json")
            p = ctx.Process(target=_child, args=(job, path))
            job.t0 = time.monotonic()
            p.start()
            running[i] = (p, path, job)
        time.sleep(0.01)
        over = time.monotonic() - t0 > hard
        for i in list(running):
            p, path, job = running[i]
            if p.is_alive() and not over:
                continue
            if p.is_alive():
                p.kill()
            p.join()
            if os.path.exists(path):
                with open(path, encoding="utf-8") as f:
                    results[i] = json.load(f)
            else:
                o = job.out
                o["wall"] = time.monotonic() - t0
                if over:
                    o["truncated"] = True
                    o["killed"] = True
                else:
                    o["error"] = f"process ended with code {p.exitcode}"
                results[i] = o
            del running[i]
        if over and pending:
            for i, job in pending:
                job.out["truncated"] = True
                job.out["wall"] = 0.0
                results[i] = job.out
            pending = []
    return [results[i] for i in sorted(results)]


def load_prop(pid: str) -> Any:
    """The Prop object of a property."""
    mod = importlib.import_module(f"vf.props.{pid.lower()}")
    return mod.PROP


def replay(pid: str, path: str) -> int:
    """Run one saved spec without Hypothesis."""
    prop = load_prop(pid)
    with open(path, encoding="utf-8") as f:
        data = json.load(f)
    sub = next(s for s in prop.subs if s.name == data["sub"])
    _, fail = run_case(sub, data["spec"])
    if fail is None:
        print(f"OK property={pid} sub={sub.name}: the replay passes")
        return 0
    print(f"{pid}/{sub.name}: {fail}")
    print(f"VIOLATION property={pid} replay={path}")
    return 1


def main() -> int:
    """Entry point."""
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED", "1"))
    ap.add_argument("--replay", default="")
    ap.add_argument("--only", default="", help="run only these subs (debug)")
    ap.add_argument("--mult", type=float, default=1.0, help="more cases")
    ap.add_argument("-v", action="store_true", help="print metrics")
    args = ap.parse_args()
    t_start = time.monotonic()
    env.setup()
    try:
        base_seed = int(args.seed)
    except ValueError:
        base_seed = derive_seed(args.seed) % 1000003
    if args.replay:
        return replay(args.pid, args.replay)
    prop = load_prop(args.pid)
    assert prop.pid == args.pid
    tier = "thorough" if args.tier == "thorough" else "quick"
    budget = 240.0 if tier == "quick" else 1500.0
    hard = 700.0 if tier == "quick" else 3000.0
    if prop.warm is not None:
        try:
            prop.warm()
        except Exception:  # pylint: disable=broad-except
            pass  # the cases will show it
    jobs = []
    for sub in prop.subs:
        if args.only and sub.name not in args.only.split(","):
            continue
        shards = sub.shards if tier == "quick" else sub.tshards
        total = int((sub.quick if tier == "quick" else sub.thorough) * args.mult)
        for s in range(shards):
            n = total // shards + (1 if s < total % shards else 0)
            if n == 0:
                continue
            jobs.append(
                Job(
                    args.pid,
                    sub,
                    s,
                    n,
                    derive_seed(base_seed, args.pid, sub.name, s),
                    budget,
                )
            )
    results = run_jobs(jobs, hard)
    return report(args, prop, tier, base_seed, results, t_start)


def report(
    args: Any,
    prop: Any,
    tier: str,
    base_seed: int,
    results: list[dict[str, Any]],
    t_start: float,
) -> int:
    """Write the evidence file, print the outcome, return the exit code."""
    pid = prop.pid
    by_sub: dict[str, Any] = {}
    errors = []
    failures: dict[str, Any] = {}
    samples = []
    evaluations = nontrivial = 0
    rules = {s.name: s.rule for s in prop.subs}
    for o in results:
        d = by_sub.setdefault(
            o["sub"],
            {
                "evaluations": 0,
                "distinct_nontrivial": set(),
                "rejected": 0,
                "checks": 0,
                "labels": {},
                "worst_error_over_tolerance": {},
                "truncated": False,
                "seconds": 0.0,
                "rule": rules[o["sub"]],
            },
        )
        d["evaluations"] += o["evaluations"]
        d["rejected"] += o["rejected"]
        d["checks"] += o["checks"]
        d["distinct_nontrivial"].update(o["hashes"])
        d["truncated"] = d["truncated"] or o["truncated"]
        d["seconds"] = round(d["seconds"] + o.get("wall", 0.0), 2)
        for k, v in o["labels"].items():
            d["labels"][k] = d["labels"].get(k, 0) + v
        m = d["worst_error_over_tolerance"]
        for k, v in o["metrics"].items():
            m[k] = max(v, m.get(k, 0.0))
        for s in o["samples"][:1]:
            if len(samples) < 12:
                samples.append({"sub": o["sub"], "spec": s})
        if o["error"]:
            errors.append((o["sub"], o["error"]))
        if o["failure"]:
            f = o["failure"]
            old = failures.get(o["sub"])
            if old is None or len(dumps(f["spec"])) < len(dumps(old["spec"])):
                failures[o["sub"]] = f
    for d in by_sub.values():
        d["distinct_nontrivial"] = len(d["distinct_nontrivial"])
        evaluations += d["evaluations"]
        nontrivial += d["distinct_nontrivial"]
        d["labels"] = dict(sorted(d["labels"].items()))
        d["worst_error_over_tolerance"] = {
            k: float(f"{v:.3g}")
            for k, v in sorted(d["worst_error_over_tolerance"].items())
        }
    violations = []
    rep_dir = os.path.join(env.VERIF, "evidence", "replays")
    for name, f in failures.items():
        os.makedirs(rep_dir, exist_ok=True)
        path = os.path.join(rep_dir, f"{pid}-{name}.json")
        with open(path, "w", encoding="utf-8") as fh:
            json.dump(
                {
                    "property": pid,
                    "sub": name,
                    "seed": base_seed,
                    "tier": tier,
                    "message": f["msg"],
                    "spec": f["spec"],
                },
                fh,
                indent=1,
            )
        violations.append(
            {"sub": name, "message": f["msg"], "replay": path}
        )
    evidence = {
        "property": pid,
        "tier": tier,
        "seed": base_seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": nontrivial,
            "rule": "; ".join(
                f"{k}: {d['rule']}" for k, d in by_sub.items()
            ),
            "samples": samples,
            "subs": by_sub,
        },
        "wall_s": round(time.monotonic() - t_start, 2),
        "assumptions": prop.assumptions,
        "violations": len(violations),
        "violation_details": violations,
    }
    ev = os.path.join(env.VERIF, "evidence", f"{pid}.json")
    os.makedirs(os.path.dirname(ev), exist_ok=True)
    with open(ev, "w", encoding="utf-8") as fh:
        json.dump(evidence, fh, indent=1)
    for name, d in by_sub.items():
        w = d["worst_error_over_tolerance"]
        worst = max(w.items(), key=lambda kv: kv[1]) if w else ("-", 0.0)
        print(
            f"{pid}/{name}: {d['evaluations']} cases, "
            f"{d['distinct_nontrivial']} distinct non-trivial, "
            f"{d['checks']} comparisons, {d['seconds']} s"
            f"{' (truncated)' if d['truncated'] else ''}"
            f"{', rejected %d' % d['rejected'] if d['rejected'] else ''}"
            f"; worst error/tolerance {worst[1]:.2g} ({worst[0]})"
        )
        if args.v:
            print("   labels ", str(d["labels"])[:500])
            top = sorted(w.items(), key=lambda kv: -kv[1])[:7]
            print("   metrics", dict(top))
    print(f"{pid}: {evaluations} cases in {evidence['wall_s']} s (seed {base_seed}, {tier})")
    for v in violations:
        print(f"{pid}/{v['sub']}: {v['message']}")
        print(f"VIOLATION property={pid} replay={v['replay']}")
    if violations:
        return 1
    if errors:
        for name, e in errors:
            print(f"ERROR in {pid}/{name}: {e}", file=sys.stderr)
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
