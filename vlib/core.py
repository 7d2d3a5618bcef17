"""Shared monitor harness: case scheduling, verdicts, known findings, evidence and replay.

A check is a set of *families*.  Each family is a function ``fn(mon, rng)`` that drives the real ARTIST code on one
generated workload and lets monitors judge what they observed through ``mon``.  Every case is seeded only by
(VERIF_SEED, property, family, index), so a recorded violation can be replayed on its own.
"""

from __future__ import annotations

import argparse
import contextlib
import json
import multiprocessing as mp
import os
import pathlib
import shutil
import signal
import sys
import tempfile
import time
import traceback
import zlib

VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path(os.environ.get("ARTIST_REPO", "/repo"))
EVIDENCE = VERIF / "evidence"
KNOWN = VERIF / "known_findings.txt"


class CaseTimeout(Exception):
    pass


class CodeUnderTestError(Exception):
    """An exception that came out of the code under test on an input that it has to accept."""


def _jsonable(x):
    import numpy as np

    try:
        import torch

        if isinstance(x, torch.Tensor):
            x = x.detach().cpu().numpy()
    except Exception:  # pragma: no cover
        pass
    if isinstance(x, np.ndarray):
        if x.size > 64:
            return {
                "shape": list(x.shape),
                "head": x.reshape(-1)[:16].tolist(),
            }
        return x.tolist()
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, dict):
        return {str(k): _jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [_jsonable(v) for v in x]
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)


class Monitor:
    """Collects what one case observed."""

    def __init__(self, pid: str, family: str, index: int, tier: str, verbose: bool = False):
        self.pid, self.family, self.index, self.tier = pid, family, index, tier
        self.evaluations = 0
        self.signatures: set[str] = set()
        self.counters: dict[str, float] = {}
        self.maxima: dict[str, float] = {}
        self.violations: list[dict] = []
        self.samples: list[dict] = []
        self.inconclusive: list[str] = []
        self.verbose = verbose

    # -- observations -----------------------------------------------------
    def observe(self, signature, nontrivial: bool = True, sample=None) -> None:
        """Record one judged execution. `signature` identifies the distinct situation that was observed."""
        self.evaluations += 1
        if nontrivial:
            self.signatures.add(f"{self.family}|{signature}")
            if len(self.samples) < 2:
                sample = {"situation": signature} if sample is None else _jsonable(sample)
                self.samples.append({"family": self.family, "case": self.index, **sample})

    def count(self, name: str, n: float = 1) -> None:
        self.counters[name] = self.counters.get(name, 0) + n

    def maximum(self, name: str, value: float) -> None:
        value = float(value)
        if value != value:
            value = float("inf")
        self.maxima[name] = max(self.maxima.get(name, 0.0), value)

    # -- verdicts ---------------------------------------------------------
    def violation(self, mechanism: str, **detail) -> None:
        self.violations.append(
            {
                "property": self.pid,
                "mechanism": mechanism,
                "family": self.family,
                "case": self.index,
                "detail": _jsonable(detail),
            }
        )
        if self.verbose:
            print("  violation", mechanism, json.dumps(_jsonable(detail))[:2000])

    def expect(self, ok, mechanism: str, **detail) -> bool:
        ok = bool(ok)
        if not ok:
            self.violation(mechanism, **detail)
        return ok

    def close(self, observed, expected, mechanism: str, atol=0.0, rtol=0.0, **detail) -> bool:
        """Compare arrays, NaN counts as different."""
        import numpy as np

        a = np.asarray(_to_np(observed), dtype=np.float64)
        b = np.asarray(_to_np(expected), dtype=np.float64)
        if a.shape != b.shape:
            self.violation(
                mechanism, reason="shape", observed=list(a.shape), expected=list(b.shape), **detail
            )
            return False
        if a.size == 0:
            return True
        err = np.abs(a - b)
        tol = atol + rtol * np.abs(b)
        bad = ~(err <= tol)
        worst = np.nanmax(err / (tol + 1e-300)) if np.isfinite(err).any() else float("inf")
        self.maximum(f"err/tol {mechanism}", worst)
        if bad.any():
            k = int(np.argmax(np.where(np.isnan(err), np.inf, err - tol)))
            idx = tuple(int(i) for i in np.unravel_index(k, a.shape))
            self.violation(
                mechanism,
                index=idx,
                observed=float(a[idx]),
                expected=float(b[idx]),
                bad=int(bad.sum()),
                size=int(a.size),
                **detail,
            )
            return False
        return True

    @contextlib.contextmanager
    def code(self, what: str, **detail):
        """Run code under test on an input it has to accept: an exception raised inside it is a violation."""
        try:
            yield
        except (CaseTimeout, CodeUnderTestError, KeyboardInterrupt):
            raise
        except Exception as exc:
            frame = _raised_in_code(exc)
            if frame is None:
                raise
            self.violation(
                f"exception:{what}:{type(exc).__name__}",
                message=str(exc)[:400],
                where=f"{pathlib.Path(frame.filename).name}:{frame.name}",
                **detail,
            )
            raise CodeUnderTestError(what) from exc

    def export(self) -> dict:
        return {
            "evaluations": self.evaluations,
            "signatures": self.signatures,
            "counters": self.counters,
            "maxima": self.maxima,
            "violations": self.violations,
            "samples": self.samples,
            "inconclusive": self.inconclusive,
        }


def _raised_in_code(exc):
    """The frame of the code under test that raised, or None if the harness (say, a hook of it) did."""
    for frame in reversed(traceback.extract_tb(exc.__traceback__)):
        if frame.filename.startswith(str(VERIF) + "/") and not frame.filename.endswith("poison.py"):
            return None
        if frame.filename.startswith(str(REPO / "artist") + "/"):
            return frame
    return None


def _to_np(x):
    try:
        import torch

        if isinstance(x, torch.Tensor):
            return x.detach().cpu().numpy()
    except Exception:  # pragma: no cover
        pass
    return x


# Every run does the cases a family names; then, until the time below is used up, up to this many times as many.
FURTHER = dict(B01=2, B02=2, E01=8, F01=12, G01=12, G02=12, G03=12, G04=12, G05=12, K01=9, K02=12, K03=12, K04=12, L01=11, L02=12, M01=4,
               N01=12, N02=6, O01=7, O02=6, O03=3, O04=5, R01=2, R02=3, R03=2, R04=7, R05=5, R06=5, S01=4, S02=12, S03=12, S04=10, P01=6, T01=12, T02=4)
FURTHER_UNTIL = dict(quick=40.0, thorough=600.0)


class Check:
    def __init__(self, pid: str, rule: str, assumptions=(), level: str = "exploration"):
        self.pid, self.rule, self.level = pid, rule, level
        self.assumptions = list(assumptions)
        self.families: dict[str, dict] = {}
        self.requirements: dict[str, tuple] = {}

    def family(self, quick: int, thorough: int, timeout: int = 240, chunk: int = 1):
        def deco(fn):
            self.families[fn.__name__] = dict(
                fn=fn, quick=quick, thorough=thorough, timeout=timeout, chunk=chunk
            )
            return fn

        return deco

    def require(self, counter: str, quick: int, thorough: int | None = None):
        """The verdict is inconclusive unless this counter reached the given value."""
        self.requirements[counter] = (quick, quick if thorough is None else thorough)


_CHECK: Check | None = None


def _alarm(_sig, _frm):
    raise CaseTimeout()


def _case_rng(pid, family, index, seed):
    import numpy as np

    return np.random.default_rng(
        np.random.SeedSequence(
            [seed & 0xFFFFFFFF, zlib.crc32(pid.encode()), zlib.crc32(family.encode()), index]
        )
    )


def run_case(check: Check, family: str, index: int, seed: int, tier: str, verbose=False) -> dict:
    import torch

    from vlib import poison

    spec = check.families[family]
    mon = Monitor(check.pid, family, index, tier, verbose)
    rng = _case_rng(check.pid, family, index, seed)
    torch.manual_seed(int(rng.integers(2**31)))
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(spec["timeout"])
    poisoned = poison.allocations
    try:
        spec["fn"](mon, rng)
    except CaseTimeout:
        mon.inconclusive.append(f"{family}[{index}]: watchdog fired")
    except CodeUnderTestError:
        pass
    except Exception as exc:
        # Every input of a case is one the code has to accept, unless the case says otherwise: an exception raised by
        # the code itself is an observation, one raised by the harness is not.
        frame = _raised_in_code(exc)
        if frame:
            mon.violation(
                f"exception:{type(exc).__name__}",
                message=str(exc)[:400],
                where=f"{pathlib.Path(frame.filename).name}:{frame.name}",
            )
        else:
            mon.inconclusive.append(f"{family}[{index}]: harness error\n{traceback.format_exc()[-3000:]}")
    finally:
        signal.alarm(0)
    if poison.allocations > poisoned:
        mon.count("uninitialised allocations poisoned", poison.allocations - poisoned)
    return dict(mon.export(), family=family)


def _worker(task):
    family, indices, seed, tier, until = task
    if until is not None and time.time() > until:
        return []
    return [run_case(_CHECK, family, i, seed, tier) for i in indices]


def load_known(pid: str) -> dict[str, str]:
    """`finding: property=<id> mechanism=<key> <text>` lines; `fixed:` lines suppress nothing."""
    known = {}
    if KNOWN.exists():
        for line in KNOWN.read_text().splitlines():
            if not line.startswith("finding:"):
                continue
            fields = line[len("finding:") :].strip().split(" ", 2)
            if len(fields) < 3 or fields[0] != f"property={pid}":
                continue
            known[fields[1].removeprefix("mechanism=")] = fields[2]
    return known


def main(check: Check, argv=None) -> int:
    global _CHECK
    parser = argparse.ArgumentParser()
    parser.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    parser.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    parser.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "0")) or os.cpu_count() or 1)
    parser.add_argument("--replay", default=None)
    parser.add_argument("--family", default=None)
    parser.add_argument("--case", type=int, default=None)
    args = parser.parse_args(argv)
    tier = args.tier if args.tier in ("quick", "thorough") else "quick"
    start = time.time()

    if args.replay:
        record = json.loads(pathlib.Path(args.replay).read_text())
        args.family, args.case, args.seed, tier = (
            record["family"],
            record["case"],
            record["seed"],
            record["tier"],
        )
    if args.family is not None and args.case is not None:
        out = run_case(check, args.family, args.case, args.seed, tier, verbose=True)
        print(json.dumps(_jsonable({k: v for k, v in out.items() if k != "samples"}), indent=1)[:6000])
        for note in out["inconclusive"]:
            print(note)
        return 1 if out["violations"] else (2 if out["inconclusive"] else 0)

    _CHECK = check
    tasks, further = [], []
    for family, spec in check.families.items():
        if args.family and family != args.family:
            continue
        n = spec[tier]
        for first in range(0, n, spec["chunk"]):
            tasks.append((family, list(range(first, min(n, first + spec["chunk"]))), args.seed, tier, None))
        until = start + float(os.environ.get("VERIF_FURTHER", FURTHER_UNTIL[tier]))
        for first in range(n, n * FURTHER.get(check.pid, 1), spec["chunk"]):
            further.append((first / n, (family, list(range(first, first + spec["chunk"])), args.seed, tier, until)))
    tasks += [t for _, t in sorted(further, key=lambda x: x[0])]

    budget = 800 if tier == "quick" else 3000
    merged = Monitor(check.pid, "-", -1, tier)
    samples_by_family: dict[str, list] = {}
    finished, done = 0, {}
    jobs = max(1, min(args.jobs, len(tasks)))
    ctx = mp.get_context("fork")
    with ctx.Pool(jobs) as pool:
        pending = pool.imap_unordered(_worker, tasks)
        while finished < len(tasks):
            left = budget - (time.time() - start)
            try:
                results = pending.next(timeout=max(1.0, left))
            except mp.TimeoutError:
                merged.inconclusive.append(f"time budget of {budget} s used up")
                pool.terminate()
                break
            finished += 1
            for out in results:
                done[out["family"]] = done.get(out["family"], 0) + 1
                merged.evaluations += out["evaluations"]
                merged.signatures |= out["signatures"]
                for k, v in out["counters"].items():
                    merged.count(k, v)
                for k, v in out["maxima"].items():
                    merged.maximum(k, v)
                merged.violations += out["violations"]
                merged.inconclusive += out["inconclusive"]
                for s in out["samples"]:
                    samples_by_family.setdefault(s["family"], [])
                    if len(samples_by_family[s["family"]]) < 2:
                        samples_by_family[s["family"]].append(s)

    known = load_known(check.pid)
    unlisted = sorted(
        (v for v in merged.violations if v["mechanism"] not in known),
        key=lambda v: (v["family"], v["case"], v["mechanism"]),
    )
    listed = sorted({v["mechanism"] for v in merged.violations if v["mechanism"] in known})
    for name, (quick, thorough) in check.requirements.items():
        need = quick if tier == "quick" else thorough
        if not args.family and merged.counters.get(name, 0) < need:
            merged.inconclusive.append(
                f"monitor '{name}' saw {merged.counters.get(name, 0)} events, needs {need}"
            )
    if merged.evaluations == 0 and not merged.violations:
        merged.inconclusive.append("nothing was evaluated")

    EVIDENCE.mkdir(exist_ok=True)
    samples = [s for v in sorted(samples_by_family.items()) for s in v[1]]
    evidence = {
        "property": check.pid,
        "tier": tier,
        "seed": args.seed,
        "level": check.level,
        "coverage": {
            "evaluations": merged.evaluations,
            "distinct_nontrivial": len(merged.signatures),
            "rule": check.rule,
            "samples": samples[:16],
            "events": {k: merged.counters[k] for k in sorted(merged.counters)},
            "worst": {k: merged.maxima[k] for k in sorted(merged.maxima)},
            "cases_run": {f: done.get(f, 0) for f in check.families},
            "known_findings_seen": listed,
            "inconclusive": merged.inconclusive[:5],
        },
        "assumptions": check.assumptions,
        "wall_s": round(time.time() - start, 2),
        "violations": len(unlisted),
    }
    if not args.family:
        (EVIDENCE / f"{check.pid}.json").write_text(
            json.dumps(evidence, indent=1, allow_nan=False, default=str)
            if _finite(evidence)
            else json.dumps(_definite(evidence), indent=1)
        )

    for mech in listed:
        print(f"KNOWN-FINDING: property={check.pid} {mech}: {known[mech]}")
    if unlisted:
        replays = EVIDENCE / "replays"
        replays.mkdir(exist_ok=True)
        seen = {}
        for v in unlisted:
            seen.setdefault(v["mechanism"], v)
        for i, (mech, v) in enumerate(sorted(seen.items())[:5]):
            path = replays / f"{check.pid}-{i}.json"
            path.write_text(
                json.dumps(_definite({**v, "seed": args.seed, "tier": tier,
                            "command": f"checks/run {check.pid} --replay {path}"}), indent=1)
            )
            n = sum(1 for w in unlisted if w["mechanism"] == mech)
            print(f"  {mech} ({n} observations), first: {json.dumps(v['detail'])[:700]}")
            print(f"VIOLATION property={check.pid} replay={path}")
        return 1
    if merged.inconclusive:
        print(f"INCONCLUSIVE property={check.pid}")
        for note in merged.inconclusive[:5]:
            print("  " + note)
        return 2
    print(
        f"HELD property={check.pid} tier={tier} seed={args.seed} evaluations={merged.evaluations} "
        f"distinct={len(merged.signatures)} wall={evidence['wall_s']}s"
    )
    return 0


def _finite(x):
    import math

    if isinstance(x, float):
        return math.isfinite(x)
    if isinstance(x, dict):
        return all(_finite(v) for v in x.values())
    if isinstance(x, (list, tuple)):
        return all(_finite(v) for v in x)
    return True


def _definite(x):
    import math

    if isinstance(x, float) and not math.isfinite(x):
        return str(x)
    if isinstance(x, dict):
        return {k: _definite(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [_definite(v) for v in x]
    return x


def prepare_process() -> str:
    """Scratch working directory (importing ARTIST writes a runtime log into the working directory)."""
    scratch = tempfile.mkdtemp(prefix="verif-artist-")
    os.chdir(scratch)
    sys.path.insert(0, str(REPO))
    return scratch


def cleanup(scratch: str) -> None:
    os.chdir("/")
    shutil.rmtree(scratch, ignore_errors=True)
