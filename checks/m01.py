"""M01 - logging and runtime tracking observe without interfering."""

import contextlib
import io
import logging
import pathlib
import re
import shutil
import tempfile
import threading
import time

import numpy as np
import torch

from artist.util import constants as C
from artist.util import set_logger_config, set_runtime_logger, track_runtime
from checks import o04 as SCHED
from vlib import h5 as H
from vlib import optim as OP
from vlib.core import Check

CHECK = Check(
    "M01",
    rule="one evaluation = one call of a tracked function (compared with what the function itself did), one logger configuration (every line it "
    "delivered is counted), or one optimisation repeated with another log step and another log level (every update compared); distinct = "
    "(kind, outcome, depth, level, outputs); non-trivial = something was or had to be logged",
    assumptions=["clock: time.perf_counter; printed durations are rounded to a millisecond", "loggers are configured once per process, as documented"],
)
STARTED = re.compile(r"(\w+)\W+started")
FINISHED = re.compile(r"(\w+)\W+finished.*?([0-9.]+)\s*s\b")
LEVELS = (logging.DEBUG, logging.INFO, logging.WARNING, logging.ERROR, logging.CRITICAL)


class Memory(logging.Handler):
    def __init__(self):
        super().__init__()
        self.lines = []

    def emit(self, record):
        self.lines.append((record.thread, record.levelno, record.getMessage()))


class Special(Exception):
    pass


@contextlib.contextmanager
def private(name, keep=False):
    """A logger whose handlers and level come back as they were."""
    logger = logging.getLogger(name)
    state = list(logger.handlers), logger.level, logger.propagate
    if not keep:
        logger.handlers = []
    try:
        yield logger
    finally:
        for h in logger.handlers:
            if h not in state[0]:
                h.close()
        logger.handlers, logger.level, logger.propagate = state
        logger.manager._clear_cache()


def random_program(rng, logger, depth, trace):
    """A tracked function that notes everything about its own execution and calls other tracked functions."""
    name = H.word(rng) + str(int(rng.integers(100)))
    name = re.sub(r"\W", "_", name)
    inner = [random_program(rng, logger, depth - 1, trace) for _ in range(int(rng.integers(0, 3)))] if depth else []
    fails, nap, result = bool(rng.random() < 0.15), float(rng.choice([0, 0, 0.002, 0.012])), (object(), None, 7, torch.ones(2))[int(rng.integers(4))]
    swallow = bool(rng.random() < 0.5)

    def work(*args, **kwargs):
        """Some text."""
        t = time.perf_counter()
        entry = dict(name=name, args=args, kwargs=kwargs, result=result, error=None, thread=threading.get_ident())
        trace.append(("in", entry))
        try:
            for f in inner:
                try:
                    f(*args)
                except Special:
                    if not swallow:
                        raise
            if nap:
                time.sleep(nap)
            if fails:
                raise Special(name)
            return result
        except Special as exc:
            entry["error"] = exc
            raise
        finally:
            entry["inner"] = time.perf_counter() - t
            trace.append(("out", entry))

    work.__name__ = work.__qualname__ = name
    tracked = track_runtime(logger)(work)
    tracked.plain = work
    return tracked


def judge_lines(mon, lines, trace, total, **who):
    """The lines of one thread against what its functions did."""
    want = []
    for what, entry in trace:
        if what == "in":
            want.append(("started", entry))
        elif entry["error"] is None:
            want.append(("finished", entry))
    ok = len(lines) == len(want)
    for (_, level, text), (what, entry) in zip(lines, want):
        m = (STARTED if what == "started" else FINISHED).search(text)
        ok = ok and m is not None and m.group(1) == entry["name"] and level == logging.INFO
        if not ok:
            break
        if what == "finished":
            mon.count("durations compared")
            spent = float(m.group(2))
            mon.expect(entry["inner"] - 6e-4 <= spent <= total + 6e-4, "duration", printed=spent, inside=entry["inner"], outside=total, **who)
    mon.expect(ok, "lines-of-tracked-calls", got=[x[2] for x in lines][:12], want=[(w, e["name"]) for w, e in want][:12], **who)
    mon.count("tracked calls", len(trace) // 2)


def call(mon, f, trace, rng, **who):
    args = tuple(object() for _ in range(int(rng.integers(0, 3))))
    kwargs = {"k": [], "name": "x", "logger": 1} if rng.random() < 0.3 else {}
    begin = time.perf_counter()
    got = error = None
    try:
        got = f(*args, **kwargs)
    except Special as exc:
        error = exc
    total = time.perf_counter() - begin
    entry = trace[0][1]
    mon.expect(error is entry["error"], "exception-changed", got=repr(error), want=repr(entry["error"]), **who)
    if entry["error"] is None:
        mon.expect(got is entry["result"], "result-changed", **who)
    else:
        mon.count("tracked calls that failed")
    mon.expect(len(entry["args"]) == len(args) and all(a is b for a, b in zip(args, entry["args"])), "arguments-changed", **who)
    mon.expect(entry["kwargs"].keys() == kwargs.keys() and all(entry["kwargs"][k] is kwargs[k] for k in kwargs), "arguments-changed", **who)
    return total


@CHECK.family(quick=200, thorough=3000, chunk=20)
def tracked(mon, rng):
    """Nested tracked functions, some of which fail."""
    with private("artist.runtime") as logger:
        memory = Memory()
        logger.addHandler(memory)
        logger.propagate = False
        level = LEVELS[int(rng.integers(len(LEVELS)))] if rng.random() < 0.4 else logging.INFO
        logger.setLevel(level)
        trace, depth = [], int(rng.integers(0, 4))
        f = random_program(rng, logger, depth, trace)
        mon.expect(f.__name__ == f.plain.__name__ and f.__doc__ == f.plain.__doc__, "name-or-documentation-lost", got=f.__name__)
        for _ in range(int(rng.integers(1, 4))):
            trace.clear()
            memory.lines.clear()
            with mon.code("tracked function"):
                total = call(mon, f, trace, rng, depth=depth, level=level)
            if level <= logging.INFO:
                judge_lines(mon, memory.lines, trace, total, depth=depth)
            else:
                mon.expect(not memory.lines, "lines-below-the-level", level=level)
            mon.observe(f"{depth}|{trace[0][1]['error'] is None}|{level}|{min(len(trace) // 2, 8)}", level <= logging.INFO)


@CHECK.family(quick=40, thorough=500, chunk=10)
def threads(mon, rng):
    """Several threads in tracked functions at once: the lines of each thread are its own story."""
    with private("artist.runtime") as logger:
        memory = Memory()
        logger.addHandler(memory)
        logger.propagate = False
        logger.setLevel(logging.INFO)
        n = int(rng.integers(2, 6))
        shared = bool(rng.random() < 0.5)
        stories = {}
        common = []
        first = random_program(rng, logger, 2, common)
        jobs = [(first, common) if shared else (lambda t: (random_program(rng, logger, 2, t), t))([]) for _ in range(n)]
        barrier = threading.Barrier(n)

        def run(k):
            f, _ = jobs[k]
            barrier.wait()
            t = time.perf_counter()
            try:
                f(k)
            except Special:
                pass
            stories[k] = threading.get_ident(), time.perf_counter() - t

        workers = [threading.Thread(target=run, args=(k,)) for k in range(n)]
        for w in workers:
            w.start()
        for w in workers:
            w.join()
        idents = [stories[k][0] for k in range(n)]
        if len(set(idents)) < n:  # an identity was used again
            return
        for k in range(n):
            ident, total = stories[k]
            judge_lines(mon, [x for x in memory.lines if x[0] == ident], [x for x in jobs[k][1] if x[1]["thread"] == ident], total, threads=n)
        mon.observe(f"threads|{n}|{shared}|{min(len(memory.lines) // 10, 8)}")


def entries(path):
    return path.read_text().splitlines() if path.exists() else []


@CHECK.family(quick=60, thorough=800, chunk=10)
def runtime_logger(mon, rng):
    """Asking for the runtime logger again neither loses nor repeats a line."""
    base = pathlib.Path(tempfile.mkdtemp())
    try:
        with private("artist.runtime") as logger:
            logger.propagate = False
            files, said = [], []
            for k in range(int(rng.integers(1, 5))):
                path = base.joinpath(*[f"d{int(rng.integers(3))}" for _ in range(int(rng.integers(0, 4)))], f"{H.word(rng)}.txt")
                level = LEVELS[int(rng.integers(len(LEVELS)))]
                with mon.code("set_runtime_logger"):
                    got = set_runtime_logger(str(path) if rng.random() < 0.5 else path, level)
                files.append(path)
                mon.expect(got is logger, "another-runtime-logger", call=k)
                for _ in range(int(rng.integers(1, 5))):
                    at, text = LEVELS[int(rng.integers(len(LEVELS)))], f"line-{int(rng.integers(10**9))}"
                    got.log(at, text)
                    said.append((at, text, at >= level))
            for h in logger.handlers:
                h.flush()
            found = [x for p in set(files) for x in entries(p)]
            mon.expect(files[0].exists(), "log-file-missing")
            for at, text, due in said:
                lines = [x for x in found if x.endswith(" - " + text)]
                mon.expect(len(lines) == int(due), "runtime-line-lost-or-repeated", times=len(lines), due=due, calls=len(files))
                mon.expect(all(f"[{logging.getLevelName(at)}]" in x for x in lines), "level-of-line", line=lines[:1])
                mon.count("runtime lines")
            mon.expect(len(found) == sum(x[2] for x in said), "lines-invented", found=len(found))
            mon.observe(f"runtime|{len(files)}|{len(said)}", sample=dict(lines=found[:3]))
    finally:
        shutil.rmtree(base)


@CHECK.family(quick=80, thorough=1000, chunk=10)
def logger_config(mon, rng):
    """Each line goes once to each output that was asked for, and only if its level is high enough."""
    base = pathlib.Path(tempfile.mkdtemp())
    try:
        with private("artist") as logger, contextlib.redirect_stdout(io.StringIO()) as screen:
            logger.propagate, logger.handlers = False, [logging.NullHandler()]
            level = LEVELS[int(rng.integers(len(LEVELS)))]
            file = base.joinpath(*["sub"] * int(rng.integers(0, 3)), "log.txt") if rng.random() < 0.7 else None
            visible, colours = bool(rng.random() < 0.7), bool(rng.random() < 0.5)
            with mon.code("set_logger_config"):
                if rng.random() < 0.2:
                    level, visible, colours = logging.INFO, True, True
                    set_logger_config(log_file=file)
                else:
                    set_logger_config(level=level, log_file=file and (str(file) if rng.random() < 0.5 else file), log_to_stdout=visible, colors=colours)
            said = []
            for _ in range(int(rng.integers(2, 9))):
                at, text = LEVELS[int(rng.integers(len(LEVELS)))], f"line-{int(rng.integers(10**9))}-end"
                name = ("artist", "artist.optim.surface_reconstructor", "artist.io", "somebody.else")[int(rng.integers(4))]
                source = logging.getLogger(name)
                if name == "somebody.else":
                    source.propagate, source.handlers = False, [logging.NullHandler()]
                source.log(at, text)
                said.append((name, at, text))
            for h in logger.handlers:
                h.flush()
            written, shown = entries(file) if file else [], screen.getvalue()
            mon.expect(file is None or file.exists(), "log-file-missing")
            for name, at, text in said:
                due = name != "somebody.else" and at >= level
                who = dict(name=name, at=at, level=level, visible=visible, colours=colours, file=file is not None)
                mon.expect(shown.count(text) == int(due and visible), "screen-line-lost-or-repeated", times=shown.count(text), **who)
                lines = [x for x in written if text in x]
                mon.expect(len(lines) == int(due and file is not None), "file-line-lost-or-repeated", times=len(lines), **who)
                mon.expect(all(f"[{name}]" in x and f"[{logging.getLevelName(at)}]" in x for x in lines), "line-without-its-origin", lines=lines, **who)
                mon.count("configured lines")
            mon.expect(not any("\x1b" in x for x in written), "colours-in-the-file")
            mon.expect(colours or "\x1b" not in shown, "colours-not-wanted")
            mon.observe(f"config|{level}|{file is not None}|{visible}|{colours}")
    finally:
        shutil.rmtree(base)


WORKS = dict(alignment=(SCHED.alignment_work, (3, 14), (-3.6, -2.2)), raytracing=(SCHED.raytracing_work, (3, 7), (-4.2, -3.2)),
             surfaces=(SCHED.surfaces_work, (3, 6), (-4.5, -3.3)), aim_points=(SCHED.aim_points_work, (3, 8), (-4.2, -2.5)))


@CHECK.family(quick=40, thorough=600, chunk=1, timeout=300)
def optimisations(mon, rng):
    """How often an optimisation reports and validates, and who listens, does not change its course."""
    what = list(WORKS)[(0, 1, 0, 2, 3)[mon.index % 5]]
    build, epochs, rate = WORKS[what]
    work = build(mon, rng)
    n, lr = int(rng.integers(*epochs)), float(10 ** rng.uniform(*rate))
    sched = OP.schedule(rng, SCHED.SCHEDULERS[int(rng.integers(3))], lr, n)
    steps = [int(x) for x in rng.permutation([0, 1, 2, 3, 50])[:2]]
    seed, seen, opt = int(rng.integers(2**31)), [], OP.optimisation(lr, n, 100, tolerance=-1e9)
    if rng.random() < 0.6:  # let it end early
        got = work(np.random.default_rng(seed), dict(opt), sched)
        if got is None or not got[0]:
            return
        SCHED.ending(rng, opt, [s["loss"] for s in got[0][0]["steps"]], n, ("early", "early", "tolerance")[int(rng.integers(3))])
    for k, step in enumerate(steps):
        with private("artist", keep=True) as logger:
            memory = Memory()
            logger.addHandler(memory)
            logger.setLevel((logging.DEBUG, logging.CRITICAL)[(mon.index + k) % 2])
            state = torch.get_rng_state()
            got = work(np.random.default_rng(seed), dict(opt, **{C.log_step: step}), sched)
            torch.set_rng_state(state)
            if got is None:
                return
            runs, finals = got
            seen.append((runs, [[x.clone() for x in f] if f else f for f in finals], len(memory.lines)))
    (a, fa, la), (b, fb, lb) = seen
    who = dict(optimiser=what, steps=steps)
    mon.expect(len(a) == len(b), "number-of-optimisers", **who)
    for x, y in zip(a, b):
        mon.expect(len(x["steps"]) == len(y["steps"]), "length-depends-on-log-step", got=(len(x["steps"]), len(y["steps"])), **who)
        for p, q in zip(x["steps"], y["steps"]):
            mon.count("updates compared")
            mon.close(q["loss"], p["loss"], "loss-depends-on-log-step", atol=1e-9, rtol=1e-5, **who)
            for u, v in zip(p["end"], q["end"]):
                mon.close(v.numpy(), u.numpy(), "update-depends-on-log-step", atol=1e-2 * lr, rtol=1e-5, **who)
    mon.expect(max(la, lb) > 0, "nothing-was-logged", **who)
    mon.count("optimisations that ended early", any(len(x["steps"]) <= n for x in a))
    mon.observe(f"optimisation|{what}|{sorted(steps)}|{n}")


CHECK.require("tracked calls", 800)
CHECK.require("durations compared", 500)
CHECK.require("tracked calls that failed", 30)
CHECK.require("runtime lines", 200)
CHECK.require("configured lines", 200)
CHECK.require("updates compared", 100)
CHECK.require("optimisations that ended early", 4)
