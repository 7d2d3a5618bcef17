"""Real processes of a gloo process group over the loopback interface, with a log of every collective call."""

import faulthandler
import os
import pickle
import random
import signal
import socket
import tempfile
import time
import traceback

import torch

COLLECTIVES = ("all_reduce", "broadcast", "all_gather", "all_gather_object", "all_gather_into_tensor", "reduce", "gather", "scatter",
               "barrier", "broadcast_object_list", "reduce_scatter", "all_to_all", "gather_object")


_USED = 0


def _free_port(host):
    """A port below the range that outgoing connections use, different for every process that asks."""
    global _USED
    while True:
        port = 10000 + (os.getpid() * 13 + _USED) % 20000
        _USED += 1
        with socket.socket() as s:
            try:
                s.bind((host, port))
                return port
            except OSError:
                continue


class _NoInit(BaseException):
    pass


def _isolate(host):
    """All connections of this world use a loopback address of its own, so that worlds running at the same time never meet."""
    import torch.distributed.distributed_c10d as D

    def create(opts, _):
        options = D.ProcessGroupGloo._Options()
        options._timeout = opts.timeout
        options._devices = [D.ProcessGroupGloo.create_device(hostname=host)]
        backend = D.ProcessGroupGloo(opts.store, opts.group_rank, opts.group_size, options)
        backend.options.global_ranks_in_group = opts.global_ranks_in_group
        backend.options.group_name = opts.group_id
        return backend

    D.Backend._plugins["GLOO"] = D.Backend._BackendPlugin(create, True)


def members(group):
    import torch.distributed as D

    return tuple(sorted(D.get_process_group_ranks(group if group is not None else D.group.WORLD)))


def _instrument(log, delay, rng):
    """Log and delay the collectives; the functional variants funnel into the same log."""
    import torch.distributed as D
    import torch.distributed.nn.functional as F

    def wrap(module, name):
        original = getattr(module, name, None)
        if original is None:
            return

        def logged(*args, **kwargs):
            tensor = next((a for a in args if torch.is_tensor(a)), None)
            group = kwargs.get("group", next((a for a in args if isinstance(a, D.ProcessGroup)), None))
            log.append((name, members(group), tuple(tensor.shape) if tensor is not None else None,
                        str(tensor.dtype) if tensor is not None else None, str(kwargs.get("op", "")), kwargs.get("src")))
            time.sleep(delay * rng.random())
            return original(*args, **kwargs)

        setattr(module, name, logged)

    initialise = D.init_process_group

    def init(*args, **kwargs):
        try:
            return initialise(*args, **kwargs)
        except Exception as e:
            raise _NoInit(f"{type(e).__name__}: {e}") from e

    D.init_process_group = init
    for name in COLLECTIVES:
        wrap(D, name)
    for name in ("all_reduce", "broadcast", "all_gather", "reduce"):
        wrap(F, name)


def run_world(world, work, **kwargs):
    """`_run_world`, again when the processes could not find each other (a port in use)."""
    for _ in range(4):
        results, logs = _run_world(world, work, **kwargs)
        if not any(r[0] == "noinit" for r in results):
            return results, logs
    return [("error", dict(message=str(r[1]), inside=True, where="init_process_group")) if r[0] == "noinit" else r for r in results], logs


def _run_world(world, work, timeout=120.0, delay=0.01, seed=0):
    """Fork `world` processes that call `work(rank, log)`; returns per rank ("value", x) | ("error", text) | ("hang", stack) and the logs."""
    scratch = tempfile.mkdtemp(prefix="ranks-")
    me = os.getpid()
    host = f"127.{1 + me // 62500 % 250}.{1 + me // 250 % 250}.{1 + me % 250}"
    port = _free_port(host)
    pids = []
    for rank in range(world):
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                signal.setitimer(signal.ITIMER_REAL, 0)
                signal.signal(signal.SIGALRM, signal.SIG_DFL)
                os.environ.update(MASTER_ADDR=host, MASTER_PORT=str(port), RANK=str(rank), WORLD_SIZE=str(world), LOCAL_RANK=str(rank),
                                  GLOO_SOCKET_IFNAME="lo")
                torch.set_num_threads(1)
                log = []
                faulthandler.dump_traceback_later(max(1.0, timeout - 3.0), file=open(os.path.join(scratch, f"{rank}.stack"), "w"))
                path = os.path.join(scratch, f"{rank}")
                try:
                    _isolate(host)
                    _instrument(log, delay, random.Random(seed * 1000 + rank))
                    out = ("value", work(rank, log))
                except _NoInit as e:
                    out = ("noinit", str(e)[:300])
                except BaseException as e:  # noqa: BLE001 - reported to the parent
                    tb = traceback.extract_tb(e.__traceback__)
                    inside = [f for f in tb if os.sep + "artist" + os.sep in f.filename]
                    out = ("error", dict(message=f"{type(e).__name__}: {e}"[:600], inside=bool(inside),
                                         where=f"{os.path.basename(inside[-1].filename)}:{inside[-1].name}" if inside else tb[-1].name))
                with open(path + ".part", "wb") as f:
                    pickle.dump((out, log), f)
                os.rename(path + ".part", path)
                # an errored rank keeps its sockets until the others are done or stopped
                if out[0] == "error":
                    time.sleep(timeout)
            except BaseException:  # noqa: BLE001
                traceback.print_exc()
                code = 1
            finally:
                os._exit(code)
        pids.append(pid)
    try:
        end = time.time() + timeout
        results, logs = [("hang", None)] * world, [[] for _ in range(world)]
        waiting = set(range(world))
        grace = None
        while waiting and time.time() < end and (grace is None or time.time() < grace):
            time.sleep(0.01)
            for rank in sorted(waiting):
                path = os.path.join(scratch, f"{rank}")
                # asked before looking for the result: a process leaves its result before it ends
                ended = bool(os.waitpid(pids[rank], os.WNOHANG)[0])
                if ended:
                    pids[rank] = None
                if os.path.exists(path):
                    with open(path, "rb") as f:
                        results[rank], logs[rank] = pickle.load(f)
                    waiting.discard(rank)
                    if results[rank][0] == "error" and grace is None:
                        grace = time.time() + 5.0
                    if results[rank][0] == "noinit":
                        grace = time.time()
                elif ended:
                    waiting.discard(rank)
                    results[rank] = ("error", dict(message="the process was aborted", inside=True, where=""))
                    grace = grace or time.time() + 5.0
        for rank in waiting:
            results[rank] = ("hang", _stack(os.path.join(scratch, f"{rank}.stack")))
    finally:
        for pid in pids:
            if pid is None:
                continue
            try:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
            except (ProcessLookupError, ChildProcessError):
                pass
        for name in os.listdir(scratch):
            os.unlink(os.path.join(scratch, name))
        os.rmdir(scratch)
    return results, logs


def _stack(path):
    """Where a process that never finished was waiting."""
    if not os.path.exists(path):
        return None
    with open(path) as f:
        lines = [line.strip() for line in f if line.strip().startswith("File")]
    return [" ".join((os.path.basename(line.split('"')[1]), *line.split('"')[2].split()[1:])) for line in lines[:8]]


def matching(logs):
    """Offline check: the members of a process group call the same collectives in the same order, on tensors of the same shape and type.
    Returns the first disagreement, or None."""
    groups = {}
    for rank, log in enumerate(logs):
        for name, who, *what in log:
            groups.setdefault(who, {}).setdefault(rank, []).append((name, *what))
    for who, per_rank in groups.items():
        for r in who:
            if r < len(logs):
                per_rank.setdefault(r, [])
        sequences = list(per_rank.values())
        longest = max(map(len, sequences))
        for k in range(longest):
            calls = {r: (s[k] if k < len(s) else None) for r, s in per_rank.items()}
            if len(set(calls.values())) > 1:
                return dict(group=list(who), call=k, calls={r: str(c) for r, c in calls.items()})
    return None
