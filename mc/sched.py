"""Stateless exploration of all interleavings of real processes at chosen points.

Tasks are functions run in forked children; a task calls point() before every step that
other tasks could see. Only the child that was given the turn runs, until its next point.
"""
import os
import pickle
import struct

_status = _go = None


def point():
    """Called inside a task: hand the turn back and wait for the next one."""
    if _status is None:
        return
    os.write(_status, b"y")
    if os.read(_go, 1) != b"g":
        os._exit(3)


def _spawn(fn):
    global _status, _go
    sr, sw = os.pipe()
    gr, gw = os.pipe()
    pid = os.fork()
    if pid == 0:
        import signal

        signal.alarm(0)
        os.close(sr)
        os.close(gw)
        _status, _go = sw, gr
        msg = b""
        try:
            point()
            fn()
        except BaseException as e:
            msg = f"{type(e).__name__}: {e}".encode()[:1500]
        os.write(sw, b"d" + struct.pack("<I", len(msg)) + msg)
        os._exit(0)
    os.close(sw)
    os.close(gr)
    return pid, sr, gw


def _wait(sr):
    c = os.read(sr, 1)
    if c == b"y":
        return "ready", None
    if c == b"d":
        n = struct.unpack("<I", os.read(sr, 4))[0]
        return "done", (os.read(sr, n).decode() if n else None)
    return "done", "the process died"


def execute(tasks, prefix):
    """One execution; follows prefix and then always the first ready task.

    Returns (trace, errors): trace is a list of (chosen, ready tasks).
    """
    procs = [_spawn(t) for t in tasks]
    state, errors = [], []
    try:
        for p in procs:
            state.append(_wait(p[1]))
        trace = []
        while True:
            ready = [k for k, s in enumerate(state) if s[0] == "ready"]
            if not ready:
                break
            n = len(trace)
            k = prefix[n] if n < len(prefix) else ready[0]
            if k not in ready:
                return None, []
            trace.append((k, ready))
            os.write(procs[k][2], b"g")
            state[k] = _wait(procs[k][1])
        errors = [f"task {k}: {s[1]}" for k, s in enumerate(state) if s[1]]
        return trace, errors
    finally:
        for pid, sr, gw in procs:
            for fd in (sr, gw):
                os.close(fd)
        for pid, _, _ in procs:
            os.waitpid(pid, 0)


def explore(setup, check, prefix=()):
    """All interleavings that start with prefix. setup() -> tasks, check(trace, errors)."""
    todo = list(prefix)
    floor = len(prefix)
    n = 0
    while True:
        trace, errors = execute(setup(), todo)
        if trace is None:  # the prefix is not possible
            return n
        if len(trace) < floor:
            return n
        n += 1
        if check([c for c, _ in trace], errors) is False:
            return n
        for pos in range(len(trace) - 1, floor - 1, -1):
            c, ready = trace[pos]
            later = [r for r in ready if r > c]
            if later:
                todo = [x for x, _ in trace[:pos]] + [later[0]]
                break
        else:
            return n
