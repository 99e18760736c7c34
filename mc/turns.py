"""Interleavings of whole processes at their file operations, under shim/turns.c.

Two functions run in forked processes; only one of them runs at a time. Before every
operation on a file below a folder the process asks for its turn, so the controller can
continue with the other one instead. Operations on files that only one of them uses, or that
both only read, commute; the order is a choice only at the others (`conflicts`). `explore`
executes every schedule with at most `bound` switches that are not forced by the end of a
process (stateless search: every schedule starts from a fresh folder).
"""
import ctypes
import os
import select
import signal


class Proc:
    def __init__(self, folder, fn, others=()):
        self.buf = b""
        self.status = None
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            code = 0
            try:
                for o in others:
                    os.close(o.req)
                    os.close(o.ans)
                os.close(r1)
                os.close(w2)
                null = os.open(os.devnull, os.O_WRONLY)
                os.dup2(null, 1)
                os.dup2(null, 2)
                signal.alarm(200)
                if not os.read(r2, 1):
                    os._exit(0)
                ctypes.CDLL(None).turns_arm(str(folder).encode(), w1, r2)
                fn()
            except SystemExit as e:
                code = e.code if isinstance(e.code, int) else int(e.code is not None)
            except BaseException as e:
                ctypes.CDLL(None).turns_disarm()
                try:
                    os.write(w1, f"x {type(e).__name__}: {e}".replace("\n", " ")[:600]
                             .encode() + b"\n")
                except OSError:
                    pass
                code = 7
            os._exit(code)
        os.close(w1)
        os.close(r2)
        self.req, self.ans = r1, w2
        self.error = None

    def next(self):
        """The next operation this process asks for (kind, path), or None at its end."""
        while b"\n" not in self.buf:
            ready, _, _ = select.select([self.req], [], [], 150)
            if not ready:
                os.kill(self.pid, signal.SIGKILL)
            data = os.read(self.req, 65536)
            if not data:
                self.status = os.waitstatus_to_exitcode(os.waitpid(self.pid, 0)[1])
                os.close(self.req)
                os.close(self.ans)
                return None
            self.buf += data
        line, self.buf = self.buf.split(b"\n", 1)
        kind, path = line.decode().split(" ", 1)
        if kind == "x":
            self.error = path
            return self.next()
        return kind, path

    def go(self):
        os.write(self.ans, b"g")


def effects(op):
    """[(path, changes it)] of an operation."""
    kind, path = op
    if kind in "rd":
        return [(path, False)]
    out = [(path, True)]
    if kind in "wnum":  # the listing of the folder may change
        out.append((os.path.dirname(path) + "/", True))
    return out


def solo(folder, fn):
    """(operations, exit status, error) of the function alone."""
    p = Proc(folder, fn)
    p.go()
    ops = []
    while (op := p.next()) is not None:
        ops.append(name(op))
        p.go()
    return ops, p.status, p.error


def conflicts(ops_a, ops_b):
    """Paths that both use and at least one changes."""
    used, changed = [], set()
    for ops in (ops_a, ops_b):
        u = set()
        for op in ops:
            for path, w in effects(op):
                u.add(path)
                if w:
                    changed.add(path)
        used.append(u)
    both = used[0] & used[1]
    # a listing matters only to a process that reads it
    listed = {op[1] for ops in (ops_a, ops_b) for op in ops if op[0] == "d"}
    return {p for p in both & changed if not p.endswith("/") or p in listed}


def name(op):
    return (op[0], op[1] + "/" if op[0] == "d" else op[1])


def execute(folder, fns, paths, first, switches):
    """One schedule -> dict(status, errors, points, seen): points = where it could switch."""
    procs = []
    for fn in fns:
        procs.append(Proc(folder, fn, procs))
    pending, started = [None, None], [False, False]
    seen = [[], []]
    cur, points, n, ops = first, [], 0, 0
    while True:
        if procs[cur].status is not None:
            if procs[1 - cur].status is not None:
                break
            cur = 1 - cur
            continue
        if not started[cur]:
            started[cur] = True
            procs[cur].go()
            pending[cur] = procs[cur].next()
            continue
        op = name(pending[cur])
        if any(p in paths for p, _ in effects(op)):
            if procs[1 - cur].status is None:
                points.append(n)
                if n in switches:
                    n += 1
                    cur = 1 - cur
                    continue
            n += 1
        ops += 1
        seen[cur].append(op)
        procs[cur].go()
        pending[cur] = procs[cur].next()
    return dict(status=[p.status for p in procs], errors=[p.error for p in procs],
                points=points, ops=ops, seen=seen)


def explore(folder, reset, fns, alone, bound, part, parts, check):
    """All schedules with at most `bound` unforced switches; check(result, what) -> stop?

    `alone` holds the operations of each function alone. Schedules that make a further file
    conflict start the exploration again, with that file's operations as choices as well.
    """
    used = [set(ops) for ops in alone]
    while True:
        paths = conflicts(*used)
        again = False
        for first in (0, 1):
            stack = [()]
            while stack and not again:
                sw = stack.pop()
                if sw and sw[0] % parts != part:
                    continue
                reset()
                res = execute(folder, fns, paths, first, set(sw))
                if sw or part == 0:
                    if check(res, f"starting with command {first + 1}, switching at "
                                  f"{list(sw)} of {len(res['points'])} choices"):
                        return paths
                for u, s in zip(used, res["seen"]):
                    u.update(s)
                again = conflicts(*used) != paths
                if len(sw) < bound:
                    last = sw[-1] if sw else -1
                    stack.extend(sw + (i,) for i in res["points"] if i > last)
        if not again:
            return paths
