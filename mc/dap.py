"""A small OPeNDAP (DAP 2) server on the loopback network for a folder of netCDF files."""
import http.server
import multiprocessing
import re
import threading
import urllib.parse
from pathlib import Path

import netCDF4
import numpy as np

TYPES = {"f4": ("Float32", ">f4"), "f8": ("Float64", ">f8"), "i2": ("Int32", ">i4"),
         "i4": ("Int32", ">i4"), "i8": ("Float64", ">f8"), "i1": ("Int32", ">i4")}


def load(path):
    """name -> (values, dimension names, attributes), without any decoding."""
    out = {}
    with netCDF4.Dataset(path) as nc:
        nc.set_auto_maskandscale(False)
        for n, v in nc.variables.items():
            out[n] = (np.asarray(v[:]), v.dimensions,
                      {k: v.getncattr(k) for k in v.ncattrs() if k[0] != "_"})
        glob = {k: nc.getncattr(k) for k in nc.ncattrs()}
    return out, glob


def attribute(k, v):
    if isinstance(v, str):
        v = v.replace("\\", "\\\\").replace('"', '\\"')
        return f'String {k} "{v}";'
    kind = "Float64" if np.asarray(v).dtype.kind == "f" else "Int32"
    return f"{kind} {k} {', '.join(repr(x) for x in np.atleast_1d(v).tolist())};"


def answer(folder, path, query):
    """(status, content) of one request."""
    p = urllib.parse.unquote(path)
    name, _, suffix = p.rpartition(".")
    # several slashes in a row count as one, as on the usual servers
    file = Path(folder) / re.sub(r"^/+(?:[^/]+/+)*", "", name)
    if suffix not in ("das", "dds", "dods") or not file.is_file():
        return 404, b"no such file"
    data, glob = load(file)
    if suffix == "das":
        text = "Attributes {\n"
        for n, (_, _, att) in [*data.items(), ("NC_GLOBAL", (0, 0, glob))]:
            text += f"    {n} {{\n"
            text += "".join(f"        {attribute(k, v)}\n" for k, v in att.items())
            text += "    }\n"
        return 200, (text + "}\n").encode()
    wanted = []
    query = urllib.parse.unquote(query)
    for term in query.split(",") if query else data:
        n, sel = re.fullmatch(r"([^\[]+)((?:\[[0-9:]+\])*)", term).groups()
        n = n.split(".")[-1]
        idx = []
        for part in re.findall(r"\[([0-9:]+)\]", sel):
            q = [int(x) for x in part.split(":")]
            start, step, stop = (q[0], 1, q[0]) if len(q) == 1 else (
                (q[0], 1, q[1]) if len(q) == 2 else q)
            idx.append(slice(start, stop + 1, step))
        wanted.append((n, data[n][0][tuple(idx)], data[n][1]))
    dds, body = "Dataset {\n", b""
    for n, a, dims in wanted:
        kind, code = TYPES[a.dtype.str[1:]]
        shape = "".join(f"[{d} = {s}]" for d, s in zip(dims, a.shape))
        dds += f"    {kind} {n}{shape};\n"
        if a.ndim:
            body += np.array([a.size, a.size], ">i4").tobytes()
        body += np.ascontiguousarray(a).astype(code).tobytes()
    dds += f"}} {file.name};\n"
    return 200, dds.encode() + (b"\nData:\n" + body if suffix == "dods" else b"")


FAULTS = ["error", "drop", "cut"]


class Handler(http.server.BaseHTTPRequestHandler):
    protocol_version = "HTTP/1.0"

    def do_GET(self):
        path, _, query = self.path.partition("?")
        status, content = answer(self.server.folder, path, query)
        s = self.server
        with s.lock:
            s.seen.value += 1
            fault = FAULTS[s.kind.value] if s.first.value <= s.seen.value <= s.last.value \
                else None
            if fault == "error":
                status, content = 500, b"internal error"
            with open(s.log, "a") as f:
                f.write(f"{status} {path}\n")
        if fault == "drop":
            self.close_connection = True
            return
        self.send_response(status)
        self.send_header("Content-Type", "application/octet-stream")
        self.send_header("Content-Length", str(len(content)))
        self.end_headers()
        self.wfile.write(content[:len(content) // 2] if fault == "cut" else content)

    do_HEAD = do_GET

    def log_message(self, *a):
        pass


def serve(folder, log, conn, numbers):
    srv = http.server.ThreadingHTTPServer(("127.0.0.1", 0), Handler)
    srv.folder, srv.log, srv.lock = folder, log, threading.Lock()
    srv.seen, srv.first, srv.last, srv.kind = numbers
    conn.send(srv.server_address[1])
    srv.serve_forever()


class Server:
    """Serves the files of a folder at http://127.0.0.1:PORT/any/path/FILE."""

    def __init__(self, folder, log):
        self.folder, self.log = str(folder), str(log)

    def __enter__(self):
        ctx = multiprocessing.get_context("fork")
        mine, other = ctx.Pipe()
        self.numbers = [ctx.Value("q", 0) for _ in range(4)]
        self.proc = ctx.Process(target=serve, daemon=True,
                                args=(self.folder, self.log, other, self.numbers))
        self.proc.start()
        assert mine.poll(60), "the server did not start"
        self.port = mine.recv()
        self.url = f"http://127.0.0.1:{self.port}"
        return self

    def __exit__(self, *a):
        self.proc.kill()
        self.proc.join()

    def plan(self, kind=None, first=0, last=0):
        """From now on, fail the requests from the first to the last in this way."""
        for v, x in zip(self.numbers, (0, first, last, FAULTS.index(kind) if kind else 0)):
            v.value = x

    def requests(self):
        """The requests since the last call of this function: (status, file name)."""
        p = Path(self.log)
        out = []
        if p.exists():
            for line in p.read_text().splitlines():
                status, path = line.split(" ", 1)
                out.append((int(status), path.rpartition("/")[2].rpartition(".")[0]))
            p.unlink()
        return out
