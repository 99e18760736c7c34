"""C21: downloads store what was published or fail, and never overwrite."""
import contextlib
import gzip
import io
import itertools
import json
import os
import shutil
from pathlib import Path

from mc import wam

ID = "C21"
LEVEL = "fault_enumeration"
RULE = ("a model of the publisher answers every request below the HTTP library. (a) every "
        "request of the protocol failing in every way of the alphabet, and every pair of "
        "benign variations; (b) all histories of downloads over new, existing and failed "
        "targets up to the depth; (c) all identifiers over the alphabet of resolvers, "
        "prefixes and suffixes; an evaluation is one download attempt; distinct = distinct "
        "(fault, position), history or identifier")
ASSUMPTIONS = ["requests go through requests' HTTP adapter (replaced here; nothing leaves the "
               "process)", "published names are plain and unique",
               "a new attempt into a directory left by a failed one counts as existing"]
UUID = {"example-input-volta": "bbe10a2a-39dc-4098-a69f-0f677d06ecdd",
        "example-input-eiffel": "f9572240-f179-4338-9e1b-82c5598529e2"}
BIG = False  # publish one file of several chunks too
MARK = b"<html>sorry, error page</html>"


def preload():
    wam.preload()
    wam.need("download")
    import requests  # noqa: F401
    import threddsclient  # noqa: F401


def published(uuid):
    """name -> content; first those in the catalogue, then the additional ones."""
    tag = uuid[:4].encode()
    cat = {"2021-07-01_fluxes_storages.nc": b"\x89HDF" + tag + bytes(range(256)) * 40,
           "2021-07-02_fluxes_storages.nc": b"CDF\x01" + tag + b"\x00" * 3000,
           "region.nc": tag}
    if BIG:
        cat["2021-07-03_fluxes_storages.nc"] = tag + bytes(
            (7 * k + k // 1000) % 251 for k in range(5000)) * 500
    add = {"config.yaml": b"calendar: standard\n# " + tag * 300, "empty.txt": b"",
           "README.md": tag + b"\r\n text \xff\xfe"}
    return cat, add


class Server:
    """The publisher. fault = {request number: how}; variation = benign differences."""

    def __init__(self, fault=None, variation=()):
        self.fault = fault or {}
        self.variation = variation
        self.log = []

    def answer(self, url):
        """status, headers, body"""
        for uuid in UUID.values():
            cat, add = published(uuid)
            base = "https://opendap.4tu.nl/thredds"
            if url == f"https://data.4tu.nl/v2/articles/{uuid}":
                ext = ".html"
                fields = [{"name": "Publisher", "value": "4TU"},
                          {"name": "Data Link",
                           "value": [f"{base}/catalog/data2/{uuid}/catalog{ext}"]}]
                if "fields" in self.variation:
                    fields = fields[::-1] + [{"name": "Format", "value": ["nc"]}]
                files = [{"name": n, "id": k, "download_url":
                          f"https://data.4tu.nl/file/{uuid}/{k}"}
                         for k, n in enumerate(add)]
                if "nofiles" in self.variation:
                    files = []
                body = {"uuid": uuid, "custom_fields": fields, "files": files}
                return 200, {"Content-Type": "application/json"}, json.dumps(body).encode()
            if url == f"{base}/catalog/data2/{uuid}/catalog.xml":
                ds = "".join(f'<dataset name="{n}" ID="x/{n}" urlPath="data2/{uuid}/{n}">'
                             "<serviceName>all</serviceName></dataset>" for n in cat)
                if "nested" in self.variation:
                    ds = f'<dataset name="more">{ds}</dataset>'
                xml = ('<?xml version="1.0"?><catalog xmlns="http://www.unidata.ucar.edu/'
                       'namespaces/thredds/InvCatalog/v1.0"><service name="all" '
                       'serviceType="Compound" base=""><service name="odap" '
                       'serviceType="OPENDAP" base="/thredds/dodsC/"/><service name="http" '
                       'serviceType="HTTPServer" base="/thredds/fileServer/"/></service>'
                       f'<dataset name="root" ID="root">{ds}</dataset></catalog>')
                return 200, {"Content-Type": "application/xml"}, xml.encode()
            for n, c in cat.items():
                if url == f"{base}/fileServer/data2/{uuid}/{n}":
                    return 200, {}, c
            for k, (n, c) in enumerate(add.items()):
                if url == f"https://data.4tu.nl/file/{uuid}/{k}":
                    if "redirect" in self.variation:
                        return 302, {"Location": url.replace("/file/", "/store/")}, b""
                    return 200, {}, c
                if url == f"https://data.4tu.nl/store/{uuid}/{k}":
                    return 200, {}, c
        return 404, {}, MARK

    def send(self, adapter, request, **kw):
        import requests
        import urllib3

        n = len(self.log)
        self.log.append(request.url)
        how = self.fault.get(n)
        if how == "refused":
            raise requests.exceptions.ConnectionError("refused", request=request)
        if how == "timeout":
            raise requests.exceptions.ReadTimeout("timed out", request=request)
        status, head, body = self.answer(request.url)
        head = dict(head)
        if how in ("400", "401", "403", "404", "410", "429", "500", "502", "503"):
            status, head, body = int(how), {"Content-Type": "text/html"}, MARK
        if how == "503json":
            status, body = 503, json.dumps({"message": "sorry, error page"}).encode()
        if "gzip" in self.variation and status == 200:
            if "gzip" in request.headers.get("Accept-Encoding", ""):
                body = gzip.compress(body)
                head["Content-Encoding"] = "gzip"
        chunked = "chunks" in self.variation and status == 200 and how is None
        if chunked:
            head["Transfer-Encoding"] = "chunked"
            step = max(1, len(body) // 5)
            body = b"".join(b"%x\r\n%s\r\n" % (len(c), c) for c in (
                body[k: k + step] for k in range(0, len(body), step))) + b"0\r\n\r\n"
        elif "nolength" not in self.variation:
            head["Content-Length"] = str(len(body))
        if how == "truncated":
            body = body[: len(body) // 2]
            head.setdefault("Content-Length", str(2 * len(body) + 1))
        if how == "broken":
            body = _Broken(body)
        if chunked:
            body = _Chunks(body)
        raw = urllib3.HTTPResponse(
            body=io.BytesIO(body) if isinstance(body, bytes) else body, headers=head, status=status,
            preload_content=False, decode_content=False, request_method=request.method,
            reason="x")
        return adapter.build_response(request, raw)


class _Broken(io.BytesIO):
    """The connection breaks in the middle of the body."""

    def read(self, *a, **k):
        if self.tell() >= len(self.getvalue()) // 2:
            raise ConnectionResetError("reset by peer")
        return super().read(max(1, len(self.getvalue()) // 2))

    def readinto(self, b):
        raise ConnectionResetError("reset by peer")


class _Chunks(io.BytesIO):
    """A body in chunked transfer encoding, as http.client hands it over."""

    def __init__(self, raw):
        super().__init__(b"")
        self.fp = io.BytesIO(raw)

    def _safe_read(self, n):
        data = self.fp.read(n)
        assert len(data) == n
        return data


@contextlib.contextmanager
def serve(server):
    import requests.adapters

    cls = requests.adapters.HTTPAdapter
    real = cls.send
    cls.send = lambda self, request, **kw: server.send(self, request, **kw)
    for k in ("http_proxy", "https_proxy", "HTTP_PROXY", "HTTPS_PROXY"):
        os.environ.pop(k, None)
    try:
        yield server
    finally:
        cls.send = real


FAULTS = ["refused", "timeout", "400", "401", "403", "404", "410", "429", "500", "502", "503",
          "503json", "truncated", "broken"]
VARS = ["gzip", "nolength", "redirect", "nested", "fields", "nofiles",
        "chunks"]
N_REQ = 3 + 3 + 3


def cases(tier):
    out = []
    for n in range(N_REQ):
        out.append(dict(kind="faults", at=n, second=tier != "quick"))
    subsets = [c for k in range(len(VARS) + 1 if tier != "quick" else 3)
               for c in itertools.combinations(VARS, k)]
    out.append(dict(kind="variations", sets=subsets))
    for first in range(len(EVENTS)):
        out.append(dict(kind="history", first=first, depth=3 if tier == "quick" else 4))
    out.append(dict(kind="existing"))
    out.append(dict(kind="identifiers"))
    return out


def run_case(case, ctx):
    os.chdir(ctx.tmp)
    try:
        globals()[case["kind"]](case, ctx)
    finally:
        os.chdir("/")


def tree(path):
    """Everything below path."""
    out = {}
    for p in sorted(Path(path).rglob("*")):
        r = str(p.relative_to(path))
        out[r] = ("link", os.readlink(p)) if p.is_symlink() else (
            "dir",) if p.is_dir() else ("file", p.read_bytes())
    return out


def attempt(doi, name):
    try:
        wam.need("download", "download_from_doi")(doi, name)
    except Exception as e:
        return e
    return None


def doi_of(name, form="{}"):
    return form.format(f"10.4121/{UUID[name]}.v2")


def complete(ctx, what, folder, uuid, nofiles=False):
    cat, add = published(uuid)
    want = {**cat, **({} if nofiles else add)}
    have = {k: v[1] for k, v in tree(folder).items() if v[0] == "file"}
    if set(have) != set(want):
        ctx.fail(f"{what}: stored {sorted(have)}, published {sorted(want)}")
        return False
    for n, c in want.items():
        if have[n] != c:
            ctx.fail(f"{what}: {n} holds {have[n][:40]!r} ({len(have[n])} bytes), published "
                     f"{c[:40]!r} ({len(c)} bytes)")
            return False
    return True


def no_error_body(ctx, what, folder):
    for n, v in tree(folder).items():
        if v[0] == "file" and b"sorry, error page" in v[1]:
            ctx.fail(f"{what}: the body of an error response was stored as {n}")
            return False
    return True


def faults(case, ctx):
    name = "example-input-volta"
    k = case["at"]
    for how in FAULTS:
        more = [None]
        if case["second"]:
            more += [(j, h) for j in range(k + 1, N_REQ) for h in ("404", "truncated")]
        for m in more:
            for var in ((), ("gzip",)):
                if how == "truncated" and "gzip" in var:
                    continue
                with serve(Server({k: how, **({m[0]: m[1]} if m else {})}, var)) as s:
                    err = attempt(doi_of(name), name)
                if len(s.log) <= k:
                    ctx.count("unreached")
                    shutil.rmtree(ctx.tmp / name, ignore_errors=True)
                    continue
                ctx.count("evaluations")
                ctx.state(k, how, m, var)
                what = f"request {k + 1} ({s.log[k]}) fails with {how}"
                empty = s.log[k].endswith("/file/" + UUID[name] + "/1")
                if err is None and how in ("truncated", "broken") and empty:
                    pass  # nothing to truncate in an empty file
                elif err is None:
                    ctx.fail(f"{what}: no error was raised")
                    return
                if not no_error_body(ctx, what, ctx.tmp / name):
                    return
                # what was stored before the failure is right
                cat, add = published(UUID[name])
                for n, v in tree(ctx.tmp / name).items():
                    if n not in cat and n not in add:
                        ctx.fail(f"{what}: left {n}, which was never published")
                        return
                shutil.rmtree(ctx.tmp / name, ignore_errors=True)
    ctx.sample({"request": k + 1, "faults": FAULTS})


def variations(case, ctx):
    for name, var in itertools.product(UUID, case["sets"]):
        globals()["BIG"] = len(var) < 2
        for form in ("{}", "https://doi.org/{}"):
            with serve(Server({}, var)):
                err = attempt(doi_of(name, form), name)
            ctx.count("evaluations")
            ctx.state(name, var, form)
            what = f"download of {name} with {var}"
            if err is not None:
                ctx.fail(f"{what}: {type(err).__name__}: {err}")
                return
            if not complete(ctx, what, ctx.tmp / name, UUID[name], "nofiles" in var):
                return
            shutil.rmtree(ctx.tmp / name)
    ctx.sample({"variations": case["sets"][-1]})


EVENTS = [("get", "example-input-volta", None), ("get", "example-input-eiffel", None),
          ("get", "example-input-volta", (0, "503")), ("get", "example-input-volta",
                                                       (4, "404")),
          ("mkdir", "example-input-volta", None), ("rm", "example-input-volta", None),
          ("edit", "example-input-volta", None)]


def history(case, ctx):
    for rest in itertools.product(range(len(EVENTS)), repeat=case["depth"] - 1):
        seq = [EVENTS[k] for k in (case["first"],) + rest]
        root = ctx.tmp / "h"
        shutil.rmtree(root, ignore_errors=True)
        root.mkdir()
        os.chdir(root)
        ctx.state(seq)
        for n, (op, name, fault) in enumerate(seq):
            what = f"{seq[:n + 1]}"
            before = tree(root)
            there = os.path.lexists(root / name)
            if op == "mkdir":
                (root / name).mkdir(exist_ok=True)
                (root / name / "config.yaml").write_text("mine")
            elif op == "rm":
                shutil.rmtree(root / name, ignore_errors=True)
            elif op == "edit":
                if there and (root / name / "config.yaml").exists():
                    (root / name / "config.yaml").write_text("changed")
            else:
                with serve(Server(dict([fault]) if fault else {})) as s:
                    err = attempt(doi_of(name), name)
                ctx.count("evaluations")
                after = tree(root)
                if there:
                    if err is None or after != before:
                        ctx.fail(f"{what}: downloading into an existing directory "
                                 f"{'was accepted' if err is None else 'changed it'}")
                        return
                    if not isinstance(err, FileExistsError):
                        ctx.fail(f"{what}: {type(err).__name__}: {err}")
                        return
                elif fault:
                    if err is None:
                        ctx.fail(f"{what}: no error")
                        return
                    if not no_error_body(ctx, what, root / name):
                        return
                else:
                    if err is not None:
                        ctx.fail(f"{what}: {type(err).__name__}: {err}")
                        return
                    if not complete(ctx, what, root / name, UUID[name]):
                        return
                if {k: v for k, v in before.items() if not k.startswith(name)} != \
                        {k: v for k, v in after.items() if not k.startswith(name)}:
                    ctx.fail(f"{what}: changed something outside its own directory")
                    return
    ctx.sample({"first": EVENTS[case["first"]], "depth": case["depth"]})


def existing(case, ctx):
    """Every kind of thing that may be in the way."""
    name = "example-input-volta"
    target = ctx.tmp / "elsewhere"
    target.mkdir()
    (target / "config.yaml").write_text("mine")
    for kind in ("empty", "full", "file", "link", "dangling"):
        p = ctx.tmp / name
        if kind == "empty":
            p.mkdir()
        elif kind == "full":
            p.mkdir()
            (p / "region.nc").write_text("mine")
        elif kind == "file":
            p.write_text("mine")
        else:
            p.symlink_to(target if kind == "link" else ctx.tmp / "nowhere")
        before = tree(ctx.tmp)
        with serve(Server()) as s:
            err = attempt(doi_of(name), name)
        ctx.count("evaluations")
        ctx.state("existing", kind)
        if err is None:
            ctx.fail(f"downloading over an existing target ({kind}) was accepted")
        if tree(ctx.tmp) != before:
            ctx.fail(f"downloading over an existing target ({kind}) changed it")
        if p.is_dir() and not p.is_symlink():
            shutil.rmtree(p)
        else:
            p.unlink()
    ctx.sample({"kinds": 5})


def identifiers(case, ctx):
    parse = wam.same_signature("download", "parse_doi", ["doi_string"])
    res = ["", "https://doi.org/", "http://doi.org/", "doi.org/", "https://www.doi.org/",
           "doi:", "https://dx.doi.org/"]
    good = ["10.4121", "10.5281", "10.1234", "10.123456789", "10.41219", "10.14121"]
    bad = ["10.412", "10.", "10", "", "1O.4121", "10.41a1", "11.4121", "x10-4121"]
    suf = [UUID["example-input-volta"] + ".v2", UUID["example-input-eiffel"] + ".v1",
           UUID["example-input-eiffel"], "zenodo.11093876", "a/b", "a/10.4121/c",
           "A_b;(c)-1:2"]
    badsuf = ["", "with space", "a%b", "a?b=c", "a#b"]
    n = 0
    for r, p, s in itertools.product(res, good + bad, suf + badsuf):
        ok = p in good and s in suf
        # a bad prefix must not make a later part of the suffix the identifier
        if not ok and "10.4121" in s:
            continue
        for sep in ("/", "") if not ok else ("/",):
            text = r + p + sep + s
            n += 1
            ctx.state(text)
            name = f"t{n}"
            before = tree(ctx.tmp)
            known = ok and p == "10.4121" and any(s.startswith(u) for u in UUID.values())
            with serve(Server()) as srv:
                err = attempt(text, name)
            ctx.count("evaluations")
            if known:
                u = next(u for u in UUID.values() if s.startswith(u))
                if err is not None:
                    ctx.fail(f"{text!r}: {type(err).__name__}: {err}")
                    return
                if not complete(ctx, repr(text), ctx.tmp / name, u):
                    return
                shutil.rmtree(ctx.tmp / name)
                if parse is not None and tuple(parse(text)) != (p, s):
                    ctx.fail(f"{text!r} was split into {parse(text)}")
                    return
                continue
            if err is None:
                ctx.fail(f"{text!r} was accepted")
                return
            if not (ok and p == "10.4121"):  # unknown ids of the provider may be asked for
                if srv.log:
                    ctx.fail(f"{text!r}: {srv.log[0]} was requested")
                    return
                if tree(ctx.tmp) != before:
                    ctx.fail(f"{text!r}: something was created")
                    return
            shutil.rmtree(ctx.tmp / name, ignore_errors=True)
            if parse is not None:
                try:
                    got = tuple(parse(text))
                except ValueError:
                    got = None
                if got != ((p, s) if ok else None) and ok:
                    ctx.fail(f"{text!r} was split into {got}")
                    return
    ctx.sample({"identifiers": n})
