"""C18: a configuration is accepted only if valid, and survives a round trip."""
import itertools
import json
import os
from pathlib import Path

import cftime

from mc import synth, wam

ID = "C18"
LEVEL = "model_checking"
RULE = ("reference model: a table of settings with a validity predicate. (a) all single, "
        "pairwise (thorough: also triple for the dates) replacements of settings of a valid "
        "configuration file, read by the real parser; (b) all sequences of assignments up to "
        "the depth on the real object, from two starting configurations. A state is one "
        "configuration, a transition one replacement or assignment, a validated trace one "
        "comparison of the parsed, changed or reread object with the model")
ASSUMPTIONS = ["dates have whole minutes (the documented format)",
               "boxes with west = east are not used",
               "after a rejected assignment the object is not used any more",
               "the calendar is not changed by assignment"]
preload = wam.preload

CALS = ["standard", "gregorian", "proleptic_gregorian", "noleap", "365_day", "360_day",
        "julian", "all_leap", "366_day"]
LEAP = {"all_leap": True, "366_day": True, "noleap": False, "365_day": False}
DATES = [f"{k}_{e}_date" for k in ("tracking", "tagging", "preprocess")
         for e in ("start", "end")]
MISSING = "<missing>"


def exists(date, cal):
    """Does YYYY-MM-DD... exist (years near 2000/2021 only)?"""
    try:
        d, h = date.split("T")
        y, m, d = (int(x) for x in d.split("-"))
        hh, mm = (int(x) for x in h.split(":"))
    except ValueError:
        return False
    if not (1 <= m <= 12 and 0 <= hh < 24 and 0 <= mm < 60 and d >= 1):
        return False
    if cal == "360_day":
        return d <= 30
    leap = LEAP.get(cal, y % 4 == 0 and (y % 100 != 0 or y % 400 == 0
                                         or cal == "julian"))
    n = [31, 29 if leap else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
    return d <= n[m - 1]


def box_ok(b):
    w, s, e, n = b
    return (-180 <= w <= 180 and -180 <= e <= 180 and -80 <= s <= 80 and -80 <= n <= 80
            and s < n)


BOXES = [[0, 50, 10, 55], [-180, -80, 180, 80], [170.5, -20, -170.25, 20.5],
         [0, 55, 10, 50], [0, 50, 10, 50], [-180.5, 0, 10, 20], [0, -80.1, 10, 20],
         [0, 0, 180.1, 20], [0, 0, 10, 80.5], [181, 0, 182, 10], [0, -90, 10, 90],
         [100, 10, -100, -10], [0, -10, 10, -20], [350, 0, 359, 10]]


def alphabet(root):
    """setting -> list of (value, valid?)  (dates and calendars: see valid())"""
    mask = str(root / "mask.nc")
    a = {
        "calendar": [(c, True) for c in CALS] + [("martian", False), ("Standard", False),
                                                 ("", False)],
        "tracking_direction": [("forward", True), ("backward", True), ("Forward", False),
                               ("sideways", False), ("both", False), (None, False),
                               (MISSING, False)],
        "level_type": [("model_levels", True), ("pressure_levels", True),
                       ("levels", False), ("Model_levels", False), (None, False),
                       (MISSING, False)],
        "tagging_region": [(b, box_ok(b)) for b in BOXES]
        + [([0, 50, 10], False), ([0, 50, 10, 55, 60], False), ("nowhere.nc", False),
           (mask, True), (str(root), False), (None, False), (MISSING, False)],
        "tracking_domain": [(b, box_ok(b)) for b in BOXES]
        + [([0, 50, 10], False), (None, True), (MISSING, True)],
        "levels": [([1, 2], True), ("all", True), ("All", True), ("some", False),
                   ([137], True), (MISSING, False)],
        "restart": [(True, True), (False, True), ("perhaps", False), (MISSING, False)],
        "periodic_boundary": [(True, True), (False, True), ("perhaps", False),
                              (MISSING, False)],
        "timestep": [(600, True), (1, True), ("soon", False), (600.5, False),
                     (MISSING, False)],
        "kvf": [(2.5, True), (0, True), ("much", False), (MISSING, False)],
        "level_layer_boundary": [(111, True), (60, True), ("low", False)],
        "pressure_boundary_factor": [(0.5, True), ("low", False)],
        "pressure_boundary_offset": [(0.0, True), (1234.5, True), ("low", False)],
        "parallel_preprocess": [(True, True), (False, True)],
        "parallel_processes": [(None, True), (4, True), ("many", False)],
        "input_frequency": [("3h", True), ("30min", True), (None, False),
                            (MISSING, False)],
        "output_frequency": [("12h", True), ("1D", True), (None, False),
                             (MISSING, False)],
        "filename_template": [("/a/{year}_{variable}.nc", True), (MISSING, False)],
        "preprocessed_data_folder": [(str(root / "p1" / "deep"), True),
                                     ("https://example.org/data", True),
                                     ("~/wam/prep", True), (MISSING, False)],
        "output_folder": [(str(root / "o1" / "deep"), True), ("~/wam/out", True),
                          (MISSING, False)],
    }
    for k in DATES:
        a[k] = [(d, None) for d in (
            "2021-07-01T00:00", "2021-07-01T00:01", "2021-06-30T23:59", "2021-07-02T00:00",
            "2021-07-02T00:01", "2020-02-29T12:00", "2021-02-29T00:00", "2021-02-30T06:30",
            "2021-01-31T00:00", "1900-02-29T00:00", "2021-13-01T00:00", "2021-07-01",
            "yesterday")] + [(MISSING, False)]
    return a


def valid(settings, table):
    for k, v in settings.items():
        if k in table and k not in DATES:
            for x, ok in table[k]:
                if x is v or (type(x) is type(v) and x == v):
                    if not ok:
                        return False
    if any(settings.get(k, MISSING) is MISSING for k in DATES):
        return False
    cal = settings.get("calendar", "standard")
    cal = "standard" if cal is MISSING else cal
    for k in DATES:
        if not exists(settings[k], cal):
            return False
    for p in ("tracking", "tagging", "preprocess"):
        if settings[f"{p}_start_date"] > settings[f"{p}_end_date"]:
            return False
    return True


def cases(tier):
    fields = [f for f in alphabet(Path("/x"))]
    out = [dict(kind="single")]
    pairs = list(itertools.combinations(fields, 2))
    n = 15
    for i in range(0, len(pairs), n):
        out.append(dict(kind="pairs", pairs=pairs[i:i + n], tier=tier))
    out.append(dict(kind="triples", tier=tier))
    first = list(range(len(moves())))
    for s in (0, 1):
        for f in first:
            out.append(dict(kind="assign", start=s, first=f,
                            depth=2 if tier == "quick" else 3))
    return out


def run_case(case, ctx):
    home = ctx.tmp / "home"
    home.mkdir()
    os.environ["HOME"] = str(home)
    (ctx.tmp / "mask.nc").write_bytes(b"")
    os.chdir(ctx.tmp)
    globals()[case["kind"]](case, ctx)
    os.chdir("/")


def start_settings(root, which=0):
    c = synth.base_config(root, tracking_domain=None)
    c.pop("tracking_domain")
    if which == 1:
        c.update(calendar="noleap", tracking_direction="backward",
                 tagging_region=[170, -10, -170, 10.5], tracking_domain=[160, -20, -160, 20],
                 level_type="pressure_levels", levels="all", restart=True,
                 periodic_boundary=True, kvf=1.5, level_layer_boundary=100)
    return c


def check_values(ctx, what, cfg, settings):
    """The object holds exactly the settings."""
    cal = settings.get("calendar", "standard")
    for k, v in settings.items():
        if v is MISSING:
            continue
        have = getattr(cfg, k)
        if k in DATES:
            t = (have.year, have.month, have.day, have.hour, have.minute, have.second,
                 have.microsecond)
            d, h = v.split("T")
            want = tuple(int(x) for x in d.split("-") + h.split(":")) + (0, 0)
            ok = t == want and getattr(have, "calendar", "") == cftime.datetime(
                2000, 1, 1, calendar=cal).calendar
        elif k == "tagging_region" and isinstance(v, str):
            ok = Path(have) == Path(v).absolute()
        elif k in ("tagging_region", "tracking_domain") and v is not None:
            ok = [have.west, have.south, have.east, have.north] == [float(x) for x in v]
        elif k in ("preprocessed_data_folder", "output_folder"):
            if v.startswith("http"):
                ok = str(have).rstrip("/") == v
            else:
                w = Path(os.path.expanduser(v))
                ok = Path(have) == w and w.is_dir()
        else:
            ok = have == v
        if not ok:
            ctx.fail(f"{what}: {k} was given as {v!r} and is {have!r}")
            return False
    return True


def one(ctx, changes, table, base, roundtrip):
    s = dict(base)
    for k, v in changes:
        s[k] = v
        if v is MISSING:
            del s[k]
    full = {**s, **{k: v for k, v in changes if v is MISSING}}
    ok = valid(full, table)
    path = ctx.tmp / "c.yaml"
    path.write_text(json.dumps(s))
    ctx.count("transitions")
    ctx.state(sorted((k, str(v)) for k, v in changes))
    what = f"configuration with {dict(changes)}"
    Config = wam.need("config", "Config")
    try:
        cfg = Config.from_yaml(path)
    except Exception as e:
        ctx.count("rejected")
        if ok:
            ctx.fail(f"{what} is valid but was rejected: {type(e).__name__}: "
                     f"{str(e)[:300]}")
            return False
        ctx.count("traces_validated_against_impl")
        return True
    if not ok:
        ctx.fail(f"{what} is not valid but was accepted")
        return False
    if not check_values(ctx, what, cfg, s):
        return False
    ctx.count("traces_validated_against_impl")
    if roundtrip:
        return reread(ctx, what, cfg, s)
    return True


def reread(ctx, what, cfg, settings):
    Config = wam.need("config", "Config")
    out = ctx.tmp / "again.yaml"
    cfg.to_file(out)
    try:
        again = Config.from_yaml(out)
    except Exception as e:
        ctx.fail(f"{what}: the exported file cannot be read: {e}")
        return False
    ctx.count("traces_validated_against_impl")
    for k in type(cfg).model_fields:
        a, b = getattr(cfg, k), getattr(again, k)
        if a != b or type(a) is not type(b):
            ctx.fail(f"{what}: {k} is {a!r}, after export and reading again {b!r}")
            return False
    return check_values(ctx, what + ", exported and read again", again, settings)


def single(case, ctx):
    table = alphabet(ctx.tmp)
    for which in (0, 1):
        base = start_settings(ctx.tmp, which)
        for k, vals in table.items():
            for v, _ in vals:
                one(ctx, [(k, v)], table, base, True)
    ctx.sample({"settings": len(table), "example": {"tracking_direction": "sideways"}})


def pairs(case, ctx):
    table = alphabet(ctx.tmp)
    base = start_settings(ctx.tmp)
    for a, b in case["pairs"]:
        for (v, okv), (w, okw) in itertools.product(table[a], table[b]):
            # both plainly invalid: nothing new
            if okv is False and okw is False:
                continue
            if case["tier"] == "quick" and (okv is False or okw is False) \
                    and a not in DATES and b not in DATES and a != "calendar":
                if okv is False and w != table[b][0][0] or okw is False \
                        and v != table[a][0][0]:
                    continue
            if not one(ctx, [(a, v), (b, w)], table, base, case["tier"] != "quick"):
                return


def triples(case, ctx):
    """Calendar x both dates of every period."""
    table = alphabet(ctx.tmp)
    base = start_settings(ctx.tmp)
    days = [d for d, _ in table[DATES[0]][:10]]
    cals = CALS[::2] if case["tier"] == "quick" else CALS
    for p in ("tracking", "tagging", "preprocess"):
        for cal, s, e in itertools.product(cals, days, days):
            if not one(ctx, [("calendar", cal), (f"{p}_start_date", s),
                             (f"{p}_end_date", e)], table, base, False):
                return


def moves():
    """Assignments to explore: (setting, value). Dates are made on the start's calendar."""
    m = [("tracking_direction", x) for x in ("forward", "backward", "sideways")]
    m += [("level_type", x) for x in ("model_levels", "pressure_levels", "levels")]
    m += [("calendar", "martian"), ("levels", "all"), ("levels", "some"), ("kvf", 0.5),
          ("restart", True), ("periodic_boundary", True), ("timestep", 300),
          ("timestep", "soon"), ("output_frequency", "3h")]
    m += [("tagging_region", tuple(b)) for b in BOXES[:7]]
    m += [("tracking_domain", tuple(b)) for b in BOXES[2:6]] + [("tracking_domain", None)]
    for p in ("tracking", "tagging", "preprocess"):
        m += [(f"{p}_start_date", "2021-07-02T00:00"),
              (f"{p}_start_date", "2021-07-02T00:01"),
              (f"{p}_end_date", "2021-07-01T00:00"),
              (f"{p}_end_date", "2021-06-30T23:59"), (f"{p}_end_date", "2021-08-01T06:00")]
    return m


def assign(case, ctx):
    """All assignment sequences that start with one of the moves."""
    Config = wam.need("config", "Config")
    table = alphabet(ctx.tmp)
    base = start_settings(ctx.tmp, case["start"])
    path = ctx.tmp / "c.yaml"
    path.write_text(json.dumps(base))
    cal = base.get("calendar", "standard")
    cls = {"standard": cftime.DatetimeGregorian, "noleap": cftime.DatetimeNoLeap}[cal]

    def value(k, v):
        if k not in DATES:
            return v
        d, h = v.split("T")
        return cls(*[int(x) for x in d.split("-") + h.split(":")])

    def ok(settings):
        s = dict(settings)
        for k in ("tagging_region", "tracking_domain"):
            if isinstance(s.get(k), tuple):
                s[k] = list(s[k])
        return valid(s, table), s

    def seq(prefix):
        cfg = Config.from_yaml(path)
        s = dict(base)
        for n, (k, v) in enumerate(prefix):
            s[k] = v
            good, norm = ok(s)
            ctx.count("transitions")
            what = f"after assigning {prefix[:n + 1]}"
            try:
                setattr(cfg, k, value(k, v))
            except Exception as e:
                if good:
                    ctx.fail(f"{what}: rejected although valid: {type(e).__name__} "
                             f"{str(e)[:300]}")
                ctx.count("rejected")
                return False
            if not good:
                ctx.fail(f"{what}: accepted although not valid")
                return False
        ctx.state(case["start"], sorted((k, str(v)) for k, v in s.items()))
        if not check_values(ctx, what, cfg, norm):
            return False
        ctx.count("traces_validated_against_impl")
        return reread(ctx, what, cfg, norm) if len(prefix) < 3 else True

    ms = moves()
    todo = [[ms[case["first"]]]]
    while todo:
        p = todo.pop()
        if seq(p) and len(p) < case["depth"]:
            todo.extend(p + [m] for m in ms if m[0] != p[-1][0])
        if ctx.fails:
            return
    ctx.sample({"start": case["start"], "first": ms[case["first"]]})
