"""Writes DESIGN.md: hand-written notes here, rules and assumptions from the check modules."""
import ast
import json
from pathlib import Path

V = Path(__file__).resolve().parent.parent

HEAD = """# Design

Generated by `python3 tools/design.py` from the notes in that file, the `RULE` and
`ASSUMPTIONS` of every check module, `properties.jsonl`, `tools/detected.txt` and
`known_findings.txt`.

## 1. What WAM2layers is, and what is specified

WAM2layers reads atmospheric reanalysis or model output (ERA5 on model or pressure levels,
ARCO-ERA5, CMIP), *preprocesses* it to two-layer storages and vertically integrated
moisture fluxes in daily netCDF files, *tracks* tagged water forward or backward through
these fields with an explicit time-stepping scheme, and writes accumulated fields plus a
restart state on a schedule. Around this sit the configuration, calendars, the command
line, the download of example data, progress reports, figures and region masks. The
properties of `properties.jsonl` follow these parts:

| part | properties |
|---|---|
| tracking scheme | C01 C02 C03 C04 C05 C06 C12 C28 C31 |
| tracking runs: input, restart, schedule, regions, domains, output | C07 C08 C09 C10 C11 C20 C27 C29 C30 C35 C36 C37 |
| preprocessing | C13 C14 C15 C16 C17 C26 C32 C33 C36 C37 |
| configuration, calendars, frequencies | C18 C19 C22 |
| reports, figures, commands, downloads, designing regions, data checks | C21 C23 C24 C25 C34 C38 C39 |

## 2. How model checking is applied to numerical Python code

The system under test is deterministic apart from process parallelism and remote failures.
Its *behaviours* are histories: sequences of time steps, of runs in one folder or process,
of file operations of parallel workers, of requests that fail, of assignments to a
configuration object. Its *inputs* are fields, and a field is a grid of independent
neighbourhoods. Three deciding steps are used, all of them exhaustive within stated bounds
and without sampling:

* **explicit-state model plus conformance** (`model_checking`): a reference transition
  system written independently of the code (`mc/ref.py` for the tracker: float64, plain
  numpy, nothing imported from the code; smaller automata inside C05, C06, C07, C16, C18,
  C23, C27). All of its traces within the bounds are enumerated, and every one is replayed
  on the real code and compared in full. So the binding of model to code is not a spot
  check: *each* explored trace is validated (`traces_validated_against_impl` in the
  evidence equals the number of traces).
* **exhaustive exploration of the implementation** (`exploration`): all combinations of
  finite alphabets are executed on the real code and an independent oracle decides every
  one of them (closed formula, exact rational geometry, or the equality of two executions
  that must agree).
* **exhaustive fault enumeration** (`fault_enumeration`): all fault points and fault kinds
  of an alphabet, on the real code with the library boundary (HTTP adapter,
  `xarray.open_dataset`, `time.sleep`) replaced.

Two things make the spaces large at small cost. *Blocks*: the scheme is local, so thousands
of different neighbourhood states are laid out as disjoint blocks of one grid and one real
time step from a restart file evaluates all of them (C03, C05, C06, C13-C15). *Restart as
state injection*: an output file is a full state, so `synth.one_step` starts the real
tracker from any enumerated state through its public interface.

All weather comes from finite alphabets of wind, storage and rain symbols (`mc/scen.py`)
that were chosen for the case distinctions of the scheme: calm cells next to strong ones,
opposite winds in the layers, convergence, winds far beyond CFL, nearly empty layers, fast
drying and moistening, rain beyond the column content.

### Machinery

* `./run CXX --tier quick|thorough` -> `mc/run.py`: enumerates `cases(tier)` of
  `mc/checks/cXX.py`, runs every case in forked workers (8 at a time, scratch directory per
  case under /dev/shm or TMPDIR, removed afterwards), merges measured counts and distinct
  state hashes, writes `evidence/CXX.json`, prints `VIOLATION property=... replay=...` with
  a replay file (`./run CXX --replay FILE`) or `KNOWN-FINDING`. A case that times out or
  dies is reported, not skipped. Nothing is built: `/repo/src` is put on `sys.path` of
  the interpreter in /opt/venv, so a check sees the current working tree.
* `mc/synth.py` writes preprocessed input with netCDF4 and reads outputs back, decoding
  times itself; `mc/prep.py` does the same for raw input; `mc/ref.py` is the model;
  `mc/sched.py` is the scheduler for process interleavings (C16); `mc/dap.py` a DAP2 server
  with a fault plan (C35); `mc/crash.py` with `shim/crash.c` enumerates the file operations
  of a run and the faults at each (C36); `mc/turns.py` with `shim/turns.c` runs two commands
  in processes of their own that hand over at their file operations (C37).
* `mc/wam.py` is the only place that touches names of the code. The checks require only
  what the documentation, the command line and the project's own tests use
  (`run_experiment`, `prep_experiment`, `Config`, ...). Deeper probes look for a helper with
  the expected signature and are *skipped and counted* if it is gone, so that refactorings
  stay silent; each property has at least one part that goes through public entry points.
* Comparisons use tolerances derived from single precision (outputs are float32), relative
  to the largest value of the field, so re-associated sums do not raise alarms.

No hooks were needed in /repo; `fix:` commits are the only changes there.

### What was not possible

* No controlled scheduler for threads: the code has no threads of its own. dask/netCDF
  threads are outside; checks use dask's synchronous scheduler where a process forks.
* Schedules of two commands (C37) interleave whole file operations, and only those on files
  that one of them changes and the other uses; the shim keeps each process waiting before
  such an operation. Querying whether a file exists is not an operation of its own: it takes
  effect with the one before it, which is where a race between asking and acting shows.
* Crash points (C36) are the file operations of the process: a small LD_PRELOAD library,
  compiled when the check runs (`shim/crash.c`), numbers every call that changes a file in
  the run's folder (open, write, truncate, rename, remove) and kills the process before it,
  after half of it, or lets it fail. Loss of power, where the operating system reorders or
  drops writes it had accepted, is not explored: the program makes no promise about it.
* Real remote services: for OPeNDAP there is a real server on the loopback network (C35,
  `mc/dap.py`), which can answer any request with an error, a cut reply or no reply. 4TU and
  ARCO-ERA5 are replaced at the HTTP adapter or dataset boundary.
"""

WHY = {
"C01": ("The area-weighted budget recomputed from each output file alone.",
        "Unit tests compare two stored runs; the budget must close for every weather, "
        "including the clipping and loss branches that the stored runs never enter."),
"C02": ("Bounds from the synthetic input in every cell of every output.",
        "The bounds are inductive: each time step may break them only from states reached "
        "after several steps of drying or overshoot."),
"C03": ("Closed formula for every face (upwind content times mean flux).",
        "All wind direction and zero combinations around a cell: 3^k cases of which tests "
        "sample a handful."),
"C04": ("Equality of rotated runs; emptied edges and reported losses cell by cell.",
        "A seam error needs a flux that differs on both sides of the seam, in a rotation "
        "that puts an interesting cell there: all rotations are run."),
"C05": ("Two-line model of the limit; corrected flux measured through the tracer it moves.",
        "Zero, tiny, equal, one-sided and over-limit components in all sign combinations."),
"C06": ("Model of the residual, its partition and limit; closure from the outputs.",
        "Every case of surplus/deficit, limit by either layer, and direction of the exchange."),
"C07": ("Exact stored fields and their linear interpolation in float64.",
        "The code caches slices: an answer can depend on the history of requests. De Bruijn "
        "sequences contain every window of requests, with answers overwritten in place."),
"C08": ("The uninterrupted run, output by output.",
        "All chains of restarts at outputs, all singles and pairs of interruptions at any "
        "step, also off schedule, and every remainder of the next file."),
"C09": ("The schedule computed from the definition, and the run with output at every step.",
        "Periods, steps and frequencies that do not divide each other or midnight."),
"C10": ("Sum over steps of flux x weight x step, from the synthetic fields.",
        "All relations of window bounds to step times, all boxes over bounds on, off and "
        "beyond grid lines, all offsets of mask times."),
"C11": ("Index sets from the definition; the run on pre-cut input.",
        "All boxes over bounds on/next to/between grid lines and the antimeridian."),
"C12": ("Exact areas on the sphere; sums over the grid; areas recovered from runs.",
        "All spacings, extents, orders and positions of the antimeridian."),
"C13": ("Mass per level from half-level coefficients (own copy of the formula), summed.",
        "Every subset of levels and boundary, on all column profiles at once."),
"C14": ("Trapezoid sums in pressure with exact split at the boundary.",
        "All level orders and all positions of surface and boundary relative to levels."),
"C15": ("Net surface flux and unit conversion per cell.",
        "All sign combinations of both fluxes at all frequencies, per source."),
"C16": ("The set of input times per day, and values encoding time.",
        "All interleavings of file operations of parallel workers under `mc/sched.py`; all "
        "left-over files; all periods relative to midnight."),
"C17": ("Values that encode their own meridian and parallel.",
        "All grid conventions and origins, global and regional."),
"C18": ("A table of settings with a validity predicate.",
        "All pairs (triples) of replaced settings, all sequences of assignments."),
"C19": ("cftime arithmetic and shifted runs.",
        "Every day at month/year ends in all calendars; runs across leap days."),
"C20": ("Retry automaton: waits grow, at most eight, same data as undisturbed.",
        "All fault sequences up to two beyond the limit, all histories of three reads."),
"C21": ("A model of the publisher; stored bytes equal published bytes.",
        "Every request failing in every way, all pairs of benign variations, histories."),
"C22": ("Equality over the spellings of an interval.", "All spellings at all places."),
"C23": ("Two-variable automaton for warnings; totals from output files for reports.",
        "Warnings depend on the history of earlier corrections: all sequences are fed."),
"C24": ("Sum over files, cell by cell, of the array handed to the plot.",
        "All windows and regions relative to the data; every single missing file."),
"C25": ("What every command leaves: values, copies, log, exit status.",
        "Every command x argument error x failing operation, each in its own process."),
"C26": ("Rejection, and nothing written for the time step.",
        "A missing value at every position of every variable, one at a time."),
"C27": ("Digests of what each run writes in a fresh process.",
        "State that survives in a process (caches, open files, global options) shows only "
        "after specific sequences of runs: a tree of forked processes runs all of them."),
"C28": ("The complete reference transition system.",
        "Everything at once, over the full product of weather symbols."),
"C29": ("Clipped polygon area in exact rational arithmetic.",
        "All rectangles, triangles, holes and multi-parts over a lattice of corner points."),
"C30": ("Labels computed from configuration and input.",
        "All calendars, alignments of period/step/frequency, domains."),
"C31": ("Superposition: sums of runs for the parts.",
        "Every set partition and every composition, field by field."),
"C32": ("Equality with the run on the canonical layout.",
        "All orders of dimensions, storage types and packings of the input variables."),
"C33": ("Labels and units computed from the input.", "All sources, calendars, frequencies."),
"C34": ("Exact set of cells from the definition.", "All inputs over the alphabets."),
"C35": ("The same run on local copies of the files.",
        "A real server; every request of a run fails in every way, once or from then on."),
"C36": ("The files of the undisturbed run.",
        "Every file operation of a run is a crash point and a failing operation; tests never "
        "interrupt a run."),
"C37": ("The files that each command leaves alone.",
        "All switches between conflicting file operations of two real processes, up to a "
        "bound on the number of switches; the reduction to conflicting operations is "
        "recomputed from what the processes did."),
"C38": ("The data that a stand-in of the service serves; the files of an undisturbed run.",
        "Every request is a point of failure in every way; no test runs the scripts."),
"C39": ("The fault that was put into sound data, or none.",
        "Every fault in every variable at several places, on all grids and calendars."),
}

FALSE = """## 5. False alarms met while building, and vacuity

The following reports on the unchanged tree were faults of the checks and led to changes of
the property or the machinery (real defects are in section 4):

* C02 bounded tracked precipitation by the precipitation of the mid-step field only; runs
  whose steps interpolate input needed the interpolated flux. Corrected in the oracle.
* C06/C28: the vertical flux of the code divides precipitation and evaporation by the cell
  area (known finding). The model offers exactly two modes; anything else is a violation.
* C09: with time steps that skip multiples of the output frequency the schedule is defined
  by the steps that hit a multiple, which the property now says.
* C11, C12: boxes with west = east and three-column grids across the antimeridian have no
  defined meaning and left the domain.
* C14: a surface pressure exactly on a level makes the column ambiguous; excluded.
* C18: after a rejected assignment pydantic keeps the mutated value; the statement is about
  acceptance only, so the object is not used any further.
* C19: dates with seconds are outside the documented format.
* C23: warnings are judged by the meridional flux only (as in the code); symbols keep 1%
  away from thresholds because of float32.
* C31 demands that no gain or overshoot correction was active, which it checks on the
  undivided run; otherwise additivity is not promised.

* C36 at first opened the broken files in the process that ran the program again; HDF5 keeps
  such files open and the second run failed. Files are now read in children.

Checks that would have passed without exploring anything:

* C27: all preprocessing reference runs failed at first (dask threads do not survive a
  fork), so that "fails in a fresh process too" hid everything; every reference run must now
  succeed unless it is meant to fail.
* C08: a run without tracked water is now a failure of the case; cuts off schedule are
  counted (`interruptions_between_outputs`).
* square grids hid a mix-up of dimensions (fixed in d15d55c): the small grid is not square.
* C30: a domain whose mean spacing over the antimeridian happened to be the right one.
* C23: no report followed losses at the seam; counted now
  (`reports_after_losses_at_the_seam`).

### Outside the claimed domain

A failing assignment to `Config` leaves the mutated value; assigning a date as string
raises; boxes with west = east; `Config.to_string` drops seconds; after a restart the
percentages of the progress line refer to water tagged since the restart; integer hPa levels
truncate surface pressure to 1 Pa; ascending latitudes with a
subdomain; longitude 180 in grids with negative longitudes becomes -180; bounds of
three-column grids across the antimeridian; the stability warning ignores zonal flux; 2-D
surface variables that lack a horizontal dimension are broadcast before validation; debug
files of both layers share a name; all-zero humidity with total column water gives missing
values; shapefile polygons completely outside the grid.
"""


def meta(path):
    tree = ast.parse(path.read_text())
    out = {"doc": ast.get_docstring(tree)}
    for node in tree.body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
            try:
                out[node.targets[0].id] = ast.literal_eval(node.value)
            except ValueError:
                pass
    return out


def main():
    o = [HEAD, "\n## 3. The properties, one by one\n",
         "Costs are wall-clock of the quick tier on 8 cores; the thorough tier explores the "
         "larger alphabets of the same rule.\n"]
    cost = {}
    f = V / "tools" / "cost.txt"
    if f.exists():
        for line in f.read_text().splitlines():
            k, _, v = line.partition(" ")
            cost[k] = v
    for line in (V / "properties.jsonl").read_text().splitlines():
        p = json.loads(line)
        path = V / "mc" / "checks" / f"{p['id'].lower()}.py"
        o.append(f"### {p['id']} {p['title']}\n")
        if not path.exists():
            continue
        m = meta(path)
        oracle, why = WHY[p["id"]]
        o.append(f"* level: {m['LEVEL']}")
        o.append(f"* enumerated: {m['RULE']}")
        o.append(f"* oracle: {oracle}")
        o.append("* bounds and assumptions: " + "; ".join(m["ASSUMPTIONS"]))
        o.append(f"* why beyond tests: {why}")
        if p["id"] in cost:
            o.append(f"* cost (quick): {cost[p['id']]}")
        o.append("")
    o.append("## 4. Defects found in WAM2layers\n")
    o.append("Repaired (`fix:` commits in /repo; the check that found it reports it again if "
             "the commit is reverted):\n")
    opened = []
    for line in (V / "known_findings.txt").read_text().splitlines():
        if line.startswith("fixed:"):
            o.append("* " + line[7:].strip())
        elif line.startswith("{"):
            opened.append(json.loads(line))
    o.append("\nRecorded, not repaired:\n")
    for k in opened:
        o.append(f"* {k['property']} `{k['key']}`: {k['what']}")
    o.append("\n" + FALSE)
    o.append("## 6. Planted bugs and which check catches them\n")
    o.append("Each changes original lines of /repo, builds, and passes the 94 stable tests; "
             "`seeded/<id>/demo.sh` shows it. Not read by any check. 'caught' is the check "
             "of the bug's own property (quick tier).\n")
    o.append("| bug | property | needs | caught |\n|---|---|---|---|")
    det = {}
    f = V / "tools" / "detected.txt"
    if f.exists():
        for line in f.read_text().splitlines():
            w = line.split()
            if len(w) >= 3:
                det[w[0]] = w[2] == "rc=1"
    for d in sorted((V / "seeded").iterdir()):
        m = json.loads((d / "meta.json").read_text())
        o.append(f"| {d.name} | {m['property']} | {m['needs'].strip()} | "
                 f"{ {True: 'yes', False: 'NO'}.get(det.get(d.name), '?')} |")
    o.append("\nStrengthened after a miss: C08 (cuts at any step), C11 (time-varying region "
             "on a subdomain), C21 (chunked transfers, files of several chunks), C23 (losses at "
             "the seam), C27 (replaced region file, one shared configuration path), C30 (domain "
             "across the antimeridian whose mean spacing is not the spacing).\n")
    extra = V / "tools" / "strengthened.md"
    if extra.exists():
        o.append(extra.read_text())
    (V / "DESIGN.md").write_text("\n".join(o))


main()
