#!/usr/bin/env python3
"""Writes DESIGN.md from the property list, the checks' own rules and assumptions, the planted bugs and the known findings."""
import ast
import json
import os
import re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# id: (oracle, why it reaches what example tests cannot)
ORACLE = {
    "C01": ("Floor arithmetic on the cube's origin and tile size in the cube's own projection; polygons, definition files and geotransforms are compared with the same arithmetic.",
            "Border and negative-tile cases sit at measure-zero positions; they are constructed, not sampled."),
    "C02": ("Metamorphic: complete outputs (values, names, georeferencing, file set) of a one-block one-thread run equal those of every other layout.",
            "The layout space (blocks x threads x streaming x module x options) cannot be enumerated by examples; no expected value is needed."),
    "C03": ("Set model of range, allow-list and population; per-tile differential between the request and the whole window.", "Combinations of populations and requests."),
    "C04": ("Metamorphic: masked versus unmasked run of the same scenario; nodata where the mask is 0.", "Every product of every module under every mask shape."),
    "C05": ("Metamorphic: everything read back from another storage form equals the plain GeoTIFF form.", "Products x formats x options."),
    "C06": ("Metamorphic: the run in the directory with a history equals the run in an empty directory; digests of files it does not own.", "Histories and kill points."),
    "C07": ("Metamorphic: exit status 0 implies images equal to those of the undisturbed run; a run without a failing operation exits with 0.", "One block per tile, one thread; lasting failures of the operating system calls that open, write or enlarge result images."),
    "C10": ("Independent selection over file names (date, day-of-year wrap, sensor, product, Landsat 7 limit); the series' band dates are compared with it.", "Dates are drawn on the borders of the ranges."),
    "C11": ("Reference decoder of the documented bit layout.", "All 32768 patterns are covered in every run, under random criterion subsets."),
    "C12": ("Reference implementation of the documented outlier loop.", "Loop decisions depend on the whole history of removals."),
    "C13": ("Model keyed by band names from the sensor definition files.", "All sensor sets of all families."),
    "C14": ("Reference nearest-neighbour resampler; bounds, constants and locality for point-spread reduction.", "Ratios x blocks x data."),
    "C20": ("Documented formulas in double precision; one unit tolerance.", "All formulas over edge values (zero sums, negative, saturated)."),
    "C21": ("Exhaustive active-set solver.", "The constrained optimum has a combinatorial number of active sets."),
    "C22": ("Reference interpolators.", "Gaps, duplicates and borders of series."),
    "C23": ("Series generated from the model: the curve is the ground truth; outside-period metamorphic test; residual identity of the NRT product.", "Any data outside the fitting period must be irrelevant."),
    "C24": ("numpy statistics of the interpolated series of the same run.", "All metric lists and series lengths."),
    "C25": ("Reference 365-day calendar binning plus numpy statistics.", "All fold units and day-of-year windows."),
    "C26": ("Reference regression with t-distribution computed independently.", "All series, tails and confidence levels."),
    "C27": ("Reference change detection and segment regressions.", "As above."),
    "C28": ("Differential against the unstandardised run.", "All products that can be standardised."),
    "C29": ("Reference season model evaluated on the interpolated series written by the same run.", "Seasons across year borders, thresholds, static/adaptive."),
    "C30": ("Echo functions whose output is a stated function of their arguments.", "Argument order and layout errors show only with distinct values everywhere."),
    "C38": ("Echo functions as for Python.", "As for Python."),
    "C39": ("Reference prediction (principal components, similarity classes, focal heterogeneity weights).", "Kernel neighbourhoods with gaps and masks."),
    "C31": ("Reference scorer; every band and layer must come from the one chosen observation.", "Interactions of six scores and three filters."),
    "C32": ("Reference gap statistics.", "Window borders and day-of-year ranges."),
    "C33": ("Reference grey-scale morphology over the mosaicked tiles.", "Neighbourhoods across blocks and tiles."),
    "C34": ("Own connected-component labelling and window statistics.", "Patch shapes."),
    "C35": ("Reference extraction by floor arithmetic, rows compared as a multiset.", "Points exactly on borders."),
    "C36": ("Generated OpenCV model files evaluated by an independent reader of trees and kernels.", "Models, blending and convergence."),
    "C37": ("numpy distances.", "Libraries and rescaling."),
    "C40": ("Accept/refuse model from the documented ranges, lists, lengths and combination rules (`lib/paramdoc.py`); every single fault of a file is swept.", "The product of parameters and faults."),
    "C41": ("Differential: templates versus what the parsers demand, by running the filled template and by leaving parameters out.", "Every parameter of every module."),
    "C42": ("Address sanitizer on the real executables.", "Out-of-bounds access is mostly silent in ordinary builds."),
    "C50": ("Reference bit decoder.", "All patterns."), "C51": ("Reference band order; values identify file and band.", "All numbers of images and bands."),
    "C52": ("Target before versus after, source metadata.", "All dictionaries."), "C53": ("numpy.unique.", "All values."),
    "C54": ("Invariants (quota, class at the point, pixel centre).", "Random tool: each run is another state."),
    "C55": ("Array assembled from the tiles.", "Product names that contain each other."), "C56": ("Array assembled on the grid.", "Grids, attributes, expressions."),
    "C57": ("itertools.product / zip.", "All vectors."), "C58": ("Indicator features make fractions readable; Chernoff bounds for frequencies.", "Random tool."),
    "C59": ("Interval arithmetic on pixel-aligned areas.", "Areas ending exactly on tile borders."),
    "C65": ("The files themselves.", "Previously existing files and option orders."),
    "C60": ("Independent calibration and ephemeris.", "Coefficients, places and times."),
    "C61": ("Metamorphic: uncut single-thread run versus any cut.", "Tile sizes, origins and threads."),
    "C66": ("Reference radiative transfer, Ross-Li kernels and incidence angle in double precision; paired runs.", "Geometry, atmosphere and terrain combine multiplicatively."),
    "C68": ("Counts, offsets and angle grids the generator wrote; independent models of regression, ImproPhe and STARFM sharpening; the uncut granule for tiles.", "Needs whole granules; offsets, naming conventions, detector seams and saturation combine freely, and sharpening has to be right at every pixel."),
    "C67": ("Published projection parameters and grid origins, a single cube with the same definition, runs restricted to one continent.", "Fourteen cubes, each with its own projection, origin and tile list; names are compared as text."),
    "C62": ("Metamorphic pairs plus clear-cut surfaces with known class.", "Interactions of flags, buffers and borders."),
    "C63": ("Stateful: reference merge of what each scene alone writes.", "Histories of writes to the same file."),
    "C64": ("Stateful with kill points: model of the queue; stand-in processor records what it was given.", "Interruption points and similar paths."),
}


def consts(path):
    out = {}
    for n in ast.parse(open(path).read()).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") in ("RULE", "ASSUMPTIONS", "TIERS"):
            try:
                out[n.targets[0].id] = eval(compile(ast.Expression(n.value), path, 'eval'))
            except NameError:
                pass
    return out


def main():
    notes = open(os.path.join(V, "tools", "design-notes.md")).read()
    head, tail = notes.split("<!-- properties -->\n")
    seeds = {}
    sd = os.path.join(V, "seeded")
    for s in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
        m = json.load(open(os.path.join(sd, s, "meta.json")))
        files = sorted(set(re.findall(r"^\+\+\+ b/(\S+)", open(os.path.join(sd, s, "patch.diff"), errors="replace").read(), re.M)))
        seeds.setdefault(m["property"], []).append((s, m, files))
    out = [head]
    for line in open(os.path.join(V, "properties.jsonl")):
        p = json.loads(line)
        f = os.path.join(V, "checks", p["id"].lower() + ".py")
        out.append("### %s %s\n\n" % (p["id"], p["title"]))
        if not os.path.exists(f):
            out.append("Not decided here; see MANIFEST.json.\n\n")
            continue
        c = consts(f)
        o, w = ORACLE.get(p["id"], ("", p["why_tests_cant"]))
        if p["id"] not in ORACLE:
            print("no oracle text for", p["id"])
        r = c.get("RULE", "")
        out.append("- Generated and counted: %s.\n- Oracle: %s\n" % (r.rstrip("."), o))
        for a in c.get("ASSUMPTIONS", []):
            out.append("- Not judged / assumed: %s.\n" % a.rstrip("."))
        t = c["TIERS"]
        out.append("- Bounds and cost: quick at most %d cases or %d s of search, thorough %d cases or %d s (8 processes).\n"
                   % (t["quick"]["examples"], t["quick"]["budget"], t["thorough"]["examples"], t["thorough"]["budget"]))
        out.append("- Beyond tests: %s\n" % w)
        if p["id"] in seeds:
            out.append("- Planted bugs: %s.\n" % ", ".join(s for s, _, _ in seeds[p["id"]]))
        out.append("\n")
    out.append(tail)
    out.append("\n## Planted bugs\n\nAll lie in `seeded/`; none is read by a check. \"Caught\" = `./check` of the property, quick tier, exit 1 with its VIOLATION line.\n\n"
               "| id | property | file | what it breaks | needs | caught |\n|---|---|---|---|---|---|\n")
    res = {}
    rf = os.path.join(V, "tools", "seed-results.txt")
    if os.path.exists(rf):
        res = dict(l.split(None, 1) for l in open(rf).read().splitlines() if l.strip())
    for p in sorted(seeds):
        for s, m, files in seeds[p]:
            out.append("| %s | %s | %s | %s | %s | %s |\n" % (s, p, ", ".join(os.path.basename(x) for x in files),
                                                       m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/"), res.get(s, "?")))
    out.append("\n## Defects of the original tree that were repaired\n\nThese suppress nothing; each is one `fix:` commit in /repo and was found by the check named.\n\n")
    for l in open(os.path.join(V, "known-findings.txt")):
        if l.startswith("fixed:"):
            m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l.strip())
            out.append("- %s (%s): %s\n" % m.groups())
    open(os.path.join(V, "DESIGN.md"), "w").write("".join(out))


if __name__ == "__main__":
    main()
