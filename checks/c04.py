"""C04: the value of a cell is the configured aggregate of exactly the data inside it."""
import json
import math

from lib import gen, geo, model
from lib.harness import Sub, Violation, require, sut

PROPERTY = "C04"
ASSUMPTIONS = ["region edges and cell sizes are exactly representable (multiples of 1/4 degree)",
               "a datum at longitude -180 exactly lies inside a cell, not on its edge (on edges 180 is used)", "values agree to 1e-9 relative"]


def close(a, b, scale=1.0):
    a, b = float(a), float(b)
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    return a == b or math.isclose(a, b, rel_tol=1e-9, abs_tol=1e-9 * scale)


def build_and_compare(case, ctx):
    """Build for real; -> [(what the model says about the cell, cell json)]."""
    r = case["region"]
    cfg = gen.make_config(case, ctx.dir)
    with sut("building the mesh"):
        built = gen.build_in_steps(case, cfg)[0] if "steps" in case else gen.build_mesh(cfg)
        mesh = json.loads(json.dumps(built.to_json()))
    with sut("reading the mesh"):
        cells = geo.read_cells(mesh, r["long_min"])
    tree = model.Tree(r, [model.src_points(s, r) for s in case["sources"]])
    out = []
    for cb in mesh["cellboxes"]:
        leaf = tree.at(cells[int(cb["id"])])
        if leaf is not None:        # a cell that should not be there at all is C01's business
            out.append((leaf, cb))
    return out, mesh


def check_values(case, ctx):
    pairs, _ = build_and_compare(case, ctx)
    names = [s["name"] for s in case["sources"]]
    for leaf, cb in pairs:
        for i, s in enumerate(case["sources"]):
            vals = leaf.vals(i)
            direct = model.agg(vals, s["agg"], s["kind"] != "csv")
            if math.isnan(direct) or names.index(s["name"]) != i:
                continue        # no data of its own: C05
            require(s["name"] in cb, f"cell {cb['id']} has no value for {s['name']}")
            with sut(f"value {cb[s['name']]!r} of cell {cb['id']}"):
                got = float(cb[s["name"]])
            scale = max([1.0] + [abs(v) for v in vals if v is not None and math.isfinite(v)])
            if not close(got, direct, scale):
                raise Violation(f"cell {cb['id']} {leaf.box}: {s['name']} is {got}, but the {s['agg']} of the "
                                f"{len(vals)} data inside is {direct}")
    ctx.label(gen.region_kind(case["region"]), *{s["agg"] for s in case["sources"]},
              *{s["kind"] for s in case["sources"]})
    if any(s.get("times") for s in case["sources"]):
        ctx.label("timed")
    n = sum(1 for leaf, _ in pairs if any(len(p) > 1 for p in leaf.pts))
    ctx.nontrivial(n >= 2)


SUBS = [Sub("built",
            lambda: gen.mesh_cases(max_sources=3, max_depth=3, kinds=("csv", "csv", "nc"),
                                   values=("digits", "floats", "gaps", "infinite"), aggs=gen.AGGS, times=True, forms=True),
            check_values, quick=1800,
            rule="region x 1-3 CSV/NetCDF sources x every aggregation, data on cell edges, gaps, infinite numbers and dates included, "
                 "mesh built end to end; non-trivial = at least two cells aggregate two or more data"),
        Sub("steps", lambda: gen.step_cases(kinds=("csv", "csv", "nc"), values=("digits", "gaps"), aggs=gen.AGGS, times=True),
            check_values, quick=500,
            rule="the builder used step by step: split to a depth, single cells, builds in between; non-trivial as above")]
