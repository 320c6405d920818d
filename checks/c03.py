"""C03: a cell is subdivided exactly when the splitting rules say so."""
import json

from lib import gen, geo, vec
from lib.harness import Sub, Violation, sut

PROPERTY = "C03"
ASSUMPTIONS = ["region edges and cell sizes are exactly representable (multiples of 1/4 degree)",
               "a datum at longitude -180 exactly lies inside a cell, not on its edge (on edges 180 is used)"]


def check_built(case, ctx):
    r = case["region"]
    cfg = vec.make_config(case, ctx.dir)
    with sut("building the mesh"):
        mesh = json.loads(json.dumps(gen.build_mesh(cfg).to_json()))
    with sut("reading the mesh"):
        got = sorted(geo.read_cells(mesh, r["long_min"]).values())
    leaves = vec.build(case)
    want = sorted(tuple(float(x) for x in c.box) for c in leaves)
    got = [tuple(float(x) for x in c) for c in got]
    if got != want:
        extra = [c for c in got if c not in set(want)][:4]
        missing = [c for c in want if c not in set(got)][:4]
        raise Violation(f"cells differ from what the splitting rules give: produced {extra}, expected {missing}")
    depth = max(c.depth for c in leaves)
    ctx.label(gen.region_kind(r), f"depth {depth}", f"{len(case['sources'])} sources",
              "uniform" if len({c.depth for c in leaves}) == 1 else "mixed",
              *{s["kind"] for s in case["sources"]})
    if any(c.get("split_lock") for s in case["sources"] for c in s["conds"]):
        ctx.label("split_lock")
    ctx.nontrivial(len({c.depth for c in leaves}) > 1)


SUBS = [Sub("built", lambda: gen.mesh_cases(max_sources=3, kinds=("csv", "csv", "nc"), values=("digits", "gaps"),
                                               times=True),
            check_built, quick=2000,
            rule="region x 1-3 CSV/NetCDF sources with 0-4 splitting conditions each (thresholds, bounds, locks, "
                 "minimum datapoints), mesh built end to end; non-trivial = cells of at least two depths"),
        Sub("mixed", vec.mixed, check_built, quick=700,
            rule="as built, but with at least one scalar and one vector source (curl or dmag conditions), in any order")]
