"""C02: the neighbour graph of a built mesh is exactly the geometric adjacency of its cells."""
import json

from lib import gen, geo
from lib.harness import Sub, sut

PROPERTY = "C02"
ASSUMPTIONS = ["region edges and cell sizes are exactly representable (multiples of 1/4 degree)"]


def check_built(case, ctx):
    r = case["region"]
    cfg = gen.make_config(case, ctx.dir)
    with sut("building the mesh"):
        built = gen.build_in_steps(case, cfg)[0] if "steps" in case else gen.build_mesh(cfg)
        mesh = json.loads(json.dumps(built.to_json()))
    with sut("reading the mesh"):
        cells = geo.read_snapped(mesh, r) if case.get("decimal") else geo.read_cells(mesh, r["long_min"])
    kind = gen.region_kind(r)
    with sut("reading the neighbour graph"):
        geo.check_graph(mesh["neighbour_graph"], cells, kind == "global")
    widths = {c[1] - c[0] for c in cells.values()}
    ctx.label(kind, f"{len(widths)} cell sizes")
    ctx.nontrivial(len(widths) > 1)


SUBS = [Sub("built", lambda: gen.mesh_cases(none=True), check_built, quick=2400,
            rule="as C01/built; non-trivial = cells of at least two sizes meet in the mesh"),
        Sub("steps", gen.step_cases, check_built, quick=700,
            rule="the builder used step by step: split to a depth, single cells, builds in between; non-trivial as above"),
        Sub("places", gen.point_cases, check_built, quick=1500,
            rule="no data; up to 10 cells split by hand, chosen by place and so in any order and to any depth, mostly in "
                 "global meshes and across the antimeridian; non-trivial as above"),
        Sub("large", gen.large_cases, check_built, quick=100,
            rule="60 to 250 initial cells; non-trivial as above")]
