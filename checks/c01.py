"""C01: the mesh is an exact quadtree tiling of the configured region."""
import json

from hypothesis import strategies as st

from lib import gen, geo
from lib.harness import Sub, Violation, require, sut

PROPERTY = "C01"
ASSUMPTIONS = ["built, steps, large: region edges and cell sizes are exactly representable (multiples of 1/4 degree)",
               "decimals: a region whose size is no multiple of the cell size as floating point numbers may be refused"]


def check_built(case, ctx):
    r = case["region"]
    cfg = gen.make_config(case, ctx.dir)
    with sut("building the mesh"):
        if "steps" in case:
            built, depth = gen.build_in_steps(case, cfg)
        else:
            built, depth = gen.build_mesh(cfg), case["depth"]
        mesh = json.loads(json.dumps(built.to_json()))
    with sut("reading the mesh"):
        cells = geo.read_cells(mesh, r["long_min"])
    w = gen.region_width(r)
    geo.check_tiling(cells, w, r["lat_min"], r["lat_max"])
    depths = set()
    for cb in mesh["cellboxes"]:
        x0, x1, y0, y1 = cells[int(cb["id"])]
        cw, chh = x1 - x0, y1 - y0
        k = 0
        while r["cell_width"] / 2 ** k > cw:
            k += 1
        depths.add(k)
        require(cw == r["cell_width"] / 2 ** k and chh == r["cell_height"] / 2 ** k,
                f"cell {cb['id']} of {cw} x {chh} is not an initial cell halved a whole number of times")
        require(k <= depth, f"cell {cb['id']} is split {k} times, more than the allowed {depth}")
        require(x0 % cw == 0 and (y0 - r["lat_min"]) % chh == 0, f"cell {cb['id']} is off its quadtree position")
        require(cb["dcx"] == cw / 2 and cb["dcy"] == chh / 2, f"half sizes of cell {cb['id']} do not match its box")
        require(cb["cy"] == (y0 + y1) / 2, f"cy of cell {cb['id']} is not its centre")
        require(-180 <= cb["cx"] <= 180 and (cb["cx"] - r["long_min"] - (x0 + x1) / 2) % 360 == 0,
                f"cx {cb['cx']} of cell {cb['id']} is not its centre")
    if "steps" in case:
        ctx.label(*[s[0] for s in case["steps"]])
    ctx.label(gen.region_kind(r), f"max depth {max(depths)}")
    ctx.nontrivial(max(depths) >= 1)


@st.composite
def decimals(draw):
    """Regions whose edges are tenths of degrees, as users write them."""
    cw, ch = draw(st.sampled_from([0.5, 1, 2.5, 5, 0.25, 1.5])), draw(st.sampled_from([0.5, 1, 2.5, 5, 0.25, 1.5]))
    nx, ny = draw(st.integers(1, 4)), draw(st.integers(1, 3))
    lo, la = draw(st.one_of(st.integers(-1790, 1799), st.integers(-1790, 1799), st.integers(1780, 1799))) / 10, draw(st.integers(-890, 740)) / 10
    hi, lt = round(lo + nx * cw, 2), round(la + ny * ch, 2)
    r = dict(lat_min=la, lat_max=lt, long_min=lo, long_max=hi if hi <= 180 else round(hi - 360, 2), start_time="2017-01-01",
             end_time="2017-02-01", cell_width=cw, cell_height=ch)
    src = draw(gen.source(r, "a", min_conds=1, kinds=("csv",)))
    return dict(region=r, cols=nx, rows=ny, depth=draw(st.sampled_from([2, 1, 3])), min_dp=1, sources=[src])


def check_decimals(case, ctx):
    r = case["region"]
    cfg = gen.make_config(case, ctx.dir)
    with sut("building the mesh"):
        try:
            built = gen.build_mesh(cfg)
        except AssertionError:      # the sizes do not divide exactly as floating point numbers
            ctx.label("refused")
            return
        mesh = json.loads(json.dumps(built.to_json()))
    with sut("reading the mesh"):
        cells = geo.read_snapped(mesh, r)
    geo.check_tiling(cells, 64 * case["cols"], 0, 64 * case["rows"])
    for cb in mesh["cellboxes"]:
        x0, x1, y0, y1 = cells[int(cb["id"])]
        w, h = x1 - x0, y1 - y0
        require(w == h and 64 % w == 0 and 64 // w <= 2 ** case["depth"] and x0 % w == 0 and y0 % w == 0,
                f"cell {cb['id']} of {w} x {h} 64ths is not an initial cell halved at most {case['depth']} times")
        sx, sy = r["cell_width"] / 64, r["cell_height"] / 64
        off = (cb["cx"] - r["long_min"] - (x0 + x1) / 2 * sx + 180) % 360 - 180
        require(abs(off) < 1e-6 and abs(cb["cy"] - r["lat_min"] - (y0 + y1) / 2 * sy) < 1e-6
                and abs(cb["dcx"] - w * sx / 2) < 1e-6 and abs(cb["dcy"] - h * sy / 2) < 1e-6,
                f"centre and half sizes of cell {cb['id']}: {cb['cx']}, {cb['cy']}, {cb['dcx']}, {cb['dcy']}")
    ctx.label(gen.region_kind(r))
    ctx.nontrivial(len(cells) > case["cols"] * case["rows"])


SUBS = [Sub("built", lambda: gen.mesh_cases(none=True), check_built, quick=2400,
            rule="random region (plain / across the antimeridian / global), CSV data and splitting conditions, "
                 "mesh built end to end; non-trivial = at least one cell was split"),
        Sub("places", gen.point_cases, check_built, quick=600,
            rule="no data; up to 10 cells split by hand, chosen by place; non-trivial as above"),
        Sub("steps", gen.step_cases, check_built, quick=700,
            rule="the builder used step by step: split to a depth, single cells, builds in between; non-trivial as above"),
        Sub("large", gen.large_cases, check_built, quick=100,
            rule="60 to 250 initial cells; non-trivial as above"),
        Sub("decimals", decimals, check_decimals, quick=400,
            rule="regions with edges at tenths of degrees, judged to 1e-6; non-trivial as above")]
