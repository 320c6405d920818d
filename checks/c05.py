"""C05: cells without data get the configured fill; a later source fills only what is missing."""
import json
import math

from checks.c04 import ASSUMPTIONS, build_and_compare, close  # noqa: F401
from lib import gen, geo, model, vec
from lib.harness import Sub, Violation, require, sut
from hypothesis import strategies as st

PROPERTY = "C05"


@st.composite
def cases(draw):
    names = draw(st.sampled_from(["abc", "abc", "aab", "aba", "aaa"]))
    return draw(gen.mesh_cases(max_sources=3, max_depth=4, kinds=("csv", "csv", "nc"), values=("digits", "gaps"),
                               aggs=["MEAN", "MIN", "MAX", "MEDIAN"], fills=True, names=names))


def check_fill(case, ctx):
    pairs, _ = build_and_compare(case, ctx)
    filled = 0
    for leaf, cb in pairs:
        want = {}
        for i, s in enumerate(case["sources"]):
            v = model.value(leaf, i, s)
            if s["name"] not in want or math.isnan(want[s["name"]]):
                want[s["name"]] = v
            if math.isnan(model.agg(leaf.vals(i), s["agg"], s["kind"] != "csv")):
                filled += 1
                ctx.label(f"fill {s.get('fill')}", *(["parent chain"] if leaf.parent is not None else []))
        for name, v in want.items():
            require(name in cb, f"cell {cb['id']} has no value for {name}")
            with sut(f"value {cb[name]!r} of cell {cb['id']}"):
                got = float(cb[name])
            if not close(got, v, 10):
                raise Violation(f"cell {cb['id']} {leaf.box}: {name} is {got}, expected {v}")
    if len({s["name"] for s in case["sources"]}) < len(case["sources"]):
        ctx.label("shared name")
    ctx.nontrivial(filled > 0)


@st.composite
def vcases(draw):
    r = draw(gen.regions(max_cells=6, max_cols=3, max_rows=3))
    names = draw(st.sampled_from([["uC,vC", "uA,vA"], ["uC,vC", "uC,vC"], ["uC,vC", "uA,vC"], ["uC,vC", "vC,uC"]]))
    srcs = [draw(vec.vsource(r, names[i], max_n=5)) for i in range(draw(st.integers(1, 2)))]
    if draw(st.booleans()):         # a scalar source with the name of a component, before or after
        k = draw(st.integers(0, len(srcs)))
        srcs.insert(k, draw(gen.source(r, draw(st.sampled_from(["uC", "vC"])), kinds=("csv",), values=("gaps",), fills=True)))
    return dict(region=r, depth=draw(st.sampled_from([2, 3, 1])), min_dp=draw(st.sampled_from([1, 0, 2])), sources=srcs)


def check_vectors(case, ctx):
    r = case["region"]
    cfg = vec.make_config(case, ctx.dir)
    with sut("building the mesh"):
        built = gen.build_in_steps(case, cfg)[0] if "steps" in case else gen.build_mesh(cfg)
        mesh = json.loads(json.dumps(built.to_json()))
    with sut("reading the mesh"):
        cells = geo.read_cells(mesh, r["long_min"])
    tree = model.Tree(r, [vec.vpoints(s, r) if vec.is_vector(s) else model.src_points(s, r) for s in case["sources"]])
    filled = 0
    for cb in mesh["cellboxes"]:
        leaf = tree.at(cells[int(cb["id"])])
        if leaf is None:            # C01's business
            continue
        want = {}
        for i, s in enumerate(case["sources"]):
            for k, n in enumerate(s["name"].split(",")):
                if n in want and (want[n] is None or not math.isnan(want[n][0])):
                    continue
                want[n] = vec.component_options(leaf, i, s, k) if vec.is_vector(s) else [model.value(leaf, i, s)]
                if not leaf.pts[i]:
                    filled += 1
        for n, opts in want.items():
            require(n in cb, f"cell {cb['id']} has no value for {n}")
            if opts is None:
                continue
            with sut(f"value {cb[n]!r} of cell {cb['id']}"):
                got = float(cb[n])
            if not any(close(got, o, 50) for o in opts):
                raise Violation(f"cell {cb['id']} {leaf.box}: {n} is {got}, expected {opts}")
    ctx.label(gen.region_kind(r), *{f"fill {s.get('fill')}" for s in case["sources"]})
    ctx.nontrivial(filled > 0)


@st.composite
def steps(draw):
    names = draw(st.sampled_from(["abc", "aab", "aba", "aaa"]))
    return draw(gen.step_cases(kinds=("csv", "csv", "nc"), values=("digits", "gaps"), aggs=["MEAN", "MIN", "MAX", "MEDIAN"],
                               fills=True, names=names))


SUBS = [Sub("scalar", cases, check_fill, quick=1500,
            rule="as C04 with fill types (parent, numbers, Nan) and sources sharing a name; non-trivial = some cell "
                 "had no data of its own for some source"),
        Sub("vector", vcases, check_vectors, quick=800,
            rule="vector sources with fills, names shared between sources and with scalar ones; non-trivial = some cell "
                 "had no data of its own for some source"),
        Sub("steps", steps, check_fill, quick=500,
            rule="the builder used step by step: split to a depth, single cells, builds in between; non-trivial as above")]
