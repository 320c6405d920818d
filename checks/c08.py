"""C08: merging a mesh replaces exactly its area and ties the two neighbour graphs together."""
import copy
import json

from lib import gen, geo, synth
from lib.harness import Sub, Violation, require, sut
from checks.c07 import box_of, check_state, holder, sig, split_model, state
from hypothesis import strategies as st

PROPERTY = "C08"
FULL = ("plain", "anti", "global")


@st.composite
def inner(draw, r, circular_ok=True, coarse=False):
    """A mesh whose region is made of whole initial cells of region r."""
    cw, ch = r["cell_width"], r["cell_height"]
    cols = int(round(gen.region_width(r) / cw))
    rows = int(round((r["lat_max"] - r["lat_min"]) / ch))
    i0 = draw(st.integers(0, cols - 1))
    i1 = draw(st.integers(i0 + 1, min(cols, i0 + 3)))
    j0 = draw(st.integers(0, rows - 1))
    j1 = draw(st.integers(j0 + 1, min(rows, j0 + 3)))
    w, h = (i1 - i0) * cw, (j1 - j0) * ch
    lo = r["long_min"] + i0 * cw
    if lo >= 180:
        lo -= 360
    hi = lo + w
    if hi > 180:
        hi -= 360
    if w == 360:
        lo, hi = -180, 180
    f = draw(st.sampled_from([1, 2, 4]))
    g = draw(st.sampled_from([1, 2, 4]))
    cw2, ch2 = cw / f, ch / g
    if coarse and draw(st.integers(0, 3)) == 0 and not (synth.is_circular(r) and w + cw >= 360):
        cw2, ch2 = w, h
    while (w / cw2) * (h / ch2) > 12:
        cw2, ch2 = cw2 * 2 if cw2 < cw else cw2, ch2 * 2 if ch2 < ch else ch2
    r2 = dict(r, long_min=gen._n(lo), long_max=gen._n(hi), lat_min=gen._n(r["lat_min"] + j0 * ch),
              lat_max=gen._n(r["lat_min"] + j1 * ch), cell_width=gen._n(cw2), cell_height=gen._n(ch2))
    m = draw(synth.meshes(region=r2, max_depth=2, max_splits=3, depth=2, names=("a", "z")))
    m["off"] = [i0 * cw, j0]
    return m


@st.composite
def cases(draw, rkinds=FULL):
    m1 = draw(synth.meshes(rkinds=rkinds, max_cells=12, max_depth=2, max_splits=4, depth=2,
                           min_cols_global=3))      # two cells that touch on both sides: known finding
    others = [draw(inner(m1["region"])) for _ in range(draw(st.sampled_from([1, 1, 2])))]
    others[-1] = draw(inner(m1["region"], coarse=True))
    return dict(mesh=m1, others=others)


def check_merge(case, ctx):
    from meshiphi.mesh_generation.environment_mesh import EnvironmentMesh
    m1 = case["mesh"]
    r = m1["region"]
    given = synth.to_json(m1)
    with sut("load_from_json"):
        mesh = EnvironmentMesh.load_from_json(given)
    model = {tuple(b): v for _, b, v in m1["cells"]}
    configs = []
    for m2 in case["others"]:
        j2 = synth.to_json(m2)
        with sut("loading the second mesh"):
            mesh2 = EnvironmentMesh.load_from_json(copy.deepcopy(j2))
        with sut("merge_mesh"):
            mesh.merge_mesh(mesh2)
        x0 = m2["off"][0]
        w2 = gen.region_width(m2["region"])
        y0, y1 = m2["region"]["lat_min"], m2["region"]["lat_max"]
        model = {b: v for b, v in model.items()
                 if not (b[0] >= x0 and b[1] <= x0 + w2 and b[2] >= y0 and b[3] <= y1)}
        for _, b, v in m2["cells"]:
            model[(b[0] + x0, b[1] + x0, b[2], b[3])] = v
        cells, vals, j = state(mesh, r)
        got = {tuple(float(x) for x in b): sig(vals[i]) for i, b in cells.items()}
        for b, v in model.items():
            if b not in got:
                raise Violation(f"after merging {x0},{y0}: there should be a cell {b}")
            if got[b] != sig(v):
                raise Violation(f"after merging: cell {b} should carry {sig(v)} but carries {got[b]}")
        for b in got:
            if b not in model:
                raise Violation(f"after merging {x0},{y0}: there should be no cell {b}")
        check_values(mesh, "after merging")
        geo.check_tiling(cells, gen.region_width(r), r["lat_min"], r["lat_max"])
        geo.check_graph(j["neighbour_graph"], cells, synth.is_circular(r))
        configs.append(j2["config"]["mesh_info"])
        require(json.dumps(j["config"]["mesh_info"].get("merged"), sort_keys=True) ==
                json.dumps(configs, sort_keys=True), "the merged configurations are not recorded in order")
        with sut("to_json of the merged-in mesh"):
            after = mesh2.to_json()
        require(sig(after) == sig(j2), "merging changed the mesh that was merged in")
        with sut("reloading"):
            again = EnvironmentMesh.load_from_json(copy.deepcopy(j)).to_json()
        require(sig(again) == sig(j), "the merged mesh does not load back unchanged")
    require(given == synth.to_json(m1), "merging changed the JSON object that the mesh was loaded from")
    ctx.label(gen.region_kind(r), f"{len(case['others'])} merges")
    ctx.nontrivial(len(model) > sum(len(m["cells"]) for m in case["others"][-1:]))


def check_values(mesh, what):
    """An id among a cell's values is the cell's id."""
    with sut("get_agg_data"):
        own = [(c.get_id(), c.get_agg_data().get("id", c.get_id())) for c in mesh.agg_cellboxes]
    for i, said in own:
        require(str(said) == str(i), f"{what}: cell {i} says among its values that it is cell {said}")


@st.composite
def misfits(draw):
    m1 = draw(synth.meshes(max_cells=9, max_depth=1, max_splits=2, depth=2))
    m2 = draw(inner(m1["region"]))
    r1, r2 = m1["region"], m2["region"]
    what = draw(st.sampled_from(["shift lat", "shift long", "width", "height"]))
    cw, ch = r1["cell_width"], r1["cell_height"]
    f = draw(st.sampled_from([0.25, 0.5, 0.125]))
    lo, w = r2["long_min"], gen.region_width(r2)
    y0, h = r2["lat_min"], r2["lat_max"] - r2["lat_min"]
    if what == "shift lat":
        y0 = y0 + f * ch if y0 + h + f * ch <= 90 else y0 - f * ch
    elif what == "shift long":
        lo += f * cw
    elif what == "width":
        w -= f * cw
    else:
        h -= f * ch
    lo = gen.norm180(lo) if not (w == 360) else -180
    lo = -180 if lo == 180 else lo
    hi = lo + w - (360 if lo + w > 180 else 0)
    r = dict(r2, long_min=gen._n(lo), long_max=gen._n(hi), lat_min=gen._n(y0), lat_max=gen._n(y0 + h),
             cell_width=gen._n(w), cell_height=gen._n(h))
    m = draw(synth.meshes(region=r, max_depth=1, max_splits=1, depth=2))
    return dict(mesh=m1, other=m, what=what)


def check_misfit(case, ctx):
    from meshiphi.mesh_generation.environment_mesh import EnvironmentMesh
    if case["what"] == "shift long" and gen.region_width(case["other"]["region"]) == 360:
        return          # a full circle cannot be shifted
    with sut("load_from_json"):
        mesh = EnvironmentMesh.load_from_json(synth.to_json(case["mesh"]))
        mesh2 = EnvironmentMesh.load_from_json(synth.to_json(case["other"]))
        before = sig(mesh.to_json())
    try:
        mesh.merge_mesh(mesh2)
    except AssertionError:
        pass
    except Exception as e:
        raise Violation(f"merging a mesh that does not fit ({case['what']}) raised {type(e).__name__}: {e}")
    else:
        raise Violation(f"a mesh that does not fit whole cells ({case['what']}) was merged without complaint")
    with sut("to_json"):
        require(sig(mesh.to_json()) == before, "a refused merge changed the mesh")
    ctx.label(case["what"], gen.region_kind(case["mesh"]["region"]))
    ctx.nontrivial(True)


@st.composite
def mixed_histories(draw):
    m1 = draw(synth.meshes(max_cells=9, max_depth=2, max_splits=3, min_cols_global=3))
    ops = []
    for _ in range(draw(st.integers(2, 5))):
        kind = draw(st.sampled_from(["merge", "merge", "split", "split", "points", "points", "reload"]))
        if kind == "merge":
            ops.append(["merge", draw(inner(m1["region"], coarse=True))])
        elif kind == "split":
            ops.append(["split", draw(st.integers(0, 200))])
        elif kind == "points":
            ops.append(["points", draw(st.integers(0, 200)), draw(st.integers(1, 31)), draw(st.integers(1, 31))])
        else:
            ops.append(["reload"])
    return dict(mesh=m1, ops=ops)


def check_mixed(case, ctx):
    """Merges, splits and reloads in any order: the mesh stays the model's tiling with exact adjacency."""
    from meshiphi.mesh_generation.environment_mesh import EnvironmentMesh
    m1 = case["mesh"]
    r = m1["region"]
    with sut("load_from_json"):
        mesh = EnvironmentMesh.load_from_json(synth.to_json(m1))
    model = {tuple(b): v for _, b, v in m1["cells"]}
    cells = {i: tuple(b) for i, b, _ in m1["cells"]}
    min_w, min_h = r["cell_width"] / 2 ** m1["depth"], r["cell_height"] / 2 ** m1["depth"]
    merged, after = 0, 0
    inputs = []
    for op in case["ops"]:
        ids = sorted(cells)
        if op[0] == "merge":
            m2 = op[1]
            x0, w2 = m2["off"][0], gen.region_width(m2["region"])
            y0, y1 = m2["region"]["lat_min"], m2["region"]["lat_max"]

            def within(b):
                return b[0] >= x0 and b[1] <= x0 + w2 and b[2] >= y0 and b[3] <= y1

            if any(not within(b) and b[0] < x0 + w2 and b[1] > x0 and b[2] < y1 and b[3] > y0 for b in model):
                continue                # a coarse cell merged in before would be cut in two
            with sut("merge_mesh"):
                mesh2 = EnvironmentMesh.load_from_json(synth.to_json(m2))
                mesh.merge_mesh(mesh2)
            inputs.append((m2, mesh2))
            model = {b: v for b, v in model.items() if not within(b)}
            model.update({(b[0] + x0, b[1] + x0, b[2], b[3]): v for _, b, v in m2["cells"]})
            merged += 1
            what = f"after merging {x0},{y0}"
        elif op[0] == "split":
            cid = ids[op[1] % len(ids)]
            b = box_of(cells, cid)
            if b[1] - b[0] < r["cell_width"] / 32:
                continue
            with sut(f"split_and_replace of cell {b}"):
                mesh.split_and_replace(str(cid))
            split_model(model, b)
            after += merged > 0
            what = f"after splitting cell {b}"
        elif op[0] == "points":
            b = box_of(cells, ids[op[1] % len(ids)])
            x, y = b[0] + (b[1] - b[0]) * op[2] / 32, b[2] + (b[3] - b[2]) * op[3] / 32
            with sut("split_points"):
                mesh.split_points([(y, gen.norm180(r["long_min"] + x))])
            while True:
                b = holder(model, x, y)
                if b is None or b[1] - b[0] <= min_w or b[3] - b[2] <= min_h:
                    break
                split_model(model, b)
                after += merged > 0
            what = f"after split_points at {x},{y}"
        else:
            with sut("saving and loading"):
                mesh = EnvironmentMesh.load_from_json(json.loads(json.dumps(mesh.to_json())))
            what = "after reloading"
        cells = check_state(mesh, r, model, what)
        check_values(mesh, what)
    for m2, mesh2 in inputs:
        with sut("to_json of a merged-in mesh"):
            now = mesh2.to_json()
        require(sig(now) == sig(synth.to_json(m2)), "refining the merged mesh changed a mesh that was merged in")
    with sut("to_json"):
        before = sig(mesh.to_json())
    for m2, mesh2 in inputs:
        with sut("working on with a mesh that was merged in"):
            mesh2.merge_mesh(EnvironmentMesh.load_from_json(synth.to_json(m2)))
            mesh2.update_cellbox(0, {"more": 1})
            mesh2.split_and_replace(mesh2.agg_cellboxes[-1].get_id())
    with sut("to_json"):
        now = sig(mesh.to_json())
    require(now == before, "the merged mesh changes when a mesh that was merged in does")
    ctx.label(gen.region_kind(r), f"{merged} merges", f"{min(after, 3)} splits after a merge")
    ctx.nontrivial(merged >= 1 and after >= 1)


SUBS = [
    Sub("merges", cases, check_merge, quick=4000,
        rule="random quadtree meshes; the merged-in mesh covers whole initial cells; non-trivial = cells of the first "
             "mesh remain"),
    Sub("misfits", misfits, check_misfit, quick=1500,
        rule="merged-in mesh shifted or sized off the cell grid; non-trivial = all"),
    Sub("histories", mixed_histories, check_mixed, quick=2500,
        rule="2-5 operations (merge, split a cell, split around a point, save and reload) on one mesh, everything "
             "compared after every step; non-trivial = a cell is split after a merge"),
]
