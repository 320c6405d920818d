"""C07: refining a loaded mesh keeps it a tiling with exact adjacency, and children inherit their parent's values."""
import copy
import json

from lib import gen, geo, synth
from lib.harness import Sub, Violation, require, sut
from hypothesis import strategies as st

PROPERTY = "C07"
KEYS = ("geometry", "cx", "cy", "dcx", "dcy", "id")


@st.composite
def histories(draw):
    m = draw(synth.meshes(max_cells=9, max_splits=4))
    ops = []
    for _ in range(draw(st.integers(1, 5))):
        kind = draw(st.sampled_from(["split", "split", "points", "reload"]))
        if kind == "split":
            ops.append(["split", draw(st.integers(0, 200))])
        elif kind == "points":
            ops.append(["points", draw(st.lists(st.tuples(st.integers(0, 200), st.integers(0, 32), st.integers(0, 32),
                                                          st.sampled_from([0, 0, 0, 0, 1, 2, 3, 4])),
                                                min_size=1, max_size=4))])
        else:
            ops.append(["reload"])
    return dict(mesh=m, ops=ops)


def state(mesh, region):
    """-> ({id: box}, {id: values}, graph) of a live mesh, through its JSON."""
    with sut("to_json"):
        j = json.loads(json.dumps(mesh.to_json()))
    with sut("reading the cells"):
        cells = geo.read_cells(j, region["long_min"])
    vals = {int(cb["id"]): {k: v for k, v in cb.items() if k not in KEYS} for cb in j["cellboxes"]}
    for cb in j["cellboxes"]:
        x0, x1, y0, y1 = cells[int(cb["id"])]
        require(cb["dcx"] == (x1 - x0) / 2 and cb["dcy"] == (y1 - y0) / 2 and cb["cy"] == (y0 + y1) / 2 and
                (cb["cx"] - region["long_min"] - (x0 + x1) / 2) % 360 == 0,
                f"centre or size of cell {cb['id']} does not match its geometry: {cb}")
    return cells, vals, j


def sig(vals):
    return json.dumps(vals, sort_keys=True)


def check_state(mesh, region, model, what):
    """model: {box: values}."""
    cells, vals, j = state(mesh, region)
    w = gen.region_width(region)
    geo.check_tiling(cells, w, region["lat_min"], region["lat_max"])
    got = {tuple(float(x) for x in b): sig(vals[i]) for i, b in cells.items()}
    for b, v in model.items():
        if b not in got:
            raise Violation(f"{what}: there should be a cell {b}")
        if got[b] != sig(v):
            raise Violation(f"{what}: cell {b} should carry {sig(v)} but carries {got[b]}")
    for b in got:
        if b not in model:
            raise Violation(f"{what}: there should be no cell {b}")
    geo.check_graph(j["neighbour_graph"], cells, synth.is_circular(region))
    return cells


def split_model(model, b):
    v = model.pop(b)
    for q in synth.quarters(b):
        model[tuple(float(x) for x in q)] = v


def box_of(cells, cid):
    return tuple(float(x) for x in cells[cid])


def holder(model, x, y):
    """The cell strictly containing the point."""
    for b in model:
        if b[0] < x < b[1] and b[2] < y < b[3]:
            return b
    return None


def check_history(case, ctx):
    from meshiphi.mesh_generation.environment_mesh import EnvironmentMesh
    m = case["mesh"]
    r = m["region"]
    given = synth.to_json(m)
    before = copy.deepcopy(given)
    with sut("load_from_json"):
        mesh = EnvironmentMesh.load_from_json(given)
        twin = EnvironmentMesh.load_from_json(given)
    model = {tuple(b): v for _, b, v in m["cells"]}
    cells = {i: tuple(b) for i, b, _ in m["cells"]}
    min_w, min_h = r["cell_width"] / 2 ** m["depth"], r["cell_height"] / 2 ** m["depth"]
    splits = 0
    for op in case["ops"]:
        ids = sorted(cells)
        if op[0] == "split":
            cid = ids[op[1] % len(ids)]
            b = box_of(cells, cid)
            if b[1] - b[0] < r["cell_width"] / 32:
                continue
            with sut(f"split_and_replace of cell {b}"):
                mesh.split_and_replace(str(cid))
            split_model(model, b)
            splits += 1
            what = f"after splitting cell {b}"
        elif op[0] == "points":
            pts = []
            for k, fx, fy, out in op[1]:
                b = box_of(cells, ids[k % len(ids)])
                # positions on a 1/32 grid of the cell: midlines of the children and grandchildren occur
                x, y = b[0] + (b[1] - b[0]) * fx / 32, b[2] + (b[3] - b[2]) * fy / 32
                if out == 1:        # outside the mesh
                    y = r["lat_max"] + fy / 8
                elif out == 2:
                    y = r["lat_min"] - 0.125
                elif out == 3 and gen.region_width(r) < 359:
                    x = -fx / 64
                elif out == 4 and gen.region_width(r) < 359:
                    x = gen.region_width(r) + fx / 64
                pts.append((x, y))
            with sut("split_points"):
                mesh.split_points([(y, gen.norm180(r["long_min"] + x)) for x, y in pts])
            for x, y in pts:
                while True:
                    b = holder(model, x, y)
                    if b is None or b[1] - b[0] <= min_w or b[3] - b[2] <= min_h:
                        break
                    split_model(model, b)
                    splits += 1
            what = f"after split_points at {pts}"
        else:
            with sut("saving and loading"):
                mesh = EnvironmentMesh.load_from_json(json.loads(json.dumps(mesh.to_json())))
            what = "after reloading"
        cells = check_state(mesh, r, model, what)
    if given != before:
        raise Violation("refining a mesh changed the JSON object that it was loaded from")
    check_state(twin, r, {tuple(b): v for _, b, v in m["cells"]},
                "another mesh loaded from the same JSON object, after the first was refined")
    ctx.label(gen.region_kind(r), f"{min(splits, 5)} splits")
    ctx.nontrivial(splits >= 2)


SUBS = [Sub("histories", histories, check_history, quick=8000,
            rule="random quadtree mesh loaded from JSON, then 1-5 operations (split a cell, split around points inside, on edges and outside, save "
                 "and reload), everything compared after every step; non-trivial = at least two cells were split")]
