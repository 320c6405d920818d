"""C12: queries on a mesh (by point, id, bounds, edge, touching) return exactly the cells geometry says."""
import json
import math

from hypothesis import strategies as st

from lib import gen, geo, synth
from lib.harness import Sub, Violation, require, sut

PROPERTY = "C12"
ASSUMPTIONS = ["region edges and cell sizes are exactly representable",
               "points on an edge between cells: only consistency of query_index and query_inside_mesh is required",
               "cells that stick out of the latitude range of the bounds may or may not count as east/west of them"]


@st.composite
def cases(draw):
    m = draw(synth.meshes(max_cells=9, max_splits=5))
    r = m["region"]
    pts = draw(st.lists(st.tuples(st.integers(0, 200), st.integers(0, 16), st.integers(0, 16)), min_size=1, max_size=6))
    out = draw(st.lists(st.tuples(st.sampled_from(["N", "S", "E"]), st.integers(1, 64), st.integers(0, 64)), max_size=3))
    boxes = []
    for _ in range(draw(st.integers(1, 3))):
        # bounds on the lattice of eighths of initial cells, inside the region or all around it
        nx, ny = gen._lattice(r, 8)
        step = draw(st.sampled_from([1, 2, 4, 8]))
        x0 = draw(st.integers(0, (nx - 1) // step)) * step
        x1 = draw(st.integers(x0 // step + 1, max(x0 // step + 1, nx // step))) * step
        y0 = draw(st.integers(0, (ny - 1) // step)) * step
        y1 = draw(st.integers(y0 // step + 1, max(y0 // step + 1, ny // step))) * step
        boxes.append([x0, min(x1, nx), y0, min(y1, ny)])
    k = draw(st.integers(0, 100))
    upd = draw(st.lists(st.tuples(st.integers(-3, 60), st.sampled_from(["a", "fuel"]), st.sampled_from([7, None, "x"])),
                        max_size=3))
    return dict(mesh=m, pts=pts, out=out, boxes=boxes, pair=k, upd=upd)


def lattice_pos(r, i, j):
    return i * r["cell_width"] / 8, r["lat_min"] + j * r["cell_height"] / 8


def ids_of(cells, what):
    got = [int(c.get_id()) for c in cells]
    require(len(set(got)) == len(got), f"{what}: a cell is listed twice: {got}")
    return set(got)


def expect(got, must, may, what):
    if not must <= got:
        raise Violation(f"{what}: missing cells {sorted(must - got)}")
    if not got <= must | may:
        raise Violation(f"{what}: wrong cells {sorted(got - must - may)}")


def spans(b, x0, x1, circ):
    """Longitude relation of cell b to the interval: offsets at which it lies."""
    return [(b[0] + s, b[1] + s) for s in ((-360, 0, 360) if circ else (0,))]


def check_case(case, ctx):
    from meshiphi.mesh_generation.boundary import Boundary
    from meshiphi.mesh_generation.environment_mesh import EnvironmentMesh
    m = case["mesh"]
    r = m["region"]
    circ = synth.is_circular(r)
    cells = {i: tuple(b) for i, b, _ in m["cells"]}
    with sut("load_from_json"):
        mesh = EnvironmentMesh.load_from_json(synth.to_json(m))
    ids = sorted(cells)
    w = gen.region_width(r)

    # ---- points ----
    def ask(lat, lon):
        with sut("query_inside_mesh"):
            inside = bool(mesh.query_inside_mesh((lat, lon)))
        try:
            found = int(mesh.query_index((lat, lon)))
        except Exception:
            found = None
        return inside, found

    hits = 0
    for k, fx, fy in case["pts"]:
        b = cells[ids[k % len(ids)]]
        x, y = b[0] + (b[1] - b[0]) * fx / 16, b[2] + (b[3] - b[2]) * fy / 16
        lon = gen.norm180(r["long_min"] + x)
        if abs(lon) == 180 and fx in (0, 16):
            continue
        inside, found = ask(y, lon)
        if 0 < fx < 16 and 0 < fy < 16:
            hits += 1
            require(inside and found == ids[k % len(ids)],
                    f"({y}, {lon}) is in cell {ids[k % len(ids)]}: inside={inside}, index={found}")
            if abs(lon) == 180:
                inside, found = ask(y, -lon)
                require(inside and found == ids[k % len(ids)], f"({y}, {-lon}): inside={inside}, index={found}")
        else:
            require(inside == (found is not None) or (inside and found is None),
                    f"({y}, {lon}): inside={inside} but index={found}")
            if found is not None:
                c = cells[found]
                ok = any(c0 <= x <= c1 for c0, c1 in spans(c, x, x, circ)) and c[2] <= y <= c[3]
                require(ok, f"({y}, {lon}) reported in cell {found}, which is {c}")
    for side, far, along in case["out"]:
        if side in "NS":
            y = r["lat_max"] + far / 8 if side == "N" else r["lat_min"] - far / 8
            x = w * along / 64
        elif circ or w > 340:
            continue
        else:
            y = r["lat_min"] + (r["lat_max"] - r["lat_min"]) * along / 64
            x = w + (360 - w) * far / 65
        lon = gen.norm180(r["long_min"] + x)
        if abs(lon) == 180:
            continue
        inside, found = ask(y, lon)
        require(not inside and found is None, f"({y}, {lon}) is outside: inside={inside}, index={found}")

    # ---- by id ----
    with sut("get_max_cellbox_id"):
        top = int(mesh.get_max_cellbox_id())
    require(top == max(ids), f"largest id is {max(ids)}, got {top}")
    for i in ids:
        with sut("get_cellbox"):
            c = mesh.get_cellbox(str(i))
            c2 = mesh.get_cellbox(i)
        require(c is not None and int(c.get_id()) == i and c2 is c, f"get_cellbox({i}) returned another cell")
    with sut("get_cellbox of an unknown id"):
        require(mesh.get_cellbox(str(max(ids) + 1)) is None, "an unknown id gave a cell")

    # ---- edges of the mesh ----
    la0, la1 = r["lat_min"], r["lat_max"]
    for name, must in (("top", {i for i, b in cells.items() if b[3] == la1}),
                       ("bottom", {i for i, b in cells.items() if b[2] == la0}),
                       ("left", {i for i, b in cells.items() if b[0] == 0}),
                       ("right", {i for i, b in cells.items() if b[1] == w})):
        with sut(f"get_{name}_edge_cellboxes"):
            got = getattr(mesh, f"get_{name}_edge_cellboxes")()
        expect(ids_of(got, name), must, set(), f"cells on the {name} edge")

    # ---- bounds ----
    for x0, x1, y0, y1 in case["boxes"]:
        X0, Y0 = lattice_pos(r, x0, y0)
        X1, Y1 = lattice_pos(r, x1, y1)
        if circ and X1 - X0 == 360:
            lo = [-180, 180]
        else:
            lo = [gen.norm180(r["long_min"] + X0), gen.norm180(r["long_min"] + X1)]
            if lo[0] == 180:
                lo[0] = -180
            if lo[1] == -180:
                lo[1] = 180
        with sut("making the bounds"):
            bd = Boundary([Y0, Y1], lo)
        within = {i for i, b in cells.items() if X0 <= b[0] and b[1] <= X1 and Y0 <= b[2] and b[3] <= Y1}
        with sut("get_cellboxes_within_bounds"):
            got = mesh.get_cellboxes_within_bounds(bd)
        expect(ids_of(got, "within"), within, set(), f"cells within {[Y0, Y1]} x {lo}")

        def near(b):
            return any(c1 >= X0 and c0 <= X1 for c0, c1 in spans(b, X0, X1, circ))
        for name, must in (("north", {i for i, b in cells.items() if b[2] == Y1 and near(b)}),
                           ("south", {i for i, b in cells.items() if b[3] == Y0 and near(b)})):
            with sut(f"get_cellboxes_{name}_of_bounds"):
                got = getattr(mesh, f"get_cellboxes_{name}_of_bounds")(bd)
            expect(ids_of(got, name), must, set(), f"cells {name} of {[Y0, Y1]} x {lo}")
        full = X1 - X0 == 360
        for name in ("east", "west"):
            touch = set() if full else {i for i, b in cells.items()
                                        if any((c0 == X1) if name == "east" else (c1 == X0)
                                               for c0, c1 in spans(b, X0, X1, circ))}
            touch = {i for i in touch if cells[i][2] < Y1 and cells[i][3] > Y0}
            with sut(f"get_cellboxes_{name}_of_bounds"):
                got = getattr(mesh, f"get_cellboxes_{name}_of_bounds")(bd)
            expect(ids_of(got, name), touch, set(), f"cells {name} of {[Y0, Y1]} x {lo}")

    # ---- touching of two cells ----
    a = ids[case["pair"] % len(ids)]
    adj = geo.adjacency(cells, circ)
    ca = mesh.get_cellbox(str(a))
    for b in ids:
        if a == b:
            continue
        want = {d for d in geo.DIRS if b in adj[a][d]} or {0}
        cb = mesh.get_cellbox(str(b))
        with sut("get_neighbour_case"):
            got = mesh.neighbour_graph.get_neighbour_case(ca, cb)
            got2 = mesh.neighbour_graph.get_neighbour_case_bounds(ca.get_bounds(), cb.get_bounds())
        require(got in want, f"cell {b} {cells[b]} touches cell {a} {cells[a]} in {sorted(want)}, get_neighbour_case "
                             f"says {got}")
        require(got2 in want, f"cell {b} {cells[b]} touches cell {a} {cells[a]} in {sorted(want)}, "
                              f"get_neighbour_case_bounds says {got2}")
    for d in geo.DIRS:
        with sut("get_neighbours"):
            got = {int(x) for x in mesh.neighbour_graph.get_neighbours(str(a), str(d))}
        require(got == set(adj[a][d]), f"get_neighbours({a}, {d}) is {got}, expected {adj[a][d]}")

    # ---- table of cells ----
    with sut("to_shapely"):
        gdf = mesh.to_shapely()
        rows = {int(i): (g, c) for i, g, c in zip(gdf.index, gdf.geometry, gdf["cy"])}
    require(set(rows) == set(cells) and len(gdf) == len(cells), "to_shapely has other cells")
    for i, (g, cy) in rows.items():
        b = cells[i]
        x0 = gen.norm180(r["long_min"] + b[0])
        require(g.is_valid and math.isclose(g.area, (b[1] - b[0]) * (b[3] - b[2])) and
                (g.bounds[1], g.bounds[3]) == (b[2], b[3]) and cy == (b[2] + b[3]) / 2, f"to_shapely: cell {i} is {g.wkt}")
        if g.geom_type == "Polygon" and b[1] - b[0] < 360:
            require((g.bounds[0] - x0) % 360 == 0, f"to_shapely: cell {i} is {g.wkt}")

    # ---- adding values ----
    vals = {i: dict(v) for i, _, v in m["cells"]}
    order = [i for i, _, _ in m["cells"]]
    bad = 0
    for k, name, v in case["upd"]:
        try:
            mesh.update_cellbox(k, {name: v})
            ok = True
        except ValueError:
            ok = False
        except Exception as e:
            raise Violation(f"update_cellbox({k}) of {len(order)} cells raised {type(e).__name__}: {e}")
        require(ok == (0 <= k < len(order)), f"update_cellbox({k}) of {len(order)} cells "
                                             f"{'accepted' if ok else 'refused'}")
        if ok:
            vals[order[k]][name] = v
        else:
            bad += 1
    with sut("to_json"):
        j = json.loads(json.dumps(mesh.to_json()))
    for cb in j["cellboxes"]:
        got = {k: v for k, v in cb.items() if k not in ("geometry", "cx", "cy", "dcx", "dcy", "id")}
        want = vals[int(cb["id"])]
        require(json.dumps(got, sort_keys=True) == json.dumps(want, sort_keys=True),
                f"cell {cb['id']} carries {got}, expected {want}")
    ctx.label(gen.region_kind(r), "split" if len({b[1] - b[0] for b in cells.values()}) > 1 else "uniform")
    if bad:
        ctx.label("bad index")
    ctx.nontrivial(len(cells) >= 4 and hits > 0)


SUBS = [Sub("queries", cases, check_case, quick=6000,
            rule="random quadtree mesh loaded from JSON; points, bounds, edges, pairs of cells, updates; non-trivial = "
                 "four or more cells and a point strictly inside one")]
