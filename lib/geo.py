"""Reference geometry: exact rectangles on an unwrapped longitude axis, adjacency straight from the definition."""
import re

from lib.harness import Violation

DIRS = {1: "NE", 2: "E", 3: "SE", 4: "S", -1: "SW", -2: "W", -3: "NW", -4: "N"}
_NUM = re.compile(r"\(([^()]+)\)")


def wkt_rect(wkt):
    """WKT of a cell -> (lon_min, width, lat_min, lat_max), lon_min in [-180, 180]; raises Violation if not a box."""
    rings = _NUM.findall(wkt)
    boxes = []
    for ring in rings:
        pts = [tuple(float(t) for t in p.split()) for p in ring.split(",")]
        xs = sorted({p[0] for p in pts})
        ys = sorted({p[1] for p in pts})
        if len(xs) != 2 or len(ys) != 2 or len(set(pts)) != 4 or len(pts) != 5:
            raise Violation(f"cell geometry is not an axis-aligned box: {wkt}")
        boxes.append((xs[0], xs[1], ys[0], ys[1]))
    if len(boxes) == 1:
        x0, x1, y0, y1 = boxes[0]
        return (x0, x1 - x0, y0, y1)
    if len(boxes) == 2:
        pos = [b for b in boxes if b[1] == 180]
        neg = [b for b in boxes if b[0] == -180]
        if len(pos) == 1 and len(neg) == 1 and pos[0][2:] == neg[0][2:]:
            return (pos[0][0], (180 - pos[0][0]) + (neg[0][1] + 180), pos[0][2], pos[0][3])
    raise Violation(f"cell geometry is not a box nor a box cut by the antimeridian: {wkt}")


def norm_lon(x):
    """Into [-180, 180)."""
    return (x + 180) % 360 - 180


def bounds_rect(lat_range, long_range):
    lo, hi = long_range
    w = hi - lo if hi > lo else 360 - (lo - hi)
    return (lo, w, lat_range[0], lat_range[1])


def unwrap(rect, origin):
    """(x0, x1, y0, y1) with x measured eastwards from origin, in [0, 360)."""
    lon, w, y0, y1 = rect
    x0 = (lon - origin) % 360
    return (x0, x0 + w, y0, y1)


def directions(a, b, circular):
    """All directions in which box b touches box a (boxes from unwrap); [] if they do not touch.  Raises if they
    overlap."""
    dy = "o"
    if b[2] == a[3]:
        dy = "N"
    elif b[3] == a[2]:
        dy = "S"
    elif b[2] < a[3] and b[3] > a[2]:
        dy = "o"
    else:
        return []
    dxs = set()
    for shift in ((-360, 0, 360) if circular else (0,)):
        bx0, bx1 = b[0] + shift, b[1] + shift
        if bx0 == a[1]:
            dxs.add("E")
        elif bx1 == a[0]:
            dxs.add("W")
        elif bx0 < a[1] and bx1 > a[0]:
            dxs.add("o")
    out = []
    for dx in dxs:
        key = {("N", "o"): -4, ("S", "o"): 4, ("o", "E"): 2, ("o", "W"): -2, ("N", "E"): 1, ("S", "E"): 3,
               ("S", "W"): -1, ("N", "W"): -3}.get((dy, dx))
        if key is None:
            raise Violation(f"cells overlap: {a} {b}")
        out.append(key)
    return out


def adjacency(cells, circular):
    """cells: {id: box}.  -> {id: {direction: set(ids)}} by brute force over all pairs."""
    g = {i: {d: set() for d in DIRS} for i in cells}
    ids = list(cells)
    for i in ids:
        for j in ids:
            if i == j:
                continue
            for d in directions(cells[i], cells[j], circular):
                g[i][d].add(j)
    return g


def read_cells(mesh_json, origin):
    """Cells of a mesh JSON object -> {int id: box}."""
    cells = {}
    for cb in mesh_json["cellboxes"]:
        cid = int(cb["id"])
        if cid in cells:
            raise Violation(f"two cells carry the id {cid}")
        cells[cid] = unwrap(wkt_rect(cb["geometry"]), origin)
    return cells


def read_snapped(mesh_json, r, parts=64):
    """Cells of a mesh whose region has inexact edges: boxes in parts of the initial cells, x and y from the
    south-western corner; -> {int id: box of whole numbers}."""
    cells = {}
    for cb in mesh_json["cellboxes"]:
        cid = int(cb["id"])
        if cid in cells:
            raise Violation(f"two cells carry the id {cid}")
        x0, x1, y0, y1 = unwrap(wkt_rect(cb["geometry"]), r["long_min"] - 1e-7)
        sx, sy = r["cell_width"] / parts, r["cell_height"] / parts
        q = [(x0 - 1e-7) / sx, (x1 - 1e-7) / sx, (y0 - r["lat_min"]) / sy, (y1 - r["lat_min"]) / sy]
        if any(abs(v - round(v)) > 1e-4 for v in q):
            raise Violation(f"cell {cid} {cb['geometry']} is not an initial cell halved a whole number of times")
        cells[cid] = tuple(round(v) for v in q)
    return cells


def check_tiling(cells, width, y0, y1):
    area = 0.0
    for i, c in cells.items():
        if not (c[1] > c[0] and c[3] > c[2]):
            raise Violation(f"cell {i} is empty: {c}")
        if c[0] < 0 or c[1] > width or c[2] < y0 or c[3] > y1:
            raise Violation(f"cell {i} reaches outside the region: {c}")
        area += (c[1] - c[0]) * (c[3] - c[2])
    items = sorted(cells.items(), key=lambda kv: kv[1])
    for n, (i, a) in enumerate(items):
        for j, b in items[n + 1:]:
            if b[0] >= a[1]:
                break
            if b[2] < a[3] and b[3] > a[2]:
                raise Violation(f"cells {i} and {j} overlap: {a} {b}")
    if area != width * (y1 - y0):
        raise Violation(f"cells cover an area of {area} of the region's {width * (y1 - y0)}: there are gaps")


def check_graph(graph, cells, circular):
    """graph: JSON neighbour graph; must be exactly the geometric adjacency, symmetric, without duplicates."""
    keys = [int(k) for k in graph]
    if sorted(keys) != sorted(cells):
        extra = sorted(set(keys) - set(cells))[:5]
        missing = sorted(set(cells) - set(keys))[:5]
        raise Violation(f"neighbour graph nodes and cells differ: extra {extra}, missing {missing}")
    ref = adjacency(cells, circular)
    for k, nb in graph.items():
        i = int(k)
        got = {}
        for d, lst in nb.items():
            got[int(d)] = [int(x) for x in lst]
        if set(got) - set(DIRS):
            raise Violation(f"cell {i}: unknown directions {set(got) - set(DIRS)}")
        for d in DIRS:
            lst = got.get(d, [])
            if len(set(lst)) != len(lst):
                raise Violation(f"cell {i} lists a neighbour twice to the {DIRS[d]}: {lst}")
            if set(lst) != ref[i][d]:
                raise Violation(
                    f"cell {i} {cells[i]}: {DIRS[d]} neighbours are {sorted(lst)}, but the cells touching it there "
                    f"are {sorted(ref[i][d])} "
                    f"{[cells[x] for x in sorted(set(lst) ^ ref[i][d]) if x in cells][:4]}")
