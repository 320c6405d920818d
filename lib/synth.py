"""Mesh JSON objects synthesised straight from a random quadtree: geometry, values and adjacency by definition, so
that operations on loaded meshes are tested independently of (and much faster than) the mesh builder."""
from hypothesis import strategies as st

from lib import gen, geo

VALS = [0, 1.5, -3, 100.25, None, float("nan"), True, [1.0, 2.0], "x", "", False]


@st.composite
def quadtrees(draw, region, max_depth=3, max_splits=6):
    """-> list of (box, depth) leaves; boxes (x0, x1, y0, y1) with x eastwards from long_min."""
    r = region
    cw, ch = r["cell_width"], r["cell_height"]
    cols = int(round(gen.region_width(r) / cw))
    rows = int(round((r["lat_max"] - r["lat_min"]) / ch))
    leaves = [((i * cw, (i + 1) * cw, r["lat_min"] + j * ch, r["lat_min"] + (j + 1) * ch), 0)
              for j in range(rows) for i in range(cols)]
    for k in draw(st.lists(st.integers(0, 10 ** 6), max_size=max_splits)):
        i = k % len(leaves)
        if k % 3 == 0:                      # prefer recent cells, so that depth is reached
            i = len(leaves) - 1 - (k // 3) % min(4, len(leaves))
        b, d = leaves[i]
        if d < max_depth:
            leaves.pop(i)
            leaves += [(q, d + 1) for q in quarters(b)]
    return leaves


def quarters(b):
    """SW, NW, SE, NE."""
    x0, x1, y0, y1 = b
    xm, ym = (x0 + x1) / 2, (y0 + y1) / 2
    return [(x0, xm, y0, ym), (x0, xm, ym, y1), (xm, x1, y0, ym), (xm, x1, ym, y1)]


@st.composite
def meshes(draw, rkinds=("plain", "anti", "global"), max_cells=9, max_depth=3, max_splits=6, region=None, depth=None,
           min_cols_global=2, names=("a", "b", "uC,vC")):
    r = region or draw(gen.regions(kinds=rkinds, max_cells=max_cells).filter(
        lambda r: gen.region_kind(r) != "global" or round(360 / r["cell_width"]) >= min_cols_global))
    leaves = draw(quadtrees(r, max_depth, max_splits))
    n = len(leaves)
    how = draw(st.sampled_from(["seq", "seq", "gaps", "mixed"]))
    ids = list(range(n)) if how == "seq" else [i * 3 + draw(st.integers(0, 2)) for i in range(n)]
    base = draw(st.sampled_from([0, 0, 0, 7, 94, 250, 9990, 10 ** 6]))
    ids = [base + i for i in ids]
    vals = [draw(st.fixed_dictionaries({nm: st.sampled_from(VALS) for nm in names[:1 + i % len(names)]}))
            for i in range(min(n, 4))]
    cells = [[ids[i], list(map(float, b)), vals[i % len(vals)]] for i, (b, d) in enumerate(leaves)]
    if how == "mixed":                  # the cells need not be listed by id
        cells = draw(st.permutations(cells))
    if depth is None:
        depth = draw(st.integers(0, 4))
    return dict(region=r, depth=depth, cells=cells)


def rect_wkt(lon0, w, y0, y1):
    """WKT of a box in the form meshiphi writes (checked against Boundary in C09, so this is only an input)."""
    def ring(a, b):
        return f"(({_f(a)} {_f(y0)}, {_f(a)} {_f(y1)}, {_f(b)} {_f(y1)}, {_f(b)} {_f(y0)}, {_f(a)} {_f(y0)}))"
    while lon0 >= 180:
        lon0 -= 360
    lon1 = lon0 + w
    if lon1 <= 180:
        return "POLYGON " + ring(lon0, lon1)
    return f"MULTIPOLYGON ({ring(lon0, 180)}, {ring(-180, lon1 - 360)})"


def _f(x):
    return repr(int(x)) if float(x).is_integer() else repr(float(x))


def is_circular(region):
    return gen.region_width(region) == 360


def to_json(m):
    """The mesh JSON of a synthetic mesh (fresh object)."""
    r = m["region"]
    boxes = {i: tuple(b) for i, b, _ in m["cells"]}
    adj = geo.adjacency(boxes, is_circular(r))
    cbs = []
    for i, (x0, x1, y0, y1), vals in m["cells"]:
        lon = gen.norm180(r["long_min"] + x0)
        cx = gen.norm180(r["long_min"] + (x0 + x1) / 2)
        cb = dict(geometry=rect_wkt(lon, x1 - x0, y0, y1), cx=float(cx), cy=(y0 + y1) / 2, dcx=(x1 - x0) / 2,
                  dcy=(y1 - y0) / 2)
        cb.update({k: (list(v) if isinstance(v, list) else v) for k, v in vals.items()})
        cb["id"] = str(i)
        cbs.append(cb)
    return dict(config=dict(mesh_info=dict(region=dict(r), data_sources=[],
                                           splitting=dict(split_depth=m["depth"], minimum_datapoints=5))),
                cellboxes=cbs,
                neighbour_graph={str(i): {str(d): sorted(adj[i][d]) for d in geo.DIRS} for i in boxes})
