"""C15: look-up tables - areas with a value, and the built-in sea ice climatologies - give cells their share of them."""
import datetime as dt
import json
import math
import os

from hypothesis import strategies as st

from checks.c04 import close
from lib import gen, geo
from lib.harness import Sub, Violation, require, sut

PROPERTY = "C15"
ASSUMPTIONS = ["areas have axis-parallel edges at multiples of 1/8 degree, strictly inside -180:180",
               "areas that only touch a cell may or may not count for MIN, MAX and the decision to split",
               "a cell partly outside all areas has no value (NaN), as the loaders' documentation says"]
NAN = float("nan")


# ---- areas ----

def rects_of(row):
    """Disjoint rectangles (x0, x1, y0, y1) that make up an area."""
    k, a = row["kind"], row["box"]
    x0, x1, y0, y1 = a
    xm, ym = row["mid"]
    if k == "rect":
        return [tuple(a)]
    if k == "L":            # without its north-eastern part
        return [(x0, x1, y0, ym), (x0, xm, ym, y1)]
    if k == "two":          # south-west and north-east parts, apart
        return [(x0, x0 + (xm - x0) / 2, y0, y1), (xm, x1, y0, y1)]
    if k == "hole":
        hx, hy = x0 + (xm - x0) / 2, y0 + (ym - y0) / 2
        return [(x0, hx, y0, y1), (xm, x1, y0, y1), (hx, xm, y0, hy), (hx, xm, ym, y1)]
    raise AssertionError(k)


def rings_of(row):
    """[[outer ring, holes...], ...]: one entry per polygon."""
    def box(x0, x1, y0, y1):
        return [(x0, y0), (x1, y0), (x1, y1), (x0, y1), (x0, y0)]
    x0, x1, y0, y1 = row["box"]
    xm, ym = row["mid"]
    k = row["kind"]
    if k == "rect":
        return [[box(*row["box"])]]
    if k == "L":
        return [[[(x0, y0), (x1, y0), (x1, ym), (xm, ym), (xm, y1), (x0, y1), (x0, y0)]]]
    if k == "two":
        return [[box(*r)] for r in rects_of(row)]
    return [[box(*row["box"]), box(x0 + (xm - x0) / 2, xm, y0 + (ym - y0) / 2, ym)]]


def segments(row):
    for poly in rings_of(row):
        for ring in poly:
            yield from zip(ring, ring[1:])


def wkt(row):
    polys = ["(" + ", ".join("(" + ", ".join(f"{x!r} {y!r}" for x, y in ring) + ")" for ring in p) + ")"
             for p in rings_of(row)]
    return f"POLYGON {polys[0]}" if len(polys) == 1 else "MULTIPOLYGON (" + ", ".join(polys) + ")"


def geojson_geometry(row):
    polys = [[[list(p) for p in ring] for ring in poly] for poly in rings_of(row)]
    if len(polys) == 1:
        return dict(type="Polygon", coordinates=polys[0])
    return dict(type="MultiPolygon", coordinates=polys)


def overlap(a, b):
    w, h = min(a[1], b[1]) - max(a[0], b[0]), min(a[3], b[3]) - max(a[2], b[2])
    return w * h if w > 0 and h > 0 else 0.0


def touches(a, b):
    return a[0] <= b[1] and b[0] <= a[1] and a[2] <= b[3] and b[2] <= a[3]


def boxes_of(cell, long_min):
    """A cell (x measured from long_min) as true-longitude boxes, cut at the antimeridian."""
    x0, x1 = cell[0] + long_min, cell[1] + long_min
    if x0 >= 180:
        x0, x1 = x0 - 360, x1 - 360
    if x1 <= 180:
        return [(x0, x1, cell[2], cell[3])]
    return [(x0, 180.0, cell[2], cell[3]), (-180.0, x1 - 360, cell[2], cell[3])]


def union_area(rects, box):
    """Area of box covered by any of the rectangles."""
    rects = [r for r in rects if overlap(r, box) > 0]
    xs = sorted({box[0], box[1]} | {min(max(v, box[0]), box[1]) for r in rects for v in r[:2]})
    ys = sorted({box[2], box[3]} | {min(max(v, box[2]), box[3]) for r in rects for v in r[2:]})
    return sum((xb - xa) * (yb - ya) for xa, xb in zip(xs, xs[1:]) for ya, yb in zip(ys, ys[1:])
               if any(r[0] <= xa and xb <= r[1] and r[2] <= ya and yb <= r[3] for r in rects))


def through(seg, box):
    """Does the segment pass through the inside of the box?"""
    (xa, ya), (xb, yb) = seg
    return min(xa, xb) < box[1] and max(xa, xb) > box[0] and min(ya, yb) < box[3] and max(ya, yb) > box[2]


def meets(seg, box):
    (xa, ya), (xb, yb) = seg
    return min(xa, xb) <= box[1] and max(xa, xb) >= box[0] and min(ya, yb) <= box[3] and max(ya, yb) >= box[2]


# ---- what an aggregate may be, given [(value, weight)] with weight 0 for areas that only touch ----

def aggregates(items, agg, skipna=False):
    """Acceptable results (list), or a function deciding, or None if not specified."""
    sure = [(v, w) for v, w in items if w > 0]
    edge = [v for v, w in items if w == 0]
    if skipna:
        sure = [(v, w) for v, w in sure if not math.isnan(v)]
        edge = [v for v in edge if not math.isnan(v)]
    if not sure:
        return None if edge else [NAN]
    vals = [v for v, _ in sure]
    tot = sum(w for _, w in sure)
    if agg in ("MIN", "MAX"):
        f = min if agg == "MIN" else max
        if any(math.isnan(v) for v in vals):
            return [NAN]
        best = f(vals)
        return [best] + [v for v in edge if math.isnan(v) or f(v, best) == v]
    if any(math.isnan(v) for v in vals):
        return None if agg == "MEDIAN" else [NAN]
    if agg == "MEDIAN":
        def ok(x):
            eps = 1e-9 * tot
            return (x in vals and sum(w for v, w in sure if v < x) <= tot / 2 + eps
                    and sum(w for v, w in sure if v > x) <= tot / 2 + eps)
        return ok
    mean = sum(v * w for v, w in sure) / tot
    if agg == "MEAN":
        return [mean]
    if agg == "STD":
        return [math.sqrt(sum(w * (v - mean) ** 2 for v, w in sure) / tot)]
    raise AssertionError(agg)


def judge(got, want, what):
    if want is None:
        return
    if callable(want):
        require(want(got), f"{what}: {got} is not a weighted median")
    else:
        require(any(close(got, w, 1e3) for w in want), f"{what}: {got}, expected {want}")


# ---- tables from files ----

@st.composite
def rows(draw, r, loader):
    """Areas around the region, also on its cells' edges."""
    w, h = gen.region_width(r), r["lat_max"] - r["lat_min"]
    out = []
    aligned = draw(st.booleans())
    for _ in range(draw(st.integers(1, 4))):
        if aligned:
            fx, fy = r["cell_width"] / 4, r["cell_height"] / 4
        else:
            fx, fy = w / 16, h / 16
        nx, ny = int(round(w / fx)), int(round(h / fy))
        ix, iy = draw(st.integers(-2, nx - 1)), draw(st.integers(-2, ny - 1))
        dx, dy = draw(st.integers(1, nx + 3)), draw(st.integers(1, ny + 3))
        x0 = gen.norm180(r["long_min"] + ix * fx)
        y0 = max(-90, r["lat_min"] + iy * fy)
        x1, y1 = x0 + dx * fx, min(90, r["lat_min"] + iy * fy + dy * fy)
        q = lambda v: math.floor(v * 64) / 64     # noqa: E731
        x0, x1, y0, y1 = q(x0), q(x1), q(y0), q(y1)
        x0, x1 = max(x0, -179.875), min(x1, 179.875)
        if x1 <= x0 or y1 <= y0:
            x0, x1, y0, y1 = -3.0, 2.0, -1.0, 1.0
        kind = draw(st.sampled_from(["rect", "rect", "L", "two", "hole"]))
        v = draw(st.sampled_from([0, 1, 2.5, -3, 7, 100.25]))
        out.append(dict(kind=kind, box=[x0, x1, y0, y1], mid=[(x0 + x1) / 2, (y0 + y1) / 2], value=v))
    if draw(st.integers(0, 2)) == 0:        # an area that covers everything around
        y0, y1 = max(-90, r["lat_min"] - 1), min(90, r["lat_max"] + 1)
        x0, x1 = (r["long_min"] - 1, r["long_max"] + 1) if gen.region_kind(r) == "plain" else (-179.875, 179.875)
        x0, x1 = max(x0, -179.875), min(x1, 179.875)
        out.append(dict(kind="rect", box=[x0, x1, y0, y1], mid=[0, 0], value=draw(st.sampled_from([5, -1.5]))))
    return out


LOADERS = ["lut_csv", "lut_csv", "lut_geojson", "lut_shapefile", "scotland_ncmpa"]


@st.composite
def tables(draw, max_cells=6):
    r = draw(gen.regions(max_cells=max_cells))
    loader = draw(st.sampled_from(LOADERS))
    case = dict(region=r, loader=loader, rows=draw(rows(r, loader)), how=draw(st.sampled_from(["file", "files", "folder"])),
                depth=draw(st.sampled_from([0, 1, 2])), case=draw(st.booleans()),
                name=draw(st.sampled_from([None, "zone"])), agg=draw(st.sampled_from([None, "MEAN", "MIN", "MAX", "STD"])),
                boundary=draw(st.sampled_from([None, True, True, False])), lock=draw(st.sampled_from([None, True, False])),
                fill=draw(st.sampled_from([None, -1.5, "Nan"])), swap=draw(st.sampled_from(["none", "none", "some", "all"])))
    if loader in ("lut_geojson", "lut_shapefile"):
        case["value"] = draw(st.sampled_from([3, -2.5, True, False, 1, 0, 1.0]))
    return case


def value_of(case, row):
    if case["loader"] == "lut_csv":
        return float(row["value"])
    if case["loader"] == "scotland_ncmpa":
        return 1.0
    return float(case["value"])


def outside_value(case):
    v = True if case["loader"] == "scotland_ncmpa" else case.get("value")
    return float(not v) if isinstance(v, bool) else NAN


def write_tables(case, d):
    rs = case["rows"]
    parts = [rs] if case["how"] == "file" or len(rs) < 2 else [rs[:1], rs[1:]]
    folder = os.path.join(d, "tables")
    os.makedirs(folder)
    files = []
    for k, part in enumerate(parts):
        if case["loader"] == "lut_csv":
            path = os.path.join(folder, f"t{k}.csv")
            with open(path, "w") as f:
                swap = case["swap"] == "all" or case["swap"] == "some" and k == 0
                f.write("level,geometry\n" if swap else "geometry,level\n")
                for row in part:
                    cols = [f'"{wkt(row)}"', repr(row["value"])]
                    f.write(",".join(cols[::-1] if swap else cols) + "\n")
        elif case["loader"] == "lut_shapefile":
            import geopandas as gpd
            from shapely.geometry import shape
            sub = os.path.join(d, f"shp{k}")
            os.makedirs(sub)
            path = os.path.join(sub, f"t{k}.shp")
            gpd.GeoDataFrame(dict(kept=[1] * len(part)), geometry=[shape(geojson_geometry(x)) for x in part],
                             crs="EPSG:4326").to_file(path)
        else:
            path = os.path.join(folder, f"t{k}.geojson")
            with open(path, "w") as f:
                json.dump(dict(type="FeatureCollection", features=[
                    dict(type="Feature", properties=dict(NAME=f"area {i}"), geometry=geojson_geometry(x))
                    for i, x in enumerate(part)]), f)
        files.append(path)
    params = {}
    if case["how"] == "file" and len(files) == 1:
        params["file"] = files[0]
    elif case["how"] == "folder" and case["loader"] != "lut_shapefile":
        params["folder"] = folder
    else:
        params["files"] = files
    if case["name"]:
        params["data_name"] = case["name"]
    if case["agg"]:
        params["aggregate_type"] = case["agg"]
    if "value" in case:
        params["value"] = case["value"]
    return params


def expected_name(case):
    return case["name"] or {"lut_csv": "level", "scotland_ncmpa": "exclusion_zone"}.get(case["loader"], "dummy_data")


def items_of(case, cell, r):
    """[(value, area)] of a cell: each area that meets it, and what lies outside all areas."""
    boxes = boxes_of(cell, r["long_min"])
    out, every = [], []
    for row in case["rows"]:
        rs = rects_of(row)
        every += rs
        area = sum(overlap(x, b) for x in rs for b in boxes)
        if area > 0 or any(touches(x, b) for x in rs for b in boxes):
            out.append((value_of(case, row), area))
    rest = sum((b[1] - b[0]) * (b[3] - b[2]) - union_area(every, b) for b in boxes)
    # the outside meets the cell if it has area in it, or may touch it where an area ends at the cell's edge
    if rest > 0:
        out.append((outside_value(case), rest))
    elif any(meets(s, b) for row in case["rows"] for s in segments(row) for b in boxes) or True:
        out.append((outside_value(case), 0))
    return out


def check_tables(case, ctx):
    r = case["region"]
    params = write_tables(case, ctx.dir)
    name = expected_name(case)
    if case["boundary"] is not None:
        cond = dict(boundary=case["boundary"])
        if case["lock"] is not None:
            cond["split_lock"] = case["lock"]
        params["splitting_conditions"] = [{name: cond}]
    if case["fill"] is not None:
        params["value_fill_types"] = case["fill"]
    loader = case["loader"].upper() if case["case"] else case["loader"]
    cfg = dict(region=dict(r), data_sources=[dict(loader=loader, params=params)],
               splitting=dict(split_depth=case["depth"], minimum_datapoints=1))
    with sut("building the mesh"):
        mesh = json.loads(json.dumps(gen.build_mesh(cfg).to_json()))
    with sut("reading the mesh"):
        cells = geo.read_cells(mesh, r["long_min"])
        by_id = {int(cb["id"]): cb for cb in mesh["cellboxes"]}
    agg = case["agg"] or "MEAN"
    mixed = 0
    for i, cell in cells.items():
        cb = by_id[i]
        require(name in cb, f"cell {i} has no value for {name}: {sorted(cb)}")
        with sut(f"value {cb[name]!r} of cell {i}"):
            got = float(cb[name])
        its = items_of(case, cell, r)
        mixed += sum(1 for v, w in its if w > 0) > 1
        want = aggregates(its, agg)
        if isinstance(want, list) and case["fill"] == -1.5:
            want = [-1.5 if math.isnan(w) else w for w in want]
        judge(got, want, f"cell {i} {cell}, {agg} of {[(v, w) for v, w in its]}")
    # splitting: along the edges of the areas, nowhere else
    cw, ch = r["cell_width"], r["cell_height"]
    splitting = bool(case["boundary"])
    segs = [s for row in case["rows"] for s in segments(row)]
    for i, cell in cells.items():
        depth = round(math.log2(cw / (cell[1] - cell[0])))
        require(depth <= case["depth"], f"cell {i} was split {depth} times")
        boxes = boxes_of(cell, r["long_min"])
        if splitting and depth < case["depth"]:
            for s in segs:
                require(not any(through(s, b) for b in boxes),
                        f"cell {i} {cell} was not split although the edge {s} of an area goes through it")
        if depth:
            size = (2 * (cell[1] - cell[0]), 2 * (cell[3] - cell[2]))
            x0 = math.floor(cell[0] / size[0]) * size[0]
            y0 = r["lat_min"] + math.floor((cell[2] - r["lat_min"]) / size[1]) * size[1]
            pb = boxes_of((x0, x0 + size[0], y0, y0 + size[1]), r["long_min"])
            near = any(meets(s, b) for s in segs for b in pb) or any(
                abs(b[0]) == 180 or abs(b[1]) == 180 or abs(b[2]) == 90 or abs(b[3]) == 90 for b in pb)
            require(splitting and near, f"the cell around {cell} was split although no edge of an area is there")
    ctx.label(case["loader"], agg, gen.region_kind(r), case["how"])
    ctx.nontrivial(mixed >= 1)


# ---- asked directly ----

@st.composite
def direct(draw):
    case = draw(tables(max_cells=4))
    case["loader"] = draw(st.sampled_from(["lut_csv", "lut_csv", "lut_geojson"]))
    case.pop("value", None)
    if case["loader"] == "lut_geojson":
        case["value"] = draw(st.sampled_from([3, True, 1]))
    case["ask"] = draw(st.lists(st.tuples(st.sampled_from(["MEAN", "MIN", "MAX", "STD", "MEDIAN", "mean", "median", "Max"]),
                                          st.booleans()).map(list), min_size=1, max_size=4))
    n = 8
    a, b = sorted(draw(st.lists(st.integers(0, n), min_size=2, max_size=2, unique=True)))
    c, d = sorted(draw(st.lists(st.integers(0, n), min_size=2, max_size=2, unique=True)))
    case["part"] = [a / n, b / n, c / n, d / n]
    return case


def check_direct(case, ctx):
    from meshiphi.dataloaders.factory import DataLoaderFactory
    from meshiphi.mesh_generation.boundary import Boundary
    r = case["region"]
    params = write_tables(case, ctx.dir)
    w, h = gen.region_width(r), r["lat_max"] - r["lat_min"]
    a, b, c, d = case["part"]
    cell = (a * w, b * w, r["lat_min"] + c * h, r["lat_min"] + d * h)
    with sut("making the loader"):
        whole = Boundary([r["lat_min"], r["lat_max"]], [r["long_min"], r["long_max"]], [r["start_time"], r["end_time"]])
        loader = DataLoaderFactory.get_dataloader(case["loader"], whole, params)
        lo, hi = r["long_min"] + cell[0], r["long_min"] + cell[1]
        lo, hi = (lo - 360 if lo >= 180 else lo), (hi - 360 if hi > 180 else hi)
        part = Boundary([cell[2], cell[3]], [lo, hi], [r["start_time"], r["end_time"]])
    its = items_of(case, cell, r)
    for agg, skipna in case["ask"]:
        with sut(f"get_value({agg}, skipna={skipna})"):
            got = loader.get_value(part, agg_type=agg, skipna=skipna)
            require(set(got) == {expected_name(case)}, f"get_value names {set(got)}")
            got = float(got[expected_name(case)])
        judge(got, aggregates(its, agg.upper(), skipna), f"{agg} (skipna={skipna}) of {its}")
    with sut("get_value(COVER)"):
        try:
            loader.get_value(part, agg_type="COVER")
        except ValueError:
            pass
        else:
            raise Violation("an unknown aggregation was accepted")
    defined = [v for v, x in its if x > 0 and not math.isnan(v)]
    ctx.label(case["loader"], *{x.upper() for x, _ in case["ask"]})
    ctx.nontrivial(len(set(defined)) > 1)


# ---- built-in climatologies ----

DENSITY = dict(su=875.0, sp=900.0, au=900.0, wi=920.0)
ROSS = dict(wi=0.72, sp=0.67, su=1.32, au=0.82)
THICKNESS = [((-180, -130, -90, 0), ROSS), ((-130, -60, -90, 0), dict(wi=0.65, sp=0.79, su=2.14, au=0.79)),
             ((-60, -45, -90, 0), dict(wi=1.33, sp=1.33, su=1.20, au=1.38)),
             ((-45, 20, -90, 0), dict(wi=0.54, sp=0.89, su=0.87, au=0.44)),
             ((20, 90, -90, 0), dict(wi=0.59, sp=0.78, su=1.05, au=0.45)),
             ((90, 160, -90, 0), dict(wi=0.72, sp=0.68, su=1.17, au=0.75)), ((160, 180, -90, 0), ROSS),
             ((12, 32, 54, 66), dict(wi=0.3, sp=0.3, su=0.3, au=0.3))]
NORTH = ((-180, 180, 0, 90), ROSS)
SEASON = {12: 0, 1: 0, 2: 0, 3: 1, 4: 1, 5: 1, 6: 2, 7: 2, 8: 2, 9: 3, 10: 3, 11: 3}


def season(month, north):
    return ["wi", "sp", "su", "au"][(SEASON[month] + (0 if north else 2)) % 4]


@st.composite
def climates(draw):
    r = draw(gen.regions(max_cells=6))
    if draw(st.integers(0, 2)) == 0:        # at the limits of the table
        ch = draw(st.sampled_from([2, 5, 7.5]))
        cw = draw(st.sampled_from([5, 10, 2.5]))
        lo = draw(st.sampled_from([-130, -60, -45, 20, 90, 160, 12, 32])) - cw * draw(st.sampled_from([0, 1, 0.5, 1.5]))
        la = draw(st.sampled_from([0, 0, 54, 66])) - ch * draw(st.sampled_from([0, 1, 0.5, 1.5]))
        n = draw(st.integers(1, 3))
        m = draw(st.integers(1, 2))
        if lo + n * cw <= 180 and la + m * ch <= 90:
            r = dict(r, lat_min=gen._n(la), lat_max=gen._n(la + m * ch), long_min=gen._n(lo), long_max=gen._n(lo + n * cw),
                     cell_width=cw, cell_height=ch)
    start = dt.date(2016, 1, 1) + dt.timedelta(days=draw(st.integers(0, 1500)))
    if draw(st.booleans()):                 # around the turn of a season
        start = dt.date(draw(st.integers(2015, 2020)), draw(st.sampled_from([2, 5, 8, 11])), draw(st.integers(20, 28)))
    days = draw(st.sampled_from([0, 1, 5, 12, 20]))
    r = dict(r, start_time=start.isoformat(), end_time=(start + dt.timedelta(days=days)).isoformat())
    return dict(region=r, loader=draw(st.sampled_from(["density", "thickness", "thickness"])),
                name=draw(st.sampled_from([None, None, "ice"])), agg=draw(st.sampled_from([None, "MEAN", "MIN", "MAX", "STD"])))


def check_climate(case, ctx):
    r = case["region"]
    params = {}
    if case["name"]:
        params["data_name"] = case["name"]
    if case["agg"]:
        params["aggregate_type"] = case["agg"]
    cfg = dict(region=dict(r), data_sources=[dict(loader=case["loader"], params=params)],
               splitting=dict(split_depth=0, minimum_datapoints=1))
    with sut("building the mesh"):
        mesh = json.loads(json.dumps(gen.build_mesh(cfg).to_json()))
    with sut("reading the mesh"):
        cells = geo.read_cells(mesh, r["long_min"])
        by_id = {int(cb["id"]): cb for cb in mesh["cellboxes"]}
    name = case["name"] or case["loader"]
    a, b = dt.date.fromisoformat(r["start_time"]), dt.date.fromisoformat(r["end_time"])
    months = [(a + dt.timedelta(days=k)).month for k in range((b - a).days + 1)]
    agg = case["agg"] or "MEAN"
    varied = False
    for i, cell in cells.items():
        require(name in by_id[i], f"cell {i} has no value for {name}: {sorted(by_id[i])}")
        boxes = boxes_of(cell, r["long_min"])
        if case["loader"] == "density":
            zones = [((-180, 180, 0, 90), DENSITY, True), ((-180, 180, -90, 0), DENSITY, False)]
        else:
            zones = [(z, t, z[2] >= 0) for z, t in THICKNESS]
        its = []
        for z, t, north in zones:
            area = sum(overlap(z, x) for x in boxes)
            if area > 0 or any(touches(z, x) for x in boxes):
                its += [(t[season(m, north)], area) for m in months]
        if case["loader"] == "thickness":
            area = sum(overlap(NORTH[0], x) - overlap(THICKNESS[-1][0], x) for x in boxes)
            its += [(NORTH[1][season(m, True)], area) for m in months]
        with sut(f"value of cell {i}"):
            got = float(by_id[i][name])
        judge(got, aggregates(its, agg), f"cell {i} {cell}: {agg} of {case['loader']} from {a} to {b}")
        varied |= len({v for v, w in its if w > 0}) > 1
    ctx.label(case["loader"], agg, gen.region_kind(r))
    ctx.nontrivial(varied)


# ---- areas that hold for some dates, in a loader of one's own ----

DAYS = ["2017-01-30", "2017-01-31", "2017-02-01", "2017-02-03", "2017-02-04"]


@st.composite
def dated(draw):
    r = draw(gen.regions(max_cells=4))
    t0 = draw(st.integers(0, 4))
    r = dict(r, start_time=DAYS[t0], end_time=DAYS[draw(st.integers(t0, 4))])
    rs = draw(rows(r, "own"))
    for row in rs:
        row["dates"] = sorted(set(draw(st.lists(st.sampled_from(DAYS), min_size=1, max_size=3))))
    days = [d for d in DAYS if r["start_time"] <= d <= r["end_time"]]
    asks = []
    for _ in range(draw(st.integers(1, 3))):
        n = 8
        a, b = sorted(draw(st.lists(st.integers(0, n), min_size=2, max_size=2, unique=True)))
        c, d = sorted(draw(st.lists(st.integers(0, n), min_size=2, max_size=2, unique=True)))
        k = draw(st.integers(0, len(days) - 1))
        asks.append(dict(part=[a / n, b / n, c / n, d / n], times=[days[k], days[draw(st.integers(k, len(days) - 1))]],
                         agg=draw(st.sampled_from(["MEAN", "MIN", "MAX", "STD", "MEDIAN"])),
                         cond=draw(st.sampled_from([dict(boundary=True), dict(boundary=False),
                                                    dict(boundary=True, split_lock=True),
                                                    dict(boundary=True, split_lock=False)]))))
    return dict(region=r, rows=rs, asks=asks, undated=draw(st.integers(0, 3)) == 0)


def check_dated(case, ctx):
    import pandas as pd
    from shapely.geometry import shape
    from meshiphi.dataloaders.lut.abstract_lut import LutDataLoader
    from meshiphi.mesh_generation.boundary import Boundary
    r = case["region"]
    recs = [dict(time=d, geometry=shape(geojson_geometry(row)), level=float(row["value"]))
            for row in case["rows"] for d in row["dates"]]
    df = pd.DataFrame(recs)
    if case["undated"]:
        df = df.drop(columns="time")
    else:
        df = df.assign(time=pd.to_datetime(df["time"])).set_index("time").sort_index(kind="stable")

    class Own(LutDataLoader):
        def import_data(self, bounds):
            return df

    w, h = gen.region_width(r), r["lat_max"] - r["lat_min"]
    whole = boxes_of((0, w, r["lat_min"], r["lat_max"]), r["long_min"])
    any_area = any(overlap(x, b) > 0 for row in case["rows"] for x in rects_of(row) for b in whole)
    with sut("making the loader"):
        bounds = Boundary([r["lat_min"], r["lat_max"]], [r["long_min"], r["long_max"]], [r["start_time"], r["end_time"]])
        try:
            loader = Own(bounds, {})
        except ValueError:
            require(not any_area, "a table with areas in the region was refused")
            ctx.label("no area in the region")
            return
    require(any_area, "a table without areas in the region was accepted")
    most = 0
    for ask in case["asks"]:
        a, b, c, d = ask["part"]
        cell = (a * w, b * w, r["lat_min"] + c * h, r["lat_min"] + d * h)
        boxes = boxes_of(cell, r["long_min"])
        its = []
        apply = []
        for row in case["rows"]:
            n = len(row["dates"]) if case["undated"] else sum(ask["times"][0] <= x <= ask["times"][1] for x in row["dates"])
            rs = rects_of(row)
            area = sum(overlap(x, y) for x in rs for y in boxes)
            if n and (area > 0 or any(touches(x, y) for x in rs for y in boxes)):
                its += [(float(row["value"]), area)] * n
                apply.append((row, area))
        what = f"{ask['agg']} of {its} in {cell} from {ask['times'][0]} to {ask['times'][1]}"
        with sut(f"get_value ({what})"):
            lo, hi = r["long_min"] + cell[0], r["long_min"] + cell[1]
            lo, hi = (lo - 360 if lo >= 180 else lo), (hi - 360 if hi > 180 else hi)
            part = Boundary([cell[2], cell[3]], [lo, hi], ask["times"])
            got = loader.get_value(part, agg_type=ask["agg"])
            hom = loader.get_hom_condition(part, dict(ask["cond"]))
            require(set(got) == {"level"}, f"get_value names {set(got)}")
        judge(float(got["level"]), aggregates(its, ask["agg"]), what)
        inner = any(through(s, y) for row, _ in apply for s in segments(row) for y in boxes)
        near = any(meets(s, y) for row, _ in apply for s in segments(row) for y in boxes)
        if not its:
            want = {"HOM" if ask["cond"].get("split_lock") else "CLR"}
        elif not any(x > 0 for _, x in its):
            want = {"CLR", "HOM", "HET"}
        elif not ask["cond"]["boundary"]:
            want = {"CLR"}
        else:
            want = {"HET"} if inner else {"HET", "CLR"} if near else {"CLR"}
        require(hom in want, f"homogeneity {hom}, expected {sorted(want)} with {ask['cond']}: {what}")
        ctx.label(hom)
        most = max(most, len({v for v, x in its if x > 0}))
    ctx.label("undated" if case["undated"] else "dated", gen.region_kind(r))
    ctx.nontrivial(most > 1)


# ---- tables that are not tables of areas ----

@st.composite
def refusals(draw):
    r = draw(gen.regions(max_cells=4))
    return dict(region=r, rows=draw(rows(r, "own")), at=draw(st.integers(0, 5)),
                how=draw(st.sampled_from(["csv", "geojson", "own", "columns", "no geometry", "own geometry"])),
                bad=draw(st.sampled_from(["Point", "LineString", "MultiPoint", "MultiLineString"])))


def check_refusals(case, ctx):
    import pandas as pd
    from shapely.geometry import shape
    from meshiphi.dataloaders.factory import DataLoaderFactory
    from meshiphi.dataloaders.lut.abstract_lut import LutDataLoader
    from meshiphi.mesh_generation.boundary import Boundary
    r, how = case["region"], case["how"]
    w, h = gen.region_width(r), r["lat_max"] - r["lat_min"]
    a = [gen.norm180(r["long_min"] + w / 4), r["lat_min"] + h / 4]
    b = [a[0], r["lat_min"] + h * 3 / 4]
    bad = dict(type=case["bad"], coordinates={"Point": a, "LineString": [a, b], "MultiPoint": [a, b],
                                              "MultiLineString": [[a, b]]}[case["bad"]])
    geoms = [geojson_geometry(x) for x in case["rows"]]
    values = [float(x["value"]) for x in case["rows"]]
    spoiled = how in ("csv", "geojson", "own")
    if spoiled:
        k = min(case["at"], len(geoms))
        geoms, values = geoms[:k] + [bad] + geoms[k:], values[:k] + [1.0] + values[k:]
    with sut("making the boundary"):
        bounds = Boundary([r["lat_min"], r["lat_max"]], [r["long_min"], r["long_max"]], [r["start_time"], r["end_time"]])
    path = os.path.join(ctx.dir, "t.geojson" if how == "geojson" else "t.csv")
    if how == "geojson":
        with open(path, "w") as f:
            json.dump(dict(type="FeatureCollection", features=[dict(type="Feature", properties=dict(NAME="x"), geometry=g)
                                                               for g in geoms]), f)
    else:
        t = dict(geometry=[shape(g).wkt for g in geoms], level=values)
        if how == "columns":
            t["more"] = values
        if how == "no geometry":
            t["area"] = t.pop("geometry")
        pd.DataFrame(t).to_csv(path, index=False)
    class Own(LutDataLoader):
        def import_data(self, bounds):
            return pd.DataFrame(dict(geometry=[shape(g) for g in geoms], level=values))

    refused = False
    with sut(f"reading a table spoiled by {how}"):
        try:
            if how.startswith("own"):
                Own(bounds, {})
            elif how == "geojson":
                DataLoaderFactory.get_dataloader("lut_geojson", bounds, dict(file=path, value=2))
            else:
                DataLoaderFactory.get_dataloader("lut_csv", bounds, dict(file=path))
        except (ValueError, AssertionError):
            refused = True
    require(refused or how == "own geometry", f"a table spoiled by {how} ({case['bad']}) was accepted")
    ctx.label(how, gen.region_kind(r))
    ctx.nontrivial(how != "own geometry")


SUBS = [Sub("tables", tables, check_tables, quick=1200,
            rule="region x 1-5 areas (boxes, L-shapes, boxes with a hole, pairs) in CSV, GeoJSON or shapefiles x "
                 "aggregation x splitting on edges, mesh built end to end; non-trivial = a cell holds two or more areas"),
        Sub("direct", direct, check_direct, quick=1200,
            rule="get_value of a part of the region for every aggregation, either case, with and without gaps; "
                 "non-trivial = two different values in the part"),
        Sub("climate", climates, check_climate, quick=600,
            rule="density and thickness over any region and date range; non-trivial = a cell with several values"),
        Sub("dated", dated, check_dated, quick=1500,
            rule="a look-up table loader of one's own whose areas hold for some dates, asked for parts of the region and "
                 "of the dates, with its verdict on splitting; non-trivial = two different values apply"),
        Sub("refusals", refusals, check_refusals, quick=300,
            rule="tables with a point or line among the areas, a column too many or no geometry column; "
                 "non-trivial = the table is spoiled")]
