"""C16: what a scalar loader answers depends on the data inside the bounds only, not on how they are held or asked."""
import copy
import json
import math

from hypothesis import strategies as st

from checks.c04 import close
from lib import gen, geo, model
from lib.harness import Sub, Violation, require, sut

PROPERTY = "C16"
ASSUMPTIONS = ["coordinates are multiples of 1/4 degree over a power of two; no datum at longitude -180 on an edge of a box",
               "STD of tables is the sample, of grids the population standard deviation",
               "without skipping gaps, an aggregate over any gap is a gap"]
NAN = float("nan")
DAYS = ["2017-01-01", "2017-01-02", "2017-01-03", "2017-01-05"]


@st.composite
def grids(draw):
    """A grid of data over (and around) a region, perhaps several dates, perhaps with gaps."""
    r = draw(gen.regions(max_cells=6))
    g = draw(gen.grid_source(r, values=gen.VALUES[draw(st.sampled_from(["digits", "floats", "gaps"]))], max_n=7))
    times = sorted(set(draw(st.lists(st.sampled_from(DAYS), min_size=1, max_size=3)))) if draw(st.booleans()) else None
    clock = draw(st.sampled_from(["", "", " 12:00:00"]))
    times = times and [t + clock for t in times]
    layers = [g["vals"]]
    for _ in (times or [])[1:]:
        n = len(g["lats"]) * len(g["lons"])
        flat = draw(st.lists(st.integers(-3, 9), min_size=n, max_size=n))
        m = len(g["lons"])
        layers.append([flat[i * m:(i + 1) * m] for i in range(len(g["lats"]))])
    t0 = draw(st.integers(0, 3))
    r = dict(r, start_time=DAYS[t0], end_time=DAYS[draw(st.integers(t0, 3))])
    return dict(region=r, lats=g["lats"], lons=g["lons"], times=times, layers=layers)


def frames(case):
    """The same data as a table and as a grid."""
    import numpy as np
    import pandas as pd
    import xarray as xr
    rows = []
    for k, layer in enumerate(case["layers"]):
        for i, la in enumerate(case["lats"]):
            for j, lo in enumerate(case["lons"]):
                v = layer[i][j]
                row = dict(lat=float(la), long=float(lo), v=math.nan if v is None else float(v))
                if case["times"]:
                    row["time"] = case["times"][k]
                rows.append(row)
    df = pd.DataFrame(rows)
    arr = np.array([[[math.nan if v is None else float(v) for v in line] for line in layer] for layer in case["layers"]])
    coords = dict(lat=np.array(case["lats"], dtype=float), long=np.array(case["lons"], dtype=float))
    if case["times"]:
        ds = xr.Dataset(dict(v=(("time", "lat", "long"), arr)), coords=dict(coords, time=pd.to_datetime(case["times"])))
    else:
        ds = xr.Dataset(dict(v=(("lat", "long"), arr[0])), coords=coords)
    return df, ds


def loader_class(data):
    from meshiphi.dataloaders.scalar.abstract_scalar import ScalarDataLoader

    class Given(ScalarDataLoader):
        def import_data(self, bounds):
            return data.copy()
    return Given


def boundary(r, part=(0, 1, 0, 1), times=None):
    from meshiphi.mesh_generation.boundary import Boundary
    w, h = gen.region_width(r), r["lat_max"] - r["lat_min"]
    lo, hi = r["long_min"] + part[0] * w, r["long_min"] + part[1] * w
    lo, hi = (lo - 360 if lo >= 180 else lo), (hi - 360 if hi > 180 else hi)
    return Boundary([r["lat_min"] + part[2] * h, r["lat_min"] + part[3] * h], [lo, hi],
                    list(times or [r["start_time"], r["end_time"]]))


def inside(case, part, times):
    """Values (None for gaps) within a part of the region and a time range."""
    r = case["region"]
    w, h = gen.region_width(r), r["lat_max"] - r["lat_min"]
    x0, x1 = part[0] * w, part[1] * w
    y0, y1 = r["lat_min"] + part[2] * h, r["lat_min"] + part[3] * h
    out = []
    for k, layer in enumerate(case["layers"]):
        if case["times"] and not times[0] <= case["times"][k][:10] <= times[1]:
            continue
        for i, la in enumerate(case["lats"]):
            for j, lo in enumerate(case["lons"]):
                x = (lo - r["long_min"]) % 360
                if x == 0 and w == 360:
                    x = 360
                if y0 < la <= y1 and x0 < x <= x1:
                    out.append(layer[i][j])
    return out


@st.composite
def parts(draw, n=8):
    a, b = sorted(draw(st.lists(st.integers(0, n), min_size=2, max_size=2, unique=True)))
    c, d = sorted(draw(st.lists(st.integers(0, n), min_size=2, max_size=2, unique=True)))
    return [a / n, b / n, c / n, d / n]


@st.composite
def twins(draw):
    case = draw(grids())
    r = case["region"]
    days = [d for d in DAYS if r["start_time"] <= d <= r["end_time"]]
    asks = []
    for _ in range(draw(st.integers(1, 4))):
        t0 = draw(st.integers(0, len(days) - 1))
        asks.append(dict(part=draw(parts()), times=[days[t0], days[draw(st.integers(t0, len(days) - 1))]],
                         agg=draw(st.sampled_from(gen.AGGS + ["mean", "max", "Count", "std"])),
                         skipna=draw(st.sampled_from([None, True, False])), cond=draw(gen.conditions())))
    return dict(case, asks=asks, min_dp=draw(st.sampled_from([0, 1, 3, 5])), name=draw(st.sampled_from([None, "w"])),
                agg=draw(st.sampled_from(gen.AGGS + ["min"])))


def expected(vals, agg, skipna, gridded):
    agg = agg.upper()
    if skipna is False and any(v is None for v in vals):
        return float(len(vals)) if agg == "COUNT" else NAN
    return model.agg(vals, agg, gridded)


def check_twins(case, ctx):
    r = case["region"]
    df, ds = frames(case)
    name = case["name"] or "v"
    most = 0
    for gridded, data in ((False, df), (True, ds)):
        kind = "grid" if gridded else "table"
        params = dict(min_dp=case["min_dp"], aggregate_type=case["agg"])
        if case["name"]:
            params["data_name"] = case["name"]
        with sut(f"making a loader ({kind})"):
            loader = loader_class(data)(boundary(r), params)
            require(loader.data_name == name, f"{kind}: the data are called {loader.data_name}, expected {name}")
        for ask in case["asks"]:
            vals = inside(case, ask["part"], ask["times"])
            most = max(most, len(vals))
            what = f"{kind}, part {ask['part']}, dates {ask['times']}, data {vals[:6]}"
            scale = max([1.0] + [abs(v) for v in vals if v is not None])
            kw = {} if ask["skipna"] is None else dict(skipna=ask["skipna"])
            with sut(f"get_value({what})"):
                b = boundary(r, ask["part"], ask["times"])
                first = loader.get_value(b, agg_type=ask["agg"], **kw)
                cond = dict(ask["cond"])
                hom = loader.get_hom_condition(b, cond)
                again = loader.get_value(b, agg_type=ask["agg"], **kw)
                default = loader.get_value(b)
                sub = loader.get_value(b, agg_type=ask["agg"], data=loader.trim_datapoints(b), **kw)
                require(set(first) == {name}, f"get_value names {set(first)}")
                got = [float(x[name]) for x in (first, again, sub)]
            want = expected(vals, ask["agg"], ask["skipna"], gridded)
            for g in got:
                require(close(g, want, scale), f"{ask['agg']} (skipna={ask['skipna']}) is {g}, expected {want}: {what}")
            want = expected(vals, case["agg"], None, gridded)
            require(close(float(default[name]), want, scale), f"default {case['agg']} is {default}, expected {want}: {what}")
            wanted = model.hom(vals, ask["cond"], case["min_dp"])
            require(hom == wanted, f"homogeneity {hom}, expected {wanted} for {ask['cond']}: {what}")
            # a part and its quarters hold the same data
            p = ask["part"]
            mx, my = (p[0] + p[1]) / 2, (p[2] + p[3]) / 2
            with sut("get_value of quarters"):
                n = sum(loader.get_value(boundary(r, q, ask["times"]), agg_type="COUNT", skipna=False)[name] for q in
                        ([p[0], mx, p[2], my], [mx, p[1], p[2], my], [p[0], mx, my, p[3]], [mx, p[1], my, p[3]]))
            require(n == len(vals), f"the quarters hold {n} data, the whole {len(vals)}: {what}")
        with sut("asking for an unknown aggregation"):
            if inside(case, [0, 1, 0, 1], [r["start_time"], r["end_time"]]).count(None) == 0 and most:
                try:
                    got = loader.get_value(boundary(r, case["asks"][0]["part"], case["asks"][0]["times"]), agg_type="SUM")
                    require(math.isnan(float(got[name])), "an unknown aggregation was accepted")
                except ValueError:
                    pass
    ctx.label(gen.region_kind(r), "dated" if case["times"] else "undated", *{a["agg"].upper() for a in case["asks"]})
    ctx.nontrivial(most > 2)


# ---- downsampling ----

@st.composite
def coarse(draw):
    case = draw(grids())
    if draw(st.integers(0, 2)):
        case["layers"] = [[[4 if v is None else v for v in line] for line in layer] for layer in case["layers"]]
    return dict(case, factors=draw(st.sampled_from([[2, 1], [1, 2], [2, 2], [3, 2], [2, 3], [4, 4], [5, 1]])),
                agg=draw(st.sampled_from(["MIN", "MAX", "MEAN", "MEDIAN", "STD", "COUNT", "mean"])),
                part=draw(st.one_of(st.just([0, 1, 0, 1]), parts())),
                table=draw(st.integers(0, 4)) == 0)


def bins(xs, n):
    return [list(range(i, min(i + n, len(xs)))) for i in range(0, len(xs), n)]


def check_coarse(case, ctx):
    r = case["region"]
    df, ds = frames(case)
    nx, ny = case["factors"]
    with sut("making a loader"):
        loader = loader_class(df if case["table"] else ds)(
            boundary(r), dict(downsample_factors=list(case["factors"]), aggregate_type=case["agg"]))
        got = float(loader.get_value(boundary(r, case["part"]))["v"])
    agg = case["agg"].upper()
    if case["table"]:       # tables are never downsampled
        small = dict(case)
    else:
        small = dict(case, lats=[], lons=[], layers=[])
        by, bx = bins(case["lats"], ny), bins(case["lons"], nx)
        if agg == "COUNT":
            by, bx = [b[:1] for b in by], [b[:1] for b in bx]
        small["lats"] = [math.fsum(case["lats"][i] for i in b) / len(b) for b in by]
        small["lons"] = [math.fsum(case["lons"][i] for i in b) / len(b) for b in bx]
        for layer in case["layers"]:
            if agg == "COUNT":
                small["layers"].append([[layer[b[0]][c[0]] for c in bx] for b in by])
            else:
                out = []
                for b in by:
                    line = []
                    for c in bx:
                        v = model.agg([layer[i][j] for i in b for j in c], agg, True)
                        line.append(None if math.isnan(v) else v)
                    out.append(line)
                small["layers"].append(out)
    vals = inside(small, case["part"], [r["start_time"], r["end_time"]])
    want = model.agg(vals, agg, not case["table"])
    # a bin's centre within rounding of the part's edge may be on either side
    require(close(got, want, 1e3), f"{agg} of data downsampled by {case['factors']} is {got}, expected {want} from "
            f"{len(vals)} data {vals[:6]}")
    ctx.label(agg, f"{nx}x{ny}", "table" if case["table"] else "grid")
    ctx.nontrivial(len(vals) > 1 and not case["table"])


# ---- a loader of one's own in a mesh, against the same data in a file ----

@st.composite
def own(draw):
    case = draw(gen.mesh_cases(max_sources=3, max_depth=2, max_cells=8, kinds=("csv",), values=("digits", "gaps"),
                               aggs=gen.AGGS, fills=True))
    case["gridded"] = False
    case["first"] = draw(st.integers(0, len(case["sources"]) - 1))      # the sources before it are in the configuration
    case["plain"] = draw(st.integers(0, 3)) == 0        # minimum of data left at its default of 5
    if case["plain"]:
        case["min_dp"] = 5
    case["bounds"] = draw(st.booleans())
    return case


def check_own(case, ctx):
    import pandas as pd
    from meshiphi.mesh_generation.mesh_builder import MeshBuilder
    cfg = gen.make_config(case, ctx.dir)
    bare = copy.deepcopy(cfg)
    with sut("building from the configuration"):
        ref = json.loads(json.dumps(gen.build_mesh(cfg).to_json()))
    added = bare["data_sources"][case["first"]:]
    bare["data_sources"] = bare["data_sources"][:case["first"]]
    with sut("building with a loader of one's own"), gen.quiet():
        builder = MeshBuilder(bare)
        for src, conf in zip(case["sources"][case["first"]:], added):
            df = pd.DataFrame([dict(lat=float(a), long=float(b), v=math.nan if v is None else float(v))
                               for a, b, v in src["points"]], columns=["lat", "long", "v"])
            params = dict(conf["params"])
            for k in ("file", "files", "folder"):
                params.pop(k, None)
            more = dict(bounds=boundary(case["region"])) if case["bounds"] else {}
            if not case["plain"]:
                params["min_dp"] = more["min_dp"] = case["min_dp"]
            out = builder.add_dataloader(loader_class(df), params, **more)
            require(out is builder, "add_dataloader does not return the builder")
        got = json.loads(json.dumps(builder.build_environmental_mesh().to_json()))
    with sut("comparing"):
        a = {int(cb["id"]): cb for cb in ref["cellboxes"]}
        b = {int(cb["id"]): cb for cb in got["cellboxes"]}
    names = {s["name"] for s in case["sources"]}
    require(set(a) == set(b), f"cells differ: {sorted(set(a) ^ set(b))[:6]}")
    for i in a:
        require(set(a[i]) == set(b[i]), f"cell {i}: {sorted(a[i])} from the file, {sorted(b[i])} from the loader")
        for k in a[i]:
            same = a[i][k] == b[i][k] or (k in names and close(a[i][k], b[i][k], 10))
            require(same, f"cell {i}: {k} is {a[i][k]} from the file, {b[i][k]} from the loader")
    require(ref["neighbour_graph"] == got["neighbour_graph"], "neighbour graphs differ")
    ctx.label(gen.region_kind(case["region"]), f"{case['first']} in the file, {len(added)} added")
    ctx.nontrivial(len(a) > 4)


# ---- tables in another projection ----

@st.composite
def projected(draw):
    north = draw(st.booleans())
    lat = draw(st.integers(55, 80))
    lo = draw(st.integers(-180, 170))
    r = dict(lat_min=lat if north else -lat - 8, lat_max=lat + 8 if north else -lat, long_min=lo,
             long_max=lo + 20 if lo <= 160 else lo - 340, start_time="2017-01-01", end_time="2017-01-03",
             cell_width=20, cell_height=8)
    pts = draw(st.lists(st.tuples(st.integers(-20, 120), st.integers(-20, 120), st.integers(0, 9)).map(list), min_size=1,
                        max_size=8))
    return dict(region=r, north=north, pts=pts, part=draw(parts()), agg=draw(st.sampled_from(["MEAN", "COUNT", "MAX"])))


def check_projected(case, ctx):
    import pandas as pd
    import pyproj
    r = case["region"]
    epsg = 3995 if case["north"] else 3031
    fwd = pyproj.Transformer.from_crs(4326, epsg, always_xy=True)
    rows, vals = [], []
    p = case["part"]
    for fx, fy, v in case["pts"]:
        fx, fy = (fx + 0.37) / 100, (fy + 0.37) / 100        # never on an edge
        la = r["lat_min"] + fy * 8
        if abs(la) > 89.5:
            continue
        x, y = fwd.transform(gen.norm180(r["long_min"] + fx * 20), la)
        rows.append(dict(x=x, y=y, v=float(v)))
        if p[0] < fx < p[1] and p[2] < fy < p[3]:
            vals.append(v)
    if not rows:
        return
    with sut("making a loader of projected data"):
        loader = loader_class(pd.DataFrame(rows))(boundary(r), dict(in_proj=f"EPSG:{epsg}", x_col="x", y_col="y"))
        got = float(loader.get_value(boundary(r, p), agg_type=case["agg"])["v"])
    want = model.agg(vals, case["agg"], False)
    require(close(got, want, 10), f"{case['agg']} is {got}, expected {want} of {vals}")
    ctx.nontrivial(bool(vals))


SUBS = [Sub("twins", twins, check_twins, quick=1600,
            rule="the same data, with gaps and dates, held as a table and as a grid by a loader of one's own; parts of the "
                 "region x aggregation x gaps skipped or not x homogeneity condition, each asked several ways; "
                 "non-trivial = three or more data in a part"),
        Sub("coarse", coarse, check_coarse, quick=1600,
            rule="grids downsampled by factors per axis, every aggregation; non-trivial = two or more coarse data asked for"),
        Sub("own", own, check_own, quick=500,
            rule="a loader of one's own added to a builder against the same data in a CSV file; non-trivial = more than 4 cells"),
        Sub("projected", projected, check_projected, quick=400,
            rule="tables in polar stereographic coordinates; non-trivial = some datum inside the part asked for")]
