"""Vector data: generators and reference model (magnitude extremes, curl, distance from the mean vector)."""
import itertools
import math
import os

from hypothesis import strategies as st

from lib import gen, model

NAN = float("nan")
COMP = {
    "digits": st.integers(-4, 9),
    "floats": st.one_of(st.floats(-50, 50, allow_nan=False).map(lambda x: round(x, 3)), st.integers(-5, 15)),
    "close": st.one_of(st.integers(-40, 90).map(lambda x: round(x * 1e-5, 5)),
                       st.integers(-4, 4).map(lambda x: round(3 + x * 1e-5, 5))),
}


@st.composite
def vectors(draw, kind):
    """[u, v]; a gap is None in both components, rarely in one."""
    if kind == "gaps":
        k = draw(st.integers(0, 7))
        u, v = draw(COMP["digits"]), draw(COMP["digits"])
        return [None, None] if k == 0 else [None, v] if k == 1 else [u, v]
    return [draw(COMP[kind]), draw(COMP[kind])]


@st.composite
def conditions(draw, ties=False):
    """ties: with whole numbers as data, thresholds that the curl or distance may attain exactly."""
    kind = draw(st.sampled_from(["curl", "dmag"]))
    exact = ([0, 0.5, 2, -1] if kind == "curl" else [0]) if ties else []
    c = dict(threshold=draw(st.sampled_from([0.317, 2.317, 4.817, -1.317] + exact)),
             lower_bound=draw(st.sampled_from([0, 0.1, 0.25])), upper_bound=draw(st.sampled_from([1, 0.9, 0.5])))
    if draw(st.booleans()):
        c["split_lock"] = draw(st.booleans())
    return {kind: c}


@st.composite
def vsource(draw, r, name="uC,vC", kinds=("csv", "nc"), fills=True, conds=True, max_n=9, repeats=False):
    numbers = draw(st.sampled_from(["digits", "digits", "floats", "gaps", "gaps", "close"]))
    g = draw(gen.grid_source(r, values=vectors(numbers), res=8, max_n=max_n))
    s = dict(name=name, kind=draw(st.sampled_from(kinds)))
    if s["kind"] == "nc":
        s.update(lats=g["lats"], lons=g["lons"], vals=g["vals"])
        s["order"] = draw(st.sampled_from(["lat,long", "long,lat", "time,lat,long"]))
    else:
        pts = [[la, lo] + g["vals"][i][j] for i, la in enumerate(g["lats"]) for j, lo in enumerate(g["lons"])]
        if draw(st.booleans()):
            keep = draw(st.lists(st.integers(0, 3), min_size=len(pts), max_size=len(pts)))
            pts = [p for p, k in zip(pts, keep) if k] or pts[:1]
        pts = draw(st.permutations(pts))
        s["points"] = [list(p) for p in pts]
        s["files"] = min(len(pts), draw(st.sampled_from([1, 1, 2, 3])))
    s["agg"] = draw(st.sampled_from(["MEAN", "MIN", "MAX", "STD", "COUNT"]))
    s["conds"] = [draw(conditions(numbers in ("digits", "gaps"))) for _ in range(draw(st.sampled_from([1, 0, 2])))] if conds else []
    if repeats and s["kind"] == "csv" and not any("curl" in c for c in s["conds"]):
        # the same record again, or another vector at the same place (the curl needs one vector per place)
        for k in draw(st.lists(st.integers(0, 200), max_size=3)):
            la, lo, a, b = s["points"][k % len(s["points"])]
            s["points"].append([la, lo, a, b] if k % 3 else [la, lo, b, a])
    if fills:
        s["fill"] = draw(st.sampled_from([None, "parent", "Nan", 0, -1.5]))
    return s


@st.composite
def cases(draw, max_sources=2, max_depth=2, max_cells=8, **kw):
    r = draw(gen.regions(max_cells=max_cells, max_cols=4, max_rows=3))
    names = draw(st.sampled_from([["uC,vC", "uA,vA"], ["uC,vC", "uC,vC"], ["uC,vC", "uA,vC"], ["vN,uE", "uA,vA"]]))
    srcs = [draw(vsource(r, names[i], repeats=True, **kw)) for i in range(draw(st.integers(1, max_sources)))]
    return dict(region=r, depth=draw(st.sampled_from([2, 1, 0])) if max_depth >= 2 else max_depth, min_dp=draw(st.sampled_from([1, 2, 0, 4])), sources=srcs)


@st.composite
def mixed(draw, max_depth=3, max_cells=8):
    """Scalar and vector sources in any order, at least one of each."""
    r = draw(gen.regions(max_cells=max_cells, max_cols=4, max_rows=3))
    srcs = []
    for k, i in enumerate(draw(st.permutations([0, 1] + [draw(st.integers(0, 1))] * draw(st.integers(0, 1))))):
        if i:
            srcs.append(draw(vsource(r, ["uC,vC", "uA,vA", "vB,uB"][k], fills=False, repeats=True)))
        else:
            srcs.append(draw(gen.source(r, "abc"[k], kinds=("csv", "csv", "nc"), values=("digits", "gaps"), min_conds=0,
                                        times=True)))
    return dict(region=r, depth=draw(st.sampled_from([d for d in (2, 1, 3) if d <= max_depth])),
                min_dp=draw(st.sampled_from([1, 2, 0, 3, 5])), sources=srcs)


# ---- writing ----

def write_csvs(d, i, s):
    """The points, dealt over s['files'] files, in order."""
    u, v = s["name"].split(",")
    n = s.get("files", 1)
    paths = []
    for k in range(n):
        path = os.path.join(d, f"vec{i}_{k}.csv")
        chunk = s["points"][k::n]
        with open(path, "w") as f:
            f.write(f"lat,long,{u},{v}\n")
            for la, lo, a, b in chunk:
                f.write(",".join([repr(la), repr(lo)] + ["" if x is None else repr(x) for x in (a, b)]) + "\n")
        paths.append(path)
    return paths


def dataset(s, names, lat="lat", lon="long"):
    import numpy as np
    import xarray as xr
    arr = np.array([[[NAN if x is None else x for x in vec] for vec in row] for row in s["vals"]], dtype=float)
    order = s.get("order", "lat,long")
    dv = {}
    for k, n in enumerate(names):
        a = arr[:, :, k]
        if order == "long,lat":
            dv[n] = ((lon, lat), a.T.copy())
        elif order == "time,lat,long":
            dv[n] = (("time", lat, lon), a[None].copy())
        else:
            dv[n] = ((lat, lon), a.copy())
    coords = {lat: np.array(s["lats"], dtype=float), lon: np.array(s["lons"], dtype=float)}
    if order == "time,lat,long":
        coords["time"] = np.array([s.get("date", "2017-01-01")], dtype="datetime64[ns]")
    return xr.Dataset(dv, coords=coords)


def frame(s):
    import pandas as pd
    u, v = s["name"].split(",")
    rows = s["points"] if s["kind"] == "csv" else \
        [[la, lo] + s["vals"][i][j] for i, la in enumerate(s["lats"]) for j, lo in enumerate(s["lons"])]
    return pd.DataFrame({"lat": [float(p[0]) for p in rows], "long": [float(p[1]) for p in rows],
                         u: [NAN if p[2] is None else float(p[2]) for p in rows],
                         v: [NAN if p[3] is None else float(p[3]) for p in rows]})


def make_config(case, d):
    out = []
    r = case["region"]
    for i, s in enumerate(case["sources"]):
        if not is_vector(s):
            out += gen.make_config(dict(case, sources=[s]), d, i)["data_sources"]
            continue
        p = dict(data_name=s["name"], aggregate_type=s["agg"])
        if s["kind"] == "csv":
            paths = write_csvs(d, i, s)
            p.update({"file": paths[0]} if len(paths) == 1 else {"files": paths})
            loader = "vector_csv"
        else:
            date = r["start_time"]
            path = os.path.join(d, f"duacs_nrt{i}{date}.nc")       # the loader reads the date after ten characters
            dataset(dict(s, date=date), ["ugos", "vgos"], "latitude", "longitude").to_netcdf(path)
            p["file"] = path
            loader = "duacs_currents"
        if s["conds"]:
            p["splitting_conditions"] = [{s["name"]: {k: dict(c) for k, c in cond.items()}} for cond in s["conds"]]
        if s.get("fill") is not None:
            p["value_fill_types"] = s["fill"]
        out.append(dict(loader=loader, params=p))
    return dict(region=dict(r), data_sources=out,
                splitting=dict(split_depth=case["depth"], minimum_datapoints=case["min_dp"]))


# ---- model ----

def vpoints(s, r):
    """[(x, lat, (u, v))]"""
    pts = [(p[1], p[0], (p[2], p[3])) for p in s["points"]] if s["kind"] == "csv" else \
        [(lo, la, tuple(s["vals"][i][j])) for i, la in enumerate(s["lats"]) for j, lo in enumerate(s["lons"])]
    w = gen.region_width(r)
    out = []
    for lo, la, v in pts:
        x = (lo - r["long_min"]) % 360
        out.append((360 if w == 360 and x == 0 else x, la, v))
    return out


def fl(x):
    return NAN if x is None else float(x)


def _gradient(line):
    n = len(line)
    out = []
    for i in range(n):
        if i == 0:
            out.append(line[1] - line[0])
        elif i == n - 1:
            out.append(line[-1] - line[-2])
        else:
            out.append((line[i + 1] - line[i - 1]) / 2)
    return out


def curl(pts):
    """dv/dx - du/dy by finite differences over the lattice of the points' coordinates -> list, [] if impossible."""
    # the order along x is that of longitudes as stored
    xs, ys = sorted({p[0] for p in pts}), sorted({p[1] for p in pts})
    if len(xs) < 2 or len(ys) < 2:
        return []
    at = {(p[0], p[1]): p[2] for p in pts}
    u = [[fl(at.get((x, y), (None, None))[0]) for y in ys] for x in xs]
    v = [[fl(at.get((x, y), (None, None))[1]) for y in ys] for x in xs]
    dudy = [_gradient(row) for row in u]
    dvdx = list(zip(*[_gradient([v[i][j] for i in range(len(xs))]) for j in range(len(ys))]))
    return [dvdx[i][j] - dudy[i][j] for i in range(len(xs)) for j in range(len(ys))]


def dmag(pts):
    if not pts:
        return []
    mu = [model.agg([p[2][k] for p in pts], "MEAN", True) for k in (0, 1)]
    return [math.hypot(fl(p[2][0]) - mu[0], fl(p[2][1]) - mu[1]) for p in pts]


def hom(pts, cond, min_dp, gridded):
    n = sum(1 for p in pts if None not in p[2]) if gridded else len(pts)
    if n < min_dp:
        return "CLR"
    (kind, c), = cond.items()
    flow = [f for f in (curl(pts) if kind == "curl" else dmag(pts)) if not math.isnan(f)]
    if not flow:
        return "CLR"
    frac = sum(f > c["threshold"] for f in flow) / len(flow)
    if frac <= c["lower_bound"]:
        return "CLR"
    if frac >= c["upper_bound"]:
        return "HOM" if c.get("split_lock") else "CLR"
    return "HET"


def agg_options(pts, how, gridded):
    """The acceptable (u, v) aggregates: several when vectors tie for the extreme; None where unspecified."""
    if how in ("MIN", "MAX"):
        full = [(fl(p[2][0]), fl(p[2][1])) for p in pts if None not in p[2]]
        if not full:
            return [(NAN, NAN)]
        mags = [math.hypot(*v) for v in full]
        best = min(mags) if how == "MIN" else max(mags)
        return [v for v, m in zip(full, mags) if math.isclose(m, best, rel_tol=1e-12, abs_tol=1e-12)]
    if gridded and how != "COUNT" and not any(None not in p[2] for p in pts):
        if any(x is not None for p in pts for x in p[2]):
            return None             # components without a single complete vector: not specified
    return [tuple(model.agg([p[2][k] for p in pts], how, gridded) for k in (0, 1))]


def is_vector(s):
    return "," in s["name"]


def should_split(cell, sources, upto, min_dp):
    got = [hom(cell.pts[i], c, min_dp, sources[i]["kind"] == "nc") if is_vector(sources[i]) else
           model.hom(cell.vals(i), c, min_dp) for i in range(upto + 1) for c in sources[i]["conds"]]
    return "HOM" not in got and "HET" in got


def build(case):
    r, sources = case["region"], case["sources"]
    pts = [vpoints(s, r) if is_vector(s) else model.src_points(s, r) for s in sources]
    cw, ch = r["cell_width"], r["cell_height"]
    leaves = []

    def process(cell, s0):
        if cell.depth < case["depth"]:
            for s in range(s0, len(sources)):
                if sources[s]["conds"] and should_split(cell, sources, s, case["min_dp"]):
                    x0, x1, y0, y1 = cell.box
                    xm, ym = (x0 + x1) / 2, (y0 + y1) / 2
                    for b in ((x0, xm, y0, ym), (xm, x1, y0, ym), (x0, xm, ym, y1), (xm, x1, ym, y1)):
                        process(model.Cell(b, cell.depth + 1, cell, cell.pts), s)
                    return
        leaves.append(cell)

    for j, i in itertools.product(range(int(round((r["lat_max"] - r["lat_min"]) / ch))),
                                  range(int(round(gen.region_width(r) / cw)))):
        y = r["lat_min"] + j * ch
        process(model.Cell((i * cw, (i + 1) * cw, y, y + ch), 0, None, pts), 0)
    return leaves


def component_options(cell, i, s, k):
    """Acceptable values of component k in a leaf after filling, or None if unspecified."""
    grid = s["kind"] == "nc"
    c = cell
    while True:
        o = agg_options(c.pts[i], s["agg"], grid)
        if o is None:
            return None
        vals = [v[k] for v in o]
        if not math.isnan(vals[0]):
            return vals
        if s.get("fill") in (None, "parent"):
            if c.parent is None:
                return [NAN]
            c = c.parent
        else:
            return [float(s["fill"])]
