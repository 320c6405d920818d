"""C09: vector data: cells split on curl / distance from the mean, values are whole-vector aggregates per component."""
import json
import math

from hypothesis import strategies as st

from checks.c04 import close
from lib import gen, geo, vec
from lib.harness import Sub, Violation, require, sut

PROPERTY = "C09"
ASSUMPTIONS = ["region edges and cell sizes are exactly representable", "no datum at longitude -180 exactly",
               "curl conditions: at most one datum per coordinate pair", "values agree to 1e-9 relative"]


def check_mesh(case, ctx):
    r = case["region"]
    cfg = vec.make_config(case, ctx.dir)
    with sut("building the mesh"):
        mesh = json.loads(json.dumps(gen.build_mesh(cfg).to_json()))
    with sut("reading the mesh"):
        cells = geo.read_cells(mesh, r["long_min"])
        by_box = {tuple(float(x) for x in cells[int(cb["id"])]): cb for cb in mesh["cellboxes"]}
    leaves = vec.build(case)
    want = {tuple(float(x) for x in leaf.box) for leaf in leaves}
    if want != set(by_box):
        raise Violation(f"cells expected but missing: {sorted(want - set(by_box))[:4]}, unexpected: "
                        f"{sorted(set(by_box) - want)[:4]}")
    for leaf in leaves:
        cb = by_box[tuple(float(x) for x in leaf.box)]
        exp = {}            # name -> list of acceptable values | None
        for i, s in enumerate(case["sources"]):
            for k, n in enumerate(s["name"].split(",")):
                if n in exp and exp[n] is None:
                    continue
                if n not in exp or math.isnan(exp[n][0]):
                    exp[n] = vec.component_options(leaf, i, s, k)
        for n, opts in exp.items():
            require(n in cb, f"cell {cb['id']} has no value for {n}")
            if opts is None:
                continue
            with sut(f"value {cb[n]!r} of cell {cb['id']}"):
                got = float(cb[n])
            if not any(close(got, o, 50) for o in opts):
                raise Violation(f"cell {cb['id']} {leaf.box}: {n} is {got}, expected {opts}")
        s = case["sources"][0]
        names = s["name"].split(",")
        o = vec.agg_options(leaf.pts[0], s["agg"], s["kind"] == "nc")
        if o and not any(math.isnan(x) for x in o[0]):      # both components of one and the same vector
            got = tuple(float(cb[n]) for n in names)
            if not any(close(got[0], x[0], 50) and close(got[1], x[1], 50) for x in o):
                raise Violation(f"cell {cb['id']} {leaf.box}: ({names}) is {got}, expected one of {o}")
    deep = max(leaf.depth for leaf in leaves)
    ctx.label(gen.region_kind(r), f"depth {deep}", *{s["agg"] for s in case["sources"]},
              *{f"{s['kind']} {k}" for s in case["sources"] for c in s["conds"] for k in c})
    ctx.nontrivial(any(len(leaf.pts[0]) > 1 for leaf in leaves))


# ---- the loader's own API ----

def user_loader():
    from meshiphi.dataloaders.vector.abstract_vector import VectorDataLoader

    class UserVector(VectorDataLoader):
        def import_data(self, bounds):
            return self.given
    return UserVector


@st.composite
def direct_cases(draw):
    r = draw(gen.regions(kinds=("plain", "anti"), max_cells=4, max_cols=2, max_rows=2))
    s = draw(vec.vsource(r, draw(st.sampled_from(["uC,vC", "vN,uE"])), fills=False, conds=False))
    # a sub-box of the region, on the lattice
    nx, ny = gen._lattice(r, 8)
    x0 = draw(st.integers(0, nx - 1))
    x1 = draw(st.integers(x0 + 1, nx))
    y0 = draw(st.integers(0, ny - 1))
    y1 = draw(st.integers(y0 + 1, ny))
    if draw(st.integers(0, 2)) == 0:
        x0, x1, y0, y1 = 0, nx, 0, ny
    return dict(region=r, source=s, box=[x0, x1, y0, y1], agg=draw(st.sampled_from(["MEAN", "MIN", "MAX", "STD", "COUNT"])),
                lower=draw(st.booleans()), rename=draw(st.booleans()), given=draw(st.booleans()),
                cond=draw(vec.conditions()), min_dp=draw(st.sampled_from([1, 2, 5])))


def check_direct(case, ctx):
    from meshiphi.mesh_generation.boundary import Boundary
    r, s = case["region"], case["source"]
    u, v = s["name"].split(",")
    grid = s["kind"] == "nc"
    data = vec.dataset(dict(s, date=r["start_time"]), [u, v]) if grid else vec.frame(s)
    names = ["p", "q"] if case["rename"] else [u, v]
    times = [r["start_time"], r["end_time"]]
    with sut("making the loader"):
        whole = Boundary([r["lat_min"], r["lat_max"]], [r["long_min"], r["long_max"]], times)
        params = dict(given=data, min_dp=case["min_dp"])
        if case["rename"]:
            params["data_name"] = "p,q"
        ld = user_loader()(whole, params)
    x0, x1, y0, y1 = case["box"]
    sx, sy = r["cell_width"] / 8, r["cell_height"] / 8
    bx0, bx1, by0, by1 = x0 * sx, x1 * sx, r["lat_min"] + y0 * sy, r["lat_min"] + y1 * sy
    w = gen.lon_of(r, bx0)
    with sut("making the boundary"):
        b = Boundary([by0, by1], [w, gen.lon_of(r, bx1)], times)
    pts = [p for p in vec.vpoints(s, r) if bx0 < p[0] <= bx1 and by0 < p[1] <= by1]
    how = case["agg"].lower() if case["lower"] else case["agg"]
    with sut(f"get_value {how}"):
        got = ld.get_value(b, agg_type=how)
    require(list(got) == names, f"get_value names {list(got)}, expected {names}")
    opts = vec.agg_options(pts, case["agg"], grid)
    g = tuple(float(got[n]) for n in names)
    if opts is not None and not any(close(g[0], o[0], 50) and close(g[1], o[1], 50) for o in opts):
        raise Violation(f"get_value({case['agg']}) is {g}, expected {opts[:4]} of {len(pts)} vectors")
    with sut("MEDIAN of vectors"):
        try:
            ld.get_value(b, agg_type="MEDIAN")
            refused = False
        except ValueError:
            refused = True
    require(refused or not any(None not in p[2] for p in pts), "MEDIAN of vectors was not refused")
    # magnitude and direction
    with sut("trim_datapoints"):
        sub = ld.trim_datapoints(b)
        df = (sub.to_dataframe().reset_index() if grid else sub)[["lat", "long", *names, "_magnitude", "_direction"]]
    rows = {(float(t[0]), float(t[1]) % 360): t[2:] for t in df.itertuples(index=False)}
    require(len(rows) == len(df) == len(pts), f"{len(df)} vectors selected, {len(pts)} are inside")
    for x, la, (a, c) in pts:
        t = rows.get((float(la), float(r["long_min"] + x) % 360))
        require(t is not None, f"vector at ({la}, {x}) not selected")
        a, c = vec.fl(a), vec.fl(c)
        exp = (a, c, math.hypot(a, c), math.atan2(c, a) if not math.isnan(a + c) else math.nan)
        if not all(close(m, n, 50) for m, n in zip(t, exp)):
            raise Violation(f"vector at ({la}, {x}) reads {tuple(t)}, expected {exp}")
    # derived fields
    cu = [f for f in vec.curl(pts) if not math.isnan(f)]
    kw = dict(data=sub) if case["given"] else {}
    with sut("calc_curl"):
        cmax = ld.calc_curl(b, **kw)
        cmean = ld.calc_curl(b, agg_type="MEAN", **kw)
    top = max([abs(c) for c in cu], default=math.nan)
    require(close(abs(cmax), top, 50), f"curl of largest magnitude is {cmax}, expected +-{top}")
    if not math.isnan(top):
        require(any(close(cmax, c, 50) for c in cu), f"curl {cmax} is not one of {cu[:5]}")
    mean = math.fsum(cu) / len(cu) if cu else math.nan
    require(close(cmean, mean, 50), f"mean curl is {cmean}, expected {mean}")
    partial = grid and vec.agg_options(pts, "MEAN", grid) is None
    if not partial:
        dm = [f for f in vec.dmag(pts) if not math.isnan(f)]
        with sut("calc_dmag"):
            dmax, dmean = ld.calc_dmag(b, agg_type="MAX", **kw), ld.calc_dmag(b, **kw)
        require(close(dmax, max(dm, default=math.nan), 50), f"largest dmag {dmax}, expected {max(dm, default=None)}")
        mean = math.fsum(dm) / len(dm) if dm else math.nan
        require(close(dmean, mean, 50), f"mean dmag {dmean}, expected {mean}")
        with sut("get_hom_condition"):
            h = ld.get_hom_condition(b, {k: dict(c) for k, c in case["cond"].items()})
        want = vec.hom(pts, case["cond"], case["min_dp"], grid)
        require(h == want, f"homogeneity {h}, expected {want}")
        ctx.label(want)
    ctx.label("nc " + s.get("order", "") if grid else "csv", case["agg"], gen.region_kind(r))
    ctx.nontrivial(len(pts) >= 4)


# ---- the same vectors held as a table, a grid, projected, by date ----

DAYS = ["2017-01-30", "2017-02-01", "2017-02-02", "2017-02-05"]


@st.composite
def stored_cases(draw):
    r = draw(gen.regions(max_cells=4, max_cols=2, max_rows=2))
    t0 = draw(st.integers(0, 3))
    r = dict(r, start_time=DAYS[t0], end_time=DAYS[draw(st.integers(t0, 3))])
    kind = draw(st.sampled_from(["digits", "floats", "gaps", "close"]))
    g = draw(gen.grid_source(r, values=vec.vectors(kind), res=8, max_n=6))
    times = sorted(set(draw(st.lists(st.sampled_from(DAYS), min_size=1, max_size=3)))) if draw(st.booleans()) else [None]
    clock = draw(st.sampled_from(["", "", " 12:00:00"]))
    times = [t and t + clock for t in times]
    ny, nx = len(g["lats"]), len(g["lons"])
    layers = [g["vals"]]
    for _ in times[1:]:
        flat = draw(st.lists(vec.vectors(kind), min_size=nx * ny, max_size=nx * ny))
        layers.append([flat[i * nx:(i + 1) * nx] for i in range(ny)])
    days = [d for d in DAYS if r["start_time"] <= d <= r["end_time"]]
    k = draw(st.integers(0, len(days) - 1))
    n = 8
    a, b = sorted(draw(st.lists(st.integers(0, n), min_size=2, max_size=2, unique=True)))
    c, d = sorted(draw(st.lists(st.integers(0, n), min_size=2, max_size=2, unique=True)))
    if draw(st.integers(0, 2)) == 0:
        a, b, c, d = 0, n, 0, n
    return dict(region=r, lats=g["lats"], lons=g["lons"], times=times, layers=layers, part=[a / n, b / n, c / n, d / n],
                ask=[days[k], days[draw(st.integers(k, len(days) - 1))]],
                agg=draw(st.sampled_from(["MEAN", "MIN", "MAX", "STD", "COUNT", "mean", "max"])),
                skipna=draw(st.sampled_from([None, True, False])), names=draw(st.sampled_from([None, "p,q", "q,p"])),
                cols=draw(st.sampled_from(["uv", "vu"])), again=draw(st.booleans()), factors=draw(st.sampled_from([None, [2, 1], [1, 2], [2, 2], [3, 2]])))


def stored_points(case, layers, lats, lons):
    r = case["region"]
    w, h = gen.region_width(r), r["lat_max"] - r["lat_min"]
    x0, x1 = case["part"][0] * w, case["part"][1] * w
    y0, y1 = r["lat_min"] + case["part"][2] * h, r["lat_min"] + case["part"][3] * h
    out = []
    for t, layer in zip(case["times"], layers):
        if t is not None and not case["ask"][0] <= t[:10] <= case["ask"][1]:
            continue
        for i, la in enumerate(lats):
            for j, lo in enumerate(lons):
                x = (lo - r["long_min"]) % 360
                x = 360 if x == 0 and w == 360 else x
                if x0 < x <= x1 and y0 < la <= y1:
                    out.append((x, la, tuple(layer[i][j])))
    return out


def strict_options(pts, how, gridded, skipna):
    if skipna is False and any(None in p[2] for p in pts):
        if how == "COUNT":
            return [(float(len(pts)),) * 2]
        if how in ("MIN", "MAX"):
            return None
        full = vec.agg_options(pts, how, gridded)
        if full is None:
            return None
        return [tuple(math.nan if any(p[2][k] is None for p in pts) else full[0][k] for k in (0, 1))]
    return vec.agg_options(pts, how, gridded)


def check_stored(case, ctx):
    import numpy as np
    import pandas as pd
    import xarray as xr
    from checks.c16 import bins, boundary
    r = case["region"]
    dates = case["times"][0] is not None
    arr = np.array([[[[math.nan if x is None else float(x) for x in v] for v in line] for line in layer]
                    for layer in case["layers"]])
    cols = case.get("cols", "uv")
    coords = dict(lat=np.array(case["lats"], float), long=np.array(case["lons"], float))
    if dates:
        coords["time"] = pd.to_datetime(case["times"])
        ds = xr.Dataset({n: (("time", "lat", "long"), arr[..., k]) for k, n in enumerate(cols)}, coords=coords)
    else:
        ds = xr.Dataset({n: (("lat", "long"), arr[0, ..., k]) for k, n in enumerate(cols)}, coords=coords)
    df = pd.DataFrame([dict(lat=float(la), long=float(lo), **{cols[0]: arr[t, i, j, 0], cols[1]: arr[t, i, j, 1]},
                            **(dict(time=case["times"][t]) if dates else {}))
                       for t in range(len(case["times"])) for i, la in enumerate(case["lats"])
                       for j, lo in enumerate(case["lons"])])
    agg = case["agg"].upper()
    names = (case["names"] or ",".join(cols)).split(",")
    most = 0
    for gridded, data in ((False, df), (True, ds)):
        what = "grid" if gridded else "table"
        params = dict(given=data.copy(), aggregate_type=case["agg"])
        if case["names"]:
            params["data_name"] = case["names"]
        coarse = case["factors"] is not None and agg in ("MEAN", "COUNT", "STD")
        if coarse:
            params["downsample_factors"] = list(case["factors"])
        lats, lons, layers = case["lats"], case["lons"], case["layers"]
        if coarse and gridded:
            nx, ny = case["factors"]
            by, bx = bins(lats, ny), bins(lons, nx)
            if agg == "COUNT":
                by, bx = [b[:1] for b in by], [b[:1] for b in bx]

            def collapse(layer, b, c):
                if agg == "COUNT":
                    return layer[b[0]][c[0]]
                o = [vec.model.agg([layer[i][j][k] for i in b for j in c], agg, True) for k in (0, 1)]
                return [None if math.isnan(x) else x for x in o]
            layers = [[[collapse(layer, b, c) for c in bx] for b in by] for layer in layers]
            lats = [math.fsum(lats[i] for i in b) / len(b) for b in by]
            lons = [math.fsum(lons[i] for i in b) / len(b) for b in bx]
        pts = stored_points(case, layers, lats, lons)
        most = max(most, len(pts))
        with sut(f"making a loader ({what})"):
            ld = user_loader()(boundary(r), params)
            require(ld.data_name == ",".join(names) and list(ld.data_name_list) == names,
                    f"{what}: data called {ld.data_name}, expected {names}")
            b = boundary(r, case["part"], case["ask"])
            kw = {} if case["skipna"] is None else dict(skipna=case["skipna"])
            got = ld.get_value(b, **kw)
            other = ld.get_value(b, agg_type=case["agg"], **kw)
        require(list(got) == names, f"{what}: get_value names {list(got)}, expected {names}")
        opts = strict_options(pts, agg, gridded, case["skipna"])
        for g in (got, other):
            g = tuple(float(g[n]) for n in names)
            if opts is not None and not any(close(g[0], o[0], 50) and close(g[1], o[1], 50) for o in opts):
                raise Violation(f"{what}: {case['agg']} (skipna={case['skipna']}, downsampled {coarse and case['factors']}) is "
                                f"{g}, expected {opts[:4]} of {len(pts)} vectors {pts[:4]}")
    ctx.label(gen.region_kind(r), agg, "dated" if dates else "undated", "coarse" if coarse else "as is")
    ctx.nontrivial(most > 1)


# ---- vectors in another projection ----

@st.composite
def projected_cases(draw):
    from checks import c16
    case = draw(c16.projected())
    case["pts"] = [p + [draw(st.integers(-5, 5))] for p in case["pts"]]
    case["agg"] = draw(st.sampled_from(["MEAN", "COUNT", "MAX", "MIN"]))
    case["gridded"] = draw(st.booleans())
    return case


def check_projected(case, ctx):
    import numpy as np
    import pandas as pd
    import pyproj
    import xarray as xr
    from checks.c16 import boundary
    r, p = case["region"], case["part"]
    epsg = 3995 if case["north"] else 3031
    fwd = pyproj.Transformer.from_crs(4326, epsg, always_xy=True)
    rows, pts = [], []
    for fx, fy, u, v in case["pts"]:
        fx, fy = (fx + 0.37) / 100, (fy + 0.37) / 100
        la = r["lat_min"] + fy * 8
        if abs(la) > 89.5:
            continue
        x, y = fwd.transform(gen.norm180(r["long_min"] + fx * 20), la)
        if any(q["x"] == x or q["y"] == y for q in rows):
            continue
        rows.append(dict(x=x, y=y, u=float(u), v=float(v)))
        if p[0] < fx < p[1] and p[2] < fy < p[3]:
            pts.append((fx, fy, (u, v)))
    if not rows:
        return
    if case["gridded"]:     # a grid with the vectors on it and gaps everywhere else
        xs, ys = sorted(q["x"] for q in rows), sorted(q["y"] for q in rows)
        arr = np.full((2, len(ys), len(xs)), math.nan)
        for q in rows:
            arr[:, ys.index(q["y"]), xs.index(q["x"])] = q["u"], q["v"]
        data = xr.Dataset({n: (("y", "x"), arr[k]) for k, n in enumerate("uv")}, coords=dict(x=xs, y=ys))
    else:
        data = pd.DataFrame(rows)
    with sut("making a loader of projected data"):
        ld = user_loader()(boundary(r), dict(given=data, in_proj=f"EPSG:{epsg}", x_col="x", y_col="y"))
        got = ld.get_value(boundary(r, p), agg_type=case["agg"])
        g = float(got["u"]), float(got["v"])
    opts = vec.agg_options(pts, case["agg"], False)
    require(any(close(g[0], o[0], 10) and close(g[1], o[1], 10) for o in opts),
            f"{case['agg']} is {g}, expected {opts[:3]} of {pts[:4]}")
    ctx.label("grid" if case["gridded"] else "table", case["agg"])
    ctx.nontrivial(bool(pts))


SUBS = [Sub("mesh", vec.cases, check_mesh, quick=1100,
            rule="region x 1-2 vector sources (CSV in 1-3 files, gridded NetCDF) with gaps, curl/dmag conditions, "
                 "fills and shared names, mesh built end to end; non-trivial = a cell holds two or more vectors"),
        Sub("loader", direct_cases, check_direct, quick=1500,
            rule="a user-defined vector loader over tabular or gridded data queried on a sub-box: aggregates, curl, "
                 "dmag, magnitude/direction, homogeneity; non-trivial = four or more vectors inside"),
        Sub("stored", stored_cases, check_stored, quick=1200,
            rule="the same vectors, with gaps and dates, held as a table and as a grid, downsampled or not, gaps skipped or "
                 "not, asked for a part of the region and dates; non-trivial = two or more vectors asked for"),
        Sub("projected", projected_cases, check_projected, quick=300,
            rule="tables and grids of vectors in polar stereographic coordinates; non-trivial = some vector inside")]
