"""C14: files of the supported data products are read at their true positions, dates and units."""
import datetime as dt
import json
import math
import os

from hypothesis import strategies as st

from checks.c04 import close
from lib import gen, geo, ingest, model, vec
from lib.harness import Sub, Violation, require, sut

PROPERTY = "C14"
ASSUMPTIONS = ["files are laid out as the product's documentation says (axis names and directions, dates in file names)",
               "no datum at longitude -180 (180 is used)", "at least one file is inside the date range"]


def read_mesh(cfg, r):
    with sut("building the mesh"):
        mesh = json.loads(json.dumps(gen.build_mesh(cfg).to_json()))
    with sut("reading the mesh"):
        cells = geo.read_cells(mesh, r["long_min"])
        return [(tuple(float(x) for x in cells[int(cb["id"])]), cb) for cb in mesh["cellboxes"]]


def inside(pts, b):
    return [p for p in pts if b[0] < p[0] <= b[1] and b[2] < p[1] <= b[3]]


def compare(cells, pts, names, agg, gridded, vector):
    most = 0
    for b, cb in cells:
        got = []
        for n in names:
            require(n in cb, f"cell {cb['id']} has no value for {n}: {sorted(cb)}")
            with sut(f"value {cb[n]!r} of cell {cb['id']}"):
                got.append(float(cb[n]))
        here = inside(pts, b)
        most = max(most, len(here))
        if vector:
            opts = vec.agg_options(here, agg, gridded)
        else:
            opts = [(model.agg([p[2] for p in here], agg, gridded),)]
        if opts is not None and not any(all(close(g, o, 500) for g, o in zip(got, opt)) for opt in opts):
            raise Violation(f"cell {cb['id']} {b}: {names} is {got}, expected {opts[:3]}, the {agg} of {len(here)} data: "
                            f"{here[:4]}")
    return most


def check_product(case, ctx):
    r = case["region"]
    vector = case["loader"] in ingest.VECTOR
    sp = ingest.LOADERS[case["loader"]]
    params = ingest.write(case, ctx.dir)
    cfg = dict(region=dict(r), data_sources=[dict(loader=ingest.loader_name(case), params=params)],
               splitting=dict(split_depth=0, minimum_datapoints=1))
    if case.get("units") not in (None, "percentage", "fraction"):
        try:
            gen.build_mesh(cfg)
        except ValueError:
            ctx.label("unknown units")
            return
        raise Violation(f"units {case['units']!r} were accepted")
    cells = read_mesh(cfg, r)
    pts = ingest.standard(case)
    most = compare(cells, pts, ingest.names(case), case["agg"], not sp.get("table"), vector)
    ctx.label(case["loader"], case["style"], gen.region_kind(r))
    if len(case["dates"]) > 1:
        ctx.label("several dates")
    ctx.nontrivial(most > 1)


# ---- products on a projected grid ----

@st.composite
def projected(draw):
    north = draw(st.booleans())
    ch = draw(st.sampled_from([2, 5, 4]))
    cw = draw(st.sampled_from([5, 10, 30]))
    rows, cols = draw(st.integers(1, 2)), draw(st.integers(1, 3))
    lat = draw(st.integers(50, 80 - rows * ch)) * 1.0
    lat_min = lat if north else -lat - rows * ch
    lo = draw(st.integers(-180, 179))
    hi = lo + cols * cw
    t0 = draw(st.integers(0, 3))
    t1 = draw(st.integers(t0, 5))
    r = dict(lat_min=gen._n(lat_min), lat_max=gen._n(lat_min + rows * ch), long_min=lo, long_max=hi if hi <= 180 else hi - 360,
             start_time=gen.DATES[t0], end_time=gen.DATES[t1], cell_width=cw, cell_height=ch)
    loader = draw(st.sampled_from(["amsr", "amsr", "iced nc", "iced tiff"]))
    nx, ny = draw(st.integers(2, 6)), draw(st.integers(2, 6))
    dates = [None]
    if loader == "amsr":
        dates = sorted(set(draw(st.lists(st.sampled_from(gen.DATES), min_size=1, max_size=3)) + [r["start_time"]]))
    n = nx * ny * len(dates)
    vals = draw(st.lists(st.one_of(st.integers(0, 100), st.integers(0, 130), st.none()), min_size=n, max_size=n))
    vals[0] = 40
    return dict(region=r, loader=loader, nx=nx, ny=ny, dates=dates, vals=vals, step=draw(st.sampled_from([20e3, 60e3, 150e3])),
                at=[draw(st.integers(1, 9)) / 10, draw(st.integers(1, 9)) / 10],
                snap=[draw(st.sampled_from([None, None, -2e-4, 2e-4])) for _ in range(2)],
                agg=draw(st.sampled_from(["MEAN", "MIN", "MAX", "COUNT", "MEDIAN"])),
                hemi=draw(st.sampled_from(["", "upper"])), wrong=draw(st.sampled_from([None] * 8 + ["dates", "hemisphere"])))


def check_projected(case, ctx):
    import numpy as np
    import pyproj
    import xarray as xr
    r = case["region"]
    north = r["lat_min"] > 0
    if case["loader"] == "amsr":
        epsg = 3411 if north else 3412
    else:
        epsg = 3995 if north else 3031
    fwd = pyproj.Transformer.from_crs(4326, epsg, always_xy=True)
    back = pyproj.Transformer.from_crs(epsg, 4326, always_xy=True)
    w = gen.region_width(r)
    dx, dy = w * case["at"][0], (r["lat_max"] - r["lat_min"]) * case["at"][1]
    snap = case.get("snap", [None, None])      # one point just beside an edge of a cell
    if snap[0]:
        dx = round(dx / r["cell_width"]) * r["cell_width"] + snap[0]
    if snap[1]:
        dy = round(dy / r["cell_height"]) * r["cell_height"] + snap[1]
    cx, cy = fwd.transform(gen.norm180(r["long_min"] + dx), r["lat_min"] + dy)
    xs = [round(cx + (i - case["nx"] // 2) * case["step"], 0) + 0.5 for i in range(case["nx"])]
    ys = [round(cy + (i - case["ny"] // 2) * case["step"], 0) + 0.5 for i in range(case["ny"])]
    it = iter(case["vals"])
    scale = 1 if case["loader"] == "amsr" else 100
    pts, files, close_call = [], [], False
    for date in case["dates"]:
        arr = np.array([[np.nan if v is None else v / scale for v in (next(it) for _ in xs)] for _ in ys])
        for i, y in enumerate(ys):
            for j, x in enumerate(xs):
                if math.isnan(arr[i][j]) or not (date is None or r["start_time"] <= date <= r["end_time"]):
                    continue
                lon, lat = back.transform(x, y)
                off = (lon - r["long_min"]) % 360
                for c in (off % r["cell_width"], (lat - r["lat_min"]) % r["cell_height"]):
                    close_call |= min(c, abs(c - r["cell_width"]), abs(c - r["cell_height"])) < 1e-5
                pts.append((off, lat, arr[i][j] * scale))
        if case["loader"] == "amsr":
            name = f"asi-AMSR2-s6250-{date.replace('-', '')}-v5.4.nc"
            ds = xr.Dataset({"z": (("y", "x"), arr), "polar_stereographic": ((), 1)}, coords=dict(x=xs, y=ys))
        elif case["loader"] == "iced nc":
            name = "ice.nc"
            ds = xr.Dataset({"Band1": (("y", "x"), arr), "polar_stereographic": ((), 1)}, coords=dict(x=xs, y=ys))
        files.append(os.path.join(ctx.dir, name if case["loader"] != "iced tiff" else "ice.tiff"))
        if case["loader"] == "iced tiff":
            import rasterio
            from rasterio.transform import from_origin
            s = case["step"]
            with rasterio.open(files[-1], "w", driver="GTiff", width=len(xs), height=len(ys), count=1, dtype="float64",
                               crs=f"EPSG:{epsg}", transform=from_origin(xs[0] - s / 2, ys[-1] + s / 2, s, s),
                               nodata=math.nan) as f:
                f.write(arr[::-1], 1)
        else:
            ds.to_netcdf(files[-1])
    if close_call:
        ctx.label("too close to an edge to call")
        return
    params = dict(files=files, aggregate_type=case["agg"])
    if case["loader"] == "amsr":
        h = "north" if north else "south"
        params["hemisphere"] = h.upper() if case["hemi"] else h
    else:
        params.update(in_proj=f"EPSG:{epsg}", x_col="x", y_col="y")
    cfg = dict(region=dict(r), data_sources=[dict(loader="amsr" if case["loader"] == "amsr" else "visual_iced", params=params)],
               splitting=dict(split_depth=0, minimum_datapoints=1))
    if case.get("wrong"):
        if case["loader"] == "amsr" and case["wrong"] == "dates":
            cfg["region"].update(start_time="2003-01-01", end_time="2003-02-01")
        elif case["loader"] == "amsr":
            params["hemisphere"] = "east"
        else:
            params["files"] = files * 2
        try:
            gen.build_mesh(cfg)
        except (ValueError, FileNotFoundError):
            ctx.label("refused")
            return
        except Exception as e:
            raise Violation(f"refused with {type(e).__name__}: {e}") from e
        raise Violation(f"{case['loader']} with wrong {case['wrong']} or two files was accepted")
    most = compare(read_mesh(cfg, r), pts, ["SIC"], case["agg"], False, False)
    ctx.label(case["loader"], gen.region_kind(r), "north" if north else "south")
    ctx.nontrivial(most > 1)


# ---- forecasts ----

@st.composite
def forecasts(draw):
    r = draw(gen.regions(max_cells=4, max_cols=2, max_rows=2))
    start = draw(st.sampled_from(gen.DATES))
    span = draw(st.sampled_from([0, 1, 2, 3, 0, 1, 2, 3, 8]))
    r.update(start_time=start, end_time=(dt.date.fromisoformat(start) + dt.timedelta(days=span)).isoformat())
    loader = draw(st.sampled_from(["icenet", "ecmwf"]))
    ago = draw(st.integers(1, 3))
    inits = sorted({-ago} | set(draw(st.lists(st.one_of(st.integers(-9, -ago), st.integers(0, 4)), max_size=2))))
    lead = ago + span + draw(st.integers(1, 3)) + max(0, inits[0] + ago)
    how = draw(st.sampled_from(["enough"] * 4 + ["short", "late"]))
    if how == "short":          # the forecast ends before the end of the asked dates, or before they begin
        lead = draw(st.integers(1, ago + span))
    if how == "late":           # all forecasts are issued after the start
        inits = sorted({max(i, 0) for i in inits})
    g = draw(gen.grid_source(r, values=st.just(0), max_n=4, dateline=False))
    lons = g["lons"]
    n = len(g["lats"]) * len(lons)
    seeds = draw(st.lists(st.integers(0, 20), min_size=n, max_size=n))
    return dict(region=r, loader=loader, inits=inits, lead=lead, lats=g["lats"], lons=lons, seeds=seeds, span=span,
                step=draw(st.sampled_from([24, 24, 12, 6])), issued=draw(st.sampled_from([0, 0, 12, 18])),
                agg=draw(st.sampled_from(["MEAN", "MIN", "MAX", "COUNT"])), dots=draw(st.booleans()),
                grouped=draw(st.booleans()))


def fc_value(seed, init, lead):
    """A value that tells apart position, forecast and lead time."""
    return (seed * 7 + (init + 20) * 31 + lead * 3) % 101


def check_forecast(case, ctx):
    import numpy as np
    import pandas as pd
    import xarray as xr
    r = case["region"]
    start = dt.date.fromisoformat(r["start_time"])

    def day(k):
        return start + dt.timedelta(days=k)
    folder = os.path.join(ctx.dir, "v1.2" if case["dots"] else "fc")
    os.mkdir(folder)
    lats, lons = case["lats"], case["lons"]
    pos = [(la, lo) for la in lats for lo in lons]
    files = []
    leads = list(range(1, case["lead"] + 1))
    hours = list(range(case["step"], 24 * case["lead"] + 1, case["step"]))
    if case["loader"] == "icenet":
        # every file holds the forecasts made up to its date
        for k in case["inits"]:
            held = [i for i in case["inits"] if i <= k] if case["grouped"] else [k]
            arr = np.array([[[[fc_value(case["seeds"][a * len(lons) + b], i, ld) / 100 for ld in leads]
                              for b in range(len(lons))] for a in range(len(lats))] for i in held])
            la2, lo2 = np.meshgrid(np.array(lats, float), np.array(lons, float), indexing="ij")
            ds = xr.Dataset({"sic_mean": (("time", "yc", "xc", "leadtime"), arr),
                             "sic_stddev": (("time", "yc", "xc", "leadtime"), arr * 0),
                             "Lambert_Azimuthal_Grid": ((), 1), "ensemble_members": (("time",), np.ones(len(held))),
                             "forecast_date": (("time", "leadtime"), np.zeros((len(held), len(leads))))},
                            coords=dict(time=pd.to_datetime([day(i) for i in held]), leadtime=leads,
                                        yc=np.arange(len(lats)) * 1.0, xc=np.arange(len(lons)) * 1.0,
                                        lat=(("yc", "xc"), la2), lon=(("yc", "xc"), lo2)))
            files.append(os.path.join(folder, f"north_daily_forecast.{day(k).isoformat()}.nc"))
            ds.to_netcdf(files[-1])
    else:
        for k in case["inits"]:
            for ld in hours:
                arr = np.array([[fc_value(case["seeds"][a * len(lons) + b], k, ld) for b in range(len(lons))]
                                for a in range(len(lats))], float)[::-1]
                f = os.path.join(folder, f"{day(k).strftime('%Y%m%d')}{case['issued']:02d}0000-{ld}h-wave-fc.grib2")
                xr.Dataset({"swh": (("latitude", "longitude"), arr), "mwp": (("latitude", "longitude"), arr * 0)},
                           coords=dict(latitude=np.array(lats[::-1], float), longitude=np.array(lons, float))
                           ).to_netcdf(f, engine="netcdf4")
                files.append(f)
    init = max((i for i in case["inits"] if i < 0), default=None)
    pts = []
    for p, (la, lo) in enumerate(pos):
        if case["loader"] == "ecmwf":
            valid = [] if init is None else [
                h for h in hours if 0 <= 24 * init + case["issued"] + h < 24 * (case["span"] + 1)]
        else:
            valid = [] if init is None else [k - init for k in range(case["span"] + 1) if k - init <= case["lead"]]
        for h in valid:
            x = (lo - r["long_min"]) % 360
            x = 360 if x == 0 and gen.region_width(r) == 360 else x
            pts.append((x, la, fc_value(case["seeds"][p], init, h)))
    ice = case["loader"] == "icenet"
    cfg = dict(region=dict(r), splitting=dict(split_depth=0, minimum_datapoints=1),
               data_sources=[dict(loader="icenet" if ice else "ecmwf_sig_wave_height",
                                  params=dict(folder=folder, aggregate_type=case["agg"]))])
    ctx.label(case["loader"], gen.region_kind(r), f"{case['span'] + 1} days")
    if not pts or (ice and case["span"] - init >= case["lead"]):
        # no forecast, or none for the last day, must not go unnoticed
        try:
            cells = gen.build_mesh(cfg)
        except Exception:  # noqa: BLE001
            ctx.label("refused")
            return
        require(pts and case["span"] - init == case["lead"], "a mesh was built from forecasts that do not cover the dates")
        del cells
    most = compare(read_mesh(cfg, r), pts, ["SIC" if ice else "swh"], case["agg"], not ice, False)
    ctx.nontrivial(most > 1)


SUBS = [Sub("products", ingest.cases, check_product, quick=2400,
            rule="files of one of 17 products over a region, several dates, axis directions, 0-360 longitudes, by file, "
                 "list or folder, built into a mesh; non-trivial = a cell holds two or more data"),
        Sub("projected", projected, check_projected, quick=500,
            rule="AMSR and visual_iced files on polar grids, reprojected into a mesh; non-trivial = a cell holds two or "
                 "more data"),
        Sub("forecasts", forecasts, check_forecast, quick=600,
            rule="IceNet and ECMWF forecast files of several issue dates; the latest issued before the start counts; "
                 "non-trivial = a cell holds two or more data")]
