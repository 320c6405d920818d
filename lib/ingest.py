"""Files in the formats of the supported data products, and what they say: (x, lat, value) in standard form."""
import datetime as dt
import math
import os

from hypothesis import strategies as st

from lib import gen

NAN = float("nan")
# loader -> specification of its product
#   vars: names in the file; name: layer name(s) in the mesh; lat, lon, time: axis names; desc: latitudes run southwards;
#   wrap: longitudes 0..360; dated: one file per day, the date being in the file name
ERA5 = dict(lat="latitude", lon="longitude", time="time", desc=True, wrap=True, dated=True)
SCALAR = {
    "era5_sig_wave_height": dict(ERA5, vars=["swh"], name="swh"),
    "era5_max_wave_height": dict(ERA5, vars=["hmax"], name="hmax"),
    "era5_wave_dir": dict(ERA5, vars=["mwd"], name="mwd"),
    "era5_wave_period": dict(ERA5, vars=["mwp"], name="mwp"),
    "era5_wind_mag": dict(ERA5, vars=["u10", "v10"], name="wind_mag", f=lambda u, v: math.hypot(u, v)),
    "era5_wind_dir": dict(ERA5, vars=["u10", "v10"], name="wind_dir",
                          f=lambda u, v: (180 + math.degrees(math.atan2(v, u))) % 360),
    "gebco": dict(lat="lat", lon="lon", time=None, vars=["elevation"], name="elevation"),
    "baltic_sic": dict(lat="lat", lon="lon", time="time", desc=True, vars=["ice_concentration"], name="SIC"),
    "bsose_sic": dict(lat="YC", lon="XC", time="time", wrap=True, vars=["SIarea"], name="SIC", f=lambda v: 100 * v),
    "bsose_depth": dict(lat="YC", lon="XC", time=None, wrap=True, vars=["Depth"], name="elevation", f=lambda v: -v),
    "modis": dict(lat="lat", lon="long", time=None, vars=["iceArea", "cloud"], name="SIC",
                  f=lambda v, c: NAN if c == 1 else v),
}
VECTOR = {
    "era5_wind": dict(ERA5, wrap=False, vars=["u10", "v10"], name="u10,v10"),
    "era5_wave_direction": dict(ERA5, vars=["mwd"], name="uW,vW",
                                f=lambda d: (-math.sin(math.radians(d)), -math.cos(math.radians(d)))),
    "duacs_currents": dict(lat="latitude", lon="longitude", time="time", dated=True, vars=["ugos", "vgos"], name="uC,vC"),
    "baltic_currents": dict(lat="latitude", lon="longitude", time="time", vars=["uo", "vo"], name="uC,vC", depth=True,
                            mean=True),
    "northsea_currents": dict(lat="lat", lon="lon", time="times", vars=["U", "V"], name="uC,vC"),
    "oras5_currents": dict(lat="nav_lat", lon="nav_lon", time=None, vars=["uo", "vo"], name="uC,vC"),     # regular grid
    "sose": dict(lat="lat", lon="lon", time=None, wrap=True, vars=["uC", "vC"], name="uC,vC", table=True),
}
LOADERS = {**SCALAR, **VECTOR}


def plain(x):
    return x if x is None or isinstance(x, (int, float)) else list(x)


@st.composite
def cases(draw, loaders=None, max_cells=6):
    loader = draw(st.sampled_from(sorted(loaders or LOADERS)))
    sp = LOADERS[loader]
    rk = ("plain", "anti", "global")
    r = draw(gen.regions(kinds=rk, max_cells=max_cells))
    g = draw(gen.grid_source(r, values=st.just(0), max_n=7, dateline=False))
    lats, lons = g["lats"], g["lons"]
    if draw(st.integers(0, 4)) == 0:
        lats = lats[:2]
    # positions outside the region
    if draw(st.booleans()):
        if r["lat_max"] < 89:
            lats = lats + [lats[-1] + 1] if lats[-1] + 1 > r["lat_max"] else lats
        extra = gen.norm180(r["long_min"] - 0.5)
        if extra not in lons and abs(extra) != 180 and extra % 360 not in [x % 360 for x in lons]:
            lons = sorted(lons + [extra])
    if sp["time"]:
        t0, t1 = (dt.date.fromisoformat(r[k]) for k in ("start_time", "end_time"))
        span = (t1 - t0).days
        near = st.one_of(st.integers(0, span), st.sampled_from([0, span, -1, span + 1]), st.integers(-400, span + 400))
        days = sorted(set(draw(st.lists(near, min_size=1, max_size=3))))
        if not any(0 <= d <= span for d in days):
            days = sorted(days + [draw(st.integers(0, span))])
        dates = [(t0 + dt.timedelta(days=d)).isoformat() for d in days]
    else:
        dates = [None]
    nv = len(sp["vars"])
    if loader in ("era5_wave_dir", "era5_wave_direction"):
        one = st.integers(0, 359)
    elif loader == "bsose_sic":
        one = st.integers(0, 8).map(lambda x: x / 8)
    else:
        one = st.one_of(st.integers(-9, 9), st.floats(-200, 200).map(lambda x: round(x, 2)))
    gaps = draw(st.booleans())
    n = len(dates) * len(lats) * len(lons)
    cell = st.tuples(*[one] * nv) if loader != "modis" else st.tuples(one, st.sampled_from([0, 0, 1]))
    flat = draw(st.lists(cell.map(list), min_size=n, max_size=n))
    if gaps:
        holes = draw(st.lists(st.integers(0, 12), min_size=n, max_size=n))
        if loader != "modis":           # rarely a single component is missing
            flat = [[None] * nv if h < 3 else [None] + v[1:] if h == 3 else v[:-1] + [None] if h == 4 else v
                    for h, v in zip(holes, flat)]
        if all(v[0] is None for v in flat):
            flat[0] = [1] * nv
    c = dict(loader=loader, region=r, lats=lats, lons=lons, dates=dates, flat=flat, hour=draw(st.sampled_from([0, 0, 12])),
             style=draw(st.sampled_from(["file", "files", "folder", "folder/"])),
             case=draw(st.sampled_from(["as is", "as is", "UPPER", "Title"])),
             agg=draw(st.sampled_from(["MEAN", "MIN", "MAX", "COUNT", "STD"] + (["MEDIAN"] if loader in SCALAR else []))),
             rename=draw(st.sampled_from([None, None, "other"])))
    if loader == "bsose_sic":
        c["units"] = draw(st.sampled_from([None, "percentage", "fraction", None, "percentage", "fraction", "percent", "%"]))
    return c


def written(case, sp):
    """[(date, {(lat, lon): raw values})]"""
    it = iter(case["flat"])
    return [(d, {(la, lo): next(it) for la in case["lats"] for lo in case["lons"]}) for d in case["dates"]]


def write(case, d):
    """Write the files; -> loader parameters."""
    import numpy as np
    import pandas as pd
    import xarray as xr
    sp = LOADERS[case["loader"]]
    lats = list(case["lats"])
    if sp.get("desc"):
        lats = lats[::-1]
    lons = list(case["lons"])
    if sp.get("wrap"):
        lons = sorted(lons, key=lambda x: x % 360)
    folder = os.path.join(d, "data")
    os.mkdir(folder)
    groups = [[x] for x in written(case, sp)]
    if not sp.get("dated") and case["style"] == "file":
        groups = [[x for g in groups for x in g]]       # one file with every date
    if not sp["time"] and case["style"] != "file" and len(lats) > 1:       # two tiles, south and north
        h = len(lats) // 2
        jobs = [(groups[0], lats[:h]), (groups[0], lats[h:])]
    else:
        jobs = [(g, lats) for g in groups]
    files = []
    for k, (grp, lats) in enumerate(jobs):
        def arr(i):
            return np.array([[[NAN if v[la, lo][i] is None else v[la, lo][i] for lo in lons] for la in lats]
                             for _, v in grp], dtype=float)
        dims = [sp["lat"], sp["lon"]]
        coords = {sp["lat"]: np.array(lats, dtype=float),
                  sp["lon"]: np.array([x % 360 if sp.get("wrap") else x for x in lons], dtype=float)}
        pick = (lambda a: a[0]) if not sp["time"] else (lambda a: a)
        if sp["time"]:
            dims = [sp["time"]] + dims
            coords[sp["time"]] = pd.to_datetime([f"{t}T{case['hour']:02d}:00" for t, _ in grp])
        data = {n: pick(arr(i)) for i, n in enumerate(sp["vars"])}
        if sp.get("depth"):
            i = dims.index(sp["lat"])
            dims = dims[:i] + ["depth"] + dims[i:]
            coords["depth"] = np.array([0.5, 10.0])
            data = {n: np.stack([a, a * 0 - 99], axis=i) for n, a in data.items()}
        ds = xr.Dataset({n: (dims, a) for n, a in data.items()}, coords=coords)
        if case["loader"] == "bsose_depth":
            ds = ds.set_coords("Depth").assign(other=(("YC", "XC"), data["Depth"] * 0))
        if case["loader"].startswith("era5") and case["loader"] != "era5_wind":
            ds = ds.assign(unused=(dims, arr(0) * 0 + 7))
        name = f"{'x' * 10}{grp[0][0]}.nc" if sp.get("dated") else f"part{k}.nc"
        files.append(os.path.join(folder, name))
        ds.to_netcdf(files[-1])
    if case["style"] == "file" and len(files) == 1:
        p = dict(file=files[0])
    elif case["style"].startswith("folder"):
        p = dict(folder=folder + case["style"][6:])
    else:
        p = dict(files=files)
    p["aggregate_type"] = case["agg"]
    if case["rename"]:
        p["data_name"] = "n1,n2" if case["loader"] in VECTOR else "other"
    if case.get("units"):
        p["units"] = case["units"]
    return p


def standard(case):
    """[(x, lat, value or (u, v))] inside the date range, x eastwards from the region's western edge."""
    sp = LOADERS[case["loader"]]
    r = case["region"]
    f = sp.get("f")
    if case.get("units") == "fraction":
        f = None
    vec = case["loader"] in VECTOR
    per = {}
    for date, vals in written(case, sp):
        if date is not None and not r["start_time"] <= date <= r["end_time"]:
            continue
        for (la, lo), v in vals.items():
            if f and None not in v:
                v = f(*v)
            elif f and vec:
                v = (None, None)
            elif not vec:
                v = None if f and None in v else v[0]
            per.setdefault((la, lo), []).append(v)
    out = []
    for (la, lo), vs in per.items():
        if sp.get("mean"):
            there = [[v[k] for v in vs if v[k] is not None] for k in (0, 1)]
            vs = [tuple(math.fsum(x) / len(x) if x else None for x in there)]
        x = (lo - r["long_min"]) % 360
        if gen.region_width(r) == 360 and x == 0:
            x = 360
        out += [(x, la, tuple(v) if vec else v) for v in vs]
    return out


def names(case):
    if case["rename"]:
        return ["n1", "n2"] if case["loader"] in VECTOR else ["other"]
    return LOADERS[case["loader"]]["name"].split(",")


def loader_name(case):
    n = case["loader"]
    return n.upper() if case["case"] == "UPPER" else n.title() if case["case"] == "Title" else n
