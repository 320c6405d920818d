"""Generators of mesh configurations with their data files, shared by the mesh-level checks."""
import os

from hypothesis import strategies as st

CELL_SIZES = [0.25, 0.5, 0.015625, 0.0625, 1, 1.5, 2, 2.5, 3, 5, 7.5, 10, 20]
DATES = ["2016-12-31", "2017-01-01", "2017-02-01", "2017-02-28", "2020-02-29", "2021-06-15"]


@st.composite
def regions(draw, kinds=("plain", "anti", "global"), max_cells=16, max_cols=5, max_rows=4, sizes=None):
    """A region the documentation allows; all coordinates are exactly representable multiples of 1/4 degree."""
    sizes = sizes or CELL_SIZES
    kind = draw(st.sampled_from(kinds))
    ch = draw(st.sampled_from(sizes))
    rows = draw(st.integers(1, max(1, min(max_rows, int(180 // ch)))))
    lat_min = draw(st.integers(0, int((180 - rows * ch) * 4))) / 4 - 90
    if kind == "global":
        cols = draw(st.sampled_from([2, 3, 4, 5, 6, 8] if max_cells <= 100 else [12, 16, 24, 36, 30]))
        rows = max(1, min(rows, max_cells // cols))
        cw = 360 / cols
        lo, hi = -180, 180
    else:
        cw = draw(st.sampled_from(sizes))
        cols = draw(st.integers(1, max(1, min(max_cols, max_cells // rows))))
        if draw(st.integers(0, 5)) == 0:        # wide regions, more than half way round the globe too
            cw = draw(st.sampled_from([60, 45, 72, 90, 100, 170]))
            cols = min(cols + 1, int(350 // cw), max(1, max_cells // rows))
        w = cols * cw
        if kind == "plain":
            lo = draw(st.integers(0, int((360 - w) * 4))) / 4 - 180
            if lo == -180 and w == 360:
                lo, hi = -180, 180
            hi = lo + w
        else:
            # strictly crossing the antimeridian
            lo = 180 - draw(st.integers(1, max(1, int(w * 4) - 1))) / 4
            hi = lo + w - 360
            if w <= 0.25:
                lo, hi = 180 - w / 2, -180 + w / 2
    t0 = draw(st.integers(0, len(DATES) - 1))
    t1 = draw(st.integers(t0, len(DATES) - 1))
    return dict(lat_min=_n(lat_min), lat_max=_n(lat_min + rows * ch), long_min=_n(lo), long_max=_n(hi),
                start_time=DATES[t0], end_time=DATES[t1], cell_width=_n(cw), cell_height=_n(ch))


def _n(x):
    return int(x) if float(x).is_integer() else float(x)


def region_width(r):
    w = r["long_max"] - r["long_min"]
    return w if w > 0 else w + 360


def region_kind(r):
    if r["long_min"] == -180 and r["long_max"] == 180:
        return "global"
    return "anti" if r["long_max"] <= r["long_min"] else "plain"


def lon_of(r, x):
    """Longitude in (-180, 180] of the point x degrees east of the region's western edge."""
    lon = r["long_min"] + x
    return lon - 360 if lon > 180 else lon


def _lattice(r, res):
    nx = int(round(region_width(r) / r["cell_width"])) * res
    ny = int(round((r["lat_max"] - r["lat_min"]) / r["cell_height"])) * res
    return nx, ny


def _at(r, ix, iy, res):
    return _n(r["lat_min"] + iy * r["cell_height"] / res), _n(lon_of(r, ix * r["cell_width"] / res))


def dateline_inside(r):
    """Does the antimeridian run through the region, away from the edges of its cells, of their descendants and of
    the region's equal parts? Then a datum at -180 is inside the same cell as one at 180."""
    off = 180 - r["long_min"]
    return (region_kind(r) == "anti" and not (off / r["cell_width"] * 4096).is_integer()
            and not (off / region_width(r) * 4096).is_integer())


@st.composite
def points(draw, r, max_points=40, values=None, res=16, outside=True):
    """[lat, long, value]: on a lattice of cell/res, so that points fall on cell edges too; some outside the region."""
    nx, ny = _lattice(r, res)
    values = values or st.integers(0, 9)
    n = draw(st.integers(1, max_points))
    # clusters concentrate points so that deep splits happen
    spread = draw(st.sampled_from([1, 2, 4, 100]))
    cx = draw(st.integers(0, nx))
    cy = draw(st.integers(0, ny))
    out = []
    for _ in range(n):
        if spread == 100:
            ix, iy = draw(st.integers(0, nx)), draw(st.integers(0, ny))
        else:
            s = max(1, res // spread)
            ix = min(nx, max(0, cx + draw(st.integers(-s, s))))
            iy = min(ny, max(0, cy + draw(st.integers(-s, s))))
        la, lo = _at(r, ix, iy, res)
        if lo != -180:
            out.append([la, lo, draw(values)])
    if dateline_inside(r) and draw(st.integers(0, 2)) == 0:
        for _ in range(draw(st.integers(1, 3))):
            out.append([_at(r, 0, draw(st.integers(0, ny)), res)[0], draw(st.sampled_from([-180, 180])), draw(values)])
    if outside and draw(st.integers(0, 3)) == 0:
        for _ in range(draw(st.integers(1, 4))):
            la = draw(st.sampled_from([r["lat_min"] - 1, r["lat_max"] + 0.5, r["lat_max"], r["lat_min"]]))
            lo = norm180(r["long_min"] + draw(st.sampled_from([-0.5, 0, region_width(r) + 0.25, region_width(r) / 2])))
            if -90 <= la <= 90:
                out.append([_n(la), _n(lo), draw(values)])
    if not out:
        la, lo = _at(r, max(1, nx // 2), max(1, ny // 2), res)
        out.append([la, lo, draw(values)])
    return out


def norm180(lon):
    """Into (-180, 180]."""
    while lon > 180:
        lon -= 360
    while lon <= -180:
        lon += 360
    return lon


@st.composite
def grid_source(draw, r, values=None, res=8, max_n=10, dateline=True):
    """A regular lat/long grid (NetCDF): ascending coordinates, longitudes in (-180, 180], or the antimeridian as -180."""
    nx, ny = _lattice(r, res)
    values = values or st.integers(0, 9)

    def axis(n):
        step = draw(st.sampled_from([1, 1, 2, 3, 5]))
        start = draw(st.integers(0, max(0, n - step)))
        return list(range(start, n + 1, step))[:max_n] or [0]
    xs, ys = axis(nx), axis(ny)
    lats = [_at(r, 0, iy, res)[0] for iy in ys]
    lons = sorted({norm180(_at(r, ix, 0, res)[1]) for ix in xs})
    if dateline and dateline_inside(r) and draw(st.integers(0, 2)) == 0:
        lons = [-180] + [x for x in lons if x != 180]
    flat = draw(st.lists(values, min_size=len(lats) * len(lons), max_size=len(lats) * len(lons)))
    m = len(lons)
    return dict(kind="nc", lats=lats, lons=lons, vals=[flat[i * m:(i + 1) * m] for i in range(len(lats))])


@st.composite
def conditions(draw, lock=True):
    thr = draw(st.sampled_from([4.5, 0.5, 2, 8]))
    lb, ub = draw(st.sampled_from([(0, 1), (0.0, 1.0), (0.1, 0.9), (0, 1.0), (0.25, 0.5), (0.5, 0.75), (0, 0.5),
                                   (0.05, 1)]))
    c = dict(threshold=thr, lower_bound=lb, upper_bound=ub)
    if lock and draw(st.booleans()):
        c["split_lock"] = draw(st.booleans())
    return c


VALUES = {
    "digits": st.integers(0, 9),
    "floats": st.one_of(st.floats(-1e3, 1e3, allow_nan=False).map(lambda x: round(x, 3)), st.integers(-5, 15)),
    "gaps": st.one_of(st.none(), st.integers(0, 9)),
    "infinite": st.one_of(st.integers(0, 9), st.sampled_from([None, float("inf"), float("-inf")])),
}
AGGS = ["MEAN", "MIN", "MAX", "MEDIAN", "STD", "COUNT"]


@st.composite
def source(draw, r, name, kinds=("csv",), values=("digits",), aggs=("MEAN",), max_points=40, min_conds=1, fills=False,
           times=False, split=True, forms=False):
    numbers = draw(st.sampled_from(values))
    vals = VALUES[numbers]
    if numbers == "infinite":       # means of infinite numbers are no numbers
        aggs = [a for a in aggs if a in ("MIN", "MAX", "COUNT")]
    if draw(st.sampled_from(kinds)) == "csv":
        s = dict(kind="csv", points=draw(points(r, max_points, values=vals)))
        if times and draw(st.integers(0, 2)) == 0:
            clock = draw(st.sampled_from(["", "", " 12:00:00", "T23:59", " 00:00:00"]))
            s["times"] = [draw(st.sampled_from(DATES)) + clock for _ in s["points"]]
    else:
        s = draw(grid_source(r, values=vals))
    s["name"] = name
    s["agg"] = draw(st.sampled_from(aggs))
    s["conds"] = [draw(conditions()) for _ in range(draw(st.sampled_from(
        [k for k in (1, 2, 0, 1, 2, 3, 4) if k >= min_conds])))] if split else []
    if forms:
        s["form"] = draw(st.sampled_from(["file", "file", "files", "folder", "folder/"])) if s["kind"] == "csv" else "file"
        s["parts"] = draw(st.integers(1, min(3, len(s["points"])))) if s["form"] != "file" else 1
        s["ext"] = draw(st.sampled_from([".csv", ".csv", ".txt", ""]))
        s["omit"] = draw(st.integers(0, 3))
        s["lower"] = draw(st.integers(0, 3)) == 0
    if fills:
        s["fill"] = draw(st.sampled_from([None, "parent", "Nan", 0, -1.5, "7"]))
    return s


@st.composite
def large_cases(draw):
    """Meshes of 60 to 250 initial cells, so that ids have three digits and most cells are not at an edge."""
    r = draw(regions(max_cells=250, max_cols=25, max_rows=14, sizes=[0.25, 0.5, 1, 2.5, 5, 10]).filter(
        lambda r: region_width(r) / r["cell_width"] * (r["lat_max"] - r["lat_min"]) / r["cell_height"] >= 60))
    srcs = [draw(source(r, n, max_points=60)) for n in "ab"[:draw(st.integers(1, 2))]]
    return dict(region=r, depth=draw(st.integers(1, 3)), min_dp=draw(st.sampled_from([0, 1, 2])), sources=srcs)


@st.composite
def mesh_cases(draw, rkinds=("plain", "anti", "global"), max_depth=3, max_sources=2, max_cells=12, names="abcd", none=False, **kw):
    r = draw(regions(kinds=rkinds, max_cells=max_cells))
    srcs = []
    n = draw(st.integers(1, max_sources))
    if none and draw(st.integers(0, 24)) == 24:
        n = 0
    for i in range(n):
        srcs.append(draw(source(r, names[i], min_conds=0 if i else 1, **kw)))
    depth = draw(st.sampled_from([d for d in (2, 1, 3, 0, 4) if d <= max_depth]))
    return dict(region=r, depth=depth, min_dp=draw(st.sampled_from([1, 2, 0, 3, 5])), sources=srcs)


def write_csv(path, src):
    with open(path, "w") as f:
        cols = ["lat", "long"] + (["time"] if src.get("times") else []) + [src["name"]]
        f.write(",".join(cols) + "\n")
        for i, (la, lo, v) in enumerate(src["points"]):
            t = [src["times"][i]] if src.get("times") else []
            f.write(",".join([repr(la), repr(lo)] + t + ["" if v is None else repr(v)]) + "\n")


def write_nc(path, src):
    import numpy as np
    import xarray as xr
    vals = np.array([[np.nan if v is None else v for v in row] for row in src["vals"]], dtype=float)
    xr.Dataset({"elevation": (("lat", "lon"), vals)},
               coords={"lat": np.array(src["lats"], dtype=float), "lon": np.array(src["lons"], dtype=float)}
               ).to_netcdf(path)


def make_config(case, d, first=0):
    """Write the data files of a case into directory d and return its configuration (a fresh object)."""
    sources = []
    for i, s in enumerate(case["sources"], first):
        if s["kind"] == "csv" and s.get("form", "file") != "file":
            os.mkdir(os.path.join(d, f"src{i}"))
            paths = []
            for k in range(s["parts"]):
                part = dict(s, points=s["points"][k::s["parts"]])
                if s.get("times"):
                    part["times"] = s["times"][k::s["parts"]]
                paths.append(os.path.join(d, f"src{i}", f"part{k}" + s.get("ext", ".csv")))
                write_csv(paths[-1], part)
            params = (dict(files=paths) if s["form"] == "files" else
                      dict(folder=os.path.join(d, f"src{i}") + s["form"][6:]))
        elif s["kind"] == "csv":
            path = os.path.join(d, f"src{i}.csv")
            write_csv(path, s)
            params = dict(file=path)
        else:
            path = os.path.join(d, f"src{i}.nc")
            write_nc(path, s)
            params = dict(file=path)
        omit = s.get("omit", 0)
        if not (omit & 1 and s["kind"] == "csv"):       # a table's column names itself
            params["data_name"] = s["name"]
        if not (omit & 2 and s["agg"] == "MEAN"):       # the default
            params["aggregate_type"] = s["agg"].lower() if s.get("lower") else s["agg"]
        if s["conds"]:
            params["splitting_conditions"] = [{s["name"]: dict(c)} for c in s["conds"]]
        if s.get("fill") is not None:
            params["value_fill_types"] = s["fill"]
        sources.append(dict(loader="scalar_csv" if s["kind"] == "csv" else "gebco", params=params))
    return dict(region=dict(case["region"]), data_sources=sources,
                splitting=dict(split_depth=case["depth"], minimum_datapoints=case["min_dp"]))


def build_mesh(config):
    """Run the real builder, quietly."""
    from meshiphi.mesh_generation.mesh_builder import MeshBuilder
    with quiet():
        return MeshBuilder(config).build_environmental_mesh()


@st.composite
def step_cases(draw, **kw):
    """A mesh refined by hand: to a depth, cell by cell, built now and then."""
    case = draw(mesh_cases(max_cells=8, max_depth=2, max_sources=2, **kw))
    case["steps"] = draw(st.lists(st.one_of(st.tuples(st.just("depth"), st.integers(0, 3)),
                                            st.tuples(st.just("cell"), st.integers(0, 40)),
                                            st.tuples(st.just("cell"), st.integers(0, 40)),
                                            st.tuples(st.just("build"), st.just(0))).map(list), min_size=1, max_size=6))
    return case


@st.composite
def point_cases(draw):
    """A mesh without data refined by hand at given places, in any order: cells of very different size meet."""
    r = draw(regions(kinds=("global", "anti", "plain", "global"), max_cells=6, max_rows=2))
    i = st.one_of(st.sampled_from([0, 63, 31, 32, 15, 16]), st.integers(0, 63))
    at = st.tuples(st.just("at"), i, i).map(list)
    return dict(region=r, depth=0, min_dp=1, sources=[], steps=draw(st.lists(at, min_size=2, max_size=10)))


def cell_at(cells, r, i, j):
    """The cell at (i + 1/2, j + 1/2) 64ths of the region."""
    w = region_width(r)
    x, y = (2 * i + 1) / 128 * w, r["lat_min"] + (2 * j + 1) / 128 * (r["lat_max"] - r["lat_min"])
    for c in cells:
        b = c.get_bounds()
        x0 = (b.get_long_min() - r["long_min"]) % 360
        if b.get_lat_min() <= y <= b.get_lat_max() and x0 <= x <= x0 + b.get_width():
            return c


def build_in_steps(case, config):
    """-> (mesh, how deep its cells may be)."""
    from meshiphi.mesh_generation.mesh_builder import MeshBuilder
    with quiet():
        b = MeshBuilder(config)
        deep = case["depth"]
        for what, n, *m in case["steps"]:
            if what == "at":
                c = cell_at(b.mesh.get_cellboxes(), case["region"], n, m[0])
                deep = max(deep, c.get_split_depth() + 1)
                b.split_and_replace(c)
            elif what == "depth":
                b.split_to_depth(n)
                deep = max(deep, n)
            elif what == "cell":
                cells = b.mesh.get_cellboxes()
                c = cells[n % len(cells)]
                deep = max(deep, c.get_split_depth() + 1)
                b.split_and_replace(c)
            else:
                b.build_environmental_mesh()
        return b.build_environmental_mesh(), deep


class quiet:
    """Send tqdm's and print's output nowhere; with fds also that of child processes."""

    def __init__(self, fds=False):
        self.fds = fds

    def __enter__(self):
        import sys
        self.o, self.e = sys.stdout, sys.stderr
        self.null = open(os.devnull, "w")
        if self.fds:
            self.o.flush()
            self.e.flush()
            self.saved = os.dup(1), os.dup(2)
            os.dup2(self.null.fileno(), 1)
            os.dup2(self.null.fileno(), 2)
        sys.stdout = sys.stderr = self.null

    def __exit__(self, *a):
        import sys
        sys.stdout, sys.stderr = self.o, self.e
        if self.fds:
            for fd, old in zip((1, 2), self.saved):
                os.dup2(old, fd)
                os.close(old)
        self.null.close()
