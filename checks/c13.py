"""C13: exports and command line tools give what the mesh holds."""
import copy
import json
import math
import os
import sys

from hypothesis import strategies as st

from checks.c06 import same
from checks.c08 import inner
from lib import gen, geo, synth
from lib.harness import Sub, Violation, require, sut

PROPERTY = "C13"
ASSUMPTIONS = ["a layer holds one type of value in all cells (numbers with gaps, lists, or booleans)",
               "GeoTIFF: pixels whose centre is on an edge between cells are not judged; values 0..255"]
NAN, INF = float("nan"), float("inf")


class at:
    """Work in a directory, with these command line arguments."""
    def __init__(self, d, argv=None):
        self.d, self.argv = d, argv

    def __enter__(self):
        self.cwd, self.old = os.getcwd(), sys.argv
        os.chdir(self.d)
        if self.argv is not None:
            sys.argv = self.argv

    def __exit__(self, *a):
        os.chdir(self.cwd)
        sys.argv = self.old
        return False


LAYERS = {"num": [0, 1.5, -3, 100.25, 7, -0.125], "gaps": [2, 0, None, NAN, -1.5], "inf": [INF, -INF, 4.5, NAN],
          "bool": [True, False], "list": [[1.0, 2.0], [0, 0], [5.5, -5.5, 3], [INF, 1.0], [NAN, 2.0]],
          "lgap": [[1.0, 3.0], [0, 0], [2.5], None, NAN]}


@st.composite
def layered(draw, max_cells=6):
    m = draw(synth.meshes(max_cells=max_cells, max_splits=3))
    layers = draw(st.lists(st.sampled_from(sorted(LAYERS)), min_size=1, max_size=3))
    names = [f"{kind}{i}" for i, kind in enumerate(layers)]
    if draw(st.booleans()):
        names = draw(st.permutations(["SIC", "SIC_err", "SI", "_hid", "dcx2", "u v", "geom"]))
    for k, cell in enumerate(m["cells"]):
        cell[2] = {nm: draw(st.sampled_from(LAYERS[kind])) for nm, kind in zip(names, layers)}
    return m


@st.composite
def geojson_cases(draw):
    m = draw(layered())
    names = sorted(m["cells"][0][2])
    return dict(mesh=m, only=draw(st.sampled_from([None, None] + names)), fmt=draw(st.sampled_from(["GEOJSON", "geojson", "GeoJSON"])),
                how=draw(st.sampled_from(["method", "save", "cli"])))


def exported(v):
    """What a value looks like in GeoJSON; None = null."""
    if v is True:
        return 1
    if v is False or v is None:
        return None
    if isinstance(v, list):
        v = sum(v) / len(v)
    return None if math.isnan(v) or math.isinf(v) else v


def check_geojson(case, ctx):
    from meshiphi.mesh_generation.environment_mesh import EnvironmentMesh
    m = case["mesh"]
    r = m["region"]
    j = synth.to_json(m)
    src = os.path.join(ctx.dir, "in.json")
    with open(src, "w") as f:
        json.dump(j, f)
    params = None
    if case["only"]:
        params = os.path.join(ctx.dir, "layer.json")
        with open(params, "w") as f:
            json.dump(dict(data_name=case["only"]), f)
    out = os.path.join(ctx.dir, "out.json")
    if len(m["cells"]) % 2:             # an older file is there, and longer
        with open(out, "w") as f:
            f.write("[" * 100000)
    if case["how"] == "cli":
        from meshiphi import cli
        argv = ["export_mesh", src, case["fmt"], "-o", "out.json"] + (["-f", params] if params else [])
        with sut("export_mesh " + case["fmt"]), at(ctx.dir, argv), gen.quiet():
            cli.export_mesh_cli()
    else:
        with sut("load_from_json"):
            mesh = EnvironmentMesh.load_from_json(copy.deepcopy(j))
            before = json.dumps(mesh.to_json())
        with sut("to_geojson"):
            if case["how"] == "save":
                mesh.save(out, case["fmt"], params)
            else:
                with open(out, "w") as f:
                    json.dump(mesh.to_geojson(params) if params else mesh.to_geojson(), f)
        require(json.dumps(mesh.to_json()) == before, "exporting changed the mesh")
    with sut("reading the export"):
        with open(out) as f:
            text = f.read()
        g = json.loads(text, parse_constant=lambda c: Violation)
        feats = {int(ft["properties"]["id"]): ft for ft in g["features"]}
    require(g["type"] == "FeatureCollection" and len(g["features"]) == len(m["cells"]) and
            set(feats) == {c[0] for c in m["cells"]}, "the export does not have one feature per cell")
    for i, b, vals in m["cells"]:
        ft = feats[i]
        want = {k: exported(v) for k, v in vals.items() if case["only"] in (None, k)}
        got = {k: v for k, v in ft["properties"].items() if k != "id"}
        require(set(got) == set(want), f"cell {i} has properties {sorted(got)}, expected {sorted(want)}")
        for k, v in want.items():
            ok = got[k] is None if v is None else (isinstance(got[k], (int, float)) and math.isclose(got[k], v, abs_tol=1e-12))
            require(ok, f"cell {i}: {k} is {got[k]!r} in the export, {vals[k]!r} in the mesh")
        gm = ft["geometry"]
        polys = [gm["coordinates"]] if gm["type"] == "Polygon" else gm["coordinates"]
        x0, area = gen.norm180(r["long_min"] + b[0]), 0
        for p in polys:
            xs, ys = [q[0] for q in p[0]], [q[1] for q in p[0]]
            area += (max(xs) - min(xs)) * (max(ys) - min(ys))
            require(len(p) == 1 and (min(ys), max(ys)) == (b[2], b[3]), f"cell {i} exported as {gm}")
            off = (min(xs) - r["long_min"]) % 360
            require(b[0] <= off < b[1] or off == b[0] % 360, f"cell {i} {b} exported as {gm}")
        require(math.isclose(area, (b[1] - b[0]) * (b[3] - b[2])), f"cell {i} {b} exported as {gm}")
    ctx.label(case["how"], gen.region_kind(r), "one layer" if params else "all layers")
    ctx.nontrivial(len(m["cells"]) > 1)


# ---- GeoTIFF ----

class tmp_in:
    """Temporary files of the code under test go here."""
    def __init__(self, d):
        self.d = d

    def __enter__(self):
        import tempfile
        self.old = tempfile.tempdir
        tempfile.tempdir = self.d

    def __exit__(self, *a):
        import tempfile
        tempfile.tempdir = self.old
        return False


def projected_image(m, res, wkt_, gt, bands, proj, own):
    """Every pixel of a projected image shows the pixel of the plain image that its centre lies in (the position is
    only known to an eighth of a pixel: pixels near an edge are not judged)."""
    import pyproj
    r = m["region"]
    nl, nc = res
    w, h = gen.region_width(r), r["lat_max"] - r["lat_min"]
    require(pyproj.CRS(wkt_).equals(pyproj.CRS.from_epsg(int(proj)), ignore_axis_order=True)
            or pyproj.CRS(wkt_).to_epsg(min_confidence=20) == int(proj), f"the image is in {wkt_[:60]}, not {proj}")
    back = pyproj.Transformer.from_crs(int(proj), 4326, always_xy=True)
    to = pyproj.Transformer.from_crs(4326, int(proj), always_xy=True)
    ny, nx = bands[0].shape
    for i in range(ny):
        for k in range(nx):
            lon, lat = back.transform(gt[0] + (k + .5) * gt[1], gt[3] + (i + .5) * gt[5])
            px, py = ((lon - r["long_min"]) % 360) / w * nc, (r["lat_max"] - lat) / h * nl
            if not (0 < px < nc and 0 < py < nl) or min(px % 1, 1 - px % 1, py % 1, 1 - py % 1) < 0.25:
                continue
            x, y = (int(px) + .5) * w / nc, r["lat_max"] - (int(py) + .5) * h / nl
            v = value_at(m, x, y)
            got = [int(b[i][k]) for b in bands]
            require(v is None or not own or all(g == int(v) for g in got),
                    f"pixel line {i} column {k} of the image in EPSG:{proj} is at {lat}, {lon}, where the plain image "
                    f"shows {v}, and has colour {got}")
    for i in range(nl):
        for k in range(nc):
            X, Y = to.transform(r["long_min"] + (k + .5) * w / nc, r["lat_max"] - (i + .5) * h / nl)
            a, b = (X - gt[0]) / gt[1], (Y - gt[3]) / gt[5]
            require(-1 <= a <= nx + 1 and -1 <= b <= ny + 1, f"pixel line {i} column {k} of the plain image lies "
                    f"outside of the image in EPSG:{proj}")


def value_at(m, x, y):
    """x: degrees east of the region's western edge. None: no number, or an edge."""
    hit = [v for _, b, v in m["cells"] if b[0] + 1e-6 < x < b[1] - 1e-6 and b[2] + 1e-6 < y < b[3] - 1e-6]
    v = hit[0]["t"] if hit else None
    if isinstance(v, list):
        v = sum(v) / len(v)
    return None if v is None or not math.isfinite(v) else v


def r_south(r):
    """Wholly in the south and well away from the antimeridian and the pole: polar projections are regular there."""
    return r["lat_max"] <= -20 and r["lat_min"] >= -85 and r["long_min"] < r["long_max"] and gen.region_width(r) <= 180


@st.composite
def tif_cases(draw):
    reg = None
    if draw(st.integers(0, 2)) == 0:
        lat, lon = draw(st.integers(-80, -40)), draw(st.integers(-170, 120))
        reg = dict(lat_min=lat, lat_max=lat + draw(st.sampled_from([8, 12])), long_min=lon,
                   long_max=lon + draw(st.sampled_from([8, 24])), cell_width=4, cell_height=4,
                   start_time="2020-01-01", end_time="2020-01-02")
    m = draw(synth.meshes(max_cells=6, max_splits=3, region=reg))
    kind = draw(st.sampled_from(["int", "int", "list", "gaps", "gaps", "none"]))
    for cell in m["cells"]:
        v = draw(st.integers(0, 255))
        if kind == "list":
            v = draw(st.sampled_from([[v, 0, 2 * v], [v, v], [v]]))
        if kind == "gaps" and draw(st.integers(0, 3)) == 0:
            v = draw(st.sampled_from([NAN, None]))
        if kind == "none" or (kind == "gaps" and draw(st.integers(0, 5)) == 0):
            v = draw(st.sampled_from([NAN, None, INF, -INF]))
        cell[2] = {"t": v, "other": 3}
    size = st.sampled_from([5, 7, 3, 11, 9, 6, 2, 1, 13])
    # left out of the parameters, so that the documented default applies; "all": no parameters at all
    omit = draw(st.sampled_from([[]] * 12 + [["proj"]] * 4 + [["name"]] * 5 + [["name", "proj"]] * 3 + [["res"], ["all"]]))
    return dict(mesh=m, omit=omit, scale=draw(st.sampled_from([[0, 1], [0, 1], [-1000, 4], [100000, 0.25], [0, 1000]])),
                res=[100, 100] if {"res", "all"} & set(omit) else [draw(size), draw(size)],
                out=draw(st.sampled_from(["out.tif", "out.tif", "sub/out.tif", "sub/my mesh.tif"])),
                proj=draw(st.sampled_from(["4326", "3031", "3031", "3412", "32761"])) if
                r_south(m["region"]) else "4326", colours=draw(st.integers(0, 4)) > 0, number=draw(st.integers(0, 4)) == 0,
                fmt=draw(st.sampled_from(["TIF", "tif", "Tif"])), cli=draw(st.booleans()))


def check_tif(case, ctx):
    from osgeo import gdal
    gdal.UseExceptions()
    from meshiphi.mesh_generation.environment_mesh import EnvironmentMesh
    m = case["mesh"]
    r = m["region"]
    d = ctx.dir
    with open(os.path.join(d, "colours.txt"), "w") as f:
        base, step = case.get("scale", (0, 1))          # what the cells hold: base + step * the colour
        f.write(f"{base} 0 0 0\n{base + 255 * step} 255 255 255\n")
    os.mkdir(os.path.join(d, "sub"))
    os.mkdir(os.path.join(d, "tmp"))
    omit = case.get("omit", [])
    out, proj = case.get("out", "out.tif"), case.get("proj", "4326")
    if "proj" in omit or "all" in omit:
        proj = "4326"
    conf = dict(data_name="t", sampling_resolution=case["res"], projection=int(proj) if case.get("number") else proj)
    if case.get("colours", True) and "all" not in omit:
        conf["colour_conf"] = "colours.txt"
    for k, key in (("name", "data_name"), ("res", "sampling_resolution"), ("proj", "projection")):
        if k in omit:
            del conf[key]
    mj = synth.to_json(m)
    for cb in mj["cellboxes"]:
        v = cb["t"]
        if isinstance(v, list):
            cb["t"] = [base + step * x for x in v]
        elif isinstance(v, int):
            cb["t"] = base + step * v
    if "name" in omit or "all" in omit:
        for cb in mj["cellboxes"]:
            cb["SIC"] = cb.pop("t")
    with open(os.path.join(d, "p.json"), "w") as f:
        json.dump(conf, f)
    with open(os.path.join(d, "in.json"), "w") as f:
        json.dump(mj, f)
    nl, nc = case["res"]
    w, h = gen.region_width(r), r["lat_max"] - r["lat_min"]
    want = {}
    for i in range(nl):
        y = r["lat_max"] - (i + 0.5) * h / nl
        for k in range(nc):
            x = (k + 0.5) * w / nc
            v = value_at(m, x, y)
            if v is not None:
                want[i, k] = v
    if not want:
        ctx.label("no number in the image")
    with sut("exporting a tif image"), gen.quiet(fds=True), tmp_in(os.path.join(d, "tmp")):
        if case["cli"]:
            from meshiphi import cli
            with at(d, ["export_mesh", "in.json", case["fmt"], "-o", out] + ([] if "all" in omit else ["-f", "p.json"])):
                cli.export_mesh_cli()
        else:
            with at(d):
                EnvironmentMesh.load_from_json(mj).save(out, case["fmt"], *([] if "all" in omit else ["p.json"]))
    with sut("reading the image"):
        ds = gdal.Open(os.path.join(d, out))
        size = (ds.RasterYSize, ds.RasterXSize)
        gt, wkt_ = ds.GetGeoTransform(), ds.GetProjection()
        bands = [ds.GetRasterBand(k + 1).ReadAsArray() for k in range(3)]
        ds = None
    left = {os.path.relpath(os.path.join(p, f), d) for p, _, fs in os.walk(d) for f in fs}
    left -= {"colours.txt", "p.json", "in.json", out}
    require(not left, f"files left behind: {sorted(left)}")
    if proj != "4326":
        projected_image(m, case["res"], wkt_, gt, bands, proj, "colour_conf" in conf)
    else:
        require(size == (nl, nc), f"image is {size[0]} lines x {size[1]} columns, asked for {nl} x {nc}")
        exp = (r["long_min"], w / nc, 0, r["lat_max"], 0, -h / nl)
        require(all(math.isclose(a, b, abs_tol=1e-9) for a, b in zip(gt, exp)),
                f"image placed by {gt}, expected {exp}")
    seen = {}
    for (i, k), v in want.items() if proj == "4326" else ():
        got = [int(b[i][k]) for b in bands]
        if "colour_conf" in conf:
            require(all(g == int(v) for g in got), f"pixel line {i} column {k}: colour {got}, the cell holds {v}")
        require(seen.setdefault(v, got) == got, f"value {v} has the colours {seen[v]} and {got}")
    ctx.label(*["without " + k for k in omit])
    ctx.label("EPSG " + proj, "own colours" if "colour_conf" in conf else "default colours",
              "folder" if "/" in out else "cwd")
    ctx.label("cli" if case["cli"] else "save", gen.region_kind(r))
    ctx.nontrivial(len(m["cells"]) > 1)


# ---- command line ----

@st.composite
def cli_cases(draw):
    what = draw(st.sampled_from(["create", "create", "rebuild", "json", "merge", "merge dir"]))
    c = dict(what=what, default=draw(st.integers(0, 3)) == 0, verbose=draw(st.booleans()), over=draw(st.integers(0, 3)) == 0)
    if what in ("create", "rebuild"):
        c["case"] = draw(gen.mesh_cases(max_depth=2, max_sources=2, kinds=("csv", "nc"), fills=True))
    elif what == "json":
        c["mesh"] = draw(layered())
        c["fmt"] = draw(st.sampled_from(["JSON", "json", "Json"]))
    else:
        c["mesh"] = draw(synth.meshes(max_cells=12, max_depth=2, max_splits=3, depth=2, min_cols_global=3))
        c["others"] = [draw(inner(c["mesh"]["region"])) for _ in range(1 if what == "merge" else draw(st.integers(1, 3)))]
        if what == "merge dir" and draw(st.integers(0, 7)) == 0:        # one small mesh for every cell
            c["mesh"], c["others"] = many(draw(st.integers(-40, 40)) * 4, draw(st.integers(-10, 10)) * 4)
        c["ext"] = draw(st.sampled_from([".json", ".json", "", ".mesh"]))
    return c


def many(lon, lat):
    """A mesh of four by four cells, and a mesh of four quarters for each of them."""
    def mesh(x, y, n, w):
        r = dict(lat_min=y, lat_max=y + n * w, long_min=x, long_max=x + n * w, cell_width=w, cell_height=w,
                 start_time="2020-01-01", end_time="2020-01-02")
        return dict(region=r, depth=2, cells=[[i, [i % n * w, (i % n + 1) * w, y + i // n * w, y + (i // n + 1) * w], {"a": x + i}]
                                              for i in range(n * n)])
    return mesh(lon, lat, 4, 4), [mesh(lon + 4 * (i % 4), lat + 4 * (i // 4), 2, 2) for i in range(13)]


DEFAULTS = dict(create="create_mesh.output.json", rebuild="rebuild_mesh.output.json", json="mesh.json",
                merge="merged_mesh.output.json")


def shape(j, long_min):
    """A mesh up to numbering: {box: (values, neighbours by box)}."""
    cells = {i: tuple(float(x) for x in b) for i, b in geo.read_cells(j, long_min).items()}
    keys = ("geometry", "cx", "cy", "dcx", "dcy", "id")
    vals = {int(cb["id"]): json.dumps({k: v for k, v in cb.items() if k not in keys}, sort_keys=True)
            for cb in j["cellboxes"]}
    ng = j["neighbour_graph"]
    return {cells[i]: (vals[i], {str(d): sorted(cells[int(n)] for n in ns) for d, ns in ng[str(i)].items()})
            for i in cells}


def check_cli(case, ctx):
    from meshiphi import cli
    from meshiphi.mesh_generation.environment_mesh import EnvironmentMesh
    d, what = ctx.dir, case["what"]
    kind = what.split()[0]
    out = DEFAULTS[kind] if case["default"] else "result.json"
    if not case["default"] and kind != "create" and case.get("over"):
        out = "m.json"                  # the result takes the place of the mesh given
    opts = ([] if case["default"] else ["-o", out]) + (["-v"] if case["verbose"] else [])

    def write(name, obj):
        with open(os.path.join(d, name), "w") as f:
            json.dump(obj, f)

    def run(fn, argv):
        if out != "m.json" and case.get("over"):        # an older file is there, and longer
            with open(os.path.join(d, out), "w") as f:
                f.write("[" * 100000)
        with sut("the command " + " ".join(argv)), at(d, argv), gen.quiet():
            fn()
        with sut("reading the result"):
            with open(os.path.join(d, out)) as f:
                return json.load(f)

    if kind in ("create", "rebuild"):
        cfg = gen.make_config(case["case"], d)
        if what == "create":
            write("config.json", cfg)
            got = run(cli.create_mesh_cli, ["create_mesh", "config.json", *opts])
            with sut("building the mesh"):
                want = gen.build_mesh(cfg).to_json()
        else:
            with sut("building the mesh"):
                want = gen.build_mesh(cfg).to_json()
            write("m.json", want)
            got = run(cli.rebuild_mesh_cli, ["rebuild_mesh", "m.json", *opts])
        same(json.loads(json.dumps(want)), got, f"{what}_mesh differs from the library's result")
        n = len(got["cellboxes"])
    elif kind == "json":
        j = synth.to_json(case["mesh"])
        write("m.json", j)
        got = run(cli.export_mesh_cli, ["export_mesh", "m.json", case["fmt"], *opts])
        same(json.loads(json.dumps(j)), got, "export_mesh JSON changed the mesh")
        n = len(got["cellboxes"])
    else:
        r = case["mesh"]["region"]
        write("m.json", synth.to_json(case["mesh"]))
        before = synth.to_json(case["mesh"])
        if what == "merge":
            write("other.json", synth.to_json(case["others"][0]))
            got = run(cli.merge_mesh_cli, ["merge_mesh", "m.json", "other.json", *opts])
        else:
            os.mkdir(os.path.join(d, "others"))
            # meshes that overlap would make the result depend on the order of the files
            kept = []
            for o in case["others"]:
                if all(apart(o["region"], k["region"], r) for k in kept):
                    kept.append(o)
            for i, o in enumerate(kept):
                write(os.path.join("others", f"{i}" + case.get("ext", ".json")), synth.to_json(o))
            case = dict(case, others=kept)
            got = run(cli.merge_mesh_cli, ["merge_mesh", "m.json", "others", "-d", *opts])
        with sut("merging"):
            mesh = EnvironmentMesh.load_from_json(before)
            for o in case["others"]:
                mesh.merge_mesh(EnvironmentMesh.load_from_json(synth.to_json(o)))
            want = json.loads(json.dumps(mesh.to_json()))
        if what == "merge":
            same(want, got, "merge_mesh differs from the library's result")
        a, b = shape(want, r["long_min"]), shape(got, r["long_min"])
        require(a == b, f"merging on the command line gives other cells: {sorted(set(a) ^ set(b))[:4]}")
        n = len(got["cellboxes"])
    ctx.label(what)
    ctx.nontrivial(n > 1)


def apart(r1, r2, r):
    def box(q):
        x = (q["long_min"] - r["long_min"]) % 360
        return x, x + gen.region_width(q), q["lat_min"], q["lat_max"]
    a, b = box(r1), box(r2)
    return a[1] <= b[0] or b[1] <= a[0] or a[3] <= b[2] or b[3] <= a[2]


SUBS = [Sub("geojson", geojson_cases, check_geojson, quick=1500,
            rule="random quadtree mesh with numbers, gaps, infinities, lists, booleans exported by method, save or command; "
                 "non-trivial = several cells"),
        Sub("tif", tif_cases, check_tif, quick=500,
            rule="random quadtree mesh sampled at 1-12 x 1-12 pixels; non-trivial = several cells, a pixel judged"),
        Sub("cli", cli_cases, check_cli, quick=1000,
            rule="create, rebuild, export, merge (one, or a directory) through the command line entry points against "
                 "the library; non-trivial = several cells")]
