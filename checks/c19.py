"""C19: a plotted mesh shows every cell at its place in the colour of its value."""
import copy
import json
import os

from checks import c13
from lib import gen, synth
from lib.harness import Sub, Violation, require, sut
from hypothesis import strategies as st

PROPERTY = "C19"
ASSUMPTIONS = ["regions at most six times as wide as high or high as wide", "the colour of missing values is not judged",
               "layers hold numbers or missing values, or true and false"]
MAPS = ["viridis", "gray", "Blues", "plasma", "coolwarm", "jet_r"]
COLOURS = ["red", "black", "gold", "#123456", "tab:green", "white"]
NAN = float("nan")


@st.composite
def shapely_regions(draw, kinds=("plain", "anti", "global")):
    kind = draw(st.sampled_from(kinds))
    if kind == "global":
        cols = draw(st.sampled_from([2, 3, 4, 6]))
        cw = 360 / cols
        rows = draw(st.integers(1, 3))
        ch = draw(st.sampled_from([60, 45, 30] if rows == 3 else [90, 75, 60, 45] if rows == 2 else [180, 120, 90, 60]))
        lo, hi = -180, 180
    else:
        ch = draw(st.sampled_from([1, 2.5, 5, 10, 0.5]))
        cw = ch * draw(st.sampled_from([0.5, 1, 2]))
        rows, cols = draw(st.integers(1, 3)), draw(st.integers(1, 3))
        w = cols * cw
        if kind == "plain":
            lo = draw(st.one_of(st.integers(0, int((360 - w) * 4)), st.just(0), st.just(int((360 - w) * 4)))) / 4 - 180
        else:
            lo = 180 - draw(st.integers(1, max(1, int(w * 4) - 1))) / 4
        hi = lo + w - (360 if lo + w > 180 else 0)
    lat = draw(st.integers(0, int((180 - rows * ch) * 4))) / 4 - 90
    return dict(lat_min=gen._n(lat), lat_max=gen._n(lat + rows * ch), long_min=gen._n(lo), long_max=gen._n(hi),
                start_time="2017-02-01", end_time="2017-02-04", cell_width=gen._n(cw), cell_height=gen._n(ch))


@st.composite
def pictures(draw, kinds=("plain", "anti", "global")):
    r = draw(shapely_regions(kinds).filter(
        lambda r: 1 / 6 <= gen.region_width(r) / (r["lat_max"] - r["lat_min"]) <= 6))
    m = draw(synth.meshes(region=r, max_depth=2, max_splits=3, depth=2, names=("a",)))
    n = len(m["cells"])
    number = st.one_of(st.integers(-9, 9), st.floats(-1e3, 1e3).map(lambda x: round(x, 2)))
    sort = draw(st.sampled_from(["numbers", "numbers", "whole", "gaps", "same"]))
    if sort == "same":
        v = draw(number)
        sic = [v] * n
    else:
        el = dict(numbers=number.map(float), whole=st.integers(-50, 50), gaps=st.one_of(number.map(float), st.just(NAN)))[sort]
        sic = draw(st.lists(el, min_size=n, max_size=n))
    oth = draw(st.lists(st.integers(0, 9).map(float), min_size=n, max_size=n))
    flag = draw(st.lists(st.booleans(), min_size=n, max_size=n))
    land = draw(st.lists(st.booleans(), min_size=n, max_size=n))
    for c, a, b, f, g in zip(m["cells"], sic, oth, flag, land):
        c[2] = {"SIC": a, "depth": b, "flag": f, "land": g}
    ops = draw(st.lists(st.one_of(
        st.tuples(st.just("cmap"), st.sampled_from(["SIC", "SIC", "depth"]), st.sampled_from(MAPS)),
        st.tuples(st.just("bool"), st.sampled_from(["flag", "land"]), st.sampled_from(COLOURS))).map(list),
        min_size=1, max_size=3))
    return dict(mesh=m, ops=ops, beside=draw(st.integers(0, 5)) == 0, scale=draw(st.sampled_from([2, 3, 3.5, 5, None])))


def expected(m, ops):
    """Per cell the colours it may have at the end, or None if not judged."""
    import matplotlib
    from matplotlib.colors import to_rgba
    out = [[(1.0, 1.0, 1.0, 1.0)] for _ in m["cells"]]
    for kind, name, how in ops:
        vals = [v[name] for _, _, v in m["cells"]]
        if kind == "bool":
            out = [[to_rgba(how)] if v else o for v, o in zip(vals, out)]
            continue
        cmap = matplotlib.colormaps[how]
        nums = [v for v in vals if v == v]
        lo, hi = (min(nums), max(nums)) if nums else (0, 0)
        for i, v in enumerate(vals):
            if v != v:
                out[i] = None
            elif lo == hi:              # any one colour of the map will do
                out[i] = [cmap(0.0), cmap(0.5), cmap(1.0)]
            else:
                f = (v - lo) / (hi - lo)
                out[i] = [cmap(max(0.0, min(1.0, f + d))) for d in (-1e-9, 0, 1e-9)]
    return out


def frame(plotter):
    """Where a longitude and latitude lie in the picture, as fractions from the left and the top."""
    from cartopy.crs import PlateCarree
    from cartopy.mpl.geoaxes import GeoAxes
    found = [v for v in vars(plotter).values() if isinstance(v, GeoAxes)]
    if not found:
        import matplotlib.pyplot as plt
        found = [a for a in plt.gcf().axes if isinstance(a, GeoAxes)]
    ax = found[0]
    ax.figure.canvas.draw()
    w, h = ax.figure.bbox.width, ax.figure.bbox.height

    def at(lon, lat):
        x, y = ax.projection.transform_point(lon, lat, PlateCarree())
        px, py = ax.transData.transform((x, y))
        return px / w, 1 - py / h
    box = ax.get_window_extent()
    at.edges = [box.x0 / w, box.x1 / w, 1 - box.y0 / h, 1 - box.y1 / h]
    return at


def judge(image, at, m, ops, what):
    r = m["region"]
    hpx, wpx = image.shape[:2]
    judged = 0
    for (i, (x0, x1, y0, y1), _), want in zip(m["cells"], expected(m, ops)):
        if want is None:
            continue
        for fx, fy in ((0.5, 0.5), (0.3, 0.3), (0.7, 0.3), (0.3, 0.7), (0.7, 0.7)):
            lon = gen.norm180(r["long_min"] + x0 + (x1 - x0) * fx)
            if 180 - abs(lon) < 5 * gen.region_width(r) / (0.7 * wpx):
                continue            # the outline of a cell's two halves may show at the antimeridian
            u, v = at(lon, y0 + (y1 - y0) * fy)
            if not (0 <= u < 1 and 0 <= v < 1):
                raise Violation(f"{what}: cell {i} lies outside the picture")
            got = [float(z) for z in image[int(v * hpx), int(u * wpx)]]
            if not any(all(abs(a - b) <= 2.5 / 255 for a, b in zip(got, w)) for w in want):
                raise Violation(f"{what}: cell {i} {(x0, x1, y0, y1)} is drawn in {[round(z, 3) for z in got]}, "
                                f"expected {[round(float(z), 3) for z in want[0]]}")
        judged += 1
    return judged


def small(case, px):
    """Is some cell too small to sample at px pixels of height?"""
    m = case["mesh"]
    r = m["region"]
    per = 0.7 * px / (r["lat_max"] - r["lat_min"])
    return min(min(b[1] - b[0], b[3] - b[2]) for _, b, _ in m["cells"]) * per < 12


def check_plot(case, ctx):
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    from meshiphi.mesh_plotting.mesh_plotter import MeshPlotter
    m = case["mesh"]
    j = synth.to_json(m)
    before = json.dumps(j, sort_keys=True)
    path = os.path.join(ctx.dir, "p.png")
    with open(path, "w") as f:          # an older file is there
        f.write("older")
    scale = case["scale"]
    if scale and small(case, scale * 100):
        scale = None
    try:
        with sut("plotting"):
            p = MeshPlotter(j, figscale=scale) if scale else MeshPlotter(j)
            for kind, name, how in case["ops"]:
                (p.plot_cmap if kind == "cmap" else p.plot_bool)(name, how)
            if case.get("beside"):          # another picture is begun meanwhile
                MeshPlotter(synth.to_json(m), figscale=1).plot_cmap("depth", "gray")
            p.save(path)
        image = plt.imread(path)
        at = frame(p)
    finally:
        plt.close("all")
    require(json.dumps(j, sort_keys=True) == before, "plotting changed the mesh")
    r = m["region"]
    ratio = gen.region_width(r) / (r["lat_max"] - r["lat_min"])
    require(abs(image.shape[1] / image.shape[0] / ratio - 1) < 0.02, "the picture does not have the region's proportions")
    for lon, lat, k, l in ((r["long_min"], r["lat_min"], 0, 2), (r["long_max"], r["lat_max"], 1, 3)):
        u, v = at(lon, lat)
        require(abs(u - at.edges[k]) < 0.01 and abs(v - at.edges[l]) < 0.01,
                f"the corner ({lon}, {lat}) of the region is at {(u, v)}, the map has edges {at.edges}")
    n = judge(image, at, m, case["ops"], "plot")
    ctx.label(gen.region_kind(r), f"{len(case['ops'])} layers", *{k for k, _, _ in case["ops"]})
    ctx.nontrivial(n > 1)


@st.composite
def exports(draw):
    c = draw(pictures())
    c["ops"] = sorted(c["ops"], key=lambda o: o[0] != "cmap")       # colour maps are drawn first
    c["fmt"] = draw(st.sampled_from(["png", "PNG", "Png"]))
    c["cli"] = draw(st.booleans())
    return c


def check_export(case, ctx):
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    from meshiphi.mesh_generation.environment_mesh import EnvironmentMesh
    from meshiphi.mesh_plotting.mesh_plotter import MeshPlotter
    m = case["mesh"]
    j = synth.to_json(m)
    path, conf = os.path.join(ctx.dir, "p.png"), os.path.join(ctx.dir, "conf.json")
    with open(conf, "w") as f:
        json.dump(dict(cmaps=[dict(data_name=n, cmap=h) for k, n, h in case["ops"] if k == "cmap"],
                       bools=[dict(data_name=n, colour=h) for k, n, h in case["ops"] if k == "bool"]), f)
    try:
        if case.get("cli"):
            from meshiphi import cli
            src = os.path.join(ctx.dir, "m.json")
            with open(src, "w") as f:
                json.dump(j, f)
            with sut("export_mesh"), c13.at(ctx.dir, ["export_mesh", src, case["fmt"], "-o", path, "-f", conf]), gen.quiet():
                cli.export_mesh_cli()
            os.remove(src)
        else:
            with sut("exporting the picture"):
                EnvironmentMesh.load_from_json(copy.deepcopy(j)).save(path, case["fmt"], conf)
        image = plt.imread(path)
        with sut("plotting"):
            at = frame(MeshPlotter(j))
    finally:
        plt.close("all")
    require(sorted(os.listdir(ctx.dir)) == ["conf.json", "p.png"], f"stray files: {os.listdir(ctx.dir)}")
    n = judge(image, at, m, case["ops"], "export")
    ctx.label(gen.region_kind(m["region"]), f"{len(case['ops'])} layers")
    ctx.nontrivial(n > 1)


SUBS = [Sub("plots", pictures, check_plot, quick=1200,
            rule="quadtree meshes drawn with 1-3 layers of colour maps and true/false colours, sampled at five points of "
                 "every cell; non-trivial = two or more cells judged"),
        Sub("exports", exports, check_export, quick=200,
            rule="the same through EnvironmentMesh.save in PNG format with a configuration file; non-trivial = two or more "
                 "cells judged")]
