"""C17: abstract shapes and random fields are the data their parameters describe."""
import json
import math

from hypothesis import strategies as st

from checks.c04 import close
from checks.c14 import compare, read_mesh
from lib import gen, geo
from lib.harness import Sub, Violation, require, sut

PROPERTY = "C17"
ASSUMPTIONS = ["rectangles reach their width and height either side of their centre, as the code has it",
               "sample points lie on dyadic fractions of the region, so that points on cell edges are exact",
               "random fields: extent, range, reproducibility and scaling are judged, not the distribution"]
SHAPES = ["circle", "rectangle", "gradient", "checkerboard", "vector_circle", "vector_rectangle", "vector_gradient"]


@st.composite
def shapes(draw):
    r = draw(gen.regions(max_cells=draw(st.sampled_from([6, 6, 6, 1]))))
    kind = draw(st.sampled_from(SHAPES + ["circle", "rectangle", "vector_circle", "vector_rectangle"]))
    vector = kind.startswith("vector")
    base = kind.replace("vector_", "")
    w, h = gen.region_width(r), r["lat_max"] - r["lat_min"]
    if draw(st.integers(0, 3)) == 0 and h <= 90:        # around the equator, or Greenwich
        y = draw(st.integers(0, 4)) * h / 4
        r.update(lat_min=gen._n(-y), lat_max=gen._n(h - y))
        if w <= 180 and draw(st.booleans()):
            x = draw(st.integers(0, 4)) * w / 4
            r.update(long_min=gen._n(-x), long_max=gen._n(w - x))
    if base == "checkerboard":
        p = dict(nx=draw(st.sampled_from([4, 8, 2])), ny=draw(st.sampled_from([4, 8, 2])))
    else:
        p = dict(nx=draw(st.sampled_from([5, 9, 3])), ny=draw(st.sampled_from([5, 9, 3])))
    if base in ("circle", "rectangle"):
        if draw(st.booleans()):
            outside = draw(st.booleans())      # a centre need not lie in the region its circle reaches into
            la = r["lat_min"] + draw(st.integers(-2, 6) if outside else st.integers(0, 4)) * h / 4
            q = draw(st.sampled_from([-1, -2, 5, 6, 0])) if outside and w < 180 else draw(st.integers(1, 4))
            lo = gen.norm180(r["long_min"] + q * w / 4)
            las, los = [gen._n(la), None], [gen._n(lo), gen._n(lo), None]
            if r["lat_min"] <= 0 <= r["lat_max"]:
                las += [0, 0]
            if r["long_min"] <= 0 <= r["long_max"]:
                los += [0, 0]
            p["centre"] = [draw(st.sampled_from(las)), draw(st.sampled_from(los))]
        if base == "circle" and draw(st.integers(0, 3)):
            p["radius"] = draw(st.sampled_from([0.3, 0.5, 0.77, 1])) * min(w, h)
        if base == "rectangle":
            if draw(st.integers(0, 3)):
                p["width"] = w * draw(st.sampled_from([0.25, 0.3, 0.5, 0.8]))
            if draw(st.integers(0, 3)):
                p["height"] = h * draw(st.sampled_from([0.25, 0.3, 0.125]))
    if base == "gradient" and draw(st.booleans()):
        p["vertical"] = draw(st.booleans())
    if base == "checkerboard" and draw(st.integers(0, 3)):
        p["gridsize"] = [w * draw(st.sampled_from([0.25, 0.5, 0.125])), h * draw(st.sampled_from([0.25, 0.5, 0.125]))]
    if vector:
        if draw(st.booleans()):
            p["multiplier_u"] = draw(st.sampled_from([2, -3, 0.5, 0]))
        if draw(st.booleans()):
            p["multiplier_v"] = draw(st.sampled_from([4, -1, 0]))
    elif base != "checkerboard" and draw(st.booleans()):
        p["multiplier"] = draw(st.sampled_from([2, -3, 0.5, 0]))
    cells = round(w / r["cell_width"]) * round(h / r["cell_height"])
    if cells == 1 and base != "checkerboard" and draw(st.booleans()):     # the default is 101: not exact on edges between cells
        for k in draw(st.sampled_from([["nx"], ["ny"], ["nx", "ny"]])):
            del p[k]
    return dict(region=r, kind=kind, params=p, name=draw(st.booleans()), upper=draw(st.booleans()),
                agg=draw(st.sampled_from(["MEAN", "MEAN", "MEAN", "COUNT"] if vector else ["MEAN", "MIN", "MAX", "MEAN", "MAX", "COUNT"])))


def shape_points(case):
    """[(x, lat, value(s))]; None if a sample is within rounding of the rim."""
    r, p = case["region"], case["params"]
    base = case["kind"].replace("vector_", "")
    w, h = gen.region_width(r), r["lat_max"] - r["lat_min"]
    nx, ny = p.get("nx", 101), p.get("ny", 101)
    end = 0 if base == "checkerboard" else 1
    xs = [i * w / (nx - end) for i in range(nx)]
    ys = [r["lat_min"] + i * h / (ny - end) for i in range(ny)]
    out = []
    cy, cx = ys[ny // 2], xs[nx // 2]
    if p.get("centre"):
        if p["centre"][0] is not None:
            cy = p["centre"][0]
        if p["centre"][1] is not None:
            cx = (p["centre"][1] - r["long_min"]) % 360
            if cx == 0 and w == 360:
                cx = 360.0
            elif cx - w / 2 > 180:
                cx -= 360
    for i, y in enumerate(ys):
        for j, x in enumerate(xs):
            if base == "circle":
                d, rad = math.sqrt((x - cx) ** 2 + (y - cy) ** 2), p.get("radius", 1)
                if d != rad and abs(d - rad) < 1e-6:
                    return None
                v = float(d <= rad)
            elif base == "rectangle":
                v = 1.0
                for d, lim in ((abs(x - cx), p.get("width", 1)), (abs(y - cy), p.get("height", 1))):
                    if d != lim and abs(d - lim) < 1e-6:
                        return None
                    v *= d <= lim
            elif base == "gradient":
                v = i / (ny - 1) if p.get("vertical", True) else j / (nx - 1)
            else:
                gx, gy = p.get("gridsize", (1, 1))
                qx, qy = x / gx, (y - r["lat_min"]) / gy
                for q in (qx, qy):
                    if abs(q - round(q)) < 1e-9 and q != round(q):
                        return None
                v = float((math.floor(qx) + math.floor(qy)) % 2)
            if case["kind"].startswith("vector"):
                u = v
                if base == "gradient":
                    u, v = (0.0, v) if p.get("vertical", True) else (v, 0.0)
                out.append((x, y, (u * p.get("multiplier_u", 1), v * p.get("multiplier_v", 1))))
            else:
                out.append((x, y, v * p.get("multiplier", 1)))
    return out


def check_shapes(case, ctx):
    r = case["region"]
    pts = shape_points(case)
    if pts is None:
        return
    vector = case["kind"].startswith("vector")
    names = ["dummy_data_u", "dummy_data_v"] if vector else ["dummy_data"]
    params = dict(case["params"], aggregate_type=case["agg"])
    if case["name"]:
        names = ["a", "b"] if vector else ["a"]
        params["data_name"] = ",".join(names)
    cfg = dict(region=dict(r), data_sources=[dict(loader=case["kind"].upper() if case["upper"] else case["kind"],
                                                  params=params)],
               splitting=dict(split_depth=0, minimum_datapoints=1))
    cells = read_mesh(cfg, r)
    most = compare(cells, [p for p in pts], names, case["agg"], True, vector)
    ctx.label(case["kind"], case["agg"], gen.region_kind(r))
    ctx.nontrivial(most > 1 and len({p[2:] for p in pts}) > 1)


# ---- random fields ----

@st.composite
def fields(draw):
    r = draw(gen.regions(max_cells=4))
    kind = draw(st.sampled_from(["scalar_grf", "binary_grf", "vector_grf"]))
    p = dict(seed=draw(st.integers(0, 2 ** 31)), size=draw(st.sampled_from([5, 9, 17, 8])), alpha=draw(st.sampled_from([3, 2, 4.5])))
    if draw(st.integers(0, 3)) == 0:
        del p["alpha"]
    if kind == "binary_grf":
        p["binary"] = True
        if draw(st.booleans()):
            p["threshold"] = draw(st.sampled_from([0.25, 0.6, 0.8]))
    else:
        if kind == "scalar_grf":
            p["binary"] = False
            if draw(st.booleans()):
                p["threshold"] = draw(st.sampled_from([[0, 0.6], [0.3, 1], [0.4, 0.7], [-1, 0.6], [0.3, 2], [-0.5, 1.5]]))
            if draw(st.booleans()):
                p["multiplier"] = draw(st.sampled_from([2, -1, 0.5]))
            if draw(st.booleans()):
                p["offset"] = draw(st.sampled_from([10, -0.25]))
        if draw(st.booleans()):
            p["min"] = draw(st.sampled_from([-4, 0, 1]))
            p["max"] = p["min"] + draw(st.sampled_from([1, 5]))
    if draw(st.booleans()):
        p["data_name"] = "qu,qv" if kind == "vector_grf" else "q"
    return dict(region=r, kind=kind, params=p, other=draw(st.integers(0, 2 ** 31)))


def field(case, **change):
    """{(x, lat): value(s)} of the whole field, straight from the loader."""
    from meshiphi.dataloaders.factory import DataLoaderFactory
    from meshiphi.mesh_generation.boundary import Boundary
    r = case["region"]
    with sut(f"making {case['kind']}"):
        b = Boundary([r["lat_min"], r["lat_max"]], [r["long_min"], r["long_max"]], [r["start_time"], r["end_time"]])
        loader = DataLoaderFactory.get_dataloader(case["kind"], b, dict(case["params"], **change))
        data = loader.import_data(b)
        keys = list(data.keys())
        df = data.to_dataframe().reset_index()
        out = {}
        for la, lo, *v in zip(df["lat"], df["long"], *[df[k] for k in keys]):
            require(-180 <= lo <= 180, f"a datum at longitude {lo}")
            x = float(lo) - r["long_min"]
            out[(x if x >= 0 else x + 360, float(la))] = tuple(float(x) for x in v)
        kept = loader.data
        n = int(kept.sizes["lat"]) * int(kept.sizes["long"])
    return loader, out, n


def check_fields(case, ctx):
    import numpy as np
    r, p = case["region"], case["params"]
    w, h = gen.region_width(r), r["lat_max"] - r["lat_min"]
    state = np.random.get_state()
    try:
        loader, one, kept = field(case)
        _, two, _ = field(case)
        _, other, _ = field(case, seed=case["other"])
    finally:
        np.random.set_state(state)
    n = p["size"]
    if "alpha" not in p:
        p = dict(p, alpha=3)
        require(field(case, alpha=3)[1] == one, "the default alpha is not 3")
    name = p.get("data_name", {"binary_grf": "binary_data", "scalar_grf": "scalar_data", "vector_grf": "uC,vC"}[case["kind"]])
    with sut("reading names"):
        held = {str(k) for k in loader.data.keys()}
    require(loader.data_name == name and set(name.split(",")) <= held,
            f"the field should be called {name}: it is {loader.data_name} and holds {sorted(held)}")
    # where: an even lattice over the region, less its western and southern edge once trimmed
    xs = sorted({k[0] for k in one})
    ys = sorted({k[1] for k in one})
    wantx = [i * w / (n - 1) for i in range(n)]
    wanty = [r["lat_min"] + i * h / (n - 1) for i in range(n)]
    require(len(xs) == len(wantx) and all(abs(a - b) < 1e-6 for a, b in zip(xs, wantx)),
            f"longitudes of the field (from the western edge) {xs[:4]}, expected {wantx[:4]}")
    require(len(ys) == n and all(abs(a - b) < 1e-6 for a, b in zip(ys, wanty)), f"latitudes {ys[:4]}, expected {wanty[:4]}")
    require(kept == (n - 1) ** 2, f"the loader kept {kept} data of {n}x{n}, expected all but two edges")
    # what
    require(one == two, "the same seed gave different fields")
    if p["seed"] != case["other"] and case["kind"] != "binary_grf":
        require(one != other, "different seeds gave the same field")
    vals = list(one.values())
    if case["kind"] == "binary_grf":
        require({v for t in vals for v in t} <= {0.0, 1.0}, "a binary field holds values other than 0 and 1")
        thr = p.get("threshold", 0.5)
        _, less, _ = field(case, threshold=thr - 0.1)
        _, more, _ = field(case, threshold=thr + 0.1)
        require(all(less[k] >= one[k] >= more[k] for k in one), "a higher threshold adds cells to a binary field")
        _, every, _ = field(case, threshold=0.0)
        require(all(v[0] == 1 for v in every.values()), "threshold 0 does not take everything")
        base = dict(case, kind="scalar_grf", params=dict(seed=p["seed"], size=n, alpha=p["alpha"], binary=False))
        _, u, _ = field(base, threshold=[0, 1], min=0, max=1)
        for k, v in one.items():
            if abs(u[k][0] - thr) > 1e-9:
                require(v[0] == (u[k][0] >= thr), f"the field is {u[k][0]} of its range, threshold {thr}, and shown as {v[0]}")
        ctx.nontrivial(len(set(vals)) > 1)
    elif case["kind"] == "scalar_grf":
        lo, hi = p.get("min", -10), p.get("max", 10)
        m, o = p.get("multiplier", 1), p.get("offset", 0)
        ends = sorted((lo * m + o, hi * m + o))
        got = [min(v[0] for v in vals), max(v[0] for v in vals)]
        require(all(abs(a - b) < 1e-6 for a, b in zip(got, ends)), f"the field ranges over {got}, expected {ends}")
        _, u, _ = field(case, threshold=[0, 1], min=0, max=1, multiplier=1, offset=0)
        t0, t1 = p.get("threshold", [0, 1])
        cut = {k: min(max(v[0], t0), t1) for k, v in u.items()}
        c0, c1 = min(cut.values()), max(cut.values())
        for k, v in one.items():
            want = ((cut[k] - c0) / (c1 - c0) * (hi - lo) + lo) * m + o
            require(abs(v[0] - want) < 1e-6, f"the field is {u[k][0]} of its range, cut to {t0}..{t1} it should be {want} but is {v[0]}")
        _, scaled, _ = field(case, min=lo * 2 + 1, max=hi * 2 + 1, multiplier=1, offset=0)
        for k, v in one.items():
            a = (v[0] - o) / m
            require(abs(scaled[k][0] - (2 * a + 1)) < 1e-6, f"rescaling the range moved {a} to {scaled[k][0]}, not {2 * a + 1}")
        ctx.nontrivial()
    else:
        lo, hi = p.get("min", 0), p.get("max", 10)
        mags = [math.hypot(*v) for v in vals]
        if lo >= 0:
            require(abs(min(mags) - lo) < 1e-6 and abs(max(mags) - hi) < 1e-6,
                    f"magnitudes range over {min(mags)}..{max(mags)}, expected {lo}..{hi}")
        require(max(mags) <= max(abs(lo), abs(hi)) + 1e-6, f"a magnitude of {max(mags)} with limits {lo}..{hi}")
        ctx.nontrivial()
    ctx.label(case["kind"], gen.region_kind(r))


SUBS = [Sub("shapes", shapes, check_shapes, quick=1700,
            rule="circles, rectangles, gradients and checkerboards, scalar and vector, with any subset of their parameters, "
                 "built into a mesh; non-trivial = a cell with two or more data, and more than one value in the field"),
        Sub("fields", fields, check_fields, quick=700,
            rule="scalar, binary and vector random fields, several times each; non-trivial = the field has more than one value")]
