"""C18: the tools that compare and validate meshes report exactly the differences there are; helper arithmetic."""
import copy
import json
import math
import os
from decimal import Decimal

from lib import gen, geo, model, synth
from lib.harness import Sub, Violation, require, sut
from hypothesis import strategies as st

PROPERTY = "C18"
ASSUMPTIONS = ["a column of a mesh holds values of one kind (or gaps)",
               "numbers are near 4-digit numbers, so that their 4-figure rounding is not in doubt",
               "sampled validation: scalar data without gaps"]


# ---------------------------------------------------------------- comparing two meshes
def four(draw):
    m = draw(st.integers(1000, 9999))
    k = draw(st.integers(-6, 4))
    s = draw(st.sampled_from([1, -1]))
    return [s * m, k]


def num(v):
    return float(f"{v[0]}e{v[1]}")


KINDS = {"f": "floats", "l": "lists", "s": "texts", "i": "ints", "b": "truths"}


def make_value(draw, kind):
    if kind == "f":
        return draw(st.sampled_from([None, 0, 1, 1, 1, 1])) and four(draw)
    if kind == "l":
        return [four(draw), four(draw)]
    if kind == "s":
        return draw(st.sampled_from(["x", "y", ""]))
    if kind == "b":
        return draw(st.booleans())
    return draw(st.integers(-99, 999))


def concrete(kind, v, noise=0.0):
    """Value written to JSON; None and 0 of the float column are a gap and zero."""
    if kind == "f":
        if v is None:
            return float("nan")
        return 0.0 if v == 0 else num(v) * (1 + noise)
    if kind == "l":
        return [num(x) * (1 + noise) for x in v]
    return v


@st.composite
def pairs(draw):
    m = draw(synth.meshes(max_cells=9, max_depth=2, max_splits=4, depth=2, names=("zz",)))
    cols = {f"c{i}{k}": k for i, k in enumerate(draw(st.lists(st.sampled_from(list(KINDS)), min_size=1, max_size=3)))}
    cells = []
    for i, b, _ in m["cells"]:
        cells.append([i, b, {c: make_value(draw, k) for c, k in cols.items()}])
    m["cells"] = cells
    edits = []
    for _ in range(draw(st.integers(0, 5))):
        what = draw(st.sampled_from(["value", "value", "noise", "near", "drop", "add", "split", "cut", "shuffle", "swap", "move", "id"]))
        e = dict(what=what, at=draw(st.integers(0, 99)), col=draw(st.sampled_from(sorted(cols))))
        if what == "value":
            e["new"] = make_value(draw, cols[e["col"]])
        if what == "split":
            e["new"] = [{c: make_value(draw, k) for c, k in cols.items()} for _ in range(4)]
        edits.append(e)
    return dict(mesh=m, cols=cols, edits=edits, order=draw(st.sampled_from(["same", "reversed"])),
                back=draw(st.booleans()))


def mesh_of(m, cols, noise=()):
    out = copy.deepcopy(m)
    for n, c in enumerate(out["cells"]):
        c[2] = {k: concrete(cols[k], v, 3e-8 if (c[0], k) in noise else 0.0) for k, v in c[2].items()}
    return synth.to_json(out)


def check_compare(case, ctx):
    from meshiphi.mesh_validation.mesh_comparator import MeshComparator
    m1, cols = case["mesh"], case["cols"]
    m2 = copy.deepcopy(m1)
    extra, renamed, noise, graph_edits = set(), {}, set(), []
    for e in case["edits"]:
        c = m2["cells"][e["at"] % len(m2["cells"])]
        w = e["what"]
        if w == "value" and e["col"] in c[2]:
            c[2][e["col"]] = copy.deepcopy(e["new"])
        elif w == "near" and cols[e["col"]] in "fl" and c[2].get(e["col"]):
            v = c[2][e["col"]]                  # the last of the four figures
            v = v[e["at"] % 2] if cols[e["col"]] == "l" else v
            v[0] += 1 if abs(v[0] + 1) <= 9999 else -1
        elif w == "noise":
            noise.add((c[0], e["col"]))
        elif w == "drop":
            c[2].pop(e["col"], None)
        elif w == "add":
            extra.add(c[0])
        elif w == "split":
            m2["cells"].remove(c)
            top = max(i for i, _, _ in m2["cells"] + m1["cells"] + [[c[0], 0, 0]])
            for q, (b, v) in enumerate(zip(synth.quarters(c[1]), e["new"])):
                # half of the time the first quarter has the id that the whole cell had
                m2["cells"].append([c[0] if q == 0 and e["at"] % 2 else top + 1 + q, list(b), copy.deepcopy(v)])
        elif w in ("cut", "shuffle", "swap", "move"):
            graph_edits.append((w, c[0], e["at"]))
        elif w == "id":
            c[0] += 1000
    with_extra = {i for i, _, _ in m2["cells"]} & extra
    j1, j2 = mesh_of(m1, cols), mesh_of(m2, cols, noise)
    for cb in j2["cellboxes"]:
        if int(cb["id"]) in with_extra:
            cb["extra"] = 1.5
    for w, i, k in graph_edits:
        g = j2["neighbour_graph"].get(str(i))
        if g is None:
            continue
        full = [d for d in sorted(g) if g[d]]
        if w == "cut" and full:
            g[full[k % len(full)]].pop()
        elif w == "swap" and full:              # the same neighbours elsewhere
            a, b = full[k % len(full)], sorted(g)[k % len(g)]
            g[a], g[b] = g[b], g[a]
        elif w == "move" and full:
            g[sorted(g)[(k * 7) % len(g)]].append(g[full[k % len(full)]].pop())
        else:
            for d in g:
                g[d].reverse()
    if case["order"] == "reversed":
        j2["cellboxes"].reverse()
    # JSON files keep text keys and text ids
    j1, j2 = json.loads(json.dumps(j1)), json.loads(json.dumps(j2))
    if case.get("back"):
        j1, j2 = j2, j1

    c1 = {cb["geometry"]: cb for cb in j1["cellboxes"]}
    c2 = {cb["geometry"]: cb for cb in j2["cellboxes"]}
    common = set().union(*(set(c) for c in c1.values())) & set().union(*(set(c) for c in c2.values()))
    expect = {
        "compare_cellbox_boundaries": [c["id"] for g, c in c2.items() if g not in c1],
        "compare_cellbox_values": [c["id"] for g, c in c2.items() if g in c1 and any(
            not same(c1[g].get(k), c.get(k)) for k in common)],
        "compare_cellbox_attributes": [c["id"] for g, c in c2.items() if g in c1 and set(c) != set(c1[g])],
        "compare_neighbour_graph_values": [
            i for i in j2["neighbour_graph"] if i in j1["neighbour_graph"] and
            {d: sorted(x) for d, x in j1["neighbour_graph"][i].items()} !=
            {d: sorted(x) for d, x in j2["neighbour_graph"][i].items()}]}
    by_id = {c["id"]: g for g, c in c2.items()}
    mc = MeshComparator()
    for name, want in expect.items():
        for a, b, want in ((j1, j2, want), (j1, j1, []), (j2, j2, [])):
            a, b = copy.deepcopy(a), copy.deepcopy(b)
            keep = json.dumps([a, b], sort_keys=True)
            with sut(f"{name}(return_type='id')"):
                got = sorted(str(x) for x in list(getattr(mc, name)(a, b, return_type="id")))
            with sut(f"{name}()"):
                df = getattr(mc, name)(a, b)
                rows = sorted(str(x) for x in df.index) if len(df) else []
            require(json.dumps([a, b], sort_keys=True) == keep, f"{name} changed the meshes it compares")
            require(got == sorted(want), f"{name}: the cells that differ are {sorted(want)}, reported are {got}")
            require(rows == sorted(by_id[i] for i in want),
                    f"{name}: the outlines of the cells that differ are {sorted(by_id[i] for i in want)}, "
                    f"reported are {rows}")
    for k, v in expect.items():
        if v:
            ctx.label(k.replace("compare_", "") + " differ")
    ctx.nontrivial(sum(bool(v) for v in expect.values()) >= 1 and len(c1) > 1)


def rounded(v):
    return f"{v:.3e}" if math.isfinite(v) and v else repr(float(v))


def same(a, b):
    def gap(x):
        return x is None or (isinstance(x, float) and math.isnan(x))
    if gap(a) or gap(b):
        return gap(a) and gap(b)
    if isinstance(a, list):
        return [rounded(x) for x in a] == [rounded(x) for x in b]
    if isinstance(a, float):
        return rounded(a) == rounded(b)
    return a == b


# ---------------------------------------------------------------- validation against all source data
NUMS = st.one_of(st.integers(-9, 9), st.floats(-1e3, 1e3).map(lambda x: round(x, 3)), st.none())


@st.composite
def fulls(draw):
    m = draw(synth.meshes(max_cells=12, max_depth=3, max_splits=5, depth=2, names=("zz",)))
    for c in m["cells"]:
        c[2] = {k: draw(NUMS) for k in ("a", "uC", "vC")}
    pts = draw(gen.points(m["region"], max_points=40))
    points = [[la, lo, draw(NUMS), draw(NUMS), draw(NUMS)] for la, lo, _ in pts]
    if points:          # the same record may come up again
        points += [list(points[i % len(points)]) for i in draw(st.lists(st.integers(0, 40), max_size=3))]
    return dict(mesh=m, points=points,
                missing=draw(st.sampled_from([None, None, None, None, "lat", "long"])))


def check_full(case, ctx):
    import numpy as np
    import pandas as pd
    from meshiphi.mesh_validation.full_mesh_validator import FullMeshValidator
    m = case["mesh"]
    r = m["region"]
    nan = float("nan")
    df = pd.DataFrame([[la, lo] + [nan if x is None else float(x) for x in rest] for la, lo, *rest in case["points"]],
                      columns=["lat", "long", "s", "u", "v"])
    mesh = copy.deepcopy(m)
    for c in mesh["cells"]:
        c[2] = {k: nan if x is None else float(x) for k, x in c[2].items()}
    j = synth.to_json(mesh)
    if case["missing"]:
        try:
            FullMeshValidator(j, df.drop(columns=[case["missing"]]))
        except ValueError:
            ctx.label("refused")
            return
        raise Violation(f"source data without column {case['missing']!r} were accepted")
    keep = df.copy()
    with sut("validate_scalar / validate_vector"):
        fv = FullMeshValidator(j, df)
        got_s = fv.validate_scalar("s", "a")
        got_v = fv.validate_vector(["u", "v"], ["uC", "vC"])
    require(df.equals(keep), "validating changed the source data")
    err_s, err_v, held = [], [], 0
    for la, lo, s, u, v in case["points"]:
        x = (lo - r["long_min"]) % 360
        if x == 0 and gen.region_width(r) == 360:
            x = 360
        cells = [c for c in m["cells"] if c[1][0] < x <= c[1][1] and c[1][2] < la <= c[1][3]]
        for c in cells:
            held += 1
            if s is not None and c[2]["a"] is not None:
                err_s.append(abs(s - c[2]["a"]))
            if None not in (u, v, c[2]["uC"], c[2]["vC"]):
                err_v.append(math.hypot(u - c[2]["uC"], v - c[2]["vC"]))
    n = len(m["cells"])
    for got, errs, a, b in ((got_s, err_s, "mean_err", "root_mean_squared_err"),
                            (got_v, err_v, "mean_d_vector_mag", "root_mean_squared_d_vector_mag")):
        want = (math.fsum(errs) / len(errs), math.sqrt(math.fsum(e * e for e in errs) / len(errs))) if errs else (nan, nan)
        for k, w in zip((a, b), want):
            g = float(got[k])
            ok = math.isnan(g) if math.isnan(w) else math.isclose(g, w, rel_tol=1e-9, abs_tol=1e-9)
            require(ok, f"{k} should be {w} over {len(errs)} data but is {g}")
        require(got["cellbox_count"] == n, f"cellbox_count should be {n} but is {got['cellbox_count']}")
    ctx.label(gen.region_kind(r))
    ctx.nontrivial(len(set(err_s)) > 1 and n > 1)


# ---------------------------------------------------------------- validation of samples
@st.composite
def sampled(draw):
    case = draw(gen.mesh_cases(kinds=("csv", "nc"), aggs=("MEAN", "MIN", "MAX"), max_depth=2, max_sources=2,
                               max_cells=8, max_points=40))
    r = case["region"]
    nx, ny = gen._lattice(r, 8)
    samples = [[draw(st.integers(0, ny - 1)), draw(st.integers(0, nx - 1))] for _ in range(3)]
    return dict(mesh=case, samples=samples, length=draw(st.sampled_from(
        [0.1, 1, 5, 20, r["cell_width"], r["cell_height"], 1.5 * max(r["cell_width"], r["cell_height"])])),
                n=draw(st.sampled_from([1, 2, 4, 8])))


def check_sampled(case, ctx):
    import numpy as np
    from meshiphi.mesh_validation.mesh_validator import MeshValidator
    mc = case["mesh"]
    r = mc["region"]
    conf = gen.make_config(mc, ctx.dir)
    path = os.path.join(ctx.dir, "mesh.json")
    with open(path, "w") as f:
        json.dump(dict(config=dict(mesh_info=conf)), f)
    pts = [model.src_points(s, r) for s in mc["sources"]]
    width = gen.region_width(r)
    box = (0, width, r["lat_min"], r["lat_max"])
    if not all(any(box[0] < x <= box[1] and box[2] < la <= box[3] for x, la, _ in p) for p in pts):
        return                                  # no data in the region: refused when building (C11)
    with sut("MeshValidator"), gen.quiet():
        mv = MeshValidator(path)
        j = mv.env_mesh.to_json()
    mv.validation_length = case["length"]
    cells = geo.read_cells(j, r["long_min"])
    vals = {str(cb["id"]): cb for cb in j["cellboxes"]}

    def expected(lat, x):
        """Multisets of data values and cell values within the sample's square, source by source."""
        x1, la1 = min(x + case["length"], width), min(lat + case["length"], r["lat_max"])
        out = []
        for s, p in zip(mc["sources"], pts):
            for px, la, v in p:
                if x < px <= x1 and lat < la <= la1:
                    own = [i for i, b in cells.items() if b[0] < px <= b[1] and b[2] < la <= b[3]]
                    out += [(float(v), float(vals[str(i)][s["name"]])) for i in own]
        return out

    seen = 0
    for iy, ix in case["samples"]:
        lat = r["lat_min"] + iy * r["cell_height"] / 8
        x = ix * r["cell_width"] / 8
        lon = r["long_min"] + x
        lon = lon - 360 if lon > 180 else lon
        if lon == 180:
            continue
        want = expected(lat, x)
        with sut("get_value_from_data / get_values_from_mesh"), gen.quiet():
            a = [float(v) for v in mv.get_value_from_data([lat, lon])]
            b = [float(v) for v in mv.get_values_from_mesh([lat, lon])]
        require(len(a) == len(b), f"sample {lat},{lon}: {len(a)} data are compared with {len(b)} values of the mesh")
        require(near(sorted(zip(a, b)), sorted(want)),
                f"sample {lat},{lon}: data and their cells' values are {sorted(want)}, compared are {sorted(zip(a, b))}")
        seen += len(want)
    # the distance itself: root of the mean square over the squares it looked at
    taken, orig = [], mv.get_value_from_data
    mv.get_value_from_data = lambda s: (taken.append([float(s[0]), float(s[1])]), orig(s))[1]
    try:
        with gen.quiet():
            d, err = mv.validate_mesh(case["n"]), None
    except Exception as e:  # noqa: BLE001
        d, err = None, e
    pairs_ = []
    for lat, lon in taken:
        x = (lon - r["long_min"]) % 360
        require(r["lat_min"] <= lat <= r["lat_max"] and x <= width, f"sample {lat},{lon} is outside the mesh")
        pairs_ += expected(lat, x)
    if taken and not pairs_:
        ctx.label("no data sampled")
    elif err is not None:
        raise Violation(f"validate_mesh raised {type(err).__name__}: {err}")
    elif taken:
        require(len(taken) == case["n"], f"{len(taken)} samples instead of {case['n']}")
        want = math.sqrt(math.fsum((a - b) ** 2 for a, b in pairs_) / len(pairs_))
        require(math.isclose(want, d, rel_tol=1e-7, abs_tol=1e-7), f"the distance should be {want} but is {d}")
        ctx.label("distance")
    ctx.label(gen.region_kind(r))
    ctx.nontrivial(seen > 1 and len(cells) > 1)


def near(a, b):
    return len(a) == len(b) and all(math.isclose(x, y, rel_tol=1e-6, abs_tol=1e-6)
                                    for p, q in zip(a, b) for x, y in zip(p, q))


# ---------------------------------------------------------------- helpers
@st.composite
def helpers(draw):
    lon = st.one_of(st.integers(-720, 720), st.integers(-2880, 2880).map(lambda k: k / 4))
    dec = st.one_of(st.integers(0, 10 ** 6), st.integers(1, 10 ** 6))
    return dict(lons=[draw(lon) for _ in range(3)], turn=draw(st.integers(-2, 2)),
                digits=[[draw(st.integers(-10 ** 7, 10 ** 7)), draw(st.integers(-9, 6))] for _ in range(3)],
                whole=draw(st.integers(-10 ** 9, 10 ** 9)), sig=draw(st.integers(1, 8)),
                kinds=draw(st.sampled_from(["float", "int", "list", "array"])),
                ym=[draw(st.integers(1950, 2100)), draw(st.integers(1, 12)), draw(st.integers(1, 28)),
                    draw(st.integers(1, 28))], span=draw(st.integers(0, 400)),
                minutes=draw(dec), jitter=draw(st.sampled_from([0, 0, 1e-9, -1e-9])),
                flow=[draw(st.integers(-9, 9)) for _ in range(4)], shape=[draw(st.integers(2, 5)), draw(st.integers(2, 5))],
                n=draw(st.sampled_from([1, 2, 3, 8])), dims=draw(st.integers(1, 4)),
                ranges=[[draw(st.integers(-90, 0)), draw(st.integers(1, 90))] for _ in range(4)])


def check_helpers(case, ctx):
    import calendar
    import datetime as dt
    import numpy as np
    from meshiphi import utils as u
    from meshiphi.mesh_validation.sampler import Sampler
    a, b, c = case["lons"]
    with sut("longitude_domain"):
        dom = [u.longitude_domain(x) for x in (a, b, c)]
        again = u.longitude_domain(list(dom))
        arr = list(u.longitude_domain(np.array([a, b, c], dtype=float)))
    for x, y in zip((a, b, c), dom):
        require(-180 <= y <= 180 and (x - y) % 360 == 0, f"longitude_domain({x}) is {y}")
        require(x not in (180, -180) or x == y, f"longitude_domain({x}) is {y}")
    require(list(again) == list(dom) and arr == [float(y) for y in dom], "longitude_domain of a list or array differs")
    want = abs(a - b) % 360
    want = min(want, 360 - want)
    with sut("longitude_distance"):
        got = [u.longitude_distance(a, b), u.longitude_distance(b, a),
               u.longitude_distance(a + 360 * case["turn"], b)]
    require(all(g == want for g in got), f"the distance of {a} and {b} should be {want}, got {got}")

    # significant figures
    sig = case["sig"]
    xs = [float(f"{m}e{k}") for m, k in case["digits"]]
    kind = case["kinds"]
    with sut("round_to_sigfig"):
        if kind == "float":
            out = [u.round_to_sigfig(x, sig) for x in xs]
            require(all(isinstance(y, float) for y in out), "round_to_sigfig of a float is no float")
        elif kind == "int":
            xs = [case["whole"], 0, -case["whole"]]
            out = [u.round_to_sigfig(x, sigfig=sig) for x in xs]
        elif kind == "list":
            out = u.round_to_sigfig(list(xs), sig)
            require(isinstance(out, list), "round_to_sigfig of a list is no list")
        else:
            xs = xs + [float("nan"), float("inf"), 0.0]
            out = u.round_to_sigfig(np.array(xs), sig)
            require(isinstance(out, np.ndarray), "round_to_sigfig of an array is no array")
            require(math.isnan(out[-3]) and out[-2] == math.inf, "round_to_sigfig changes NaN or infinity")
            xs, out = xs[:-3] + [0.0], list(out[:-3]) + [out[-1]]
    for x, y in zip(xs, out):
        if x == 0:
            require(y == 0, f"0 rounded is {y}")
            continue
        d = Decimal(repr(x))
        unit = Decimal(1).scaleb(d.adjusted() - sig + 1)
        err = abs(Decimal(repr(float(y))) - d)
        require(err <= unit / 2 * (1 + Decimal("1e-6")), f"{x} to {sig} figures is given as {y}")
        q = Decimal(repr(float(y))) / unit
        require(abs(q - q.to_integral_value()) < Decimal("1e-4"), f"{x} to {sig} figures is given as {y}")

    # dates
    y, mth, d1, d2 = case["ym"]
    d1, d2 = min(d1, d2), max(d1, d2)
    days = calendar.monthrange(y, mth)[1]
    s, e = dt.datetime(y, mth, d1), dt.datetime(y, mth, d2)
    with sut("frac_of_month"):
        fr = [u.frac_of_month(y, mth), u.frac_of_month(y, mth, start_date=s), u.frac_of_month(y, mth, end_date=e),
              u.frac_of_month(y, mth, s, e)]
    want = [1, (days - d1 + 1) / days, d2 / days, (d2 - d1 + 1) / days]
    require(all(math.isclose(p, q) for p, q in zip(fr, want)), f"frac_of_month {y}-{mth} {d1}..{d2}: {fr}, not {want}")
    try:
        u.frac_of_month(y, mth, start_date=s.replace(day=1) - dt.timedelta(1))
        raise Violation("frac_of_month accepts a start date in another month")
    except AssertionError:
        pass
    with sut("date_range"):
        got = list(u.date_range(s, s + dt.timedelta(case["span"])))
        parsed = u.str_to_datetime(s.strftime("%Y-%m-%d"))
    require(got == [s + dt.timedelta(k) for k in range(case["span"])], f"date_range from {s} over {case['span']} days")
    require(parsed == s, "str_to_datetime")

    # days, hours and minutes
    t = case["minutes"]
    dd = t / 1440 + case["jitter"] * (t > 0)
    with sut("convert_decimal_days"):
        text, hours = u.convert_decimal_days(dd, mins=True), u.convert_decimal_days(dd)
    p = dict((w, float(n)) for n, w in zip(text.split()[::2], text.split()[1::2]))
    require(p["minutes"] < 60 and p.get("hours", 0) < 24 and
            p.get("days", 0) * 1440 + p.get("hours", 0) * 60 + p["minutes"] == t, f"{t} minutes are shown as {text!r}")
    p = dict((w, float(n)) for n, w in zip(hours.split()[::2], hours.split()[1::2]))
    require(p["hours"] < 24 and abs(p.get("days", 0) * 24 + p["hours"] - t / 60) < 0.0051,
            f"{t} minutes are shown as {hours!r}")

    # derivatives of a linear flow; flow[y][x] = (Fx, Fy)
    ax, bx, ay, by = case["flow"]
    ny, nx = case["shape"]
    flow = np.array([[[ax * i + bx * k, ay * i + by * k] for i in range(nx)] for k in range(ny)], dtype=float)
    with sut("divergence / curl"):
        div, crl = u.divergence(flow.copy()), u.curl(flow.copy())
    require(np.allclose(div, ax + by), f"divergence of a linear flow should be {ax + by}")
    require(np.allclose(crl, ay - bx), f"curl of a linear flow should be {ay - bx}")

    # samples and wrappers
    ranges = case["ranges"][:case["dims"]]
    with sut("Sampler"):
        sm = Sampler(case["dims"], case["n"]).generate_samples(ranges)
    require(sm.shape == (case["n"], case["dims"]), f"{sm.shape} samples")
    require(all(lo <= v <= hi for row in sm for v, (lo, hi) in zip(row, ranges)), "a sample is out of its range")
    try:
        Sampler(case["dims"] + 1, case["n"]).generate_samples(ranges)
        raise Violation("Sampler accepts the wrong number of ranges")
    except ValueError:
        pass
    with sut("timed_call / memory_trace"):
        f = u.timed_call(lambda x, k=0: (x, k))
        g = u.memory_trace(lambda x, k=0: (x, k))
        require(f(a, k=b) == (a, b) and g(a, k=b) == (a, b), "a wrapped function returns something else")
    import tracemalloc
    tracemalloc.stop()
    ctx.nontrivial(len({a, b, c}) == 3)


SUBS = [
    Sub("compare", pairs, check_compare, quick=500, rule="the meshes differ in at least one respect"),
    Sub("full", fulls, check_full, quick=500, rule="at least two different errors in a mesh of several cells"),
    Sub("sampled", sampled, check_sampled, quick=240, rule="the squares hold several data in a mesh of several cells"),
    Sub("helpers", helpers, check_helpers, quick=600, rule="three distinct longitudes"),
]
