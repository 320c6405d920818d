"""C10: Boundary: extent, centre, polygon, text form, quarters and refusals agree for every box on the globe."""
import math

from hypothesis import strategies as st

from lib import gen
from lib.harness import Sub, Violation, require, sut

PROPERTY = "C10"
ASSUMPTIONS = ["coordinates are multiples of 2^-14 degrees, so that halves are exact",
               "a box 360 degrees wide is written -180:180 (or starts and ends at one longitude)"]
DATES = ["1970-01-01", "2016-02-29", "2017-02-01", "2021-12-31", "2030-06-15"]


@st.composite
def boxes(draw):
    kind = draw(st.sampled_from(["plain", "anti", "edge", "global", "tiny"]))
    Q = draw(st.sampled_from([64, 64, 1, 1024, 2 ** 14]))
    la = sorted(draw(st.tuples(st.integers(-90 * Q, 90 * Q), st.integers(-90 * Q, 90 * Q))))
    if la[0] == la[1]:
        la[1] += 1
        if la[1] > 90 * Q:
            la = [la[0] - 1, la[1] - 1]
    if kind == "global":
        lo = [-180 * Q, 180 * Q]
    elif kind == "edge":
        lo = draw(st.sampled_from([[180 * Q, draw(st.integers(-179 * Q, 179 * Q))],
                                   [draw(st.integers(-179 * Q, 179 * Q)), -180 * Q],
                                   [-180 * Q, draw(st.integers(-179 * Q, 179 * Q))],
                                   [draw(st.integers(-179 * Q, 179 * Q)), 180 * Q]]))
    else:
        a = draw(st.integers(-180 * Q, 180 * Q - 1))
        b = a + draw(st.integers(1, 8)) if kind == "tiny" else draw(st.integers(a + 1, 180 * Q))
        lo = [a, min(b, 180 * Q)]
        if kind == "anti":
            lo = [lo[1], lo[0]]
            if lo == [180 * Q, -180 * Q]:
                lo = [179 * Q, -179 * Q]
    t = draw(st.sampled_from([None, (0, 0), (0, 3), (1, 2), (2, 4)]))
    return dict(lat=[gen._n(x / Q) for x in la], long=[gen._n(x / Q) for x in lo],
                time=None if t is None else [DATES[t[0]], DATES[t[1]]])


def width(lo):
    w = lo[1] - lo[0]
    return w if w > 0 else w + 360


def make(case):
    from meshiphi.mesh_generation.boundary import Boundary
    return Boundary(list(case["lat"]), list(case["long"]), None if case["time"] is None else list(case["time"]))


def lon_eq(a, b):
    return (float(a) - float(b)) % 360 == 0


def check_box(case, ctx):
    from meshiphi.mesh_generation.boundary import Boundary
    la, lo = case["lat"], case["long"]
    w, h = width(lo), la[1] - la[0]
    times = None if case["time"] is None else list(case["time"])
    with sut("making a boundary"):
        b = Boundary(list(la), list(lo), times)
        got = dict(width=b.get_width(), height=b.get_height(), dcx=b.getdcx(), dcy=b.getdcy(), cy=b.getcy(), cx=b.getcx())
        edges = (b.get_lat_min(), b.get_lat_max(), b.get_long_min(), b.get_long_max())
    require(times == case["time"], f"the caller's time range was changed to {times}")
    require(edges == (la[0], la[1], lo[0], lo[1]), f"edges {edges}")
    want = dict(width=w, height=h, dcx=w / 2, dcy=h / 2, cy=la[0] + h / 2)
    for k, v in want.items():
        require(got[k] == v, f"{k} of {la} x {lo} is {got[k]}, expected {v}")
    require(-180 <= got["cx"] <= 180 and lon_eq(got["cx"], lo[0] + w / 2),
            f"centre longitude of {lo} is {got['cx']}, expected {lo[0] + w / 2} (mod 360)")
    require(list(b.get_time_range()) == (case["time"] or []), f"time range {b.get_time_range()}")
    # corners
    with sut("get_bounds"):
        ring = [tuple(p) for p in b.get_bounds()]
    require(ring[0] == ring[-1] and set(ring) == {(x, y) for x in lo for y in la}, f"corners {ring}")
    # great-circle diagonal / sqrt 2
    p1, p2, dl = math.radians(la[0]), math.radians(la[1]), math.radians(lo[1] - lo[0])
    a = math.sin((p2 - p1) / 2) ** 2 + math.cos(p1) * math.cos(p2) * math.sin(dl / 2) ** 2
    size = 6371000 * 2 * math.asin(min(1, math.sqrt(a))) / math.sqrt(2)
    with sut("calc_size"):
        g = b.calc_size()
    require(math.isclose(g, size, rel_tol=1e-6, abs_tol=1e-3), f"size {g}, expected {size}")
    # polygon: same area, same points
    from shapely.geometry import Point
    with sut("to_polygon"):
        poly = b.to_polygon()
    require(poly.is_valid and math.isclose(poly.area, w * h, rel_tol=1e-9, abs_tol=1e-9), f"polygon area {poly.area}, expected {w * h}")
    for fx in (0.25, 0.5, 0.75):
        for fy in (0.25, 0.75):
            x = gen.norm180(lo[0] + fx * w)
            pt = Point(x, la[0] + fy * h)
            inside = poly.contains(pt) or (x == 180 and poly.intersects(pt))
            require(inside, f"({la[0] + fy * h}, {x}) is not in the polygon {poly.wkt}")
    xmin, ymin, xmax, ymax = poly.bounds
    require(-180 <= xmin and xmax <= 180 and (ymin, ymax) == (la[0], la[1]), f"polygon bounds {poly.bounds}")
    # text round trip
    with sut("poly string round trip"):
        back = Boundary.from_poly_string(b.to_poly_string())
    require((back.get_lat_min(), back.get_lat_max()) == (la[0], la[1])
            and lon_eq(back.get_long_min(), lo[0]) and lon_eq(back.get_long_max(), lo[1]) and back.get_width() == w,
            f"{la} x {lo} came back from text as {back}")
    # the same outline written from another corner, or the other way round
    from shapely import wkt
    g = wkt.loads(b.to_poly_string())
    rings = [list(p.exterior.coords)[:-1] for p in (g.geoms if g.geom_type == "MultiPolygon" else [g])]
    for turn in (1, 2, 3, -1):
        texts = []
        for ring in rings:
            ring = ring[::-1] if turn < 0 else ring[turn:] + ring[:turn]
            texts.append("((" + ", ".join(f"{x!r} {y!r}" for x, y in ring + ring[:1]) + "))")
        text = "POLYGON " + texts[0] if len(texts) == 1 else f"MULTIPOLYGON ({', '.join(texts)})"
        with sut(f"reading {text}"):
            turned = Boundary.from_poly_string(text)
        require((turned.get_lat_min(), turned.get_lat_max(), turned.get_long_min(), turned.get_long_max()) ==
                (back.get_lat_min(), back.get_lat_max(), back.get_long_min(), back.get_long_max()),
                f"{text} was read as {turned}")
    # configuration round trip
    region = dict(lat_min=la[0], lat_max=la[1], long_min=lo[0], long_max=lo[1])
    if case["time"]:
        region.update(start_time=case["time"][0], end_time=case["time"][1])
    with sut("from_json"):
        j = Boundary.from_json(dict(region=region))
    require(j == b and list(j.get_time_range()) == list(b.get_time_range()), f"from_json gives {j}")
    # equality
    other = Boundary([la[0], la[1]], [lo[0], lo[1]], times)
    require(b == other and not b != other, "equal boundaries compare unequal")
    for i in range(4):
        e = [la[0], la[1], lo[0], lo[1]]
        e[i] = e[i] + (1 / 128 if i in (0, 2) else -1 / 128)
        if e[0] < e[1] and abs(e[2]) <= 180 and abs(e[3]) <= 180 and (e[2] < e[3]) == (lo[0] < lo[1]):
            require(not Boundary(e[:2], e[2:], times) == b, f"{e} compares equal to {la} x {lo}")
    # quarters
    with sut("split"):
        qs = b.split()
    boxes_ = {(q.get_lat_min(), q.get_lat_max(), q.get_long_min() % 360, q.get_width()) for q in qs}
    ym, xm = la[0] + h / 2, lo[0] + w / 2
    want = {(y0, y1, x % 360, w / 2) for y0, y1 in ((la[0], ym), (ym, la[1])) for x in (lo[0], xm)}
    require(len(qs) == 4 and boxes_ == want, f"quarters of {la} x {lo}: {[str(q) for q in qs]}")
    for q in qs:
        require(list(q.get_time_range()) == (case["time"] or []), "a quarter has another time range")
    ctx.label("timed" if case["time"] else "no time",
              "global" if w == 360 else "across 180" if lo[1] < lo[0] else "plain")
    ctx.nontrivial(w != 360)


@st.composite
def bad(draw):
    c = draw(boxes())
    c["time"] = c["time"] or ["2017-02-01", "2017-02-02"]
    c["how"] = draw(st.sampled_from(["lat order", "west", "east", "west high", "east low", "one lat", "one long",
                                     "dates order", "one date", "three dates", "no date"]))
    c["by"] = draw(st.integers(1, 64 * 400)) / 64
    return c


def spoil(c):
    la, lo, t, by = list(c["lat"]), list(c["long"]), list(c["time"]), c["by"]
    how = c["how"]
    if how == "lat order":
        la = [la[1], la[0]]
    elif how == "west":
        lo[0] = -180 - by
    elif how == "east":
        lo[1] = 180 + by
    elif how == "west high":
        lo[0] = 180 + by
    elif how == "east low":
        lo[1] = -180 - by
    elif how == "one lat":
        la = la[:1]
    elif how == "one long":
        lo = lo[:1]
    elif how == "dates order":
        t = ["2017-02-02", "2017-02-01"]
    elif how == "one date":
        t = t[:1]
    elif how == "three dates":
        t = t + ["2031-01-01"]
    elif how == "no date":
        t[1] = "soon"
    return la, lo, t


def check_bad(case, ctx):
    from meshiphi.mesh_generation.boundary import Boundary
    la, lo, t = spoil(case)
    try:
        b = Boundary(la, lo, t)
    except ValueError:
        ctx.label(case["how"])
        ctx.nontrivial(True)
        return
    except Exception as e:
        raise Violation(f"{case['how']}: {type(e).__name__} instead of ValueError: {e}")
    raise Violation(f"{case['how']}: accepted {la} x {lo} {t} as {b}")


@st.composite
def dates(draw):
    k = draw(st.sampled_from(["iso", "today", "plus", "minus", "junk"]))
    if k == "iso":
        d = draw(st.dates(min_value=__import__("datetime").date(1000, 1, 1)))
        return dict(kind=k, text=d.isoformat())
    n = draw(st.integers(0, 5000))
    sp = draw(st.sampled_from(["", " "]))
    if draw(st.integers(0, 2)) == 0:
        n = draw(st.integers(0, 500)) + draw(st.sampled_from([0.0, 0.5, 0.25, 0.001, 0.999]))
    word = draw(st.sampled_from(["TODAY", "today", "Today"]))
    if k == "today":
        return dict(kind=k, text=sp + word + sp, n=0)
    if k in ("plus", "minus"):
        return dict(kind=k, text=word + sp + ("+" if k == "plus" else "-") + sp + str(n), n=n if k == "plus" else -n)
    return dict(kind=k, text=draw(st.sampled_from(["", "2017-13-01", "2017-02-29", "01/02/2017", "TODAY + x", "TODAY 3",
                                                   "yesterday", "2017-02-01T00:00", "TODAY - ", "17-02-01x", "2017-2"])))


def check_date(case, ctx):
    import datetime as dt
    from meshiphi.mesh_generation.boundary import Boundary
    before = dt.datetime.today()
    try:
        got = Boundary.parse_datetime(case["text"])
    except ValueError:
        if case["kind"] == "junk":
            ctx.label("refused")
            ctx.nontrivial(True)
            return
        raise Violation(f"{case['text']!r} refused")
    except Exception as e:
        raise Violation(f"{case['text']!r}: {type(e).__name__}: {e}")
    after = dt.datetime.today()
    require(case["kind"] != "junk", f"{case['text']!r} read as {got!r}")
    if case["kind"] == "iso":
        require(got == case["text"], f"{case['text']!r} read as {got!r}")
    else:
        want = {(d + dt.timedelta(days=case["n"])).date().isoformat() for d in (before, after)}
        require(got in want, f"{case['text']!r} read as {got!r}, expected {sorted(want)}")
    ctx.label(case["kind"])
    ctx.nontrivial(case["kind"] != "today")


SUBS = [Sub("boxes", boxes, check_box, quick=4000,
            rule="boxes over the whole globe, across or at the antimeridian included; non-trivial = not a full circle"),
        Sub("refusals", bad, check_bad, quick=2000, rule="boxes made invalid in one of eleven ways; each is non-trivial"),
        Sub("dates", dates, check_date, quick=2000,
            rule="ISO dates, TODAY with any offset and spacing, malformed dates; non-trivial = not plain TODAY")]
