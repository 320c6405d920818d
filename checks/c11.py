"""C11: valid configurations are accepted with their dates resolved; malformed ones are refused."""
import copy
import datetime as dt
import json
import os

from hypothesis import strategies as st

from lib import gen
from lib.harness import Sub, Violation, require, sut

PROPERTY = "C11"
ASSUMPTIONS = ["region edges and cell sizes are exactly representable", "the run does not straddle midnight "
               "(cases that do are compared with both days)"]


# ---- relative dates decide which data count ----

@st.composite
def dated(draw):
    r = draw(gen.regions(max_cells=4, max_cols=2, max_rows=2))
    a, b = draw(st.integers(-400, 400)), draw(st.integers(0, 30))
    n = draw(st.integers(1, 12))
    days = [draw(st.one_of(st.integers(a - 3, a + b + 3), st.sampled_from([a, a + b, a - 1, a + b + 1]))) for _ in range(n)]
    style = [draw(st.sampled_from(["rel", "rel", "iso", "spaced"])) for _ in range(2)]
    clock = [draw(st.sampled_from(["", "", " 00:00:00", " 12:30:00", "T23:59"])) for _ in days]
    return dict(region=r, start=a, end=a + b, days=days, style=style, clock=clock)


def spell(n, style, today):
    if style == "iso":
        return (today + dt.timedelta(days=n)).isoformat()
    if n == 0:
        return "TODAY"
    sp = " " if style == "spaced" else ""
    return f"TODAY{sp}{'+' if n > 0 else '-'}{sp}{abs(n)}"


def check_dated(case, ctx):
    for _ in range(2):
        today = dt.date.today()
        _check_dated(case, ctx, today, lambda: dt.date.today() == today)
        if dt.date.today() == today:
            break


def _check_dated(case, ctx, today, same_day):
    r = dict(case["region"])
    r["start_time"] = spell(case["start"], case["style"][0], today)
    r["end_time"] = spell(case["end"], case["style"][1], today)
    # one datum in the middle of the region per listed day
    x, y = gen.lon_of(r, gen.region_width(r) / 2), (r["lat_min"] + r["lat_max"]) / 2
    path = os.path.join(ctx.dir, "d.csv")
    with open(path, "w") as f:
        f.write("lat,long,time,a\n")
        for k, d in enumerate(case["days"]):
            f.write(f"{y!r},{x!r},{(today + dt.timedelta(days=d)).isoformat()}{case['clock'][k]},{k}\n")
    cfg = dict(region=r, data_sources=[dict(loader="scalar_csv",
                                            params=dict(file=path, data_name="a", aggregate_type="COUNT"))],
               splitting=dict(split_depth=0, minimum_datapoints=1))
    with sut("building the mesh"):
        mesh = json.loads(json.dumps(gen.build_mesh(cfg).to_json()))
    if not same_day():
        return
    with sut("reading the configuration in the mesh"):
        reg = mesh["config"]["mesh_info"]["region"]
        dates = reg["start_time"], reg["end_time"]
    want = tuple((today + dt.timedelta(days=n)).isoformat() for n in (case["start"], case["end"]))
    require(dates == want, f"{r['start_time']}..{r['end_time']} recorded as {dates}, expected {want}")
    n = sum(case["start"] <= d <= case["end"] for d in case["days"])
    got = sum(float(cb["a"]) for cb in mesh["cellboxes"])
    require(got == n, f"{got} data counted between {want}, {n} have those dates")
    ctx.label(*case["style"])
    ctx.nontrivial(0 < n < len(case["days"]))


# ---- malformed configurations ----

DROP = [("region", k) for k in ("lat_min", "lat_max", "long_min", "long_max", "start_time", "end_time", "cell_width",
                                "cell_height")] + [("splitting", "split_depth"), ("splitting", "minimum_datapoints")]
WRONG = [(("region", "lat_min"), "10"), (("region", "lat_max"), None), (("region", "long_min"), [0]),
         (("region", "long_max"), "180"), (("region", "start_time"), 20170201), (("region", "end_time"), None),
         (("region", "cell_width"), "5"), (("region", "cell_height"), {}), (("splitting", "split_depth"), 1.5),
         (("splitting", "split_depth"), "2"), (("splitting", "minimum_datapoints"), "5"),
         (("splitting", "minimum_datapoints"), 2.5), (("data_sources",), {}), (("region",), []), (("splitting",), [])]


@st.composite
def malformed(draw):
    r = draw(gen.regions(max_cells=6, max_cols=3, max_rows=2))
    how = draw(st.sampled_from(["none", "none", "drop", "drop top", "wrong", "extra", "extra source", "drop source",
                                "source type", "date", "dates order", "cell width", "cell height", "lat order",
                                "longitude", "loader", "no file"]))
    c = dict(region=r, how=how)
    if how == "drop":
        c["at"] = list(draw(st.sampled_from(DROP)))
    elif how == "drop top":
        c["at"] = [draw(st.sampled_from(["region", "data_sources", "splitting"]))]
    elif how == "wrong":
        k, v = draw(st.sampled_from(WRONG))
        c["at"], c["to"] = list(k), v
    elif how == "extra":
        c["at"] = [draw(st.sampled_from(["region", "splitting"])), draw(st.sampled_from(["foo", "Lat_min", "depth"]))]
    elif how == "extra source":
        c["at"] = ["data_sources", 0, draw(st.sampled_from(["name", "splitting_conditions"]))]
    elif how == "drop source":
        c["at"] = ["data_sources", 0, draw(st.sampled_from(["loader", "params"]))]
    elif how == "source type":
        k = draw(st.sampled_from(["loader", "params"]))
        c["at"], c["to"] = ["data_sources", 0, k], draw(st.sampled_from([3, None, []]))
    elif how == "date":
        c["at"] = ["region", draw(st.sampled_from(["start_time", "end_time"]))]
        c["to"] = draw(st.sampled_from(["", "2017-13-01", "2017-02-30", "01/02/2017", "TODAY * 3", "tomorrow", "TODAY 3",
                                        "TODAY+", "2017-02-01 12:00", "TODAY+3x", "TODAY-x"]))
    elif how in ("cell width", "cell height"):
        ext = gen.region_width(r) if how == "cell width" else r["lat_max"] - r["lat_min"]
        # n cells and a part of one, or cells larger than the region
        k = draw(st.integers(0, 4))
        c["to"] = gen._n(ext / (k + draw(st.sampled_from([0.5, 0.5, 1 / 16, 15 / 16, 1 / 1024, 0.999]))))
        # the quotient must really not be whole in floating point
        if (ext / c["to"]) % 1 == 0 or ext % c["to"] == 0:
            c["to"] = gen._n(ext * 2)
    elif how == "longitude":
        c["at"] = ["region", draw(st.sampled_from(["long_min", "long_max"]))]
        c["to"] = draw(st.sampled_from([-180.5, 180.25, 200, -300, 360]))
    elif how == "loader":
        c["to"] = draw(st.sampled_from(["", "csv", "scalarcsv", "gebco2", "lut"]))
    c["as_path"] = draw(st.booleans())
    return c


def spoil(case, d):
    path = os.path.join(d, "src.csv")
    r = case["region"]
    with open(path, "w") as f:
        f.write("lat,long,a\n%r,%r,3\n" % (r["lat_max"], gen.lon_of(r, gen.region_width(r) / 2)))
    cfg = dict(region=dict(r), data_sources=[dict(loader="scalar_csv", params=dict(file=path, data_name="a"))],
               splitting=dict(split_depth=1, minimum_datapoints=1))
    how = case["how"]
    if how in ("drop", "drop top", "drop source"):
        o = cfg
        for k in case["at"][:-1]:
            o = o[k]
        del o[case["at"][-1]]
    elif how in ("wrong", "date", "longitude", "source type"):
        o = cfg
        for k in case["at"][:-1]:
            o = o[k]
        o[case["at"][-1]] = case["to"]
    elif how in ("extra", "extra source"):
        o = cfg
        for k in case["at"][:-1]:
            o = o[k]
        o[case["at"][-1]] = 1
    elif how == "dates order":
        cfg["region"].update(start_time="2017-02-02", end_time="2017-02-01")
    elif how == "cell width":
        cfg["region"]["cell_width"] = case["to"]
    elif how == "cell height":
        cfg["region"]["cell_height"] = case["to"]
    elif how == "lat order":
        cfg["region"].update(lat_min=r["lat_max"], lat_max=r["lat_min"])
    elif how == "loader":
        cfg["data_sources"][0]["loader"] = case["to"]
    elif how == "no file":
        del cfg["data_sources"][0]["params"]["file"]
    return cfg


def expected(how):
    from jsonschema import ValidationError
    if how in ("drop", "drop top", "wrong", "extra", "extra source", "drop source", "source type"):
        return (ValidationError,)
    if how in ("cell width", "cell height", "no file"):
        return (AssertionError,)
    if how in ("lat order", "longitude"):
        return (ValueError, AssertionError)
    return (ValueError,)


LATE = ("dates order", "lat order", "longitude", "loader", "no file")      # seen by the builder only


def check_malformed(case, ctx):
    from meshiphi.config_validation.config_validator import validate_mesh_config
    from meshiphi.mesh_generation.mesh_builder import MeshBuilder
    cfg = spoil(case, ctx.dir)
    how = case["how"]
    ctx.label(how)
    path = os.path.join(ctx.dir, "config.json")
    with open(path, "w") as f:
        json.dump(cfg, f)

    def attempt(what, fn, bad):
        try:
            with gen.quiet():
                fn()
        except Exception as e:
            if not bad:
                raise Violation(f"{what} refuses a valid configuration: {type(e).__name__}: {e}")
            if not isinstance(e, expected(how)):
                raise Violation(f"{what}: {how} gives {type(e).__name__} ({str(e)[:120]}), expected "
                                f"{'/'.join(t.__name__ for t in expected(how))}")
            return
        if bad:
            raise Violation(f"{what} accepts a configuration with a fault ({how}: {case.get('at')} {case.get('to')})")

    given = path if case["as_path"] else copy.deepcopy(cfg)
    before = copy.deepcopy(given)
    # a few malformed dates begin like valid ones: only building has to refuse them
    if how not in LATE and not (how == "date" and case["to"] in ("TODAY+3x",)):
        attempt("validate_mesh_config", lambda: validate_mesh_config(given), how != "none")
    require(given == before, "validation changed the configuration")
    attempt("MeshBuilder", lambda: MeshBuilder(copy.deepcopy(cfg)), how != "none")
    ctx.nontrivial(how != "none")


# ---- waypoints ----

@st.composite
def waypoints(draw):
    n = draw(st.integers(1, 5))
    rows = [dict(Name=f"p{i}", Lat=draw(st.integers(-90, 90)) / 2, Long=draw(st.integers(-180, 180)) / 2,
                 Source=draw(st.sampled_from(["X", "", ""])), Destination=draw(st.sampled_from(["X", "", ""])))
            for i in range(n)]
    how = draw(st.sampled_from(["none", "none", "drop", "number"]))
    c = dict(rows=rows, how=how, as_path=draw(st.booleans()))
    if how == "drop":
        c["at"] = draw(st.sampled_from(["Name", "Lat", "Long", "Source", "Destination"]))
    elif how == "number":
        c["at"], c["row"] = draw(st.sampled_from(["Lat", "Long"])), draw(st.integers(0, n - 1))
        c["to"] = draw(st.sampled_from(["north", "", "5E"]))
    return c


def check_waypoints(case, ctx):
    import pandas as pd
    from meshiphi.config_validation.config_validator import validate_waypoints
    rows = copy.deepcopy(case["rows"])
    if case["how"] == "number":
        rows[case["row"]][case["at"]] = case["to"]
    df = pd.DataFrame(rows)
    if case["how"] == "drop":
        df = df.drop(columns=[case["at"]])
    given = df
    if case["as_path"]:
        given = os.path.join(ctx.dir, "w.csv")
        df.to_csv(given, index=False)
    good = case["how"] == "none" and any(x["Source"] == "X" for x in rows) and any(x["Destination"] == "X" for x in rows)
    try:
        validate_waypoints(given)
        ok = True
    except AssertionError:
        ok = False
    except Exception as e:
        raise Violation(f"validate_waypoints raised {type(e).__name__}: {e}")
    require(ok == good, f"waypoints {'accepted' if ok else 'refused'}: {df.to_dict('records')}")
    ctx.label("good" if good else "bad")
    ctx.nontrivial(not good)


# ---- vessels and routes ----

NUM = [0, 1, 26.5, 100]
VESSEL = dict(VesselType=["SDA", ""], MaxSpeed=NUM + [400], Unit=["km/hr"], MaxIceConc=NUM, MinDepth=NUM + [5000])
ROUTE = dict(objective_function=["traveltime", "fuel"], path_variables=[[], ["fuel"], ["fuel", "traveltime"]],
             vector_names=[["uC", "vC"]], variable_speed=[True, False], time_unit=["days", "hours", "seconds"],
             early_stopping_criterion=[True, False], zero_currents=[False, True])
OPTIONAL = dict(smoothing_blocked_sic=NUM, smoothing_max_iterations=[0, 2000], smoothing_merge_separation=[1e-3, 1],
                smoothing_converged_sep=[1e-3, 2])
BAD_VESSEL = dict(VesselType=[1, None, ["SDA"]], MaxSpeed=["26", -1, -0.001, None], Unit=[0, None], MinDepth=["x", -10, []],
                  MaxIceConc=[-0.5, 100.5, 101, "80", None])
BAD_ROUTE = dict(objective_function=[1, None, ["fuel"]], path_variables=["fuel", [1], {}],
                 vector_names=[[], ["uC"], ["a", "b", "c"], "uC", [1, 2]], variable_speed=[1, "true", None],
                 time_unit=["day", "Days", "minutes", 1], early_stopping_criterion=[0, "false"], zero_currents=[1, None],
                 smoothing_blocked_sic=["10", None], smoothing_max_iterations=[1.5, "3"], smoothing_merge_separation=["x"],
                 smoothing_converged_sep=[[1], "y"])


@st.composite
def vessels(draw):
    kind = draw(st.sampled_from(["vessel", "route"]))
    good, bad = (VESSEL, BAD_VESSEL) if kind == "vessel" else (ROUTE, BAD_ROUTE)
    cfg = {k: draw(st.sampled_from(v)) for k, v in good.items()}
    if kind == "route":
        for k in draw(st.lists(st.sampled_from(sorted(OPTIONAL)), unique=True)):
            cfg[k] = draw(st.sampled_from(OPTIONAL[k]))
    for k in draw(st.lists(st.sampled_from(["note", "Beam"]), unique=True)):     # further entries are for others to judge
        cfg[k] = draw(st.sampled_from([1, "x", None, {}]))
    how = draw(st.sampled_from(["none", "none", "drop", "wrong", "wrong", "type", "no file"]))
    at = None
    if how == "drop":
        at = draw(st.sampled_from(sorted(good)))
        del cfg[at]
    elif how == "wrong":
        at = draw(st.sampled_from(sorted(bad)))
        cfg[at] = draw(st.sampled_from(bad[at]))
    return dict(kind=kind, cfg=cfg, how=how, at=at, as_path=draw(st.booleans()),
                given=draw(st.sampled_from([None, 3, [], "list"])))


def check_vessels(case, ctx):
    from jsonschema import ValidationError
    from meshiphi.config_validation import config_validator as cv
    fns = dict(vessel=cv.validate_vessel_config, route=cv.validate_route_config)
    how, kind = case["how"], case["kind"]
    given = copy.deepcopy(case["cfg"])
    if how == "type":
        given = [given] if case["given"] == "list" else case["given"]
        fns = dict(fns, mesh=cv.validate_mesh_config, waypoints=cv.validate_waypoints)
    elif case["as_path"] or how == "no file":
        given = os.path.join(ctx.dir, "c.json")
        if how == "no file":
            fns = dict(fns, mesh=cv.validate_mesh_config, waypoints=cv.validate_waypoints)
        else:
            with open(given, "w") as f:
                json.dump(case["cfg"], f)
    before = copy.deepcopy(given)
    want = dict(none=None, drop=ValidationError, wrong=ValidationError, type=TypeError)
    want["no file"] = FileNotFoundError
    for name, fn in fns.items():
        if name != kind and how not in ("type", "no file"):
            continue
        got = None
        try:
            with gen.quiet():
                fn(given)
        except Exception as e:  # noqa: BLE001
            got = e
        what = f"{name} configuration with {how} ({case['at']}: {case['cfg'].get(case['at'])!r})"
        if want[how] is None:
            require(got is None, f"{what} is refused: {type(got).__name__}: {str(got)[:200]}")
        else:
            require(isinstance(got, want[how]), f"{what} gives {type(got).__name__}, expected {want[how].__name__}")
    require(given == before, "validation changed the configuration")
    ctx.label(kind, how)
    ctx.nontrivial(how != "none")


SUBS = [Sub("malformed", malformed, check_malformed, quick=4000,
            rule="a valid configuration, or one with one fault of 16 kinds, as dict or path; non-trivial = with a fault"),
        Sub("dates", dated, check_dated, quick=2000,
            rule="relative and absolute date ranges around today, dated CSV data built into a mesh; non-trivial = some "
                 "but not all data are in range"),
        Sub("waypoints", waypoints, check_waypoints, quick=1500,
            rule="waypoint tables, with or without a fault, as table or path; non-trivial = to be refused"),
        Sub("vessels", vessels, check_vessels, quick=1500,
            rule="vessel and route configurations, whole or with an entry missing or ill-typed, as dict or path, things that "
                 "are neither, files that are not there; non-trivial = to be refused")]
