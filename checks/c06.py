"""C06: a saved mesh holds everything: it loads back unchanged and its embedded configuration rebuilds it."""
import copy
import json
import os

from lib import gen, synth
from lib.harness import Sub, Violation, require, sut
from hypothesis import strategies as st

PROPERTY = "C06"
ASSUMPTIONS = ["coordinates that are no multiples of a power of two are kept to 1e-12 degrees (the text form rounds them)"]


def norm(x):
    """NaN-proof, hashable comparison form."""
    return json.dumps(x, sort_keys=True)


def first_diff(a, b, path=""):
    if type(a) is not type(b) and not (isinstance(a, (int, float)) and isinstance(b, (int, float))):
        return f"{path}: {a!r} became {b!r}"
    if isinstance(a, dict):
        for k in list(a) + [k for k in b if k not in a]:
            if k not in a or k not in b:
                return f"{path}.{k} is in only one of them"
            d = first_diff(a[k], b[k], f"{path}.{k}")
            if d:
                return d
        return None
    if isinstance(a, list):
        if len(a) != len(b):
            return f"{path}: {len(a)} entries became {len(b)}"
        for i, (x, y) in enumerate(zip(a, b)):
            d = first_diff(x, y, f"{path}[{i}]")
            if d:
                return d
        return None
    return None if norm(a) == norm(b) else f"{path}: {a!r} became {b!r}"


def same(a, b, what):
    d = first_diff(a, b)
    if d:
        raise Violation(f"{what}: {d}")


def restrict(x, like):
    """x without the dictionary keys `like` does not have (defaults may have been added)."""
    if isinstance(x, dict) and isinstance(like, dict):
        return {k: restrict(v, like[k]) for k, v in x.items() if k in like}
    if isinstance(x, list) and isinstance(like, list) and len(x) == len(like):
        return [restrict(a, b) for a, b in zip(x, like)]
    return x


def check_config(given, kept):
    """The saved configuration is the given one: files resolved into lists, loader defaults possibly added."""
    what = "the configuration in the saved mesh is not the one the mesh was built from"
    same(given["region"], {k: kept["region"].get(k) for k in given["region"]}, what + ", region")
    same(given["splitting"], kept["splitting"], what + ", splitting")
    require(len(given["data_sources"]) == len(kept["data_sources"]), what + ": number of data sources")
    for i, (g, k) in enumerate(zip(given["data_sources"], kept["data_sources"])):
        require(g["loader"] == k["loader"], what + f": loader {g['loader']} became {k['loader']}")
        for key, v in g["params"].items():
            if key == "file":
                require(k["params"].get("file", k["params"].get("files")) in (v, [v]), what + f": file of source {i}")
            elif key == "folder":       # may be replaced by the list of files in it
                files = sorted(os.path.join(v.rstrip("/"), f) for f in os.listdir(v))
                require(k["params"].get("folder") == v or
                        sorted(os.path.normpath(f) for f in k["params"].get("files", [])) == files,
                        what + f": folder of source {i}")
            else:
                require(key in k["params"], what + f": source {i} lost its parameter {key}")
                same(v, restrict(k["params"][key], v), what + f", source {i} parameter {key}")


@st.composite
def cases(draw):
    c = draw(gen.mesh_cases(max_depth=3, max_sources=2, kinds=("csv", "nc"), values=("digits", "gaps", "floats"),
                            aggs=gen.AGGS, fills=True, forms=True, none=True, names=draw(st.sampled_from(["abcd", "aabb", ["SIC", "speed"]]))))
    c["extra"] = draw(st.lists(st.tuples(st.integers(0, 99), st.sampled_from(["fuel", "speed", "inaccessible"]),
                                         st.sampled_from([1.5, None, True, "x", [1.0, 2.5], 0, -3, float("nan"),
                                                          float("inf"), "", {}, 1e-300, 2 ** 60])), max_size=3))
    return c


def check_roundtrip(case, ctx):
    from meshiphi.mesh_generation.environment_mesh import EnvironmentMesh
    config = gen.make_config(case, ctx.dir)
    given = copy.deepcopy(config)
    with sut("building the mesh"):
        mesh = gen.build_mesh(config)
    n = len(mesh.agg_cellboxes)
    with sut("updating cells"):
        for i, k, v in case["extra"]:
            mesh.update_cellbox(i % n, {k: v})
    with sut("to_json"):
        j = mesh.to_json()
    for i, k, v in case["extra"]:
        last = [e for e in case["extra"] if e[0] % n == i % n and e[1] == k][-1]
        require(norm(j["cellboxes"][i % n].get(k)) == norm(last[2]),
                f"a value {last[2]!r} put into cell {i % n} is {j['cellboxes'][i % n].get(k)!r} in the JSON")
    check_config(given, j["config"]["mesh_info"])
    before = norm(j)
    with sut("load_from_json"):
        mesh2 = EnvironmentMesh.load_from_json(copy.deepcopy(j))
        j2 = mesh2.to_json()
    same(j, j2, "loading the mesh and writing it again changed it")
    require(norm(j2) == before, "loading the mesh and writing it again changed it")
    path = os.path.join(ctx.dir, "mesh.json")
    if len(j["cellboxes"]) % 2:         # an older file is there, and longer
        with open(path, "w") as f:
            f.write("[" * 200000)
    with sut("save"):
        mesh.save(path)
    with sut("reading the saved file"), open(path) as f:
        j3 = json.load(f)
    same(j, j3, "the saved file differs from to_json()")
    with sut("loading the saved file"):
        mesh3 = EnvironmentMesh.load_from_json(j3)
    with sut("saving the loaded mesh"):
        mesh3.save(os.path.join(ctx.dir, "again.json"), "json")
    with sut("reading the saved file"), open(os.path.join(ctx.dir, "again.json")) as f:
        j4 = json.load(f)
    same(j, j4, "saving, loading and saving again changed the mesh")
    # every observable of the loaded objects agrees with the built ones
    b, b3 = mesh.bounds, mesh3.bounds
    with sut("reading the bounds"):
        for attr in ("get_lat_min", "get_lat_max", "get_long_min", "get_long_max", "get_time_min", "get_time_max",
                     "get_width", "get_height"):
            require(getattr(b, attr)() == getattr(b3, attr)(),
                    f"bounds.{attr}() is {getattr(b, attr)()} before and {getattr(b3, attr)()} after loading")
    for c1, c3 in zip(mesh.agg_cellboxes, mesh3.agg_cellboxes):
        require(str(c1.get_id()) == str(c3.get_id()), "cell order or ids changed on loading")
        require(c1.boundary.getcx() == c3.boundary.getcx() and c1.boundary.get_width() == c3.boundary.get_width(),
                f"cell {c1.get_id()} covers {c1.boundary} before and {c3.boundary} after loading")
    ctx.label(gen.region_kind(case["region"]), f"depth {case['depth']}")
    ctx.nontrivial(n > 1)


def check_rebuild(case, ctx):
    config = gen.make_config(case, ctx.dir)
    with sut("building the mesh"):
        j = gen.build_mesh(copy.deepcopy(config)).to_json()
    with sut("building the mesh again"):
        j1 = gen.build_mesh(copy.deepcopy(config)).to_json()
    same(j, j1, "two builds of one configuration differ")
    with sut("rebuilding from the embedded configuration"):
        j2 = gen.build_mesh(json.loads(json.dumps(j))["config"]["mesh_info"]).to_json()
    same(j, j2, "the mesh rebuilt from its embedded configuration differs")
    ctx.label(gen.region_kind(case["region"]))
    ctx.nontrivial(len(j["cellboxes"]) > 1)


@st.composite
def written(draw):
    """A mesh JSON written by hand: coordinates with few or many digits, deep cells, any values."""
    step = draw(st.sampled_from([0.25, 2 ** -12, 2 ** -9, 0.1, 0.3, 1 / 3, 1e-3, 1]))
    if draw(st.integers(0, 2)) == 0:
        m = draw(synth.meshes(max_depth=5, max_splits=6))
    else:
        cols, rows = draw(st.integers(1, 3)), draw(st.integers(1, 3))
        lat, lon = draw(st.integers(-85, 80)), draw(st.sampled_from([-180, -179.9, 10, 0, 33.3, 170.1, -0.1, 179.5]))
        w = cols * step
        lon1 = lon + w
        r = dict(lat_min=lat, lat_max=lat + rows * step, long_min=lon, long_max=lon1 if lon1 <= 180 else lon1 - 360,
                 start_time="2017-01-01", end_time="2017-01-02", cell_width=step, cell_height=step)
        m = draw(synth.meshes(region=r, max_depth=4, max_splits=6))
    return dict(mesh=m)


def numbers(geometry):
    """All numbers of an outline, in order."""
    for c in "(),":
        geometry = geometry.replace(c, " ")
    return [float(x) for x in geometry.split()[1:]]


def check_written(case, ctx):
    from meshiphi.mesh_generation.environment_mesh import EnvironmentMesh
    j = synth.to_json(case["mesh"])
    with sut("load_from_json"):
        j1 = json.loads(json.dumps(EnvironmentMesh.load_from_json(copy.deepcopy(j)).to_json()))
        j2 = json.loads(json.dumps(EnvironmentMesh.load_from_json(copy.deepcopy(j1)).to_json()))
    for before, after, what in ((j, j1, "loading the mesh"), (j1, j2, "loading the mesh that was written")):
        for k in ("config", "neighbour_graph"):
            same(before[k], after[k], f"{what} changed its {k}")
        require(len(before["cellboxes"]) == len(after["cellboxes"]), f"{what}: cells were lost or added")
        for a, b in zip(before["cellboxes"], after["cellboxes"]):
            na, nb = sorted(numbers(a["geometry"])), sorted(numbers(b["geometry"]))
            require(len(na) == len(nb) and all(abs(x - y) < 1e-12 for x, y in zip(na, nb)),
                    f"{what}, cell {a['id']}: {a['geometry']} became {b['geometry']}")
            for k in ("cx", "cy", "dcx", "dcy"):
                require(abs(a[k] - b[k]) < 1e-12 or (k == "cx" and abs(abs(a[k] - b[k]) - 360) < 1e-12),
                        f"{what}, cell {a['id']}: {k} {a[k]} became {b[k]}")
            skip = ("geometry", "cx", "cy", "dcx", "dcy")
            same({k: v for k, v in a.items() if k not in skip}, {k: v for k, v in b.items() if k not in skip},
                 f"{what}, cell {a['id']}")
    deep = min(a["dcx"] for a in j["cellboxes"])
    ctx.label(gen.region_kind(case["mesh"]["region"]), "small cells" if deep < 1e-3 else "cells")
    ctx.nontrivial(len(j["cellboxes"]) > 1)


SUBS = [
    Sub("roundtrip", cases, check_roundtrip, quick=700,
        rule="generated meshes (all region kinds, splits, gaps, extra cell entries); non-trivial = more than one cell"),
    Sub("rebuild", cases, check_rebuild, quick=200, rule="as above; non-trivial = more than one cell"),
    Sub("written", written, check_written, quick=2500,
        rule="mesh JSON written independently, with coordinates of few or many digits, cells down to 1e-5 degrees and values "
             "of every kind, loaded and written twice; non-trivial = more than one cell"),
]
