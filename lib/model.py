"""Reference model of mesh construction, written from the documentation: which points a cell holds, when it splits,
what value it gets."""
import math
import statistics

from lib import gen

NAN = float("nan")


def isnan(v):
    return v is None or (isinstance(v, float) and math.isnan(v))


def agg(values, how, gridded):
    """Aggregate of raw values (None/NaN = missing)."""
    vals = [float(v) for v in values if not isnan(v)]
    if how == "COUNT":
        return float(len(vals))
    if not vals:
        return NAN
    if how == "MIN":
        return min(vals)
    if how == "MAX":
        return max(vals)
    if how == "MEAN":
        return math.fsum(vals) / len(vals)
    if how == "MEDIAN":
        return float(statistics.median(vals))
    if how == "STD":
        if gridded:
            return float(statistics.pstdev(vals))
        return float(statistics.stdev(vals)) if len(vals) > 1 else NAN
    raise ValueError(how)


def hom(values, cond, min_dp):
    """'CLR', 'HOM' or 'HET' for the raw values of a cell."""
    if len(values) < min_dp:
        return "CLR"
    vals = [float(v) for v in values if not isnan(v)]
    frac = sum(v > cond["threshold"] for v in vals) / len(vals) if vals else 0
    if frac <= cond["lower_bound"]:
        return "CLR"
    if frac >= cond["upper_bound"]:
        return "HOM" if cond.get("split_lock") else "CLR"
    return "HET"


def src_points(src, region):
    """[(x, lat, value)] of a source, x measured eastwards from the western edge, within the time range."""
    out = []
    if src.get("kind", "csv") == "csv":
        for i, (la, lo, v) in enumerate(src["points"]):
            if src.get("times"):
                t = src["times"][i][:10]          # at any time of day
                if not region["start_time"] <= t <= region["end_time"]:
                    continue
            out.append(((lo - region["long_min"]) % 360, la, v))
    else:
        for i, la in enumerate(src["lats"]):
            for j, lo in enumerate(src["lons"]):
                out.append(((lo - region["long_min"]) % 360, la, src["vals"][i][j]))
    w = gen.region_width(region)
    # a full circle: the western edge is the eastern edge
    if w == 360:
        out = [(360 if x == 0 else x, la, v) for x, la, v in out]
    return out


class Cell:
    __slots__ = ("box", "depth", "parent", "pts", "split")

    def __init__(self, box, depth, parent, pts):
        self.box, self.depth, self.parent = box, depth, parent
        x0, x1, y0, y1 = box
        self.pts = [[p for p in s if x0 < p[0] <= x1 and y0 < p[1] <= y1] for s in pts]
        self.split = False

    def vals(self, i):
        return [p[2] for p in self.pts[i]]


def should_split(cell, sources, upto, min_dp):
    got = [hom(cell.vals(i), c, min_dp) for i in range(upto + 1) for c in sources[i]["conds"]]
    if "HOM" in got:
        return False
    return "HET" in got


def build(case):
    """-> list of leaf Cells."""
    r, sources = case["region"], case["sources"]
    pts = [src_points(s, r) for s in sources]
    cw, ch = r["cell_width"], r["cell_height"]
    cols = int(round(gen.region_width(r) / cw))
    rows = int(round((r["lat_max"] - r["lat_min"]) / ch))
    leaves = []

    def process(cell, s0):
        if cell.depth < case["depth"]:
            for s in range(s0, len(sources)):
                if sources[s]["conds"] and should_split(cell, sources, s, case["min_dp"]):
                    cell.split = True
                    x0, x1, y0, y1 = cell.box
                    xm, ym = (x0 + x1) / 2, (y0 + y1) / 2
                    for b in ((x0, xm, y0, ym), (xm, x1, y0, ym), (x0, xm, ym, y1), (xm, x1, ym, y1)):
                        process(Cell(b, cell.depth + 1, cell, cell.pts), s)
                    return
        leaves.append(cell)

    for j in range(rows):
        for i in range(cols):
            y = r["lat_min"] + j * ch
            process(Cell((i * cw, (i + 1) * cw, y, y + ch), 0, None, pts), 0)
    return leaves


class Tree:
    """The cell (with its ancestors) of any box of the quadtree over a region, whether or not it had to be split."""

    def __init__(self, r, pts):
        self.r, self.pts, self.made = r, pts, {}

    def at(self, box):
        """-> Cell, or None if no such box is in the quadtree."""
        r = self.r
        cw, ch = r["cell_width"], r["cell_height"]
        xc, yc = (box[0] + box[1]) / 2, (box[2] + box[3]) / 2
        i, j = math.floor(xc / cw), math.floor((yc - r["lat_min"]) / ch)
        b = (i * cw, (i + 1) * cw, r["lat_min"] + j * ch, r["lat_min"] + (j + 1) * ch)
        cell, depth = None, 0
        while depth < 12:
            if b not in self.made:
                self.made[b] = Cell(b, depth, cell, cell.pts if cell else self.pts)
            cell = self.made[b]
            if b == tuple(box):
                return cell
            xm, ym = (b[0] + b[1]) / 2, (b[2] + b[3]) / 2
            b = ((b[0], xm) if xc < xm else (xm, b[1])) + ((b[2], ym) if yc < ym else (ym, b[3]))
            depth += 1
        return None


def value(cell, i, src):
    """Expected value of source i in a leaf (before name clashes), as a float."""
    grid = src.get("kind", "csv") != "csv"
    v = agg(cell.vals(i), src["agg"], grid)
    if math.isnan(v):
        fill = src.get("fill")
        if fill in (None, "parent"):
            c = cell.parent
            while c is not None and math.isnan(v):
                v = agg(c.vals(i), src["agg"], grid)
                c = c.parent
        else:
            v = float(fill)
    return v
