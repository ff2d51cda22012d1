"""C27: splitting polygons at the antimeridian and poles preserves the region."""

import math

import numpy as np
import shapely
from hypothesis import strategies as st
from shapely import affinity
from shapely.geometry import MultiPolygon, Point as SP, Polygon

from lib.gen import fl, pick
from lib.harness import Sub, check

RULE = "the polygon crosses the antimeridian, contains a pole or exceeds it (a polygon that does not cross counts as trivial)"
ASSUMPTIONS = [
    "polygon edges are straight in longitude/latitude and span less than 180 degrees of longitude, polygons less than 360 (documented limit)",
    "rings around a pole enclose less than a hemisphere (otherwise it is not determined which side is meant)",
    "probe points closer than 1e-6 degrees to a border are not judged",
]

PIECE = {
    "kind": pick("plain", "cross", "cross", "unwrapped", "wide", "pole", "pole", "over", "over"),
    "lon": fl(-180, 180, 180.0, -180.0, 0.0, 90.0, n=3600),
    "lat": fl(-80, 80, 0.0, n=1600),
    "near": fl(-20, 20, 0.0, n=400),
    "size": st.one_of(fl(0.5, 15, n=145), fl(5, 80, n=75)),
    "squash": fl(0.1, 1.0, n=9),
    "radii": st.lists(fl(0.3, 1.0, n=70), min_size=3, max_size=12),
    "turn": fl(0, 1, n=16),
    "start": st.integers(0, 30),
    "cw": st.booleans(),
    "snap": pick(0, 0, 1, 5),
    "hole": pick(0, 0, 1, 2, 3),
    "south": st.booleans(),
    "plus": st.booleans(),
    "excess": fl(-0.5, 0.9, n=14),
    "wiggle": st.one_of(st.just([]), st.lists(fl(-1.5, 1.5, n=30), min_size=2, max_size=6)),
    "far": pick(1.0, 1.0, 1.5),
}


def strategy():
    return st.fixed_dictionaries(
        {
            "pieces": st.lists(st.fixed_dictionaries(PIECE), min_size=1, max_size=2),
            "wrap": pick("polygon", "polygon", "multi", "series", "frame"),
            "probes": st.lists(st.tuples(fl(-0.2, 1.2, n=1400), fl(-0.2, 1.2, n=1400)), min_size=8, max_size=16),
            "world": st.lists(st.tuples(fl(-180, 180), fl(-90, 90)), min_size=2, max_size=6),
        }
    )


def snap(v, k):
    return round(v / k) * k if k else v


def wrap(x, plus):
    """Longitude in [-180, 180]; the antimeridian itself as +180 or -180."""
    y = (x + 180) % 360 - 180
    if abs(abs(y) - 180) < 1e-12:
        return 180.0 if plus else -180.0
    return y


def star(c, cx, cy):
    n = len(c["radii"])
    out = []
    for k, r in enumerate(c["radii"]):
        a = 2 * math.pi * (k + c["turn"]) / n
        out.append(
            (
                snap(cx + c["size"] * r * math.cos(a), c["snap"]),
                snap(cy + c["size"] * c["squash"] * r * math.sin(a), c["snap"]),
            )
        )
    return out


def rect(x, y, w, h):
    return [(x - w, y - h), (x + w, y - h), (x + w, y + h), (x - w, y + h)]


def fit(shell, rings):
    """The rings that lie inside the shell and apart from each other."""
    base = Polygon(shell)
    out = []
    if base.is_valid:
        base = base.buffer(-0.01)
        for r in rings:
            h = Polygon(r)
            if base.contains(h) and not any(Polygon(o).buffer(0.01).intersects(h) for o in out):
                out.append(r)
    return out


def piece(c):
    """(input shell, input holes, [planar polygons covering the region], kind) or None."""
    kind = c["kind"]
    holes = []
    if kind in ("plain", "cross", "unwrapped", "over"):
        if kind == "plain":
            cx, cy = c["lon"], c["lat"]
        elif kind == "over":
            cx = c["lon"]
            cy = (90 + c["excess"] * c["size"] * c["squash"]) * (-1 if c["south"] else 1)
        else:
            cx, cy = (180 if c["plus"] else -180) + c["near"] * c["size"] / 20, c["lat"]
        shell = star(c, cx, cy)
        if c["hole"] == 1:
            holes = [[(cx + 0.25 * (x - cx), cy + 0.25 * (y - cy)) for x, y in shell]]
        elif c["hole"]:
            w = 0.08 * c["size"]
            holes = fit(
                shell,
                [rect((cx + x) / 2, (cy + y) / 2, w, w * c["squash"]) for x, y in shell[: c["hole"]]],
            )
        plane = Polygon(shell, holes)
        if kind != "over" and (plane.bounds[1] < -90 or plane.bounds[3] > 90):
            return None
        if kind == "over" and (plane.bounds[1] < -89 and plane.bounds[3] > 89):
            return None
        if kind == "over" and (plane.bounds[1] < -175 or plane.bounds[3] > 175):
            return None
    elif kind == "wide":
        span = 100 + 3 * c["size"]
        if span > 345:
            return None
        x0 = c["lon"]
        n = int(span // 50) + 2
        xs = [x0 + span * k / n for k in range(n + 1)]
        rr = c["radii"]
        top = [(x, snap(min(89, c["lat"] + 2 + 8 * rr[k % len(rr)]), c["snap"])) for k, x in enumerate(xs)]
        bot = [(x + 0.3, snap(max(-89, c["lat"] - 2 - 8 * rr[(k + 1) % len(rr)]), c["snap"])) for k, x in enumerate(xs)]
        shell = bot + top[::-1]
        holes = fit(
            shell,
            [rect(x0 + span * (k + 0.5) / (c["hole"] + 0.5), c["lat"], 1.5 + 3 * c["turn"], 0.8) for k in range(c["hole"])],
        )
        plane = Polygon(shell, holes)
    else:
        # ring around a pole; with "wiggle" also going back and forth in longitude
        n = max(3, len(c["radii"]))
        s = -1 if c["south"] else 1
        wig = c.get("wiggle") or [0.0]
        lons = [(360 * (k + c["turn"] + wig[k % len(wig)]) / n) - 180 for k in range(n)]
        far = c.get("far", 1.0)
        lats = [s * (90 - far * c["size"] * r) for r in c["radii"]]
        if max(abs(y) for y in lats) > 90:
            return None
        shell = list(zip(lons, lats))
        steps = [(x, y) for (x, _), (y, _) in zip(shell, shell[1:] + [(shell[0][0] + 360, 0)])]
        if max(abs(y - x) for x, y in steps) > 170:
            return None
        # the ring encloses less than a hemisphere
        sl = [math.sin(math.radians(y)) for y in lats] + [math.sin(math.radians(lats[0]))]
        if s * sum((a + b) / 2 * (y - x) for a, b, (x, y) in zip(sl, sl[1:], steps)) < 18:
            return None
        ext = [(x + 360 * k, y) for k in range(-2, 3) for x, y in shell]
        if not shapely.LineString(ext).is_simple:
            return None
        if c["hole"]:
            top = s * (90 - 0.25 * c["size"] * min(c["radii"]))
            bot = s * (90 - 0.6 * c["size"] * min(c["radii"]))
            for k in range(c["hole"]):
                ck = c["lon"] + 40 * k
                holes.append([(ck - 5, bot), (ck + 5, bot), (ck + 5, top), (ck - 5, top)])
        # the region between the ring and the pole: each edge's trapezoid toggles membership
        plane = Polygon()
        world = shapely.box(-180, -90, 180, 90)
        for (x0, y0), (x1, y1) in zip(ext, ext[1:]):
            q = Polygon([(x0, y0), (x1, y1), (x1, 90 * s), (x0, 90 * s)])
            if q.is_valid and q.area > 0:
                plane = plane.symmetric_difference(q.intersection(world))
        plane = shapely.union_all([g for g in getattr(plane, "geoms", [plane]) if g.area > 1e-9])
        kept = []
        for ring in holes:
            h = shapely.union_all([affinity.translate(Polygon(ring), d) for d in (-360, 0, 360)]).intersection(world)
            if plane.union(shapely.box(-181, -90, -180, 90)).union(shapely.box(180, -90, 181, 90)).buffer(-0.01).contains(h):
                plane = plane.difference(h)
                kept.append(ring)
        holes = kept
    if not plane.is_valid or plane.area < 1e-3 or plane.geom_type not in ("Polygon", "MultiPolygon"):
        return None
    xs = [x for x, _ in shell]
    if kind not in ("pole",):
        if max(xs) - min(xs) >= 355 or (kind == "over" and max(xs) - min(xs) > 175):
            return None
        d = np.diff(xs + xs[:1])
        if np.abs(d).max() >= 175:
            return None
    if kind == "unwrapped" and (max(xs) > 530 or min(xs) < -530):
        return None
    k = c["start"] % len(shell)
    ring = shell[k:] + shell[:k]
    if c["cw"]:
        ring = ring[::-1]
    if kind != "unwrapped":
        ring = [(wrap(x, (j + c["plus"]) % 2 == 0), y) for j, (x, y) in enumerate(ring)]
        holes = [[(wrap(x, c["plus"]), y) for x, y in h] for h in holes]
        jumps = np.abs(np.diff([x for x, _ in ring + ring[:1]]))
        # an unchanged ring must mean the same region as its unwrapped form
        if kind == "plain" and jumps.max() >= 180:
            kind = "cross"
    return ring, holes, plane, kind


def member(plane, lon, lat, tol=1e-6):
    """True/False/None (too close to the border) for a point of the globe."""
    inside = False
    for s in (lat, 180 - lat, -180 - lat):
        base = lon if s == lat else lon + 180
        for k in (-720, -360, 0, 360, 720):
            p = SP(base + k, s)
            if plane.boundary.distance(p) < tol:
                return None
            inside = inside or plane.contains(p)
    return inside


def body(case, ev):
    import geopandas as gpd
    from tatc.utils import normalize_geometry, split_polygon

    built = [b for b in map(piece, case["pieces"]) if b is not None]
    if case["wrap"] == "polygon":
        built = built[:1]
    if not built:
        return
    polys = [Polygon(r, h) for r, h, _, _ in built]
    planes = [p for _, _, p, _ in built]
    kinds = [k for _, _, _, k in built]
    crossing = [
        k in ("pole", "over")
        or any(abs(a[0] - b[0]) >= 180 for a, b in zip(r, r[1:] + r[:1]))
        or max(abs(x) for x, _ in r) > 180
        for r, _, _, k in built
    ]
    if case["wrap"] == "polygon":
        results = [(split_polygon(polys[0]), planes)]
        if polys[0].is_valid:
            nf = normalize_geometry(polys[0])
            check(isinstance(nf, gpd.GeoDataFrame) and len(nf) == 1 and nf.crs.to_epsg() == 4326, "normalize_geometry of a polygon")
            check(nf.geometry.iloc[0].equals(results[0][0]), "normalize_geometry and split_polygon differ")
    elif case["wrap"] == "multi":
        if len(planes) == 2 and overlap(planes):
            return
        mp = MultiPolygon(polys)
        results = [(split_polygon(mp), planes)]
        if mp.is_valid:
            check(normalize_geometry(mp).geometry.iloc[0].equals(results[0][0]), "normalize_geometry and split_polygon differ")
    else:
        gs = gpd.GeoSeries(polys, index=[7 + 3 * k for k in range(len(polys))], crs="EPSG:4326")
        if case["wrap"] == "series":
            out = normalize_geometry(gs)
        else:
            df = gpd.GeoDataFrame({"name": [f"p{k}" for k in range(len(polys))]}, index=gs.index, geometry=gs, crs="EPSG:4326")
            out = normalize_geometry(df)
            check(list(out["name"]) == list(df["name"]), "attribute columns changed")
        check(isinstance(out, gpd.GeoDataFrame) and list(out.index) == list(gs.index), f"rows {list(out.index)}")
        check(out.crs is not None and out.crs.to_epsg() == 4326, "crs")
        results = [(g, [p]) for g, p in zip(out.geometry, planes)]
    for g, ps in results:
        check(g.geom_type in ("Polygon", "MultiPolygon") and not g.is_empty, f"result {g.wkt[:100]}")
        check(g.is_valid, f"invalid result {g.wkt[:300]}")
        b = g.bounds
        check(b[0] >= -180 and b[2] <= 180 and b[1] >= -90 and b[3] <= 90, f"result bounds {b}")
        area = sum(p.area for p in ps)
        check(abs(g.area - area) < 1e-6 * area + 1e-9, f"area {g.area}, region has {area} square degrees")
        for p in ps:
            x0, y0, x1, y1 = p.bounds
            for u, v in case["probes"]:
                judge_point(g, ps, x0 + u * (x1 - x0), y0 + v * (y1 - y0))
        for lo, la in case["world"]:
            judge_point(g, ps, lo, la)
    if case["wrap"] == "polygon" and not crossing[0]:
        check(results[0][0].equals_exact(polys[0], 0) or results[0][0].equals(polys[0]), "a polygon that does not cross was changed")
    for k, (_, h, _, _) in zip(kinds, built):
        ev.label(k)
        if k == "pole" and any(c["wiggle"] for c in case["pieces"]):
            ev.label("pole wiggle")
        if h:
            ev.label("holes>1" if len(h) > 1 else "hole")
    ev.nontrivial(any(crossing))


def overlap(planes):
    for k in (-360, 0, 360):
        if planes[0].buffer(0.01).intersects(affinity.translate(planes[1], k)):
            return True
        m = affinity.translate(affinity.scale(planes[1], 1, -1, origin=(0, 0)), 180 + k, 180)
        n = affinity.translate(affinity.scale(planes[1], 1, -1, origin=(0, 0)), 180 + k, -180)
        if planes[0].buffer(0.01).intersects(m) or planes[0].buffer(0.01).intersects(n):
            return True
    return any(
        p.bounds[3] > 90 or p.bounds[1] < -90 or p.bounds[2] - p.bounds[0] > 359 for p in planes
    )


def judge_point(g, planes, lon, lat):
    if lat > 90:
        lon, lat = lon + 180, 180 - lat
    elif lat < -90:
        lon, lat = lon + 180, -180 - lat
    lon = (lon + 180) % 360 - 180
    if abs(lat) > 89.999 or abs(abs(lon) - 180) < 1e-6:
        return
    ws = [member(p, lon, lat) for p in planes]
    if None in ws:
        return
    want = any(ws)
    pt = SP(lon, lat)
    if g.boundary.distance(pt) < 1e-6:
        # inner cuts (poles, prime meridian) are no borders of the region
        return
    got = g.contains(pt)
    check(got == want, f"point lon {lon:.5f} lat {lat:.5f} is {'in' if want else 'not in'} the region but {'in' if got else 'not in'} the result {g.wkt[:400]}")


def elev_strategy():
    return st.fixed_dictionaries(
        {"piece": st.fixed_dictionaries({**PIECE, "kind": pick("plain", "cross", "over", "pole")}), "elev": fl(-500, 9000, 0.0)}
    )


def elev_body(case, ev):
    from tatc.utils import project_polygon_to_elevation, split_polygon

    b = piece(case["piece"])
    if b is None:
        return
    g = split_polygon(Polygon(b[0], b[1]))
    out = project_polygon_to_elevation(g, case["elev"])
    check(out.geom_type == g.geom_type, f"{g.geom_type} became {out.geom_type}")
    check(np.array_equal(shapely.get_coordinates(out), shapely.get_coordinates(g)), "coordinates changed")
    check(set(shapely.get_coordinates(out, include_z=True)[:, 2]) == {float(case["elev"])}, "elevation")
    ev.nontrivial(b[3] != "plain")


SUBS = [
    Sub("split", strategy, body, quick=6000),
    Sub("elevation", elev_strategy, elev_body, quick=600),
]
