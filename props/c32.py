"""C32: Fibonacci points sample the globe evenly; masks keep exactly those inside."""

import math

import numpy as np
from hypothesis import strategies as st
from shapely.geometry import MultiPolygon, Point as SP, Polygon, box

from lib import ref
from lib.gen import fl, pick, weighted
from lib.harness import Sub, check

RULE = "the lattice has at least 20 points; with a mask, some points are kept and some dropped"
ASSUMPTIONS = [
    "evenness: nearest neighbours between 0.7 and 0.95 of the distance, every place within 1.0 of it (measured 0.77..0.89 and 0.86), latitudes uniform in area within 3 points",
    "points within 1e-9 degrees of the mask border are not judged; masks lie between longitude -180 and 360",
]

DIST = weighted((3, fl(6e5, 3e6)), (2, fl(3e5, 1e6)), (1, fl(2e6, 8e6)))


def polygons():
    star = st.fixed_dictionaries(
        {
            "lon": fl(-180, 180, 0.0, 175.0),
            "lat": fl(-75, 75, 0.0),
            "size": fl(5, 70),
            "radii": st.lists(fl(0.3, 1, n=70), min_size=3, max_size=8),
            "hole": st.booleans(),
        }
    )
    b = st.fixed_dictionaries(
        {"lon": fl(-180, 180, -180.0, 0.0, 160.0), "lat": fl(-90, 80, -90.0, 0.0), "w": fl(2, 180, 90.0), "h": fl(2, 120, 30.0)}
    )
    # boxes that end at, just before or just after the antimeridian, up to the whole globe
    e = st.fixed_dictionaries(
        {"lon": fl(-180, 170, -180.0, -179.5, 0.0), "lat": fl(-90, 80, -90.0, 0.0), "e": fl(178, 182, 180.0, 179.0, 181.0), "h": fl(2, 180, 180.0, 30.0)}
    )
    # boxes wholly beyond the antimeridian, in the 0..360 convention
    w = st.fixed_dictionaries(
        {"lon": fl(180, 320, 180.0, 200.0), "lat": fl(-90, 70, 0.0), "w": fl(2, 40, 20.0), "h": fl(10, 60, 30.0)}
    )
    return st.one_of(
        st.lists(st.one_of(star, b), min_size=1, max_size=2),
        st.lists(e, min_size=1, max_size=1),
        st.lists(st.one_of(star, b), min_size=1, max_size=2),
        st.lists(w, min_size=1, max_size=1),
    )


def build_mask(parts):
    """A valid mask with longitudes in [-180, 360], or None."""
    out = []
    for p in parts:
        if "w" in p:
            g = box(p["lon"], p["lat"], min(360, p["lon"] + p["w"]), min(90, p["lat"] + p["h"]))
        elif "e" in p:
            g = box(p["lon"], p["lat"], p["e"], min(90, p["lat"] + p["h"]))
        else:
            n = len(p["radii"])

            def ring(s):
                return [
                    (
                        p["lon"] + s * p["size"] * r * math.cos(2 * math.pi * k / n),
                        max(-90, min(90, p["lat"] + s * 0.5 * p["size"] * r * math.sin(2 * math.pi * k / n))),
                    )
                    for k, r in enumerate(p["radii"])
                ]

            g = Polygon(ring(1.0), [ring(0.3)] if p["hole"] else [])
        if not g.is_valid or g.area < 1e-3 or g.bounds[0] < -180:
            return None
        out.append(g)
    if len(out) == 1:
        return out[0]
    m = MultiPolygon(out)
    return m if m.is_valid else None


def strategy():
    return st.fixed_dictionaries(
        {"dist": DIST, "elev": fl(-400, 8000, 0.0), "mask": st.one_of(st.none(), polygons()), "default": st.booleans(), "place": st.tuples(fl(-180, 180), fl(-1, 1))}
    )


def huge_strategy():
    """Lattices of over a million points, so few cases."""
    return st.fixed_dictionaries({"dist": fl(1.6e4, 2.5e4), "places": st.lists(st.tuples(fl(-180, 180), fl(-1, 1)), min_size=2, max_size=3)})


def fine_strategy():
    return st.fixed_dictionaries({"dist": fl(2.5e4, 2e5), "places": st.lists(st.tuples(fl(-180, 180), fl(-1, 1)), min_size=3, max_size=6)})


def fine_body(case, ev):
    """Fine lattices stay even, within a regional mask."""
    from scipy.spatial import cKDTree
    from tatc.generation import generate_fibonacci_lattice_points

    d = case["dist"] / ref.R_E
    reach = math.degrees(d) * 12
    n = round(2 / (1 - math.cos(d / 2)))
    for k, (lon, s) in enumerate(case["places"]):
        lat = math.degrees(math.asin(s))
        if abs(lat) + reach > 84:
            continue
        w = reach / math.cos(math.radians(abs(lat) + reach))
        if abs(lon) + w > 180:
            continue
        turn = 360 if k % 2 and lon + w < 0 else 0
        m = box(lon - w + turn, lat - reach, lon + w + turn, lat + reach)
        out = generate_fibonacci_lattice_points(case["dist"], mask=m)
        ids = [int(i) for i in out["point_id"]]
        check(len(set(ids)) == len(ids) and (not ids or (min(ids) >= 0 and max(ids) <= n)), "ids")
        y, x = np.array([g.y for g in out.geometry]), np.array([g.x for g in out.geometry])
        la, lo = np.radians(y), np.radians(x)
        p = np.c_[np.cos(la) * np.cos(lo), np.cos(la) * np.sin(lo), np.sin(la)]
        area = math.radians(2 * w) * (math.sin(math.radians(lat + reach)) - math.sin(math.radians(lat - reach)))
        exp = n * area / (4 * math.pi)
        check(abs(len(p) - exp) < 0.12 * exp, f"{len(p)} points in {m.bounds}, expected {exp:.1f}")
        t = cKDTree(p)
        c = np.array([math.cos(math.radians(lat)) * math.cos(math.radians(lon)), math.cos(math.radians(lat)) * math.sin(math.radians(lon)), s])
        near = t.query_ball_point(c, 8 * d)
        nn = 2 * np.arcsin(t.query(p[near], k=2)[0][:, 1] / 2) / d
        check(nn.min() > 0.7 and nn.max() < 0.95, f"nearest neighbours {nn.min():.3f}..{nn.max():.3f} of the distance {case['dist']} at lon {lon} lat {lat}")
        q = 2 * math.asin(float(t.query(c)[0]) / 2) / d
        check(q < 1.0, f"no point within {q:.3f} distances of lon {lon} lat {lat}")
        ev.nontrivial()


def body(case, ev):
    from tatc.generation import generate_fibonacci_lattice_points

    kw = {} if case["default"] else {"elevation": case["elev"]}
    z = 0.0 if case["default"] else case["elev"]
    full = generate_fibonacci_lattice_points(case["dist"], **kw)
    d = case["dist"] / ref.R_E
    n = len(full)
    exp = 2 / (1 - math.cos(d / 2))
    check(abs(n - exp) <= 1.5, f"{n} points at distance {case['dist']}, expected {exp:.2f}")
    check([int(i) for i in full["point_id"]] == list(range(n)), "ids are not 0..n-1")
    check(full.crs is not None and full.crs.to_epsg() == 4326, "crs")
    x = np.array([g.x for g in full.geometry])
    y = np.array([g.y for g in full.geometry])
    check(all(g.z == z for g in full.geometry), "elevation")
    check(np.abs(x).max() <= 180 and np.abs(y).max() < 90, "coordinates out of range")
    if n >= 20:
        from scipy.spatial import cKDTree

        la, lo = np.radians(y), np.radians(x)
        p = np.c_[np.cos(la) * np.cos(lo), np.cos(la) * np.sin(lo), np.sin(la)]
        t = cKDTree(p)
        nn = 2 * np.arcsin(t.query(p, k=2)[0][:, 1] / 2) / d
        check(nn.min() > 0.7 and nn.max() < 0.95, f"nearest neighbours {nn.min():.3f}..{nn.max():.3f} of the distance")
        lo0, s = math.radians(case["place"][0]), case["place"][1]
        c = math.sqrt(1 - s * s)
        q = 2 * math.asin(float(t.query([c * math.cos(lo0), c * math.sin(lo0), s])[0]) / 2) / d
        check(q < 1.0, f"no point within {q:.3f} distances of latitude {math.degrees(math.asin(s))}")
        below = float((np.sin(la) < s).sum())
        check(abs(below - n * (s + 1) / 2) < 3, f"{below} of {n} points below latitude {math.degrees(math.asin(s))}")
    if case["mask"] is None:
        ev.nontrivial(n >= 20)
        return
    mask = build_mask(case["mask"])
    if mask is None:
        return
    out = generate_fibonacci_lattice_points(case["dist"], mask=mask, **kw)
    compare(full, out, mask, "point_id", ev)


def compare(full, out, mask, key, ev):
    got = {}
    check(list(out.index) == list(range(len(out))), "index of the masked points")
    for k in range(len(out)):
        i = int(out[key].iloc[k])
        check(i not in got, f"id {i} appears twice in the masked result")
        got[i] = out.geometry.iloc[k]
    beyond = mask.bounds[2] > 180
    kept = dropped = 0
    for k in range(len(full)):
        i, g = int(full[key].iloc[k]), full.geometry.iloc[k]
        x = g.x + 360 if beyond and g.x < 0 else g.x
        p = SP(x, g.y)
        have = got.pop(i, None)
        if mask.boundary.distance(p) < 1e-9:
            continue
        want = mask.contains(p)
        check((have is not None) == want, f"point {i} at lon {x} lat {g.y} is {'inside' if want else 'outside'} the mask {mask.bounds} but {'kept' if have is not None else 'dropped'}")
        if have is not None:
            check(abs(have.x - x) < 1e-9 and have.y == g.y and have.z == g.z, f"point {i} moved to {have.wkt}")
        kept += want
        dropped += not want
    check(not got, f"ids {list(got)[:5]} are not points of the lattice")
    ev.nontrivial(kept > 0 and dropped > 0)
    ev.label("mask")
    if beyond:
        ev.label("mask beyond antimeridian")


SUBS = [
    Sub("lattice", strategy, body, quick=1200),
    Sub("fine", fine_strategy, fine_body, quick=160),
    Sub("huge", huge_strategy, fine_body, quick=16),
]
