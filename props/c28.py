"""C28: orbit track tables give each instrument's true position at each time."""

import math
from datetime import timedelta

import numpy as np
from hypothesis import strategies as st
from shapely.geometry import MultiPolygon, Point as SP, box

from lib import gen, ref
from lib.gen import fl, pick, weighted
from lib.harness import Sub, check
from props import c01
from props.c19 import solve_lambda
from props.c24 import orbits
from props.c25 import to_geo

RULE = "at least two times at different positions; with a mask, some rows are kept and some dropped"
ASSUMPTIONS = [
    "the motion is the SGP4 propagation of the element set (C14); geodetic coordinates are WGS 84",
    "sub-satellite points within 1e-7 degrees of the mask border are not judged",
    "sunlit requirements within 60 km of the shadow edge or 0.02 deg of the terminator are not judged",
]


def strategy():
    return st.fixed_dictionaries(
        {
            "orbit": orbits(),
            "at": weighted(
                (4, st.lists(st.one_of(st.integers(-20000, 80000), fl(-20000, 80000)), min_size=3, max_size=7)),
                (1, st.lists(st.integers(-20000, 80000), min_size=0, max_size=1)),
            ),
            "sort": st.booleans(),
            "tz": pick(*c01.TZ),
            "for": st.one_of(fl(0.5, 180, 180.0), pick(360.0, 30.0)),
            "pointed": st.booleans(),
            "index": st.integers(0, 2),
            "elev": pick(None, 0.0, 4000.0, -300.0),
            "coords": pick(None, "WGS84", "ECEF", "ECI"),
            "output": pick(None, "POSITION", "POSITION_VELOCITY"),
            "self": pick(None, None, True, False),
            "target": pick(None, None, True, False),
            "mask": pick(None, None, "polygon", "multi", "frame", "series"),
            "mask_at": st.integers(0, 5),
            "mask_w": st.one_of(fl(0.01, 90), fl(60, 180)),
            "mask_h": st.one_of(fl(0.01, 60), fl(40, 120)),
            "off": st.tuples(fl(-1.2, 1.2), fl(-1.2, 1.2)),
            "by_enum": st.booleans(),
        }
    )


def height(p):
    """Geodetic (lat, lon, height) of any ECEF point."""
    la, lo = to_geo(p)
    for _ in range(8):
        e2 = ref.F_E * (2 - ref.F_E)
        s = math.sin(math.radians(la))
        nn = ref.A_E / math.sqrt(1 - e2 * s * s)
        r = math.hypot(p[0], p[1])
        la = math.degrees(math.atan2(p[2] + e2 * nn * s, r))
    # distance along the normal
    q = ref.ecef(la, lo, 0.0)
    n = np.array(
        [
            math.cos(math.radians(la)) * math.cos(math.radians(lo)),
            math.cos(math.radians(la)) * math.sin(math.radians(lo)),
            math.sin(math.radians(la)),
        ]
    )
    return la, lo, float((p - q) @ n)


def build(case):
    """(satellite, instrument, lines, times)"""
    from tatc.schemas import Instrument, PointedInstrument, Satellite

    c01.no_repeat()
    tle = c01.make_orbit(case["orbit"]).to_tle()
    tz = c01.TZ[case["tz"]]
    at = sorted(case["at"]) if case["sort"] else list(case["at"])
    times = [(tle.get_epoch() + timedelta(seconds=float(k))).astimezone(tz) for k in at]
    kw = dict(
        name="cam",
        field_of_regard=case["for"],
        req_self_sunlit=case["self"],
        req_target_sunlit=case["target"],
    )
    if case["pointed"]:
        ins = PointedInstrument(
            **kw, cross_track_field_of_view=10, along_track_field_of_view=5, roll_angle=case.get("roll", 20), pitch_angle=case.get("pitch", 0)
        )
    else:
        ins = Instrument(**kw)
    k = case["index"]
    inst = [Instrument(name=f"other {i}", field_of_regard=77 + i) for i in range(3)]
    inst[k] = ins
    orbit = c01.make_orbit(case["orbit"])
    return Satellite(name="sat 1", orbit=orbit if case["orbit"]["type"] in ("circular", "keplerian", "sso") else tle, instruments=inst), ins, tle.tle, times


def as_mask(kind, m):
    import geopandas as gpd

    if kind == "polygon":
        return m
    far = box(-1.5, -89.7, -1.4, -89.6)
    if kind == "multi":
        return MultiPolygon([far, m]) if not m.intersects(far) else m
    if kind == "frame":
        return gpd.GeoDataFrame({"a": [1, 2]}, geometry=[far, m], crs="EPSG:4326")
    return gpd.GeoSeries([far, m], crs="EPSG:4326")


def valid_of(case, lines, t, pt, eph):
    """True/False/None whether the sunlight requirements are met."""
    valid = True
    if case["self"] is not None:
        m = ref.sunlit_margin(eph, ref.gcrs(lines, t), t)
        if abs(m) < 60e3:
            valid = None
        elif (m > 0) != case["self"]:
            return False
    if case["target"] is not None:
        alt, _, _ = ref.sun_topos(eph, pt[0], pt[1], pt[2], t)
        if abs(alt) < 0.02:
            return None
        if (alt > 0) != case["target"]:
            return False
    return valid


def body(case, ev):
    from tatc.analysis import OrbitCoordinate, OrbitOutput, collect_orbit_track
    from tatc.constants import de421

    sat, ins, lines, times = build(case)
    states = [ref.state(lines, t) for t in times]
    geo = [height(p) for p, _ in states]
    kw = {"instrument_index": case["index"]}
    if case["elev"] is not None:
        kw["elevation"] = case["elev"]
    if case["coords"] is not None:
        kw["coordinates"] = OrbitCoordinate[case["coords"]]
        if not case["by_enum"]:
            kw["coordinates"] = {"WGS84": "wgs84", "ECEF": "ecef", "ECI": "eci"}[case["coords"]]
    if case["output"] is not None:
        kw["orbit_output"] = OrbitOutput[case["output"]]
    m = None
    if case["mask"] is not None and times:
        la, lo, _ = geo[case["mask_at"] % len(times)]
        cx = lo + case["off"][0] * case["mask_w"] / 2
        cy = la + case["off"][1] * case["mask_h"] / 2
        x0, x1 = max(-180, cx - case["mask_w"] / 2), min(180, cx + case["mask_w"] / 2)
        y0, y1 = max(-90, cy - case["mask_h"] / 2), min(90, cy + case["mask_h"] / 2)
        if x1 - x0 < 1e-4 or y1 - y0 < 1e-4:
            return
        m = box(x0, y0, x1, y1)
        kw["mask"] = as_mask(case["mask"], m)
    out = collect_orbit_track(sat, times, **kw)
    cols = {"time", "satellite", "instrument", "swath_width", "valid_obs", "geometry"}
    check(cols <= set(out.columns), f"columns {list(out.columns)}")
    check(out.crs is not None and out.crs.to_epsg() == 4326, f"crs {out.crs}")
    exp = []
    for t, s, g in zip(times, states, geo):
        if m is not None:
            p = SP(g[1], g[0])
            if m.boundary.distance(p) < 1e-7:
                return
            if not m.contains(p):
                continue
        exp.append((t, s, g))
    check(len(out) == len(exp), f"{len(out)} rows, expected {len(exp)} of {len(times)} times")
    check(list(out.index) == list(range(len(exp))), f"index {list(out.index)}")
    if exp and case["output"] == "POSITION_VELOCITY":
        check("velocity" in out.columns, "no velocity")
    for k, (t, (pos, vel), (la, lo, h)) in enumerate(exp):
        r = out.iloc[k]
        what = f"row {k}"
        check(abs((r["time"].to_pydatetime() - t).total_seconds()) < 1e-3, f"{what}: time {r['time']} for {t}")
        check(r["satellite"] == "sat 1" and r["instrument"] == "cam", f"{what}: {r['satellite']}, {r['instrument']}")
        g = r["geometry"]
        co = case["coords"] or "WGS84"
        if co == "WGS84":
            d = ref.gc_deg(la, lo, g.y, g.x)
            check(d < 1e-6 and abs(g.z - h) < 0.5 and abs(g.x) <= 180, f"{what}: {g.wkt}, expected lon {lo} lat {la} height {h}")
        else:
            e = pos if co == "ECEF" else ref.gcrs(lines, t)
            d = np.linalg.norm(np.array([g.x, g.y, g.z]) - e)
            check(d < 0.5, f"{what}: {co} position {g.wkt}, expected {e}, {d} m apart")
        if case["output"] == "POSITION_VELOCITY":
            v = r["velocity"]
            e = vel
            if co == "ECI":
                e = ref.sat_of(lines).at(ref.t_of(t)).velocity.m_per_s
            d = np.linalg.norm(np.array([v.x, v.y, v.z]) - e)
            check(d < 0.01, f"{what}: velocity {v.wkt}, expected {e}")
        rr = ref.R_E + (case["elev"] or 0.0)
        lam = solve_lambda(math.radians(min(case["for"], 180.0) / 2), rr, ref.R_E + h)
        sw = 2 * rr * lam
        check(abs(r["swath_width"] - sw) < 1e-3 * sw + 1, f"{what}: swath width {r['swath_width']}, expected {sw}")
        v = valid_of(case, lines, t, (la, lo, 0.0), de421)
        if v is not None:
            check(bool(r["valid_obs"]) == v, f"{what}: valid_obs {r['valid_obs']}, requirements self {case['self']} target {case['target']}")
        else:
            ev.label("terminator")
    ev.label(f"{case['coords']}")
    if m is not None:
        ev.label("mask")
        ev.nontrivial(0 < len(exp) < len(times))
    else:
        ev.nontrivial(len(set(case["at"])) > 1)


def warm():
    c01.no_repeat()


SUBS = [Sub("table", strategy, body, quick=4000)]
