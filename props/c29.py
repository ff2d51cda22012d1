"""C29: ground track tables give each footprint at each time and honour masks."""

import math

import numpy as np
import shapely
from hypothesis import strategies as st
from shapely.geometry import MultiPolygon, Point as SP, box

from lib import gen, ref
from lib.gen import fl, pick, weighted
from lib.harness import Sub, check
from props import c01
from props.c19 import solve_lambda
from props.c24 import intersect, states, track_of
from props.c25 import check_geometry, inside_view, judge_region, to_geo, visible
from props.c28 import height

RULE = "some probe points are inside and some outside a footprint (tables); the mask cuts a footprint or drops a row (masks); sunlight is required (validity and angles)"
ASSUMPTIONS = [
    "projected footprints are circles of the swath width in the projection (distances by pyproj; geodesic for utm, 3 %), judged 1.5 % away from their border",
    "spice footprints are judged by view angles as in C25",
    "rows of a masked spice table are those whose footprint shares area with the mask; of a projected table, those that in addition share area that is in view of the instrument",
    "validity is that of the sunlight requirements at the point of the boresight (at least 0.02 degrees from sunrise and 60 km from the shadow edge)",
]


def base():
    return {
        "orbit": st.one_of(
            gen.circular(alt=fl(350e3, 1500e3)), gen.sso(), gen.keplerian(alt=fl(900e3, 3000e3)), gen.circular(alt=fl(2000e3, 36000e3))
        ),
        "at": st.integers(-20000, 80000),
        "for": st.one_of(fl(2, 120), fl(20, 180, 180.0)),
        "cross": fl(3, 60),
        "along": fl(3, 60),
        "roll": fl(-20, 20, 0.0),
        "pitch": fl(-20, 20, 0.0),
        "rect": st.booleans(),
        "kind": pick("basic", "basic", "pointed"),
        "elev": pick(0.0, 0.0, 2000.0),
        "index": st.integers(0, 1),
        "tz": pick(*c01.TZ),
    }


def satellite(case):
    from tatc.schemas import Instrument, PointedInstrument, Satellite

    if case["kind"] == "basic":
        ins = Instrument(name="cam", field_of_regard=case["for"], req_target_sunlit=case.get("target"), req_self_sunlit=case.get("self"))
    else:
        ins = PointedInstrument(
            name="cam",
            field_of_regard=180,
            req_target_sunlit=case.get("target"),
            req_self_sunlit=case.get("self"),
            cross_track_field_of_view=case["cross"],
            along_track_field_of_view=case["along"],
            roll_angle=case["roll"],
            pitch_angle=case["pitch"],
            is_rectangular=case["rect"],
        )
    inst = [Instrument(name="x", field_of_regard=33), Instrument(name="y", field_of_regard=44)]
    inst[case["index"]] = ins
    return Satellite(name="sat", orbit=c01.make_orbit(case["orbit"]), instruments=inst), ins


def effective(case):
    eff = dict(case)
    if case["kind"] == "basic":
        w = min(case["for"], 180.0)
        eff.update(cross=w, along=w, roll=0.0, pitch=0.0, rect=False)
    return eff


def strategy():
    return st.fixed_dictionaries(
        {
            **base(),
            "n": pick(0, 1, 2, 3, 4),
            "step": pick(30, 300, -60),
            "crs": pick(None, "EPSG:4087", "utm", "spice", "spice", "EPSG:3857", "EPSG:6933"),
            "probes": st.lists(st.tuples(fl(0, 1.6, n=1600), fl(0, 6.2831, n=2000)), min_size=4, max_size=8),
            "polar": st.booleans(),
        }
    )


def most_polar(case):
    """Minutes after the time at which the track is closest to a pole."""
    track, _, _ = track_of({**case, "step": 60, "list": True}, 110)
    z = [abs(p[2]) / np.linalg.norm(p) for p, _ in states(track)]
    return int(np.argmax(z))


def swath(case, h):
    rr = ref.R_E + case["elev"]
    w = case["for"] if case["kind"] == "basic" else 180.0
    return 2 * rr * solve_lambda(math.radians(min(w, 180.0) / 2), rr, ref.R_E + h)


def moments(case):
    track, lines, times = track_of({**case, "list": True}, max(1, case["n"]))
    tz = c01.TZ[case["tz"]]
    return track, lines, [t.astimezone(tz) for t in times]


def body(case, ev):
    from tatc import config
    from tatc.analysis import collect_ground_track

    case = dict(case)
    if case["polar"]:
        case["at"] += 60 * most_polar(case)
    sat, _ = satellite(case)
    track, lines, times = moments(case)
    if case["n"] == 0:
        out = collect_ground_track(sat, [], case["index"])
        check(len(out) == 0 and {"time", "satellite", "instrument", "valid_obs", "geometry"} <= set(out.columns), "no times")
        return
    crs = case["crs"]
    kw = {} if crs is None else {"crs": crs}
    for p, _ in states(track):
        la, lo, h = height(p)
        w = math.degrees(swath(case, h) / 2 / ref.R_E)
        if crs in ("EPSG:3857", "EPSG:6933") and (abs(la) + w / math.cos(math.radians(min(89, abs(la)))) > 70 or w > 15):
            return
        if crs == "utm" and w > 6:
            return
        if crs in (None, "EPSG:4087") and w > 70:
            return
    out = collect_ground_track(sat, times, instrument_index=case["index"], elevation=case["elev"], **kw)
    check(len(out) == len(times), f"{len(out)} rows for {len(times)} times")
    check(list(out.index) == list(range(len(times))), "index")
    check(out.crs is not None and out.crs.to_epsg() == 4326, "crs")
    tin = tout = 0
    for k, ((pos, vel), t) in enumerate(zip(states(track), times)):
        r = out.iloc[k]
        what = f"row {k} ({crs})"
        check(abs((r["time"].to_pydatetime() - t).total_seconds()) < 1e-3, f"{what}: time {r['time']} for {t}")
        check(r["satellite"] == "sat" and r["instrument"] == "cam", f"{what}: names")
        check(bool(r["valid_obs"]) is True, f"{what}: not valid without requirements")
        g = r["geometry"]
        check_geometry(g, case["elev"], what)
        if crs == "spice":
            eff = effective(case)
            npts = config.rc.footprint_points_rectangular_side if eff["rect"] else config.rc.footprint_points_elliptical
            i, o = judge_region(g, eff, pos, vel, case["elev"], npts, case["probes"], what, ev)
        else:
            i, o = circle(case, crs or "EPSG:4087", g, pos, what)
        tin += i
        tout += o
        if g.geom_type == "MultiPolygon":
            ev.label("split")
    ev.label(str(crs))
    ev.nontrivial(tin > 0 and tout > 0)


_TR = {}


def project(crs, lon, lat):
    import pyproj

    if crs not in _TR:
        _TR[crs] = pyproj.Transformer.from_crs("EPSG:4326", crs, always_xy=True)
    return _TR[crs].transform(lon, lat)


def project_back(crs, x, y):
    import pyproj

    if ("inv", crs) not in _TR:
        _TR["inv", crs] = pyproj.Transformer.from_crs(crs, "EPSG:4326", always_xy=True)
    return _TR["inv", crs].transform(x, y)


def circle(case, crs, g, pos, what):
    """Membership of probe points in a circle of the swath width about the sub-satellite point."""
    import pyproj

    la, lo, h = height(pos)
    half = swath(case, h) / 2
    n_in = n_out = 0
    for k, ang in case["probes"]:
        if crs == "utm":
            glo, gla, _ = pyproj.Geod(ellps="WGS84").fwd(lo, la, math.degrees(ang), k * half)
            tol = 0.04
        else:
            x0, y0 = project(crs, lo, la)
            x, y = x0 + k * half * math.cos(ang), y0 + k * half * math.sin(ang)
            if crs == "EPSG:4087":
                m = 6378137.0 * math.pi / 180
                glo, gla = x / m, y / m
                if gla > 90:
                    glo, gla = glo + 180, 180 - gla
                elif gla < -90:
                    glo, gla = glo + 180, -180 - gla
            else:
                glo, gla = project_back(crs, x, y)
            tol = 0.015
        if abs(k - 1) < tol:
            continue
        glo = (glo + 180) % 360 - 180
        if crs == "EPSG:4087":
            # a point may be reached both directly and over a pole
            d = min(
                math.hypot((glo - lo + s) * 111319.4908, (yy - la) * 111319.4908)
                for yy, off in ((gla, 0), (180 - gla, 180), (-180 - gla, 180))
                for s in (off, off - 360, off + 360)
            )
            if abs(d / half - 1) < tol:
                continue
            want = d < half
        else:
            want = k < 1
        got = g.intersects(SP(glo, gla))
        check(
            got == want,
            f"{what}: point lon {glo:.4f} lat {gla:.4f}, {k:.3f} of half the swath ({half:.0f} m) from the sub-satellite point {lo:.4f}, {la:.4f}, is {'in' if got else 'not in'} the footprint {g.bounds}",
        )
        n_in += want
        n_out += not want
    return n_in, n_out


def mask_strategy():
    return st.fixed_dictionaries(
        {
            **base(),
            "n": pick(1, 2, 3, 5),
            "step": pick(10, 30, 120, -60),
            "crs": pick("EPSG:4087", "utm", "spice", "spice"),
            "mask": pick("polygon", "multi", "frame", "series"),
            "shape": pick("local", "local", "local", "local", "wide", "band", "cap", "globe", "away"),
            "polar": weighted((3, st.just(False)), (1, st.just(True))),
            "pivot": st.integers(0, 4),
            "off": st.tuples(fl(0, 0.8), fl(0, 0.8), st.booleans(), st.booleans()).map(
                lambda v: (v[0] * (1 if v[2] else -1), v[1] * (1 if v[3] else -1))
            ),
            "size": st.tuples(fl(0.3, 2), fl(0.3, 2)),
            "second": st.tuples(fl(-3, 3), fl(-3, 3)),
            "self": pick(None, None, True, False),
            "target": pick(None, None, True, False),
            "angles": st.tuples(st.booleans(), st.booleans()),
        }
    )


def ellipse_strategy():
    """Orbits whose footprint grows several times on the way to the apogee; masks at its rim there."""

    def f(a):
        d, orbit, w, n, step, off, size = a
        d = dict(d, kind="basic", orbit=orbit, n=n, step=step, off=off, size=size, pivot="top")
        d.update({"for": w, "shape": "local", "polar": False, "crs": "spice" if d["crs"] == "utm" else d["crs"]})
        return d

    sign = pick(-1, 1)
    rim = st.tuples(fl(0.5, 0.8), fl(0.0, 0.6), sign, sign, st.booleans()).map(
        lambda v: (v[2] * v[0], v[3] * v[1]) if v[4] else (v[3] * v[1], v[2] * v[0])
    )
    return st.tuples(
        mask_strategy(),
        gen.keplerian(alt=fl(9000e3, 20000e3), ecc=fl(0.3, 0.5)),
        st.one_of(fl(2, 25), fl(20, 45)),
        st.one_of(st.integers(3, 9), st.integers(25, 45), st.integers(25, 45)),
        pick(60, 240, 400, 600, -300),
        rim,
        st.tuples(fl(0.1, 0.4), fl(0.1, 0.4)),
    ).map(f)


def make_mask(case, cx, cy, scale):
    """(mask argument, union geometry)"""
    import geopandas as gpd

    def b(dx, dy, fx, fy):
        x0, x1 = cx + (dx - fx / 2) * scale, cx + (dx + fx / 2) * scale
        y0, y1 = cy + (dy - fy / 2) * scale, cy + (dy + fy / 2) * scale
        x0, y0, x1, y1 = max(-180, x0), max(-90, y0), min(180, x1), min(90, y1)
        return box(x0, y0, x1, y1) if x0 < x1 and y0 < y1 else box(0, 0, 0, 0)

    m1 = b(*case["off"], *case["size"])
    shape = case.get("shape", "local")
    if shape != "local":
        # a region that is wide in longitude, with the given edges in latitude
        _, y0, _, y1 = m1.bounds
        if shape == "globe":
            m1 = box(-180, -90, 180, 90)
        elif y0 >= y1:
            return None, None
        elif shape == "away":
            x = cx + 180 if cx < 0 else cx - 180
            m1 = box(max(-180, x - 3), max(-90, -cy - 3), min(180, x + 3), min(90, 3 - cy))
        elif shape == "band":
            m1 = box(-180, y0, 180, y1)
        elif shape == "cap":
            m1 = box(-180, y0, 180, 90) if case["off"][0] > 0 else box(-180, -90, 180, y1)
        else:
            half = 80 + 100 * abs(case["off"][0])
            x0, x1 = max(-180, cx - half), min(180, cx + half)
            m1 = box(x0, y0, x1, y1)
    m2 = b(*case["second"], 0.4, 0.3)
    gs = [m for m in (m1, m2) if m.area > 1e-8 and m.bounds[0] < m.bounds[2]]
    if case["mask"] == "polygon":
        gs = gs[:1]
    if not gs:
        return None, None
    u = shapely.union_all(gs)
    if case["mask"] == "polygon":
        return gs[0], u
    if case["mask"] == "multi":
        return (u if isinstance(u, MultiPolygon) else MultiPolygon([u])), u
    if case["mask"] == "frame":
        return gpd.GeoDataFrame({"k": range(len(gs))}, geometry=gs, crs="EPSG:4326"), u
    return gpd.GeoSeries(gs, crs="EPSG:4326"), u


def mask_body(case, ev):
    from tatc.analysis import collect_ground_track

    if case["crs"] != "spice" and case["kind"] != "basic":
        return
    case = dict(case)
    if case.get("polar"):
        case["at"] += 60 * most_polar(case)
    sat, ins = satellite(case)
    track, lines, times = moments(case)
    sts = states(track)
    for p, _ in sts:
        la, lo, h = height(p)
        w = math.degrees(swath(case, h) / 2 / ref.R_E)
        if case["crs"] != "spice" and (w > 70 if case["crs"] == "EPSG:4087" else w > 6):
            return
    flags = dict(zip(("sat_altaz", "solar_altaz"), case.get("angles", (False, False))))
    full = collect_ground_track(sat, times, case["index"], case["elev"], crs=case["crs"], **flags)
    check(len(full) == len(times), "unmasked rows")
    angles = [f.replace("altaz", c) for f, on in flags.items() if on for c in ("alt", "az")]
    if case["pivot"] == "top":
        pos = max((p for p, _ in sts), key=np.linalg.norm)
    else:
        pos = sts[case["pivot"] % len(times)][0]
    la, lo, h = height(pos)
    sw = swath({**case, "kind": "basic", "for": case["for"] if case["kind"] == "basic" else 2 * max(case["cross"], case["along"])}, h)
    scale = math.degrees(sw / 2 / ref.R_E)
    mask, union = make_mask(case, lo, la, scale)
    if mask is None:
        return
    out = collect_ground_track(sat, times, case["index"], case["elev"], mask, case["crs"], **flags)
    got = {}
    for k in range(len(out)):
        t = out.iloc[k]["time"]
        check(t not in got, f"time {t} appears twice in the masked table")
        got[t] = out.iloc[k]
    if len(out):
        check(list(out.index) == list(range(len(out))), "index of the masked table")
    want = {"time", "satellite", "instrument", "valid_obs", "geometry"}
    check(want <= set(out.columns) and out.crs is not None and out.crs.to_epsg() == 4326, f"columns {list(out.columns)} of the masked table ({len(out)} rows)")
    cut = dropped = kept = 0
    for k in range(len(times)):
        r = full.iloc[k]
        g = r["geometry"]
        if not g.is_valid:
            continue
        inter = g.intersection(union)
        row = got.pop(r["time"], None)
        if row is not None:
            check(not inter.is_empty, f"row {k}: footprint {g.bounds} does not reach the mask {union.bounds} but is reported")
            x = row["geometry"]
            bad = x.symmetric_difference(inter).area
            check(bad < 1e-9 + 1e-6 * inter.area, f"row {k}: clipped footprint has area {x.area}, mask and footprint share {inter.area} ({bad} differ)")
            check(row["satellite"] == "sat" and row["instrument"] == "cam", f"row {k}: attributes")
            check(bool(row["valid_obs"]) == bool(r["valid_obs"]), f"row {k}: valid_obs is {row['valid_obs']} with and {r['valid_obs']} without the mask")
            for c in angles:
                w = math.cos(math.radians(r[c[:-2] + "alt"])) if c.endswith("_az") else 1.0
                check(ref.ang_diff(row[c], r[c]) * w < 1e-4, f"row {k}: {c} is {row[c]} with and {r[c]} without the mask")
            kept += 1
            cut += inter.area < g.area * 0.999
            continue
        dropped += 1
        if inter.area < 1e-6 * min(g.area, union.area):
            continue
        if case["crs"] == "spice" or reached(case, sts[k], inter, len(times)):
            check(False, f"row {k}: footprint {g.bounds} shares {inter.area} square degrees with the mask {union.bounds} but is missing")
    check(not got, f"masked table has times {list(got)} that were not requested")
    ev.label(case["crs"], case.get("shape", "local"))
    if kept:
        ev.label(case.get("shape", "local") + " kept")
    ev.nontrivial(kept > 0 and (cut > 0 or dropped > 0))


def reached(case, state, inter, n):
    """Whether a point of the shared area is robustly inside the view."""
    pos, vel = state
    if n == 1:
        return True
    pts = [inter.representative_point()]
    for q in np.linspace(0.1, 0.9, 5):
        x0, y0, x1, y1 = inter.bounds
        for w in np.linspace(0.1, 0.9, 5):
            p = SP(x0 + q * (x1 - x0), y0 + w * (y1 - y0))
            if inter.contains(p):
                pts.append(p)
    eff = effective(case)
    small = dict(eff, cross=eff["cross"] * 0.93, along=eff["along"] * 0.93)
    for p in pts:
        e = ref.ecef(p.y, p.x, case["elev"])
        limb = math.degrees(math.acos(min(1, (ref.R_E + case["elev"]) / np.linalg.norm(pos))))
        far = ref.gc_deg(p.y, p.x, *to_geo(pos))
        if far < 0.93 * limb and visible(pos, e, case["elev"]) and inside_view(small, pos, vel, e, case["elev"]):
            return True
    return False


def warm():
    c01.no_repeat()


def valid_strategy():
    return st.fixed_dictionaries(
        {
            **base(),
            "roll": fl(-45, 45, 0.0),
            "pitch": fl(-45, 45, 0.0),
            "kind": pick("basic", "pointed", "pointed", "pointed"),
            "self": pick(None, None, True, False),
            "target": pick(None, True, False),
            "step": pick(5, 20, -40, 600),
            "n": pick(1, 2, 5, 8),
            "crs": pick("spice", "EPSG:4087"),
            "sun": pick(True, True, False),
        }
    )


def angles(row, what, pos, where, elev, t, eph):
    """Altitude and azimuth of the satellite and of the Sun at the center of the view."""
    la, lo, _ = where
    d = pos - ref.ecef(la, lo, elev)
    a, o = math.radians(la), math.radians(lo)
    east = np.array([-math.sin(o), math.cos(o), 0])
    north = np.array([-math.sin(a) * math.cos(o), -math.sin(a) * math.sin(o), math.cos(a)])
    e, n, u = d @ east, d @ north, d @ np.cross(east, north)
    alt, az = math.degrees(math.atan2(u, math.hypot(e, n))), math.degrees(math.atan2(e, n)) % 360
    sun_alt, sun_az, _ = ref.sun_topos(eph, la, lo, elev, t)
    for name, x, y in (("sat", alt, az), ("solar", sun_alt, sun_az)):
        gx, gy = row[f"{name}_alt"], row[f"{name}_az"]
        check(abs(gx - x) < 0.1, f"{what}: {name}_alt {gx}, expected {x}")
        if abs(x) < 85 and abs(la) < 88:
            tol = 0.1 / math.cos(math.radians(x)) + 0.1 / math.cos(a)
            check(ref.ang_diff(gy, y) < tol, f"{what}: {name}_az {gy}, expected {y}")


def valid_body(case, ev):
    from datetime import timedelta

    from tatc.analysis import collect_ground_track
    from tatc.constants import de421

    from props import c28

    case = dict(case)
    sat, _ = satellite(case)
    tle = c01.make_orbit(case["orbit"]).to_tle()
    if case["sun"]:
        # start about when the satellite passes over the terminator
        def alt(sec):
            t = tle.get_epoch() + timedelta(seconds=case["at"] + sec)
            la, lo, _ = height(ref.state(tle.tle, t)[0])
            return ref.sun_topos(de421, la, lo, 0.0, t)[0]

        per = tle.get_orbit_period().total_seconds()
        grid = [per * k / 6 for k in range(7)]
        val = [alt(x) for x in grid]
        for a, b, fa, fb in zip(grid, grid[1:], val, val[1:]):
            if (fa > 0) != (fb > 0):
                for _ in range(12):
                    m = (a + b) / 2
                    if (alt(m) > 0) == (fa > 0):
                        a = m
                    else:
                        b = m
                case["at"] += int(a) - case["n"] // 2 * case["step"]
                break
    track, lines, times = moments(case)
    out = collect_ground_track(
        sat, times, instrument_index=case["index"], elevation=case["elev"], crs=case["crs"], sat_altaz=True, solar_altaz=True
    )
    check(len(out) == len(times), f"{len(out)} rows for {len(times)} times")
    differ = 0
    for k, ((pos, vel), t) in enumerate(zip(states(track), times)):
        v, b, n = ref.lvlh(pos, vel)
        ray = b
        if case["kind"] == "pointed":
            ray = b + v * math.tan(math.radians(case["pitch"])) + n * math.tan(math.radians(case["roll"]))
        p, q = intersect(pos, ray, case["elev"])
        if p is None or q < 0.01:
            continue
        angles(out.iloc[k], f"row {k}", pos, height(p), case["elev"], t, de421)
        ok = c28.valid_of(case, lines, t, height(p), de421)
        if ok is None:
            continue
        got = out.iloc[k]["valid_obs"]
        check(bool(got) == ok, f"row {k}: valid_obs {got}, requirements self {case['self']} target {case['target']}")
        la, lo, _ = height(pos)
        differ += c28.valid_of(case, lines, t, (la, lo, 0.0), de421) not in (ok, None)
    ev.label("validity differs from that below the satellite" if differ else "same as below the satellite")
    ev.nontrivial(case["self"] is not None or case["target"] is not None)


SUBS = [
    Sub("table", strategy, body, quick=1200),
    Sub("mask", mask_strategy, mask_body, quick=1200),
    Sub("ellipse", ellipse_strategy, mask_body, quick=240),
    Sub("valid", valid_strategy, valid_body, quick=300),
]
