"""C31: sunlight and solar angles in results are the true ones."""

import math
from datetime import timedelta

import numpy as np
from hypothesis import strategies as st

from lib import gen, ref
from lib.gen import fl, pick
from lib.harness import Sub, check
from props import c01, c28
from props.c24 import intersect, orbits
from props.c29 import swath

RULE = "at least two times, or the satellite is in shadow, or the Sun is below the horizon of the target"
ASSUMPTIONS = [
    "the Sun's geocentric position is taken from the repository's ephemeris object; angles are recomputed from it by vector geometry",
    "sunlit states within 60 km of the shadow edge are not judged; angles are compared to 0.02 degrees (aberration, parallax)",
    "utm footprints up to 12 degrees wide",
]


def strategy():
    return st.fixed_dictionaries(
        {
            "orbit": orbits(),
            "at": st.lists(st.integers(-20000, 80000), min_size=1, max_size=4),
            "sort": st.just(True),
            "tz": pick(*c01.TZ),
            "for": pick(180.0, 30.0),
            "pointed": st.booleans(),
            "roll": fl(-15, 15, 0.0),
            "pitch": fl(-15, 15, 0.0),
            "index": st.integers(0, 2),
            "self": pick(None, None, True, False),
            "target": pick(None, None, True, False),
            "elev": pick(0.0, 0.0, 2500.0),
            "table": pick("orbit", "orbit", "ground"),
            "crs": pick("spice", "EPSG:4087", "utm"),
            "flags": st.tuples(st.booleans(), st.booleans(), st.booleans()),
            "output": pick("POSITION", "POSITION_VELOCITY"),
            "coords": pick("WGS84", "ECEF", "ECI"),
        }
    )


def sun_gcrs(eph, t):
    return (eph["sun"] - eph["earth"]).at(ref.t_of(t)).position.m


def sun_itrs(eph, t):
    from skyfield.framelib import itrs

    return itrs.rotation_at(ref.t_of(t)) @ sun_gcrs(eph, t)


def enu(lat, lon, d):
    """(altitude, azimuth) in degrees of direction d at a geodetic position."""
    la, lo = math.radians(lat), math.radians(lon)
    e = np.array([-math.sin(lo), math.cos(lo), 0.0])
    n = np.array([-math.sin(la) * math.cos(lo), -math.sin(la) * math.sin(lo), math.cos(la)])
    u = np.array([math.cos(la) * math.cos(lo), math.cos(la) * math.sin(lo), math.sin(la)])
    d = d / np.linalg.norm(d)
    return math.degrees(math.asin(max(-1, min(1, float(d @ u))))), math.degrees(math.atan2(float(d @ e), float(d @ n))) % 360


def angles(r, exp, names, what, tol=0.02):
    check(abs(r[names[0]] - exp[0]) < tol, f"{what}: {names[0]} {r[names[0]]}, expected {exp[0]}")
    if abs(exp[0]) < 89:
        check(
            ref.ang_diff(r[names[1]], exp[1]) * math.cos(math.radians(exp[0])) < tol and 0 <= r[names[1]] <= 360,
            f"{what}: {names[1]} {r[names[1]]}, expected {exp[1]}",
        )


def body(case, ev):
    from tatc.analysis import OrbitCoordinate, OrbitOutput, collect_ground_track, collect_orbit_track
    from tatc.constants import de421

    sat, ins, lines, times = c28.build(case)
    f = case["flags"]
    if case["table"] == "ground" and case["crs"] == "utm":
        # a zone of the projection does not reach across wider swaths
        for t in times:
            h = c28.height(ref.state(lines, t)[0])[2]
            if swath({"kind": "basic", "for": 180.0 if case["pointed"] else case["for"], "elev": case["elev"]}, h) / ref.R_E > math.radians(12):
                return
    if case["table"] == "orbit":
        out = collect_orbit_track(
            sat,
            times,
            case["index"],
            case["elev"],
            coordinates=OrbitCoordinate[case["coords"]],
            orbit_output=OrbitOutput[case["output"]],
            sat_sunlit=f[0],
            solar_altaz=f[1],
            solar_beta=f[2],
        )
        cols = {"sat_sunlit": f[0], "solar_alt": f[1], "solar_az": f[1], "solar_beta": f[2]}
    else:
        out = collect_ground_track(
            sat, times, case["index"], case["elev"], crs=case["crs"], sat_altaz=f[0], solar_altaz=f[1]
        )
        cols = {"sat_alt": f[0], "sat_az": f[0], "solar_alt": f[1], "solar_az": f[1]}
    for c, on in cols.items():
        check((c in out.columns) == on, f"column {c} {'missing' if on else 'not requested'}")
    check(len(out) == len(times), f"{len(out)} rows for {len(times)} times")
    dark = False
    for k, t in enumerate(times):
        r = out.iloc[k]
        what = f"row {k}"
        pos, vel = ref.state(lines, t)
        la, lo, h = c28.height(pos)
        sun = sun_itrs(de421, t)
        if case["table"] == "orbit":
            m = ref.sunlit_margin(de421, ref.gcrs(lines, t), t)
            dark = dark or m < 0
            if f[0] and abs(m) > 60e3:
                check(bool(r["sat_sunlit"]) == (m > 0), f"{what}: sat_sunlit {r['sat_sunlit']}, clearance {m} m")
            if f[1]:
                angles(r, enu(la, lo, sun - pos), ("solar_alt", "solar_az"), what)
            if f[2]:
                p = ref.sat_of(lines).at(ref.t_of(t))
                n = np.cross(p.position.m, p.velocity.m_per_s)
                s = sun_gcrs(de421, t)
                beta = math.degrees(math.asin(float(n @ s) / np.linalg.norm(n) / np.linalg.norm(s)))
                check(abs(r["solar_beta"] - beta) < 0.02, f"{what}: solar_beta {r['solar_beta']}, expected {beta}")
            tgt = (la, lo, 0.0)
        else:
            v, b, n = ref.lvlh(pos, vel)
            ray = b
            if case["pointed"]:
                ray = b + v * math.tan(math.radians(case["pitch"])) + n * math.tan(math.radians(case["roll"]))
            p, q = intersect(pos, ray, case["elev"])
            if p is None or q < 0.01:
                continue
            gla, glo, gh = c28.height(p)
            tgt = (gla, glo, gh)
            if f[0]:
                exp = enu(gla, glo, pos - p)
                angles(r, exp, ("sat_alt", "sat_az"), what, tol=0.01)
            if f[1]:
                angles(r, enu(gla, glo, sun - p), ("solar_alt", "solar_az"), what)
            dark = dark or enu(gla, glo, sun - p)[0] < 0
        v = c28.valid_of(case, lines, t, tgt, de421)
        if v is not None:
            check(bool(r["valid_obs"]) == v, f"{what}: valid_obs {r['valid_obs']}, requirements self {case['self']} target {case['target']}")
    ev.label(case["table"])
    ev.nontrivial(any(f) and (dark or len(set(times)) > 1))


def obs_strategy():
    return st.fixed_dictionaries(
        {
            "orbit": st.one_of(gen.circular(), gen.sso(), gen.keplerian()),
            "for": fl(60, 180),
            **c01.window(st.integers(6000, 40000)),
            **c01.near_point(9.0),
        }
    )


def obs_body(case, ev):
    from tatc.analysis import collect_observations
    from tatc.constants import de421
    from tatc.schemas import Instrument, Point, Satellite

    c01.no_repeat()
    orbit, lines, start, end, pt = c01.setup(case)
    out = collect_observations(
        Point(id=0, latitude=pt["lat"], longitude=pt["lon"], elevation=pt["elev"]),
        Satellite(name="s", orbit=orbit, instruments=[Instrument(name="i", field_of_regard=case["for"])]),
        start,
        end,
        omit_solar=False,
    )
    for k in range(len(out)):
        r = out.iloc[k]
        t = r["epoch"].to_pydatetime()
        p = ref.ecef(pt["lat"], pt["lon"], pt["elev"])
        sun = sun_itrs(de421, t)
        alt, az = enu(pt["lat"], pt["lon"], sun - p)
        angles(r, (alt, az), ("solar_alt", "solar_az"), f"observation {k}")
        # local apparent solar time: 12 h plus the Sun's hour angle west of the meridian
        ha = ref.ang_diff(0, 0) + ((pt["lon"] - math.degrees(math.atan2(sun[1], sun[0])) + 180) % 360 - 180) / 15
        d = abs((r["solar_time"] - 12 - ha + 12) % 24 - 12)
        check(d < 0.002, f"observation {k}: solar_time {r['solar_time']}, hour angle {ha}")
        m = ref.sunlit_margin(de421, ref.gcrs(lines, t), t)
        if abs(m) > 60e3:
            check(bool(r["sat_sunlit"]) == (m > 0), f"observation {k}: sat_sunlit {r['sat_sunlit']}, clearance {m} m")
    ev.nontrivial(len(out) > 0)


def warm():
    c01.no_repeat()


SUBS = [
    Sub("tracks", strategy, body, quick=1600),
    Sub("observations", obs_strategy, obs_body, quick=300),
]
