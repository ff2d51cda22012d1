"""C17: sun-synchronous orbits precess with the Sun and cross the equator at the requested time."""

import math
from datetime import datetime, timedelta, timezone

import numpy as np
from hypothesis import strategies as st
from sgp4.api import Satrec

from lib import gen, ref
from lib.gen import fl, pick
from lib.harness import Sub, check
from props.c01 import TZ

RULE = "a crossing of the requested sense was found in the first revolution (always) and at the later date"
ASSUMPTIONS = [
    "local apparent solar time at the epoch within 3 min; local mean solar time keeps within 4 min over 60 days",
    "equation of time from the NOAA series (0.5 min)",
]


def strategy():
    return st.fixed_dictionaries(
        {
            "orbit": gen.sso(alt=st.one_of(fl(200e3, 1500e3, 705e3), fl(1500e3, 5400e3))),
            "tz": pick("utc", "ist", "pst"),
            "days": st.integers(1, 60),
            "ect2_us": st.integers(0, 86400 * 10**6 - 1),
        }
    )


def equation_of_time(t):
    """Minutes, apparent minus mean (NOAA series)."""
    day = (t - datetime(t.year, 1, 1, tzinfo=timezone.utc)) / timedelta(days=1)
    g = 2 * math.pi / (366 if t.year % 4 == 0 else 365) * (day - 0.5)
    return 229.18 * (
        0.000075
        + 0.001868 * math.cos(g)
        - 0.032077 * math.sin(g)
        - 0.014615 * math.cos(2 * g)
        - 0.040849 * math.sin(2 * g)
    )


def crossing(lines, t0, period, up):
    """Datetime and longitude of the first crossing of the sense after t0."""
    sat = ref.sat_of(lines)

    def z(s):
        from skyfield.framelib import itrs

        return sat.at(ref.t_after(t0, s)).frame_xyz(itrs).m[2]

    s = np.linspace(0, 1.05 * period, 200)
    v = z(s)
    k = np.where((v[:-1] < 0) & (v[1:] >= 0))[0] if up else np.where((v[:-1] > 0) & (v[1:] <= 0))[0]
    a, b = s[k[0]], s[k[0] + 1]
    for _ in range(4):
        x = np.linspace(a, b, 21)
        v = z(x)
        j = np.where(np.sign(v[:-1]) != np.sign(v[1:]))[0]
        j = int(j[0]) if len(j) else 0
        a, b = x[j], x[j + 1]
    t = t0 + timedelta(seconds=float(a))
    _, lo, _ = ref.geodetic(lines, t)
    return t, lo


def lmst(t, lo):
    t = t.astimezone(timezone.utc)
    h = t.hour + t.minute / 60 + (t.second + t.microsecond / 1e6) / 3600
    return (h + lo / 15) * 60  # minutes


def dmin(a, b):
    return (a - b + 720) % 1440 - 720


def body(case, ev):
    d = dict(case["orbit"])
    d["epoch"] = gen.ts(d["epoch"]).astimezone(TZ[case["tz"]])
    o = gen.build_orbit(d)
    lines = o.to_tle().tle
    # precession of the node under J2 equals the mean motion of the Sun
    sr = Satrec.twoline2rv(*lines)
    inc = math.degrees(sr.inclo)
    check(90 < inc < 180, f"inclination {inc} not retrograde")
    rate = math.degrees(sr.nodedot) * 1440
    check(abs(rate / (360 / 365.2422) - 1) < 0.01, f"node precesses {rate} deg/day at {d['altitude']} m, inclination {inc}")
    check(abs(o.get_inclination() - inc) < 1e-3, f"get_inclination {o.get_inclination()} != {inc}")
    # J2 theory: cos i = -(a^(7/2)) * 2 * omega / (3 J2 R^2 sqrt(mu))
    a = ref.R_E + d["altitude"]
    w = 2 * math.pi / (365.2422 * 86400)
    ci = -2 * w * a**3.5 / (3 * 1.08262668e-3 * ref.A_E**2 * math.sqrt(ref.MU))
    check(abs(math.cos(math.radians(inc)) - ci) < 0.002, f"cos(inclination) {math.cos(math.radians(inc))}, theory {ci}")
    up = d["equator_crossing_ascending"]
    hh, mm, ss = d["equator_crossing_time"].split(":")
    want = int(hh) * 60 + int(mm) + int(ss) / 60
    period = 86400 / ref.mean_motion_of(lines)
    t0 = gen.ts(case["orbit"]["epoch"])
    t, lo = crossing(lines, t0, period, up)
    mean0 = lmst(t, lo)
    app = mean0 + equation_of_time(t)
    check(
        abs(dmin(app, want)) < 3,
        f"first {'ascending' if up else 'descending'} crossing at {t} lon {lo:.3f}: local solar time {app % 1440 / 60:.3f} h, requested {want / 60:.3f} h",
    )
    t1, lo1 = crossing(lines, t0 + timedelta(days=case["days"]), period, up)
    drift = dmin(lmst(t1, lo1), mean0)
    check(abs(drift) < 4, f"local mean solar time of the crossing drifts {drift:.2f} min in {case['days']} days")
    # the node moves 15 degrees per hour of crossing time; descending is opposite
    us = case["ect2_us"]
    other = gen.build_orbit(
        {**d, "equator_crossing_time": (datetime(2000, 1, 1) + timedelta(microseconds=us)).time()}
    )
    raan = o.get_right_ascension_ascending_node()
    step = (us / 60e6 - want) / 4
    check(
        ref.ang_close(other.get_right_ascension_ascending_node(), raan + step, 1e-6),
        f"crossing times {want} and {us / 60e6} min: nodes {raan} and {other.get_right_ascension_ascending_node()}",
    )
    flip = gen.build_orbit({**d, "equator_crossing_ascending": not up})
    check(
        ref.ang_close(flip.get_right_ascension_ascending_node(), raan + 180, 1e-6),
        "ascending and descending crossings are not at opposite nodes",
    )
    check(ref.ang_close(float(lines[1][17:25]), raan, 2e-4), "node of the element set differs")
    ev.nontrivial()
    ev.label("ascending" if up else "descending")


SUBS = [Sub("crossing", strategy, body, quick=800)]
