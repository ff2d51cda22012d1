"""C14: orbit tracks are SGP4 propagation of the element set, for scalars and sequences."""

import math
from datetime import timedelta

import numpy as np
from hypothesis import strategies as st
from sgp4.api import Satrec, jday

from lib import gen, ref
from lib.gen import fl, pick
from lib.harness import Sub, check
from props import c01

RULE = "the propagation time differs from the epoch"
ASSUMPTIONS = ["TEME-to-ITRS/GCRS rotation is taken from skyfield; radius and speed are checked against the sgp4 library directly"]


def strategy():
    return st.fixed_dictionaries(
        {
            "orbit": st.one_of(c01.leo_orbit(), c01.high_orbit()),
            "offs": st.lists(
                st.one_of(st.integers(-86400, 5 * 86400), st.integers(-10**7, 10**7)),
                min_size=1,
                max_size=6,
            ),
            "us": st.integers(0, 999999),
            "tz": pick("utc", "ist", "pst", "mixed"),
            "try_repeat": pick(False, None),
        }
    )


def zone(case, n):
    """Zone of the n-th time: the same for all, or one after the other."""
    names = list(c01.TZ) if case["tz"] == "mixed" else [case["tz"]]
    return c01.TZ[names[n % len(names)]]


def body(case, ev):
    c01.no_repeat()
    orbit = c01.make_orbit(case["orbit"])
    tle = orbit.to_tle()
    lines = list(tle.tle)
    epoch = gen.ts(case["orbit"]["epoch"])
    times = [
        (epoch + timedelta(seconds=o, microseconds=case["us"])).astimezone(zone(case, n))
        for n, o in enumerate(case["offs"])
    ]
    sr = Satrec.twoline2rv(*lines)
    vec = tle.get_orbit_track(times, try_repeat=case["try_repeat"])
    p, v = np.asarray(vec.position.m), np.asarray(vec.velocity.m_per_s)
    check(p.shape == (3, len(times)), f"track of {len(times)} times has shape {p.shape}")
    for k, t in enumerate(times):
        u = t.astimezone(ref.UTC)
        jd, fr = jday(u.year, u.month, u.day, u.hour, u.minute, u.second + u.microsecond / 1e6)
        err, rt, vt = sr.sgp4(jd, fr)
        if err:
            ev.label("decayed")
            continue
        one = tle.get_orbit_track(t, try_repeat=case["try_repeat"])
        want = ref.sat_of(lines).at(ref.t_of(t))
        for name, got in (("sequence", (p[:, k], v[:, k])), ("scalar", (one.position.m, one.velocity.m_per_s))):
            check(
                abs(np.linalg.norm(got[0]) - 1e3 * np.linalg.norm(rt)) < 1.0,
                f"{name}: radius {np.linalg.norm(got[0])}, SGP4 {1e3 * np.linalg.norm(rt)} at {t}",
            )
            check(
                np.linalg.norm(got[0] - want.position.m) < 1.0
                and np.linalg.norm(got[1] - want.velocity.m_per_s) < 0.01,
                f"{name}: position {got[0]}, SGP4 {want.position.m} at {t}",
            )
        dt = abs((one.t - want.t) * 86400)
        check(dt < 1e-4, f"track time off by {dt} s")
        ev.nontrivial(case["offs"][k] != 0)
    # Time of the vector result
    dts = np.abs(vec.t.tt - np.array([ref.t_of(t).tt for t in times])) * 86400
    check(float(dts.max()) < 1e-3, "times of the track differ from the requested times")
    # the specification's track is the track of its TLE
    if len(times) > 1:
        ev.label("sequence")


SUBS = [Sub("track", strategy, body, quick=900)]
