"""C09: dilution of precision equals the geometry matrix definition at each time."""

import contextlib
import math
import warnings
from datetime import timedelta

import numpy as np
from hypothesis import strategies as st

from lib import gen, ref
from lib.gen import fl, pick
from lib.harness import Sub, check
from props import c01

RULE = "at some time at least one satellite is above and one below the elevation mask, and the value is defined"
ASSUMPTIONS = [
    "no value is specified when the geometry is (nearly) singular or a satellite is within 0.001 deg of the mask",
    "defined only with more than min_count_visible satellites above the mask (the implemented reading of the parameter)",
]


def strategy():
    meo = gen.circular(alt=fl(15000e3, 25000e3, 20200e3), inc=fl(0, 179, 55.0))
    sat = st.one_of(
        gen.circular(alt=fl(15000e3, 25000e3, 20200e3), inc=fl(40, 70, 55.0)),
        gen.circular(alt=fl(15000e3, 25000e3, 20200e3), inc=fl(0, 179)),
        gen.circular(),
        gen.keplerian(alt=fl(2000e3, 20000e3), ecc=fl(0, 0.1)),
    )
    return st.fixed_dictionaries(
        {
            "sats": st.one_of(
                st.lists(meo, min_size=9, max_size=16),
                st.lists(meo, min_size=9, max_size=16),
                st.lists(st.one_of(sat, sat, meo), min_size=3, max_size=14),
            ),
            "epoch": gen.epochs(),
            "times": st.lists(st.integers(-3000, 90000), min_size=1, max_size=4, unique=True),
            "lat": gen.lat(),
            "lon": gen.lon(),
            "elev": pick(0, 0, 2000, 8000, -100),
            "min_el": st.one_of(fl(-20, 10), fl(-10, 30), pick(0.0, -90.0, -30.0, 5.0)),
            "method": pick("gdop", "pdop", "hdop", "vdop", "tdop"),
            "min_count": pick(3, 3, 3, 4, 6),
            "default_count": st.booleans(),
            # positions are propagated, never taken from a previous repeat cycle
            "cycles": st.sampled_from([0, 0, 0, 0, 0, 1]),
        }
    )


@contextlib.contextmanager
def cycles(on):
    """Tracks may be taken from coarse repeat cycles, which nearly every orbit has."""
    from tatc import config

    if not on:
        yield
        return
    new = {
        "repeat_cycle_for_orbit_track": True,
        "repeat_cycle_delta_position_m": 2e6,
        "repeat_cycle_delta_velocity_m_per_s": 2e3,
        "repeat_cycle_search_duration_days": 3,
    }
    old = {k: getattr(config.rc, k) for k in new}
    try:
        for k, v in new.items():
            setattr(config.rc, k, v)
        yield
    finally:
        for k, v in old.items():
            setattr(config.rc, k, v)


def body(case, ev):
    from tatc.analysis import DopMethod, compute_dop
    from tatc.schemas import Point, Satellite

    c01.no_repeat()
    epoch = gen.ts(case["epoch"])
    sats = [
        Satellite(name=f"s{i}", orbit=gen.build_orbit({**o, "epoch": case["epoch"]}))
        for i, o in enumerate(case["sats"])
    ]
    times = [epoch + timedelta(seconds=s) for s in case["times"]]
    point = Point(id=0, latitude=case["lat"], longitude=case["lon"], elevation=case["elev"])
    kw = {} if case["default_count"] else {"min_count_visible": case["min_count"]}
    need = 3 if case["default_count"] else case["min_count"]
    with warnings.catch_warnings(), cycles(case.get("cycles", 0)):
        warnings.simplefilter("ignore")
        df = compute_dop(times, point, sats, case["min_el"], DopMethod(case["method"]), **kw)
    check(len(df) == len(times) and list(df.index) == times, "one row per requested time, in order")
    for g in df["geometry"]:
        check((g.x, g.y) == (case["lon"], case["lat"]), f"geometry {g}")
    lines = [list(s.orbit.to_tle().tle) for s in sats]
    for k, t in enumerate(times):
        az, el = [], []
        close_to_mask = False
        for ln in lines:
            e, a = ref.elevation_angle(ln, case["lat"], case["lon"], case["elev"], t, 0.0)
            close_to_mask |= abs(float(e) - case["min_el"]) < 1e-3
            if e >= case["min_el"]:
                az.append(math.radians(float(a)))
                el.append(math.radians(float(e)))
        if close_to_mask:
            continue
        got = float(df["dop"].iloc[k])
        if len(el) <= need:
            check(math.isnan(got), f"{len(el)} visible, more than {need} required: dop {got}")
            ev.label("too_few")
            continue
        az, el = np.array(az), np.array(el)
        h = np.column_stack(
            [np.cos(el) * np.sin(az), np.cos(el) * np.cos(az), np.sin(el), np.ones(len(el))]
        )
        if np.linalg.cond(h) > 1e4:
            ev.label("nearly_singular")
            continue
        q = np.linalg.pinv(h) @ np.linalg.pinv(h).T
        want = {
            "gdop": np.sqrt(np.trace(q)),
            "pdop": np.sqrt(q[0, 0] + q[1, 1] + q[2, 2]),
            "hdop": np.sqrt(q[0, 0] + q[1, 1]),
            "vdop": np.sqrt(q[2, 2]),
            "tdop": np.sqrt(q[3, 3]),
        }[case["method"]]
        check(abs(got - want) <= 1e-3 * want, f"{case['method']} {got}, expected {want}")
        ev.label(case["method"])
        if case.get("cycles"):
            ev.label("repeat cycles enabled")
        ev.nontrivial(len(el) < len(lines))


SUBS = [Sub("dop", strategy, body, quick=900)]
