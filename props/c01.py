"""C01: observation intervals are exactly the intervals of visibility."""

from datetime import timedelta, timezone

import numpy as np
from hypothesis import strategies as st

from lib import gen, ref
from lib.gen import fl, pick
from lib.harness import Sub, check

RULE = "the reference finds at least one visible interval, and it starts or ends inside the analysis window"
ASSUMPTIONS = [
    "visibility threshold: elevation angle at the edge of the field of regard for the altitude at the start of the analysis",
    "intervals shorter than 5 s or less than 0.05 deg above the threshold may be missed; boundaries within 1 s (0.01 deg)",
    "repeat-cycle shortcut disabled (decided by C16)",
    "windows in which the Skyfield event search itself, called directly, misses a gap between two culminations (slow or eccentric orbits) are not judged (known finding)",
]

TZ = {"utc": timezone.utc, "ist": timezone(timedelta(hours=5, minutes=30)), "pst": timezone(timedelta(hours=-8))}


def no_repeat():
    from tatc import config

    config.rc.repeat_cycle_for_observation_events = False
    config.rc.repeat_cycle_for_orbit_track = False


def leo_orbit():
    return st.one_of(
        gen.circular(),
        gen.keplerian(),
        gen.sso(),
        gen.tle_fields(ecc=st.integers(0, 300000), numeric_catalog=True).map(
            lambda f: {"type": "tle", "tle": gen.format_tle(f), "epoch": f["epoch"]}
        ),
    )


def window(dur):
    return {
        "start_min": st.one_of(st.integers(-600, 3000), st.just(0)),
        "dur": dur,
        "tz": pick("utc", "utc", "ist", "pst"),
    }


def near_point(maxdist):
    return {
        "u": fl(0, 1, 0.5, n=1000),
        "brg": fl(0, 360, n=360),
        "dist": fl(0, maxdist, 0.0, n=1000),
        "elev": st.one_of(pick(0, 0, 0, 1500, 4000, -50), fl(-11000, 9000)),
    }


def leo_strategy():
    return st.fixed_dictionaries(
        {
            "orbit": leo_orbit(),
            "for": st.one_of(fl(1, 140), pick(180.0, 180.0, 10.0, 60.0, 120.0, 200.0, 360.0)),
            **window(
                st.one_of(
                    st.integers(60, 1200), st.integers(1200, 20000), st.integers(20000, 90000)
                )
            ),
            **near_point(30.0),
        }
    )


def high_orbit():
    return st.one_of(
        gen.circular(alt=fl(2000e3, 40000e3, 20200e3), inc=fl(0, 179, 0.0, 55.0)),
        gen.circular(alt=fl(35750e3, 35850e3, 35786e3), inc=pick(0.0, 0.0, 0.1, 5.0, 30.0)),
        gen.keplerian(alt=fl(7000e3, 30000e3), ecc=fl(0.0, 0.5), inc=fl(0, 179, 63.4)),
        st.fixed_dictionaries(
            {
                "type": pick("molniya", "tundra"),
                "altitude": fl(500e3, 3000e3),
                "inclination": fl(0, 179, 63.4),
                "true_anomaly": fl(0, 359.9),
                "epoch": gen.epochs(),
                "right_ascension_ascending_node": fl(0, 359.9),
                "perigee_argument": pick(270.0, 90.0),
            }
        ),
    )


def high_strategy():
    return st.fixed_dictionaries(
        {
            "orbit": high_orbit(),
            "for": st.one_of(fl(1, 30), pick(180.0, 180.0, 17.0)),
            **window(st.one_of(st.integers(600, 86400), st.integers(86400, 259200), st.integers(86400, 500000))),
            **near_point(100.0),
        }
    )


def make_orbit(d):
    d = dict(d)
    if d["type"] == "tle":
        d.pop("epoch")
    orbit = gen.build_orbit(d)
    if d["type"] in ("molniya", "tundra"):
        return orbit.to_tle()
    return orbit


def setup(case):
    """-> (satellite orbit, lines, start, end, point dict) for the case."""
    orbit = make_orbit(case["orbit"])
    lines = list(orbit.to_tle().tle)
    epoch = gen.ts(case["orbit"]["epoch"])
    start = epoch + timedelta(minutes=case["start_min"])
    end = start + timedelta(seconds=case["dur"])
    tz = TZ[case["tz"]]
    at = start + timedelta(seconds=case["u"] * case["dur"])
    la, lo, _ = ref.geodetic(lines, at)
    la, lo = ref.destination(la, lo, case["brg"], case["dist"])
    return orbit, lines, start.astimezone(tz), end.astimezone(tz), {"lat": la, "lon": lo, "elev": case["elev"]}


def is_short_sliver(lines, pt, min_el, start, a, b):
    if b - a > 3.0:
        return False
    t = (a + b) / 2 + np.linspace(-2, 2, 41)
    el, _ = ref.elevation_angle(lines, pt["lat"], pt["lon"], pt["elev"], start, t)
    return float(el.max()) > min_el - 0.05


def body(case, ev):
    from tatc.analysis import collect_observations
    from tatc.schemas import Instrument, Point, Satellite

    no_repeat()
    orbit, lines, start, end, pt = setup(case)
    _, _, alt0 = ref.geodetic(lines, start)
    if alt0 < 150e3:
        ev.label("skipped_too_low")
        return
    min_el = ref.min_elevation(alt0, case["for"])
    sat = Satellite(
        name="S", orbit=orbit, instruments=[Instrument(name="I", field_of_regard=case["for"])]
    )
    obs = collect_observations(
        Point(id=7, latitude=pt["lat"], longitude=pt["lon"], elevation=pt["elev"]), sat, start, end
    )
    judge(case, ev, obs, lines, pt, min_el, start, end)


def judge(case, ev, obs, lines, pt, min_el, start, end):
    dur = float(case["dur"])
    rep = [(ref.secs(r["start"], start), ref.secs(r["end"], start)) for _, r in obs.iterrows()]
    for a, b in rep:
        check(
            -1e-3 <= a <= b <= dur + 1e-3,
            f"interval ({a:.3f}, {b:.3f}) s leaves the analysis window of {dur} s",
        )
    for (_, b1), (a2, _) in zip(rep, rep[1:]):
        check(b1 <= a2 + 1e-3, "reported intervals overlap or are out of order")
    exp, resolvable = ref.visible_intervals(
        lines, pt["lat"], pt["lon"], pt["elev"], min_el, start, dur
    )
    if not resolvable and not case.get("strict"):
        ev.label("unresolvable_by_event_search")
        return
    period = 86400.0 / ref.mean_motion_of(lines)
    ecc = float("0." + lines[1][26:33])
    if ecc > 0.1:
        for e in exp:
            e["must"] = e["must"] and (e["b"] - e["a"]) > 0.15 * period
    rep = [r for r in rep if not is_short_sliver(lines, pt, min_el, start, *r)]
    ref.compare_intervals(rep, exp, check, f"min elevation {min_el:.3f} deg")
    inner = [e for e in exp if e["a"] > 0 or e["b"] < dur]
    ev.nontrivial(bool(inner))
    if any(e["a"] <= 0 and e["b"] >= dur for e in exp):
        ev.label("always_visible")
    if any(e["a"] <= 0 < e["b"] < dur for e in exp):
        ev.label("in_progress_at_start")
    if any(0 < e["a"] and e["b"] >= dur for e in exp):
        ev.label("in_progress_at_end")
    if len(exp) > 1:
        ev.label("several_passes")
    if not exp:
        ev.label("never_visible")
    if any(e["b"] - e["a"] > period / 2 for e in exp):
        ev.label("longer_than_half_orbit")


def edge_strategy():
    """Analysis windows that open or close shortly before or after a rise or set."""
    near = st.one_of(st.integers(2, 12), st.integers(5, 120))
    return st.fixed_dictionaries(
        {
            "orbit": leo_orbit(),
            "for": st.one_of(fl(20, 140), pick(180.0, 120.0)),
            **window(st.integers(2000, 20000)),
            **near_point(12.0),
            "pick": st.integers(0, 3),
            "mode": pick("end_after_rise", "start_before_set", "around", "inside", "end_before_rise", "start_after_set", "end_before_set", "start_after_rise"),
            "near": near,
            "near2": near,
        }
    )


def edge_window(case, a, b):
    """(start, end) in seconds of a window next to the visible interval (a, b)."""
    d, d2, far, dur = case["near"], case["near2"], a - 600.0, case["dur"]
    return {
        "end_after_rise": (min(0.0, far), a + d),
        "end_before_rise": (min(0.0, far), a - d),
        "start_before_set": (b - d, max(dur, b + 600.0)),
        "start_after_set": (b + d, max(dur, b + 600.0)),
        "around": (a - d, b + d2),
        "inside": (a + d, b - d2),
        "end_before_set": (min(0.0, far), b - d),
        "start_after_rise": (a + d, max(dur, b + 600.0)),
    }[case["mode"]]


def edge(case, lines, pt, start, min_el):
    """The start and end of the window next to one of the intervals in the window of the case, or None."""
    exp, ok = ref.visible_intervals(lines, pt["lat"], pt["lon"], pt["elev"], min_el, start, float(case["dur"]))
    full = [e for e in exp if 0 < e["a"] and e["b"] < case["dur"]]
    if not ok or not full:
        return None
    e = full[case["pick"] % len(full)]
    s, t = edge_window(case, e["a"], e["b"])
    if t - s < 1:
        return None
    return start + timedelta(seconds=s), start + timedelta(seconds=t)


def edge_body(case, ev):
    from tatc.analysis import collect_observations
    from tatc.schemas import Instrument, Point, Satellite

    no_repeat()
    orbit, lines, start, end, pt = setup(case)
    _, _, alt0 = ref.geodetic(lines, start)
    if alt0 < 150e3:
        return
    w = edge(case, lines, pt, start, ref.min_elevation(alt0, case["for"]))
    if w is None:
        ev.label("no pass")
        return
    start, end = w
    _, _, alt0 = ref.geodetic(lines, start)
    obs = collect_observations(
        Point(id=7, latitude=pt["lat"], longitude=pt["lon"], elevation=pt["elev"]),
        Satellite(name="S", orbit=orbit, instruments=[Instrument(name="I", field_of_regard=case["for"])]),
        start,
        end,
    )
    dur = (end - start).total_seconds()
    judge({**case, "dur": dur}, ev, obs, lines, pt, ref.min_elevation(alt0, case["for"]), start, end)


def dark_strategy():
    """Points far from the track (never visible)."""
    return st.fixed_dictionaries(
        {
            "orbit": leo_orbit(),
            "for": fl(1, 180, 180.0, 360.0),
            **window(st.integers(60, 5000)),
            **near_point(179.0),
        }
    )


def warm():
    no_repeat()


SUBS = [
    Sub("leo", leo_strategy, body, quick=420),
    Sub("high", high_strategy, body, quick=220),
    Sub("anywhere", dark_strategy, body, quick=100),
    Sub("edge", edge_strategy, edge_body, quick=300),
]
