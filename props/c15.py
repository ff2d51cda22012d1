"""C15: with several element sets, the one closest in epoch is used at each time."""

from datetime import timedelta

import numpy as np
from hypothesis import strategies as st

from lib import gen, ref
from lib.gen import fl, pick
from lib.harness import Sub, check
from props import c01

RULE = "two or more element sets are each the closest at some requested time (or the window spans a hand-over, or the closest set is not the first)"
ASSUMPTIONS = ["at the exact midpoint of two epochs either element set is acceptable"]


def tles(n_max=5):
    return st.fixed_dictionaries(
        {
            "f": gen.tle_fields(numeric_catalog=True, ecc=st.integers(0, 20000)),
            "gaps": st.lists(
                st.one_of(st.integers(600, 40000), st.integers(40000, 400000)),
                min_size=0,
                max_size=n_max - 1,
            ),
            "dma": st.lists(st.integers(0, 3599999), min_size=n_max, max_size=n_max),
        }
    )


def build(case):
    f = case["f"]
    t = gen.ts(f["epoch"])
    lines, epochs = [], []
    for k in range(len(case["gaps"]) + 1):
        if k:
            t = t + timedelta(seconds=case["gaps"][k - 1])
        g = {**f, "epoch": gen.iso(t), "ma": case["dma"][k] / 10000}
        lines += gen.format_tle(g)
        epochs.append(t)
    return lines, epochs


def frac_strategy():
    return st.fixed_dictionaries(
        {
            "t": tles(),
            "at": st.lists(fl(-0.5, 1.5, 0.0, 1.0, n=5000), min_size=1, max_size=6),
            "exact": st.booleans(),
            "tz": pick("utc", "ist"),
        }
    )


def closest(epochs, t):
    """Indices acceptable at time t, and whether one is required."""
    d = [abs((t - e).total_seconds()) for e in epochs]
    m = min(d)
    return {i for i, x in enumerate(d) if x <= m + 0.01}


def index_body(case, ev):
    from tatc.schemas import TwoLineElements

    c01.no_repeat()
    lines, epochs = build(case["t"])
    o = TwoLineElements(tle=lines)
    span = (epochs[-1] - epochs[0]).total_seconds() or 86400.0
    times = []
    for k, x in enumerate(case["at"]):
        t = epochs[0] + timedelta(seconds=x * span)
        if case["exact"]:
            t = epochs[k % len(epochs)]
        times.append(t.astimezone(c01.TZ[case["tz"]]))
    idx = o.get_closest_tle_index(times)
    check(len(idx) == len(times), f"{len(idx)} indices for {len(times)} times")
    track = o.get_orbit_track(times)
    used = set()
    for k, t in enumerate(times):
        ok = closest(epochs, t)
        check(idx[k] in ok, f"time {t}: index {idx[k]}, closest epochs {ok} of {epochs}")
        one = o.get_closest_tle_index(t)
        check(one in ok, f"scalar time {t}: index {one}, closest epochs {ok}")
        used |= {idx[k]} if len(ok) == 1 else set()
        cand = [ref.sat_of(lines[2 * i : 2 * i + 2]).at(ref.t_of(t)).position.m for i in ok]
        s = o.get_orbit_track(t)
        for name, got in (("sequence", np.asarray(track.position.m)[:, k]), ("scalar", s.position.m)):
            check(
                any(np.linalg.norm(got - c) < 1.0 for c in cand),
                f"{name} track at {t} is not the propagation of the closest element set {ok}",
            )
    ev.nontrivial(len(used) > 1)
    if len(epochs) == 1:
        ev.label("single")
    if case["exact"]:
        ev.label("at_epochs")


def part_strategy():
    return st.fixed_dictionaries(
        {"t": tles(), "a": fl(-0.6, 1.4, n=3000), "len": fl(0.01, 2.0, n=3000)}
    )


def part_body(case, ev):
    from tatc.schemas import TwoLineElements

    lines, epochs = build(case["t"])
    o = TwoLineElements(tle=lines)
    span = (epochs[-1] - epochs[0]).total_seconds() or 86400.0
    start = epochs[0] + timedelta(seconds=case["a"] * span)
    end = start + timedelta(seconds=case["len"] * span)
    ts, ids = o.partition_by_tle_index(start, end)
    check(len(ts) == len(ids) and len(ts) >= 2, f"partition {ts} {ids}")
    check(ts[0] == start and ts[-1] == end, f"partition does not span the window: {ts}")
    check(all(a <= b for a, b in zip(ts, ts[1:])), f"partition not in order: {ts}")
    for a, b, i in zip(ts, ts[1:], ids):
        for x in (0.001, 0.25, 0.5, 0.75, 0.999):
            t = a + (b - a) * x
            d = sorted(abs((t - e).total_seconds()) for e in epochs)
            if len(d) > 1 and d[1] - d[0] < 1.0:
                continue
            ok = closest(epochs, t)
            check(i in ok, f"piece {a}..{b} uses element set {i}, closest at {t} is {ok}")
    ev.nontrivial(len(ts) > 2)
    ev.label(f"pieces_{min(len(ts) - 1, 4)}")


def event_strategy():
    return st.fixed_dictionaries(
        {
            "t": tles(4),
            "a": fl(-0.3, 1.0, n=3000),
            "dur": st.integers(2000, 40000),
            "u": fl(0, 1, n=1000),
            "brg": fl(0, 360, n=360),
            "dist": fl(0, 20, n=1000),
            "min_el": pick(0.0, 5.0, 20.0),
        }
    )


def event_body(case, ev):
    from tatc.schemas import Point, TwoLineElements

    c01.no_repeat()
    lines, epochs = build(case["t"])
    o = TwoLineElements(tle=lines)
    span = (epochs[-1] - epochs[0]).total_seconds() or 86400.0
    start = epochs[0] + timedelta(seconds=case["a"] * span)
    end = start + timedelta(seconds=case["dur"])
    at = start + timedelta(seconds=case["u"] * case["dur"])
    i = min(closest(epochs, at))
    la, lo, _ = ref.geodetic(lines[2 * i : 2 * i + 2], at)
    la, lo = ref.destination(la, lo, case["brg"], case["dist"])
    times, events = o.get_observation_events(
        Point(id=0, latitude=la, longitude=lo), start, end, case["min_el"]
    )
    check(len(times) == len(events), "times and events differ in number")
    rep = []
    cur = None
    crossings = []
    for t, e in zip(times, events):
        s = (t.utc_datetime() - start).total_seconds()
        check(-1 <= s <= case["dur"] + 1, f"event at {s} s outside the window")
        if e in (0, 2):
            crossings.append((s, int(e)))
    check(
        all(a[0] <= b[0] + 1e-3 for a, b in zip(crossings, crossings[1:])), "events out of order"
    )
    # each crossing is a crossing of the closest element set; each clear crossing is found
    bounds = [0.0]
    mids = [
        ((a + (b - a) / 2) - start).total_seconds() for a, b in zip(epochs, epochs[1:])
    ]
    bounds += [m for m in mids if 0 < m < case["dur"]] + [float(case["dur"])]
    handed = len(bounds) > 2
    for a, b in zip(bounds, bounds[1:]):
        if b - a < 30:
            continue
        mid = start + timedelta(seconds=(a + b) / 2)
        k = min(closest(epochs, mid))
        exp, ok = ref.visible_intervals(
            lines[2 * k : 2 * k + 2], la, lo, 0, case["min_el"], start + timedelta(seconds=a), b - a
        )
        if not ok:
            ev.label("unresolvable")
            continue
        for e in exp:
            for key, tol, code in (("a", "tol_a", 0), ("b", "tol_b", 2)):
                s = a + e[key]
                if not e["must"] or e[key] < 5 or e[key] > b - a - 5:
                    continue
                check(
                    any(c == code and abs(x - s) <= e[tol] for x, c in crossings),
                    f"crossing ({code}) at {s} s of element set {k} not reported: {crossings}",
                )
        for x, c in crossings:
            if a + 5 < x < b - 5:
                near = [
                    e
                    for e in exp
                    if abs(a + (e["a"] if c == 0 else e["b"]) - x) <= (e["tol_a"] if c == 0 else e["tol_b"])
                ]
                el, _ = ref.elevation_angle(lines[2 * k : 2 * k + 2], la, lo, 0, start, x)
                check(
                    bool(near) or abs(float(el) - case["min_el"]) < 0.1,
                    f"event {c} at {x} s is not a crossing of element set {k}",
                )
        ev.nontrivial(bool(exp) and len(epochs) > 1)
    if handed:
        ev.label("hand_over")
    if not crossings:
        ev.label("no_crossings")


def cont_strategy():
    return st.fixed_dictionaries(
        {
            "f": gen.tle_fields(
                numeric_catalog=True,
                ecc=st.integers(0, 20000),
                mm=st.integers(12 * 10**8, 155 * 10**7).map(lambda k: k / 10**8),
            ),
            "gaps": st.lists(st.integers(1200, 30000), min_size=1, max_size=3),
            "tail": st.integers(0, 9000),
            "head": st.integers(0, 9000),
            "k": st.integers(0, 2),
            "off": st.integers(-300, 300),
            "brg": fl(0, 360, n=360),
            "dist": fl(0, 12, n=1000),
            "for": pick(180.0, 120.0, 90.0),
        }
    )


def cont_body(case, ev):
    """Element sets that describe one and the same orbit: hand-overs must not show."""
    import math

    from sgp4.api import Satrec
    from tatc.analysis import collect_observations
    from tatc.schemas import Instrument, Point, Satellite, TwoLineElements

    c01.no_repeat()
    f = {**case["f"], "bstar": [0, -3], "ndot": 0, "nddot": [0, 0]}
    base = gen.format_tle(f)
    sr = Satrec.twoline2rv(*base)
    t = gen.ts(f["epoch"])
    lines, epochs, s = list(base), [t], 0
    for g in case["gaps"]:
        s += g
        err, _, _ = sr.sgp4(sr.jdsatepoch, sr.jdsatepochF + s / 86400.0)
        if err:
            return
        def deg(x):
            return round(math.degrees(x) % 360, 4) % 360
        e = {
            **f,
            "epoch": gen.iso(t + timedelta(seconds=s)),
            "raan": deg(sr.Om),
            "argp": deg(sr.om),
            "ma": deg(sr.mm),
        }
        lines += gen.format_tle(e)
        epochs.append(t + timedelta(seconds=s))
    mids = [a + (b - a) / 2 for a, b in zip(epochs, epochs[1:])]
    at = mids[case["k"] % len(mids)] + timedelta(seconds=case["off"])
    la, lo, _ = ref.geodetic(base, at)
    la, lo = ref.destination(la, lo, case["brg"], case["dist"])
    start = at - timedelta(seconds=600 + case["head"])
    end = at + timedelta(seconds=600 + case["tail"])
    dur = (end - start).total_seconds()
    multi = Satellite(
        name="m",
        orbit=TwoLineElements(tle=lines),
        instruments=[Instrument(name="i", field_of_regard=case["for"])],
    )
    obs = collect_observations(Point(id=0, latitude=la, longitude=lo), multi, start, end)
    _, _, alt0 = ref.geodetic(base, start)
    min_el = ref.min_elevation(alt0, case["for"])
    exp, ok = ref.visible_intervals(base, la, lo, 0, min_el, start, dur)
    if not ok:
        return
    cut = [(m - start).total_seconds() for m in mids]
    for e in exp:
        e["tol_a"] += 3
        e["tol_b"] += 3
        e["must"] = e["must"] and e["b"] - e["a"] > 30 and e["margin"] > 0.5
    for e in exp:
        # a boundary right at a hand-over may be seen twice or not at all
        if any(abs(e[k] - c) < 20 for k in ("a", "b") for c in cut):
            ev.label("boundary_at_hand_over")
            return
        if any(e["a"] < c < e["b"] for c in cut):
            ev.label("pass_across_hand_over")
            ev.nontrivial()
    rep = [(ref.secs(r["start"], start), ref.secs(r["end"], start)) for _, r in obs.iterrows()]
    rep = [r for r in rep if r[1] - r[0] > 20]
    ref.compare_intervals(rep, exp, check, "one orbit given by several element sets")


def table_strategy():
    leo = gen.tle_fields(numeric_catalog=True, ecc=st.integers(0, 20000), mm=st.integers(12 * 10**8, 155 * 10**7).map(lambda k: k / 10**8))
    meo = gen.tle_fields(numeric_catalog=True, ecc=st.integers(0, 20000), mm=st.integers(15 * 10**7, 4 * 10**8).map(lambda k: k / 10**8))

    def args(kind):
        return st.fixed_dictionaries(
            {
                "what": st.just(kind),
                "t": st.fixed_dictionaries(
                    {
                        "f": meo if kind in ("dop", "occultation") else leo,
                        "gaps": st.lists(st.integers(20000, 400000), min_size=1, max_size=3),
                        "dma": st.lists(st.integers(0, 3599999), min_size=4, max_size=4),
                    }
                ),
                "k": st.integers(0, 3),
                "at": st.lists(fl(0.02, 0.98, n=5000), min_size=1, max_size=5, unique=True),
                "for": fl(20, 100),
                "pointed": st.booleans(),
                "lat": gen.lat(),
                "lon": gen.lon(),
                "index": pick("gdop", "pdop", "tdop"),
                "crs": pick("EPSG:4087", "spice"),
                "seed": st.lists(st.tuples(st.integers(0, 359), st.integers(0, 359)), min_size=5, max_size=7),
                "rx": gen.circular(alt=fl(400e3, 900e3)),
            }
        )

    return pick("tracks", "aggregate", "dop", "dop", "occultation", "occultation", "contacts").flatmap(args)


def same_frames(a, b, what):
    """Equal tables but for rounding."""
    check(len(a) == len(b) and list(a.columns) == list(b.columns), f"{what}: {len(a)} rows {list(a.columns)}, with the closest set alone {len(b)} rows {list(b.columns)}")
    for c in a.columns:
        for x, y in zip(a[c], b[c]):
            if hasattr(x, "geom_type"):
                ok = x.geom_type == y.geom_type and (
                    x.equals_exact(y, 1e-3 * (1 + abs(x.bounds[0]) * 1e-6) if c == "velocity" or abs(x.bounds[0]) > 1000 else 1e-5)
                    or (x.area > 0 and x.symmetric_difference(y).area < 1e-5 * x.area)
                )
            elif isinstance(x, float):
                ok = (x != x and y != y) or abs(x - y) < 1e-4 * (1 + abs(y))
            elif hasattr(x, "timestamp"):
                ok = abs((x - y).total_seconds()) < 1e-3
            else:
                ok = x == y
            check(ok, f"{what}: {c} is {x}, with the closest element set alone {y}")


def table_body(case, ev):
    """Within the span of one element set every analysis equals that of this set alone."""
    from tatc import analysis as A
    from tatc import schemas as S

    c01.no_repeat()
    t = case["t"]
    lines, epochs = build(t)
    k = case["k"] % len(epochs)
    lo = epochs[k] - timedelta(seconds=t["gaps"][k - 1] / 2) if k else epochs[0] - timedelta(seconds=20000)
    hi = epochs[k] + timedelta(seconds=t["gaps"][k] / 2) if k < len(t["gaps"]) else epochs[k] + timedelta(seconds=20000)
    at = [lo + (hi - lo) * x for x in case["at"]]
    if case["pointed"]:
        ins = S.PointedInstrument(name="cam", cross_track_field_of_view=case["for"] / 4, along_track_field_of_view=case["for"] / 5, roll_angle=10, pitch_angle=5, req_target_sunlit=True)
    else:
        ins = S.Instrument(name="cam", field_of_regard=case["for"], req_self_sunlit=True)

    def pair(shift=(0, 0)):
        """The satellite with every element set, and with the closest only."""
        f = {**t["f"], "raan": (t["f"]["raan"] + shift[0]) % 360}
        dma = [(d + 10000 * shift[1]) % 3600000 for d in t["dma"]]
        ls, _ = build({**t, "f": f, "dma": dma})
        return [S.Satellite(name="s", orbit=S.TwoLineElements(tle=x), instruments=[ins]) for x in (ls, ls[2 * k : 2 * k + 2])]

    multi, one = pair()
    if case["what"] == "tracks":
        for kw in ({"sat_sunlit": True, "solar_altaz": True, "solar_beta": True}, {"coordinates": "ecef", "orbit_output": "velocity"}):
            same_frames(*(A.collect_orbit_track(x, at, **kw) for x in (multi, one)), f"orbit track {kw}")
        same_frames(*(A.collect_ground_track(x, at, crs=case["crs"]) for x in (multi, one)), "ground track")
    elif case["what"] == "aggregate":
        at = sorted(at)
        if max(abs(ref.geodetic(one.orbit.tle, x)[0]) for x in at) > 70:
            return
        kw = {"dissolve_orbits": False}
        same_frames(*(A.compute_ground_track(x, at, **kw) for x in (multi, one)), "aggregated ground track")
    elif case["what"] == "dop":
        both = [pair(x) for x in case["seed"]]
        pt = S.Point(id=0, latitude=case["lat"], longitude=case["lon"])
        a, b = (A.compute_dop(at, pt, [p[i] for p in both], -90, A.DopMethod(case["index"])) for i in (0, 1))
        if not all(v == v and v < 100 for v in b["dop"]):
            return
        same_frames(a, b, "dilution of precision")
    elif case["what"] == "occultation":
        rx = S.Satellite(name="r", orbit=gen.build_orbit({**case["rx"], "epoch": gen.iso(epochs[k])}))
        t0 = min(at[0], hi - timedelta(seconds=4000))
        ts_ = [t0 + timedelta(seconds=20 * j) for j in range(180)]
        a, b = (A.collect_ro_observations(rx, x, ts_, range_elevation=(-500e3, 500e3)) for x in (multi, one))
        same_frames(a, b, "occultations")
        if not len(b):
            return
    else:
        end = min(at[0] + timedelta(seconds=15000), hi - timedelta(seconds=1))
        gs = S.GroundStation(name="g", latitude=case["lat"], longitude=case["lon"], min_elevation_angle=5)
        a, b = (A.collect_downlinks(gs, x, at[0], end) for x in (multi, one))
        same_frames(a, b, "contacts")
        if not len(b):
            return
    ev.label(case["what"])
    ev.nontrivial(k > 0)


SUBS = [
    Sub("index", frac_strategy, index_body, quick=500),
    Sub("partition", part_strategy, part_body, quick=600),
    Sub("events", event_strategy, event_body, quick=200),
    Sub("tables", table_strategy, table_body, quick=400),
    Sub("continuity", cont_strategy, cont_body, quick=200),
]
