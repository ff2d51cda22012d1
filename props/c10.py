"""C10: radio occultation records are exactly the maximal runs of valid tangent geometry."""

import math
from datetime import timedelta

import numpy as np
from hypothesis import strategies as st
from skyfield.api import Distance, Velocity, wgs84
from skyfield.positionlib import Geocentric

from lib import gen, ref
from lib.gen import fl, pick
from lib.harness import Sub, check
from props import c01

RULE = "at least one occultation with two or more samples is expected"
ASSUMPTIONS = [
    "max_yaw at most 90 deg; the transmitter is accepted within max_yaw of the fore or the aft direction",
    "cases with a sample within 1e-4 deg / 5 m of a limit are not judged",
]


def strategy():
    return st.fixed_dictionaries(
        {
            "rx": st.one_of(
                gen.circular(alt=fl(400e3, 900e3)), gen.circular(alt=fl(400e3, 5000e3)), gen.circular(alt=fl(5000e3, 15000e3)),
                gen.keplerian(alt=fl(900e3, 2000e3), ecc=fl(0, 0.05)),
            ),
            "txs": st.lists(
                st.one_of(
                    gen.circular(alt=fl(19000e3, 24000e3, 20200e3), inc=fl(0, 120, 55.0)),
                    gen.circular(alt=fl(500e3, 3000e3)),
                ),
                min_size=1,
                max_size=4,
            ),
            "epoch": gen.epochs(),
            "step": pick(10, 20, 30, 60),
            "count": st.one_of(st.integers(60, 200), st.integers(1, 130)),
            "max_yaw": st.one_of(st.none(), fl(5, 90, 65.0, 90.0), fl(60, 90, 90.0)),
            "range": st.one_of(
                st.none(),
                st.tuples(fl(-1500e3, 0), fl(1e3, 1500e3)),
                # above, or below, the ground only
                st.tuples(fl(0, 300e3), fl(300e3, 1500e3)),
                st.tuples(fl(-1500e3, -500e3), fl(-500e3, 0)),
            ),
            "sample": pick(0, 0, 30e3, -100e3, 200e3),
            "single": st.booleans(),
        }
    )


def expected(lines_rx, lines_tx, times, max_yaw, rng):
    """-> (list of arcs, ambiguous); an arc is a list of (index, lat, lon, elev, pitch, yaw, az)."""
    tv = ref.ts().from_datetimes(times)
    rx = ref.sat_of(lines_rx).at(tv)
    sat_tx = ref.sat_of(lines_tx)
    tx = sat_tx.at(tv)
    arcs, cur, amb = [], None, False
    for k in range(len(times)):
        r, vel, x = rx.position.m[:, k], rx.velocity.m_per_s[:, k], tx.position.m[:, k]
        d = x - r
        s = -float(r @ d) / float(d @ d)  # tangent point at r + s d
        v = vel / np.linalg.norm(vel)
        n = np.cross(r, vel)
        n /= np.linalg.norm(n)
        b = r / np.linalg.norm(r)
        dn = d - n * (n @ d)
        db = d - b * (b @ d)
        pitch = math.degrees(math.atan2(dn @ b, dn @ v))
        yaw = math.degrees(math.atan2(db @ n, db @ v))
        off = min(abs(yaw), 180 - abs(yaw))
        if 0 < s < 1 and abs(off - max_yaw) < 1e-4:
            amb = True
        ok = 0 < s < 1 and off < max_yaw
        if abs(s) < 1e-9 or abs(s - 1) < 1e-9:
            amb = True
        pt = None
        if ok:
            g = wgs84.geographic_position_of(
                Geocentric(Distance(m=r + s * d).au, Velocity(km_per_s=[0, 0, 0]).au_per_d, tv[k])
            )
            h = g.elevation.m
            if min(abs(h - rng[0]), abs(h - rng[1])) < 5:
                amb = True
            if rng[0] < h < rng[1]:
                az = (sat_tx - g).at(tv[k]).altaz()[1].degrees
                pt = (k, g.latitude.degrees, g.longitude.degrees, h, pitch, yaw, az)
        if pt is not None:
            if cur is None:
                cur = []
            cur.append(pt)
        elif cur is not None:
            arcs.append(cur)
            cur = None
    if cur is not None:
        arcs.append(cur)
    return arcs, amb


def body(case, ev):
    from tatc.analysis import collect_ro_observations
    from tatc.schemas import Satellite

    c01.no_repeat()
    epoch = gen.ts(case["epoch"])
    rx = Satellite(name="RX", orbit=gen.build_orbit({**case["rx"], "epoch": case["epoch"]}))
    txs = [
        Satellite(name=f"T{i}", orbit=gen.build_orbit({**o, "epoch": case["epoch"]}))
        for i, o in enumerate(case["txs"])
    ]
    if case["single"]:
        txs = txs[:1]
    times = [epoch + timedelta(seconds=case["step"] * k) for k in range(case["count"])]
    kw = {"sample_elevation": case["sample"]}
    if case["max_yaw"] is not None:
        kw["max_yaw"] = case["max_yaw"]
    if case["range"] is not None:
        kw["range_elevation"] = tuple(case["range"])
    obs = collect_ro_observations(rx, txs[0] if case["single"] else txs, times, **kw)
    yaw = 65 if case["max_yaw"] is None else case["max_yaw"]
    rng = (-200e3, 60e3) if case["range"] is None else case["range"]
    lrx = list(rx.orbit.to_tle().tle)
    check(list(obs["time"]) == sorted(obs["time"]), "records are not sorted by time")
    check(list(obs.index) == list(range(len(obs))), "records are not re-indexed")
    check(set(obs["transmitter"]) <= {t.name for t in txs}, "unknown transmitter")
    for tx in txs:
        arcs, amb = expected(lrx, list(tx.orbit.to_tle().tle), times, yaw, rng)
        if amb:
            ev.label("ambiguous")
            continue
        rows = obs[obs["transmitter"] == tx.name].sort_values("start")
        check(
            len(rows) == len(arcs),
            lambda: f"{len(rows)} occultations of {tx.name}, expected {len(arcs)}: "
            f"{[(a[0][0], a[-1][0]) for a in arcs]} vs {list(zip(rows['start'], rows['end']))}",
        )
        for arc, (_, r) in zip(arcs, rows.iterrows()):
            check(r["receiver"] == "RX", f"receiver {r['receiver']}")
            check(
                r["start"] == times[arc[0][0]] and r["end"] == times[arc[-1][0]],
                f"occultation {r['start']}..{r['end']}, expected {times[arc[0][0]]}..{times[arc[-1][0]]}",
            )
            check(bool(r["is_rising"]) == (arc[0][4] > -90), f"is_rising {r['is_rising']} pitch {arc[0][4]}")
            pts = list(r["geometry"].geoms)
            check(len(pts) == len(arc), f"{len(pts)} tangent points, expected {len(arc)}")
            for p, a in zip(pts, arc):
                check(
                    ref.gc_deg(p.y, p.x, a[1], a[2]) < 1e-4 and abs(p.z - a[3]) < 5,
                    f"tangent point {p}, expected {a}",
                )
            best = min(abs(a[3] - case["sample"]) for a in arc)
            cand = [
                a
                for a in arc
                if abs(a[3] - case["sample"]) <= best + 5 and times[a[0]] == r["time"]
            ]
            check(bool(cand), f"sampled at {r['time']}, not closest to {case['sample']} m")
            a = cand[0]
            q = r["position"]
            check(
                ref.gc_deg(q.y, q.x, a[1], a[2]) < 1e-4 and abs(q.z - a[3]) < 5,
                f"position {q}, expected {a}",
            )
            check(ref.ang_diff(r["rx_tx_pitch"], a[4]) < 1e-3, f"pitch {r['rx_tx_pitch']} != {a[4]}")
            check(ref.ang_diff(r["rx_tx_yaw"], a[5]) < 1e-3, f"yaw {r['rx_tx_yaw']} != {a[5]}")
            check(
                ref.ang_diff(r["tp_tx_azimuth"], a[6]) < 1e-2,
                f"azimuth {r['tp_tx_azimuth']} != {a[6]}",
            )
            ev.label("rising" if arc[0][4] > -90 else "setting")
            ev.nontrivial(len(arc) > 1)
        if not arcs:
            ev.label("none")


SUBS = [Sub("arcs", strategy, body, quick=360)]
