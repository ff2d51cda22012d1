"""C02: downlink contacts are exactly the visible intervals of each station."""

import numpy as np
from hypothesis import strategies as st

from lib import gen, ref
from lib.gen import fl, pick
from lib.harness import Sub, check
from props import c01

RULE = "at least one contact with an end inside the window, or a contact removed by the minimum access time"
ASSUMPTIONS = c01.ASSUMPTIONS[1:] + [
    "contacts whose duration is within 3 s of the minimum access time may be kept or dropped"
]


def strategy(orbit, dur, maxdist, access):
    station = st.fixed_dictionaries(
        {
            **c01.near_point(maxdist),
            "min_el": st.one_of(fl(0, 40), fl(0, 90), pick(0.0, 5.0, 10.0)),
            "min_access": pick(*access),
        }
    )
    # stations right under the satellite that track it only near the zenith
    zenith = st.fixed_dictionaries(
        {**c01.near_point(0.6), "min_el": fl(60, 90, 80.0, 85.0, 89.0), "min_access": pick(0, 0, 10)}
    )
    return st.fixed_dictionaries(
        {
            "orbit": orbit,
            **c01.window(dur),
            "stations": st.lists(st.one_of(station, station, zenith), min_size=1, max_size=3),
            "single": st.booleans(),
            # antennas of one site may share its name
            "shared": pick(False, False, True),
        }
    )


def leo():
    return strategy(
        c01.leo_orbit(), st.one_of(st.integers(300, 6000), st.integers(6000, 60000)), 22.0, (0, 0, 0, 10, 60, 300, 500, 700, 3600)
    )


def high():
    return strategy(
        c01.high_orbit(),
        st.one_of(st.integers(3000, 200000), st.integers(86400, 300000)),
        90.0,
        (0, 0, 60, 3600, 3600 * 4, 3600 * 12, 86400, 90000),
    )


def body(case, ev):
    from tatc.analysis import collect_downlinks
    from tatc.schemas import Satellite

    c01.no_repeat()
    sts = case["stations"][:1] if case["single"] else case["stations"]
    pts = []
    stations = []
    shared = case.get("shared") and len({(s["min_el"], s["min_access"]) for s in sts}) == len(sts)
    for i, s in enumerate(sts):
        orbit, lines, start, end, pt = c01.setup({**case, **s})
        pt.update(min_el=s["min_el"], min_access=s["min_access"], name="GS" if shared else f"GS{i}")
        pts.append(pt)
        stations.append(gen.build_station(pt))
    _, _, alt0 = ref.geodetic(lines, start)
    if alt0 < 150e3:
        ev.label("skipped_too_low")
        return
    place = lambda p: (p["lon"], p["lat"], float(p["elev"]))
    if shared and len({place(p) for p in pts}) < len(pts):
        ev.label("same_name_and_place")
        return
    sat = Satellite(name="DL", orbit=orbit)
    gdf = collect_downlinks(stations[0] if case["single"] else stations, sat, start, end)
    dur = float(case["dur"])
    check(list(gdf["start"]) == sorted(gdf["start"]), "contacts are not sorted by start")
    check(list(gdf.index) == list(range(len(gdf))), "contacts are not re-indexed")
    check(set(gdf["station"]) <= {p["name"] for p in pts}, "unknown station")
    ecc = float("0." + lines[1][26:33])
    period = 86400.0 / ref.mean_motion_of(lines)
    if shared:
        here = {place(p) for p in pts}
        check(all((g.x, g.y, g.z) in here for g in gdf["geometry"]), "a contact lies at none of the stations")
    for pt in pts:
        mine = gdf["station"] == pt["name"]
        if shared:
            mine &= np.array([(g.x, g.y, g.z) == place(pt) for g in gdf["geometry"]], dtype=bool)
        rows = gdf[mine]
        rep = []
        for _, r in rows.iterrows():
            a, b = ref.secs(r["start"], start), ref.secs(r["end"], start)
            check(-1e-3 <= a <= b <= dur + 1e-3, f"contact ({a}, {b}) leaves the window {dur}")
            check(
                abs(ref.secs(r["epoch"], start) - (a + b) / 2) < 1e-3, "epoch is not mid contact"
            )
            check(r["satellite"] == "DL", f"satellite {r['satellite']}")
            g = r["geometry"]
            check(
                (g.x, g.y, g.z) == (pt["lon"], pt["lat"], float(pt["elev"])),
                f"geometry {g} of station at {pt}",
            )
            check(
                b - a >= pt["min_access"] - 1e-6,
                f"contact of {b - a} s shorter than the minimum {pt['min_access']} s",
            )
            rep.append((a, b))
        exp, ok = ref.visible_intervals(
            lines, pt["lat"], pt["lon"], pt["elev"], pt["min_el"], start, dur
        )
        if not ok:
            ev.label("unresolvable_by_event_search")
            continue
        n0 = len(exp)
        for e in exp:
            d = e["b"] - e["a"]
            tol = e["tol_a"] + e["tol_b"] + 1
            if d < pt["min_access"] + tol:
                e["must"] = False
            if ecc > 0.1 and d < 0.15 * period:
                e["must"] = False
        keep = [e for e in exp if e["b"] - e["a"] >= pt["min_access"] - e["tol_a"] - e["tol_b"]]
        rep = [r for r in rep if not c01.is_short_sliver(lines, pt, pt["min_el"], start, *r)]
        ref.compare_intervals(rep, keep, check, f"station {pt['name']} min {pt['min_el']} deg")
        if len(keep) < n0:
            ev.label("too_short_contact")
            ev.nontrivial()
        ev.nontrivial(any(e["a"] > 0 or e["b"] < dur for e in exp))
    if len(pts) > 1 and len(set(gdf["station"])) > 1:
        ev.label("several_stations")
    if shared and len({(g.x, g.y) for g in gdf["geometry"]}) > 1:
        ev.label("several_stations_of_one_name")


def exact():
    return st.fixed_dictionaries(
        {
            "orbit": c01.leo_orbit(),
            **c01.window(st.one_of(st.integers(300, 6000), st.integers(6000, 60000))),
            **c01.near_point(15.0),
            "min_el": st.one_of(fl(0, 40), pick(0.0, 5.0, 10.0)),
            "copies": st.lists(st.tuples(st.integers(0, 8), pick(-1, 0, 0, 1)), min_size=1, max_size=4),
        }
    )


def exact_body(case, ev):
    """Stations at one place whose minimum access times equal the length of a contact."""
    from datetime import timedelta

    from tatc.analysis import collect_downlinks
    from tatc.schemas import Satellite

    c01.no_repeat()
    orbit, lines, start, end, pt = c01.setup(case)
    if ref.geodetic(lines, start)[2] < 150e3:
        ev.label("skipped_too_low")
        return
    sat = Satellite(name="DL", orbit=orbit)
    pt.update(min_el=case["min_el"], min_access=0)
    base = collect_downlinks(gen.build_station({**pt, "name": "base"}), sat, start, end)
    length = [(b - a).to_pytimedelta() for a, b in zip(base["start"], base["end"])]
    stations, want = [], []
    for n, (k, us) in enumerate(case["copies"]):
        m = length[k % len(length)] + timedelta(microseconds=us) if length else timedelta(seconds=k)
        m = max(m, timedelta(0))
        stations.append(gen.build_station({**pt, "name": f"C{n}"}).model_copy(update={"min_access_time": m}))
        want += [(a, b, f"C{n}") for a, b, d in zip(base["start"], base["end"], length) if d >= m]
    gdf = collect_downlinks(stations, sat, start, end)
    got = list(zip(gdf["start"], gdf["end"], gdf["station"]))
    check(
        sorted(got) == sorted(want),
        lambda: f"contacts {sorted(got)} of stations at one place, expected {sorted(want)} (minimum access {[str(x.min_access_time) for x in stations]})",
    )
    check(list(gdf["start"]) == sorted(gdf["start"]), "contacts are not sorted by start")
    ev.nontrivial(len(length) > 0)
    if len(length) > 0 and any(us == 0 for _, us in case["copies"]):
        ev.label("minimum access equal to a contact")


def edge():
    return st.fixed_dictionaries(
        {
            "base": c01.edge_strategy(),
            "min_el": st.one_of(fl(0, 30), pick(0.0, 5.0, 10.0)),
        }
    )


def edge_body(case, ev):
    """Windows that open or close shortly before or after a contact starts or ends."""
    from tatc.analysis import collect_downlinks
    from tatc.schemas import Satellite

    c01.no_repeat()
    base = case["base"]
    orbit, lines, start, end, pt = c01.setup(base)
    if ref.geodetic(lines, start)[2] < 150e3:
        return
    w = c01.edge(base, lines, pt, start, case["min_el"])
    if w is None:
        ev.label("no contact")
        return
    start, end = w
    pt.update(min_el=case["min_el"], min_access=0, name="E")
    gdf = collect_downlinks(gen.build_station(pt), Satellite(name="DL", orbit=orbit), start, end)
    c01.judge({**base, "dur": (end - start).total_seconds()}, ev, gdf, lines, pt, case["min_el"], start, end)


def warm():
    c01.no_repeat()


SUBS = [Sub("leo", leo, body, quick=240), Sub("high", high, body, quick=100), Sub("exact", exact, exact_body, quick=160), Sub("edge", edge, edge_body, quick=200)]
