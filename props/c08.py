"""C08: latency pairs each observation with its satellite's first later contact."""

from datetime import timedelta

import geopandas as gpd
import pandas as pd
from hypothesis import strategies as st
from shapely.geometry import Point as P

from lib.gen import BASE, pick
from lib.harness import Sub, check
from props.c06 import _idx

RULE = "an observation's satellite has a contact before or during the observation, or a different satellite has an earlier contact (so pairing must discriminate)"
ASSUMPTIONS = ["no two contacts of one satellite start at the same instant unless they are equally acceptable"]


def strategy():
    o = st.tuples(
        st.integers(0, 3), st.integers(0, 60), st.integers(0, 12), pick("A", "B", "C")
    )
    d = st.tuples(
        pick("g1", "g2", "g3"), st.integers(0, 70), st.integers(0, 12), pick("A", "B", "C", "D")
    )
    return st.fixed_dictionaries(
        {
            "obs": st.lists(o, min_size=0, max_size=10),
            "dls": st.lists(d, min_size=0, max_size=8),
            "slot": pick(1, 60, 3600, 40000),
            "index": pick("range", "dup", "rev"),
            "dindex": pick("range", "dup", "rev"),
            "sorted": st.booleans(),
            "micro": st.booleans(),
            "units": st.tuples(pick(None, "ns", "us"), pick(None, "ns", "us")),
        }
    )


def build(case):
    def t(k):
        # a function of k alone, so that equal slots are equal instants
        micro = 7 * k * (k + 131) % 999983 if case.get("micro") else 0
        return pd.Timestamp(BASE + timedelta(seconds=k * case["slot"], microseconds=micro))

    obs = [
        {
            "point_id": p,
            "geometry": P(3.0 * p, 2.0 * p, 0.0),
            "satellite": s,
            "instrument": f"i{i}",
            "start": t(a),
            "end": t(a + d),
            "epoch": t(a) + (t(a + d) - t(a)) / 2,
            "sat_alt": 30.0 + i,
            "sat_az": 60.0 + i,
        }
        for i, (p, a, d, s) in enumerate(case["obs"])
    ]
    dls = [
        {
            "station": g,
            "geometry": P(-50.0, 40.0, 0.0),
            "satellite": s,
            "start": t(a),
            "end": t(a + d),
            "epoch": t(a) + (t(a + d) - t(a)) / 2,
        }
        for g, a, d, s in case["dls"]
    ]
    if case["sorted"]:
        obs.sort(key=lambda r: r["start"])
        dls.sort(key=lambda r: r["start"])
    return obs, dls


def empty_downlinks():
    from tatc.analysis import collect_downlinks
    from tatc.schemas import CircularOrbit, GroundStation, Satellite

    return collect_downlinks(
        [GroundStation(name="g", latitude=90, longitude=0)],
        Satellite(name="s", orbit=CircularOrbit(altitude=500e3, inclination=0, epoch=BASE)),
        BASE,
        BASE + timedelta(minutes=10),
    )


def body(case, ev):
    from tatc.analysis import compute_latencies
    from props.c05 import empty_obs

    obs, dls = build(case)
    fo = _idx(gpd.GeoDataFrame(obs, crs="EPSG:4326"), case["index"]) if obs else empty_obs()
    fd = (
        _idx(gpd.GeoDataFrame(dls, crs="EPSG:4326"), case["dindex"])
        if dls
        else empty_downlinks()
    )
    # concatenated tables may have other time resolutions
    for f, unit in ((fo, case["units"][0]), (fd, case["units"][1])):
        if unit and len(f):
            for c in ("start", "end", "epoch"):
                f[c] = f[c].dt.as_unit(unit)
    bo, bd = fo.copy(deep=True), fd.copy(deep=True)
    lat = compute_latencies(fo, fd)
    pd.testing.assert_frame_equal(pd.DataFrame(fo), pd.DataFrame(bo))
    pd.testing.assert_frame_equal(pd.DataFrame(fd), pd.DataFrame(bd))
    if not obs or not dls:
        check(len(lat) == 0, "latencies without observations or contacts")
        ev.label("empty")
        return
    check(len(lat) == len(obs), f"{len(lat)} latency rows for {len(obs)} observations")
    check(list(lat["observed"]) == sorted(lat["observed"]), "not sorted by observed")
    check(list(lat.index) == list(range(len(lat))), "not re-indexed")
    check(lat.crs is not None and lat.crs.to_epsg() == 4326, "crs lost")
    rows = {r["instrument"]: r for _, r in lat.iterrows()}
    check(len(rows) == len(obs), "an observation is repeated or lost")
    for o in obs:
        r = rows[o["instrument"]]
        what = f"observation {o['instrument']}"
        for c in ("point_id", "satellite", "sat_alt", "sat_az"):
            check(r[c] == o[c], f"{what}: {c} {r[c]} != {o[c]}")
        check(r["observed"] == o["epoch"], f"{what}: observed {r['observed']}")
        check(r["geometry"].equals(o["geometry"]), f"{what}: geometry {r['geometry']}")
        mine = [d for d in dls if d["satellite"] == o["satellite"]]
        later = [d for d in mine if d["start"] >= o["end"]]
        if not later:
            check(
                pd.isna(r["downlinked"]) and pd.isna(r["latency"]) and pd.isna(r["station"]),
                f"{what}: downlinked {r['downlinked']} at {r['station']} without later contact",
            )
            ev.label("none_later")
        else:
            first = min(d["start"] for d in later)
            ok = [
                d
                for d in later
                if d["start"] == first
                and d["station"] == r["station"]
                and d["epoch"] == r["downlinked"]
            ]
            check(
                bool(ok),
                lambda: f"{what}: downlinked {r['downlinked']} at {r['station']}, first contact starts {first}",
            )
            check(
                r["latency"] == r["downlinked"] - r["observed"], f"{what}: latency {r['latency']}"
            )
        ev.nontrivial(
            (len(later) < len(mine) and bool(later))
            or any(
                d["satellite"] != o["satellite"] and later and o["end"] <= d["start"] < first
                for d in dls
            )
        )


SUBS = [Sub("pairing", strategy, body, quick=1200)]
