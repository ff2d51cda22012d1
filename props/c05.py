"""C05: aggregation merges overlapping observations of each point, exactly."""

from datetime import timedelta

import geopandas as gpd
import pandas as pd
from hypothesis import strategies as st
from shapely.geometry import Point as P

from lib.gen import BASE, pick
from lib.harness import Sub, check

RULE = "at least one point has two or more input observations that overlap or touch, or two separate groups"
ASSUMPTIONS = ["observation rows follow the documented collect_observations columns"]


def strategy():
    rec = st.tuples(
        st.integers(0, 3),  # point index
        st.integers(0, 40),  # start slot
        st.one_of(st.integers(0, 10), st.integers(0, 45)),  # duration slots
        pick("A", "B", "C"),
        pick("x", "y"),
        pick(0, 0, 1, -1),  # microsecond jitter of the start
    )
    return st.fixed_dictionaries(
        {
            "recs": st.lists(rec, min_size=0, max_size=12),
            "ids": st.lists(st.integers(0, 50), min_size=4, max_size=4, unique=True),
            "slot": pick(1, 7, 60),
            "index": pick("range", "dup", "rev"),
            "extra": st.booleans(),
        }
    )


def rows(case):
    out = []
    for i, (p, s, d, sat, ins, us) in enumerate(case["recs"]):
        a = BASE + timedelta(seconds=s * case["slot"], microseconds=us)
        b = BASE + timedelta(seconds=(s + d) * case["slot"])
        if b < a:
            b = a
        out.append(
            {
                "point_id": case["ids"][p],
                "geometry": P(10.0 * p, -5.0 * p, 100.0),
                "satellite": f"{sat}",
                "instrument": f"{ins}",
                "start": pd.Timestamp(a),
                "end": pd.Timestamp(b),
                "epoch": pd.Timestamp(a + (b - a) / 2),
                "sat_alt": 10.0 + i,
                "sat_az": 20.0 + i,
            }
        )
    return out


def frame(case):
    from tatc.analysis.coverage import collect_observations  # noqa: F401

    rs = rows(case)
    gdf = gpd.GeoDataFrame(rs, crs="EPSG:4326")
    if not case["extra"]:
        gdf = gdf.drop(columns=["sat_alt", "sat_az"])
    if case["index"] == "dup":
        gdf.index = [0] * len(gdf)
    elif case["index"] == "rev":
        gdf.index = list(range(len(gdf)))[::-1]
    return gdf


def expected(rs):
    out = {}
    for pid in sorted({r["point_id"] for r in rs}):
        mine = sorted(
            [r for r in rs if r["point_id"] == pid], key=lambda r: (r["start"], r["end"])
        )
        groups = []
        for r in mine:
            if groups and r["start"] <= groups[-1]["end"]:
                groups[-1]["end"] = max(groups[-1]["end"], r["end"])
                groups[-1]["members"].append(r)
            else:
                groups.append({"start": r["start"], "end": r["end"], "members": [r]})
        out[pid] = groups
    return out


def empty_obs():
    from tatc.analysis import collect_observations
    from tatc.schemas import CircularOrbit, Instrument, Point, Satellite

    return collect_observations(
        Point(id=0, latitude=90, longitude=0),
        Satellite(
            name="s",
            orbit=CircularOrbit(altitude=500e3, inclination=0, epoch=BASE),
            instruments=[Instrument(name="i", field_of_regard=10)],
        ),
        BASE,
        BASE + timedelta(minutes=10),
    )


def body(case, ev):
    from tatc.analysis import aggregate_observations

    rs = rows(case)
    if not rs:
        agg = aggregate_observations(empty_obs())
        check(len(agg) == 0, "aggregating no observations yields records")
        ev.label("empty")
        return
    obs = frame(case)
    before = obs.copy(deep=True)
    agg = aggregate_observations(obs)
    pd.testing.assert_frame_equal(pd.DataFrame(obs), pd.DataFrame(before))
    exp = expected(rs)
    check(
        len(agg) == sum(len(g) for g in exp.values()),
        lambda: f"{len(agg)} aggregated records, expected {sum(len(g) for g in exp.values())}",
    )
    check(sorted(set(agg["point_id"])) == sorted(exp), "set of points changed")
    check(list(agg.index) == list(range(len(agg))), "result is not re-indexed")
    check(agg.crs is not None and agg.crs.to_epsg() == 4326, "crs lost")
    for pid, groups in exp.items():
        sub = agg[agg["point_id"] == pid]
        check(
            list(sub["start"]) == sorted(sub["start"]), "records of a point not in time order"
        )
        for i, (g, (_, r)) in enumerate(zip(groups, sub.iterrows())):
            where = f"point {pid} group {i}"
            check(r["start"] == g["start"], f"{where}: start {r['start']} != {g['start']}")
            check(r["end"] == g["end"], f"{where}: end {r['end']} != {g['end']}")
            check(r["access"] == g["end"] - g["start"], f"{where}: access {r['access']}")
            if i == 0:
                check(pd.isna(r["revisit"]), f"{where}: first revisit is {r['revisit']}")
            else:
                want = g["start"] - groups[i - 1]["end"]
                check(r["revisit"] == want, f"{where}: revisit {r['revisit']} != {want}")
            sats = sorted(str(r["satellite"]).split(", "))
            check(
                sats == sorted(m["satellite"] for m in g["members"]),
                f"{where}: satellites {sats}",
            )
            ins = sorted(str(r["instrument"]).split(", "))
            check(
                ins == sorted(m["instrument"] for m in g["members"]),
                f"{where}: instruments {ins}",
            )
            ep = sum(
                ((m["epoch"] - pd.Timestamp(BASE)) / pd.Timedelta(seconds=1) for m in g["members"])
            ) / len(g["members"])
            got = (r["epoch"] - pd.Timestamp(BASE)) / pd.Timedelta(seconds=1)
            check(abs(got - ep) < 1e-3, f"{where}: epoch {got} != mean {ep}")
            geom = g["members"][0]["geometry"]
            check(
                r["geometry"].geom_type == "Point"
                and (r["geometry"].x, r["geometry"].y) == (geom.x, geom.y),
                f"{where}: geometry {r['geometry']}",
            )
    ev.nontrivial(any(len(g) > 1 or len(g[0]["members"]) > 1 for g in exp.values()))
    if any(len(m["members"]) > 2 for g in exp.values() for m in g):
        ev.label("chain")
    if len(exp) > 1:
        ev.label("multi_point")


SUBS = [Sub("merge", strategy, body, quick=1200)]
