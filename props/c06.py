"""C06: reduction computes the per-point mean access/revisit/latency and sample count."""

import geopandas as gpd
import pandas as pd
from hypothesis import strategies as st
from shapely.geometry import Point as P

from lib.gen import BASE, pick
from lib.harness import Sub, check
from props import c05

RULE = "some point has two or more records (so a mean is taken), or undefined values are mixed with defined ones"
ASSUMPTIONS = ["input rows follow the documented aggregate/latency columns"]

DUR = st.one_of(st.integers(0, 5000), st.integers(0, 10**9), st.just(0))  # ms


def strategy():
    rec = st.tuples(
        st.integers(0, 4), DUR, st.one_of(st.none(), DUR, DUR), st.one_of(st.none(), DUR, DUR)
    )
    return st.fixed_dictionaries(
        {
            "recs": st.lists(rec, min_size=1, max_size=14),
            "ids": st.lists(st.integers(0, 80), min_size=5, max_size=5, unique=True),
            "index": pick("range", "dup", "rev"),
            "elevs": st.lists(pick(0, 0, 35, 2500), min_size=5, max_size=5),
            "lats": st.lists(st.integers(-90, 90), min_size=5, max_size=5),
        }
    )


def _td(ms):
    return pd.NaT if ms is None else pd.Timedelta(milliseconds=ms)


def _idx(gdf, how):
    if how == "dup":
        gdf.index = [0] * len(gdf)
    elif how == "rev":
        gdf.index = list(range(len(gdf)))[::-1]
    return gdf


def close(got, want_ms, what):
    if want_ms is None:
        check(pd.isna(got), f"{what} is {got}, expected undefined")
        return
    check(not pd.isna(got), f"{what} is undefined, expected {want_ms} ms")
    g = pd.Timedelta(got) / pd.Timedelta(milliseconds=1)
    check(
        abs(g - want_ms) <= 0.01 + 1e-9 * want_ms, f"{what} is {g} ms, expected {want_ms} ms"
    )


def mean(xs):
    xs = [x for x in xs if x is not None]
    return sum(xs) / len(xs) if xs else None


def common(gdf, case, recs, what):
    pids = sorted({case["ids"][r[0]] for r in recs})
    check(sorted(gdf["point_id"]) == pids, f"{what}: points {list(gdf['point_id'])} != {pids}")
    check(gdf.crs is not None and gdf.crs.to_epsg() == 4326, f"{what}: crs lost")
    out = {}
    for _, row in gdf.iterrows():
        k = case["ids"].index(row["point_id"])
        mine = [r for r in recs if r[0] == k]
        check(
            row["samples"] == len(mine),
            f"{what} point {row['point_id']}: {row['samples']} samples, expected {len(mine)}",
        )
        g = row["geometry"]
        check(
            g.geom_type == "Point" and g.has_z and (g.x, g.y, g.z) == (10.0 * k, float(case["lats"][k]), float(case["elevs"][k])),
            f"{what} point {row['point_id']}: geometry {g}",
        )
        out[row["point_id"]] = (row, mine)
    return out


def obs_body(case, ev):
    from tatc.analysis import reduce_observations

    recs = case["recs"]
    gdf = gpd.GeoDataFrame(
        {
            "point_id": [case["ids"][r[0]] for r in recs],
            "geometry": [P(10.0 * r[0], float(case["lats"][r[0]]), float(case["elevs"][r[0]])) for r in recs],
            "satellite": ["A"] * len(recs),
            "instrument": ["x"] * len(recs),
            "access": pd.Series([_td(r[1]) for r in recs], dtype="timedelta64[us]"),
            "revisit": pd.Series([_td(r[2]) for r in recs], dtype="timedelta64[us]"),
        },
        crs="EPSG:4326",
    )
    gdf = _idx(gdf, case["index"])
    before = gdf.copy(deep=True)
    red = reduce_observations(gdf)
    pd.testing.assert_frame_equal(pd.DataFrame(gdf), pd.DataFrame(before))
    for pid, (row, mine) in common(red, case, recs, "reduce_observations").items():
        close(row["access"], mean([r[1] for r in mine]), f"point {pid} mean access")
        close(row["revisit"], mean([r[2] for r in mine]), f"point {pid} mean revisit")
        ev.nontrivial(len(mine) > 1)
        if any(r[2] is None for r in mine) and any(r[2] is not None for r in mine):
            ev.label("partly_undefined")
        if all(r[2] is None for r in mine):
            ev.label("all_undefined")


def lat_body(case, ev):
    from tatc.analysis import reduce_latencies

    recs = case["recs"]
    t0 = pd.Timestamp(BASE)
    gdf = gpd.GeoDataFrame(
        {
            "point_id": [case["ids"][r[0]] for r in recs],
            "geometry": [P(10.0 * r[0], float(case["lats"][r[0]]), float(case["elevs"][r[0]])) for r in recs],
            "satellite": ["A"] * len(recs),
            "instrument": ["x"] * len(recs),
            "station": [None if r[3] is None else "g" for r in recs],
            "downlinked": pd.Series(
                [pd.NaT if r[3] is None else t0 + _td(r[3]) for r in recs],
                dtype="datetime64[us, UTC]",
            ),
            "observed": pd.Series([t0] * len(recs), dtype="datetime64[us, UTC]"),
            "latency": pd.Series([_td(r[3]) for r in recs], dtype="timedelta64[us]"),
        },
        crs="EPSG:4326",
    )
    gdf = _idx(gdf, case["index"])
    before = gdf.copy(deep=True)
    red = reduce_latencies(gdf)
    pd.testing.assert_frame_equal(pd.DataFrame(gdf), pd.DataFrame(before))
    for pid, (row, mine) in common(red, case, recs, "reduce_latencies").items():
        close(row["latency"], mean([r[3] for r in mine]), f"point {pid} mean latency")
        ev.nontrivial(len(mine) > 1)
        if any(r[3] is None for r in mine) and any(r[3] is not None for r in mine):
            ev.label("partly_undefined")


def chain_body(case, ev):
    """Whole pipeline: observations -> aggregate -> reduce, incl. none at all."""
    from tatc.analysis import aggregate_observations, reduce_observations

    rs = c05.rows(case)
    obs = c05.frame(case) if rs else c05.empty_obs()
    red = reduce_observations(aggregate_observations(obs))
    exp = c05.expected(rs)
    check(sorted(red["point_id"]) == sorted(exp), "points of the reduced frame changed")
    for _, row in red.iterrows():
        g = exp[row["point_id"]]
        check(row["samples"] == len(g), f"samples {row['samples']} != {len(g)}")
        ms = pd.Timedelta(milliseconds=1)
        close(row["access"], mean([(x["end"] - x["start"]) / ms for x in g]), "mean access")
        close(
            row["revisit"],
            mean([(b["start"] - a["end"]) / ms for a, b in zip(g, g[1:])]),
            "mean revisit",
        )
        ev.nontrivial(len(g) > 1)
    if len(exp) and all(len(g) == 1 for g in exp.values()):
        ev.label("no_revisit_anywhere")


SUBS = [
    Sub("reduce_observations", strategy, obs_body, quick=700),
    Sub("reduce_latencies", strategy, lat_body, quick=700),
    Sub("pipeline", c05.strategy, chain_body, quick=500),
]
