"""C07: gridding puts the sample-weighted mean of contained points in each cell."""

import geopandas as gpd
import pandas as pd
from hypothesis import strategies as st
from shapely.geometry import Point as P
from shapely.geometry import Polygon, box

from lib.gen import pick
from lib.harness import Sub, check
from props.c06 import DUR, _idx, _td, close

RULE = "some cell contains two or more reduced points with different sample counts; a point lies on the border of two cells (border)"
ASSUMPTIONS = [
    "membership of a point on the border of a cell is not specified, except that it is not counted twice in cells that do not overlap",
    "a cell holding a point with undefined revisit/latency may report the weighted mean of the defined ones or undefined",
]


def strategy():
    rec = st.tuples(
        st.integers(0, 4),  # x slot: longitude -40 + 10 k + jitter
        st.integers(0, 3),
        st.integers(1, 9),  # jitter tenths
        st.integers(1, 9),
        st.one_of(st.integers(1, 9), st.integers(1, 400)),  # samples
        DUR,
        st.one_of(st.none(), DUR, DUR, DUR, DUR),
    )
    return st.fixed_dictionaries(
        {
            "recs": st.lists(rec, min_size=0, max_size=14),
            "cells": st.lists(
                st.tuples(
                    st.integers(0, 3), st.integers(0, 2), st.integers(1, 3), st.integers(1, 2),
                    pick("box", "box", "diamond"),
                ),
                min_size=1,
                max_size=6,
                unique_by=lambda t: (t[0], t[1]),
            ),
            "cids": st.lists(st.integers(0, 60), min_size=6, max_size=6, unique=True),
            "cell_index": pick("range", "dup", "rev"),
            "index": pick("range", "dup", "rev"),
            "latency": st.booleans(),
        }
    )


def cell_geom(c):
    x0, y0 = -40 + 10 * c[0], -25 + 10 * c[1]
    x1, y1 = x0 + 10 * c[2], y0 + 10 * c[3]
    if c[4] == "box":
        return box(x0, y0, x1, y1)
    mx, my = (x0 + x1) / 2, (y0 + y1) / 2
    return Polygon([(mx, y0), (x1, my), (mx, y1), (x0, my)])


def inside(c, x, y):
    x0, y0 = -40 + 10 * c[0], -25 + 10 * c[1]
    w, h = 10 * c[2], 10 * c[3]
    if c[4] == "box":
        return x0 < x < x0 + w and y0 < y < y0 + h
    d = abs(x - x0 - w / 2) / (w / 2) + abs(y - y0 - h / 2) / (h / 2)
    return None if abs(d - 1) < 1e-6 else d < 1


def body(case, ev):
    from tatc.analysis import grid_latencies, grid_observations

    recs, cs = case["recs"], case["cells"]
    pts = [(-40 + 10 * r[0] + r[2], -25 + 10 * r[1] + r[3]) for r in recs]
    lat = case["latency"]
    red = gpd.GeoDataFrame(
        {
            "point_id": pd.Series(range(len(recs)), dtype="int"),
            "geometry": [P(x, y) for x, y in pts],
            "samples": pd.Series([r[4] for r in recs], dtype="int"),
            ("latency" if lat else "access"): pd.Series(
                [_td(r[6] if lat else r[5]) for r in recs], dtype="timedelta64[us]"
            ),
        },
        geometry="geometry",
        crs="EPSG:4326",
    )
    if not lat:
        red["revisit"] = pd.Series([_td(r[6]) for r in recs], dtype="timedelta64[us]")
    red = _idx(red, case["index"])
    cells = _idx(
        gpd.GeoDataFrame(
            {"cell_id": case["cids"][: len(cs)], "geometry": [cell_geom(c) for c in cs]},
            crs="EPSG:4326",
        ),
        case["cell_index"],
    )
    b_red, b_cells = red.copy(deep=True), cells.copy(deep=True)
    grid = (grid_latencies if lat else grid_observations)(red, cells)
    pd.testing.assert_frame_equal(pd.DataFrame(red), pd.DataFrame(b_red))
    pd.testing.assert_frame_equal(pd.DataFrame(cells), pd.DataFrame(b_cells))
    check(grid.crs is not None and grid.crs.to_epsg() == 4326, "crs lost")
    check(grid["cell_id"].is_unique, "a cell is reported twice")
    got = {r["cell_id"]: r for _, r in grid.iterrows()}
    for k, c in enumerate(cs):
        cid = case["cids"][k]
        flags = [inside(c, x, y) for x, y in pts]
        if any(f is None for f in flags):
            got.pop(cid, None)
            continue
        mine = [r for r, f in zip(recs, flags) if f]
        n = sum(r[4] for r in mine)
        row = got.pop(cid, None)
        if row is None:
            check(not mine, f"cell {cid} contains {len(mine)} points but is not reported")
            continue
        check(row["samples"] == n, f"cell {cid}: {row['samples']} samples, expected {n}")
        check(
            row["geometry"].equals(cell_geom(c)), f"cell {cid}: geometry {row['geometry']}"
        )
        if not mine:
            for col in ("latency",) if lat else ("access", "revisit"):
                check(pd.isna(row[col]), f"cell {cid} without points: {col} {row[col]}")
            continue
        if not lat:
            close(row["access"], sum(r[5] * r[4] for r in mine) / n, f"cell {cid} access")
        col = "latency" if lat else "revisit"
        dfn = [r for r in mine if r[6] is not None]
        if len(dfn) < len(mine):
            ev.label("with_undefined")
        if len(dfn) == len(mine) or not pd.isna(row[col]):
            close(
                row[col],
                sum(r[6] * r[4] for r in dfn) / sum(r[4] for r in dfn) if dfn else None,
                f"cell {cid} {col}",
            )
        ev.nontrivial(len({r[4] for r in mine}) > 1)
    check(not got, f"unknown cells reported: {list(got)}")
    if not recs:
        ev.label("empty")


def border_strategy():
    return st.fixed_dictionaries(
        {
            "recs": st.lists(
                st.tuples(st.integers(0, 30), st.integers(0, 20), st.integers(1, 50), DUR, DUR), min_size=1, max_size=10
            ),
            "order": st.permutations(list(range(6))),
            "latency": st.booleans(),
        }
    )


def border_body(case, ev):
    """Cells that tile a region: a point on the border they share is counted at most once."""
    from tatc.analysis import grid_latencies, grid_observations

    recs, lat = case["recs"], case["latency"]
    cs = [(10 * (k % 3), 10 * (k // 3)) for k in case["order"]]
    red = gpd.GeoDataFrame(
        {
            "point_id": list(range(len(recs))),
            "geometry": [P(r[0], r[1]) for r in recs],
            "samples": [r[2] for r in recs],
        },
        crs="EPSG:4326",
    )
    for col, i in (("latency", 3),) if lat else (("access", 3), ("revisit", 4)):
        red[col] = pd.Series([_td(r[i]) for r in recs], dtype="timedelta64[us]")
    cells = gpd.GeoDataFrame(
        {"cell_id": list(range(6)), "geometry": [box(x, y, x + 10, y + 10) for x, y in cs]}, crs="EPSG:4326"
    )
    grid = (grid_latencies if lat else grid_observations)(red, cells)
    got = dict(zip(grid["cell_id"], grid["samples"]))
    check(len(got) == len(grid), "a cell is reported twice")
    check(
        sum(got.values()) <= sum(r[2] for r in recs),
        f"{sum(got.values())} samples in all cells, {sum(r[2] for r in recs)} samples of all points",
    )
    border = 0
    for k, (x, y) in enumerate(cs):
        ins = sum(r[2] for r in recs if x < r[0] < x + 10 and y < r[1] < y + 10)
        on = sum(r[2] for r in recs if x <= r[0] <= x + 10 and y <= r[1] <= y + 10)
        border += on != ins
        check(ins <= got.get(k, 0) <= on, f"cell {k}: {got.get(k, 0)} samples, {ins} inside and {on} inside or on its border")
    ev.nontrivial(border > 1)


SUBS = [Sub("grid", strategy, body, quick=2400), Sub("border", border_strategy, border_body, quick=600)]
