"""C37: the stages of an analysis compose for every scenario."""

import warnings
from datetime import timedelta

import pandas as pd
from hypothesis import strategies as st

from lib import gen
from lib.gen import fl, pick
from lib.harness import Sub, check
from props import c01, c05
from props.c36 import orbit

RULE = "some but not all points are observed, or two systems observe one point, or some observations are not downlinked"
ASSUMPTIONS = [
    "tables of several points, satellites or stations are joined with pandas.concat before the next stage",
    "cells none of whose points is observed may be absent or present without samples",
    "the mean revisit of a cell with points of undefined revisit is undefined or that of the other points",
]


def strategy():
    sysd = st.fixed_dictionaries(
        {
            "orbit": orbit(),
            "n": pick(1, 1, 1, 2, 3),
            "fors": st.lists(st.one_of(fl(20, 140), fl(90, 180)), min_size=1, max_size=2),
            "sun": pick(None, None, None, True, False),
        }
    )
    return st.fixed_dictionaries(
        {
            "systems": st.lists(sysd, min_size=1, max_size=3),
            "points": st.lists(st.tuples(st.one_of(gen.lat(), fl(-60, 60), fl(-60, 60)), gen.lon(), fl(-100, 3000, 0.0)), min_size=1, max_size=5),
            "stations": st.lists(st.tuples(gen.lat(), gen.lon()), min_size=1, max_size=3),
            "hours": pick(2, 8, 14, 14, 30, 30),
            "lag": fl(-3, 10),
            # hours between the observations and the first contact
            "wait": pick(0, 0, 0, 26, 50, 170),
            "solar": st.booleans(),
            "cell": pick(3e6, 5e6, 9e6),
            "how": pick("multi", "each"),
            "order": pick("given", "reversed"),
        }
    )


def body(case, ev):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore", FutureWarning)
        pipeline(case, ev)


def pipeline(case, ev):
    from tatc import analysis as A
    from tatc import schemas as S
    from tatc.generation import generate_equally_spaced_cells

    c01.no_repeat()
    systems = []
    for k, s in enumerate(case["systems"]):
        ins = [
            S.Instrument(name=f"I{k}{j}", field_of_regard=f, req_target_sunlit=s["sun"]) for j, f in enumerate(s["fors"])
        ]
        orb = gen.build_orbit(dict(s["orbit"]))
        if s["n"] == 1:
            systems.append(S.Satellite(name=f"S{k}", orbit=orb, instruments=ins))
        else:
            systems.append(
                S.WalkerConstellation(name=f"S{k}", orbit=orb, instruments=ins, number_satellites=s["n"], number_planes=s["n"])
            )
    start = gen.ts(case["systems"][0]["orbit"]["epoch"]) + timedelta(days=case["lag"])
    end = start + timedelta(hours=case["hours"])
    points = [S.Point(id=10 + k, latitude=a, longitude=b, elevation=c) for k, (a, b, c) in enumerate(case["points"])]
    stations = [S.GroundStation(name=f"G{k}", latitude=a, longitude=b) for k, (a, b) in enumerate(case["stations"])]
    # collect
    if case["how"] == "multi":
        parts = [A.collect_multi_observations(p, systems, start, end, not case["solar"]) for p in points]
    else:
        parts = [
            A.collect_observations(p, s, start, end, i, not case["solar"])
            for p in points
            for c in systems
            for s in c.generate_members()
            for i in range(len(s.instruments))
        ]
    if case["order"] == "reversed":
        parts = parts[::-1]
    obs = pd.concat(parts)
    rows = obs.to_dict("records")
    seen = {r["point_id"] for r in rows}
    # aggregate
    agg = A.aggregate_observations(obs)
    exp = c05.expected(rows)
    check(len(agg) == sum(len(g) for g in exp.values()), f"{len(agg)} aggregated records from {len(rows)} observations")
    want = {}
    for pid, groups in exp.items():
        sub = agg[agg["point_id"] == pid]
        for g, (_, r) in zip(groups, sub.iterrows()):
            check(r["start"] == g["start"] and r["end"] == g["end"], f"point {pid}: record {r['start']} .. {r['end']}, expected {g['start']} .. {g['end']}")
        acc = [(g["end"] - g["start"]).total_seconds() for g in groups]
        gap = [(b["start"] - a["end"]).total_seconds() for a, b in zip(groups, groups[1:])]
        want[pid] = (len(groups), sum(acc) / len(acc), sum(gap) / len(gap) if gap else None)
    # reduce
    red = A.reduce_observations(agg)
    check(sorted(red["point_id"]) == sorted(want), f"reduced points {sorted(red['point_id'])}, expected {sorted(want)}")
    for _, r in red.iterrows():
        n, acc, gap = want[r["point_id"]]
        check(r["samples"] == n, f"point {r['point_id']}: {r['samples']} samples, expected {n}")
        near(r["access"], acc, f"point {r['point_id']} access")
        near(r["revisit"], gap, f"point {r['point_id']} revisit")
        p = points[r["point_id"] - 10]
        check((r["geometry"].x, r["geometry"].y) == (p.longitude, p.latitude), f"point {p.id} is reported at {r['geometry'].wkt}")
    # grid
    cells = generate_equally_spaced_cells(case["cell"])
    judge_grid(A.grid_observations(red, cells), cells, points, {k: (v[0], {"access": v[1], "revisit": v[2]}) for k, v in want.items()})
    # downlink
    downs = [A.collect_downlinks(stations, s, start + timedelta(hours=case["wait"]), end + timedelta(hours=case["wait"] + 4)) for c in systems for s in c.generate_members()]
    down = pd.concat(downs)
    lat = A.compute_latencies(obs, down)
    dl = down.to_dict("records")
    if not rows or not dl:
        check(len(lat) == 0, "latencies without observations or contacts")
    else:
        check(len(lat) == len(rows), f"{len(lat)} latencies for {len(rows)} observations")
    lw = {}
    missed = 0
    if len(lat):
        reported = {(r["point_id"], r["satellite"], r["instrument"], r["observed"]): r["latency"] for _, r in lat.iterrows()}
        for r in rows:
            later = [d for d in dl if d["satellite"] == r["satellite"] and d["start"] >= r["end"]]
            v = None
            if later:
                first = min(d["start"] for d in later)
                vs = [(d["epoch"] - r["epoch"]).total_seconds() for d in later if d["start"] == first]
                v = vs[0]
                if len(vs) > 1:
                    # contacts of several stations that start together: any of them
                    v = pd.Timedelta(reported[r["point_id"], r["satellite"], r["instrument"], r["epoch"]]).total_seconds()
                    check(min(abs(v - w) for w in vs) < 2e-6, f"latency {v}, first contacts give {vs}")
            else:
                missed += 1
            lw.setdefault(r["point_id"], []).append(v)
    rl = A.reduce_latencies(lat)
    check(sorted(rl["point_id"]) == sorted(lw), "points of the reduced latencies")
    lat_want = {}
    for _, r in rl.iterrows():
        vs = lw[r["point_id"]]
        ok = [v for v in vs if v is not None]
        check(r["samples"] == len(vs), f"point {r['point_id']}: {r['samples']} latency samples, expected {len(vs)}")
        mean = sum(ok) / len(ok) if ok else None
        near(r["latency"], mean, f"point {r['point_id']} latency")
        lat_want[r["point_id"]] = (len(vs), {"latency": mean})
    judge_grid(A.grid_latencies(rl, cells), cells, points, lat_want)
    ev.label("observed" if rows else "nothing observed", "downlinked" if len(lat) else "no latencies")
    ev.nontrivial(bool(rows) and (0 < len(seen) < len(points) or any(len({m["satellite"] for g in gs for m in g["members"]}) > 1 for gs in exp.values()) or missed > 0))


def near(got, want, what):
    if want is None:
        check(pd.isna(got), f"{what} is {got}, expected undefined")
        return
    check(not pd.isna(got), f"{what} is undefined, expected {want} s")
    check(abs(pd.Timedelta(got).total_seconds() - want) < 2e-5 + 1e-9 * abs(want), f"{what} is {got}, expected {want} s")


def judge_grid(grid, cells, points, want):
    """Cells hold the sample-weighted mean of the metrics of their points."""
    from shapely.geometry import Point as P

    check(grid["cell_id"].is_unique, "a cell is reported twice")
    got = {r["cell_id"]: r for _, r in grid.iterrows()}
    for cid, geom in zip(cells["cell_id"], cells.geometry):
        r = got.pop(cid, None)
        mine = []
        doubt = False
        for p in points:
            if p.id not in want:
                continue
            q = P(p.longitude, p.latitude)
            if geom.boundary.distance(q) < 1e-9:
                doubt = True
            elif geom.contains(q):
                mine.append(want[p.id])
        if doubt:
            continue
        n = sum(m[0] for m in mine)
        if r is None:
            check(n == 0, f"cell {cid} with {n} samples is not reported")
            continue
        check(r["samples"] == n, f"cell {cid}: {r['samples']} samples, expected {n}")
        for col in ("access", "revisit", "latency"):
            if not mine or col not in mine[0][1]:
                continue
            ok = [m for m in mine if m[1][col] is not None]
            if len(ok) < len(mine) and pd.isna(r[col]):
                continue
            near(r[col], sum(m[0] * m[1][col] for m in ok) / sum(m[0] for m in ok) if ok else None, f"cell {cid} {col}")
    check(not got, f"unknown cells {list(got)}")


SUBS = [Sub("pipeline", strategy, body, quick=300)]
