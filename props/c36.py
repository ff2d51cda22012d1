"""C36: analyses are repeatable and leave their inputs untouched."""

import copy
import pickle
from datetime import datetime, timedelta

import numpy as np
import pandas as pd
import shapely
from hypothesis import strategies as st
from shapely.geometry import MultiPolygon, Polygon, box

from lib import gen
from lib.gen import fl, pick, weighted
from lib.harness import Sub, check
from props.c34 import clean

RULE = "at least three calls return a result, and at least one of them uses a table made by an earlier call or repeats a function"
ASSUMPTIONS = [
    "the configuration is not changed between the calls",
    "a call that raises must raise the same type of error on equal fresh arguments",
]

SPAN = timedelta(hours=18)


def orbit():
    return st.one_of(
        gen.circular(alt=fl(400e3, 1500e3)),
        gen.sso(),
        gen.keplerian(alt=fl(600e3, 1500e3), ecc=fl(0, 0.02)),
        gen.tle_fields(numeric_catalog=True, ecc=st.integers(0, 20000)).map(
            lambda f: {"type": "tle", "tle": gen.format_tle({**f, "mm": 14.0 + f["mm"] % 1.2}), "epoch": f["epoch"]}
        ),
    )


def system():
    return st.fixed_dictionaries(
        {
            "orbit": orbit(),
            "kind": pick("satellite", "satellite", "walker", "train"),
            "for": weighted((3, fl(30, 150)), (1, fl(180, 360, 200.0))),
            "pointed": pick(True, True, False),
            "sun": pick(None, None, True, False),
            "fixed": st.booleans(),
        }
    )


def mask():
    return st.fixed_dictionaries(
        {
            "x": fl(-170, 130),
            "y": fl(-80, 40),
            "w": fl(5, 60),
            "h": fl(5, 40),
            "as": pick("polygon", "multi", "frame", "series", "wrapped"),
        }
    )


def call():
    i = st.integers(0, 20)
    k = pick(
        "observations",
        "observations",
        "multi",
        "aggregate",
        "aggregate",
        "reduce",
        "reduce",
        "grid",
        "downlinks",
        "latencies",
        "latencies",
        "reduce_lat",
        "grid_lat",
        "dop",
        "ro",
        "orbit_track",
        "ground_track",
        "compute_track",
        "pixels",
        "members",
        "derived",
        "footprint",
        "limb",
        "split",
        "normalize",
        "project",
        "generate",
        "valid",
        "repeat",
    )
    return st.tuples(k, i, i, i, st.booleans()).map(list)


def pipeline():
    """Calls that build on each other's tables."""

    def of(kind):
        i = st.integers(0, 20)
        return st.tuples(st.just(kind), i, i, i, st.booleans()).map(list)

    first = st.one_of(of("observations"), of("multi"))
    return st.one_of(
        st.tuples(first, first, of("aggregate"), of("reduce"), of("grid"), of("aggregate"), of("reduce")),
        st.tuples(first, of("downlinks"), of("latencies"), of("reduce_lat"), of("grid_lat"), of("downlinks"), of("latencies")),
        st.tuples(first, of("downlinks"), of("latencies"), of("aggregate"), of("reduce"), of("latencies"), of("reduce_lat")),
    ).map(list)


def strategy():
    return st.fixed_dictionaries(
        {
            "systems": st.lists(system(), min_size=2, max_size=3),
            "places": st.lists(st.tuples(gen.lat(), gen.lon()), min_size=2, max_size=3),
            "masks": st.lists(mask(), min_size=2, max_size=2),
            "step": pick(30, 120, 400),
            "order": pick("given", "reversed", "mixed"),
            "repeat_cycle": pick(False, False, False, True),
            "calls": weighted(
                (2, st.lists(call(), min_size=4, max_size=16)),
                (3, st.tuples(pipeline(), st.lists(call(), max_size=6)).map(lambda t: t[0] + t[1])),
            ),
        }
    )


def views():
    """Calls of the functions that look at geometries: tracks, footprints, masks."""
    i = st.integers(0, 20)
    k = pick("orbit_track", "ground_track", "ground_track", "compute_track", "pixels", "footprint", "limb", "split", "normalize", "project", "generate", "valid")
    op = st.tuples(k, i, i, i, weighted((3, st.just(True)), (1, st.just(False)))).map(list)

    def f(a):
        d, calls, frame = a
        d = dict(d, calls=calls)
        if frame:
            d["masks"] = [dict(m, **{"as": "frame"}) for m in d["masks"]]
        return d

    return st.tuples(strategy(), st.lists(op, min_size=3, max_size=8), st.booleans()).map(f)


def arrange(case, items):
    """The items in the order of the case: as they are, reversed or mixed up."""
    items = list(items)
    order = case.get("order", "given")
    return items if order == "given" else items[::-1] if order == "reversed" else items[1::2] + items[::2]


def make_basics(case):
    """The shared arguments, built from their description."""
    import geopandas as gpd
    from tatc import schemas as S
    from tatc.generation import generate_equally_spaced_cells

    out = {"system": [], "point": [], "station": [], "mask": [], "times": [], "cells": []}
    t0 = gen.ts(case["systems"][0]["orbit"]["epoch"])
    for k, s in enumerate(case["systems"]):
        kw = {"name": "basic", "field_of_regard": s["for"], "req_target_sunlit": s["sun"], "access_time_fixed": s["fixed"]}
        if s["fixed"]:
            kw["min_access_time"] = timedelta(seconds=10)
        ins = [S.Instrument(**kw)]
        if s["pointed"]:
            ins = [
                S.PointedInstrument(
                    **{**kw, "name": "pointed"},
                    cross_track_field_of_view=min(s["for"], 40),
                    along_track_field_of_view=10,
                    roll_angle=4,
                    is_rectangular=True,
                    cross_track_pixels=3,
                    along_track_pixels=2,
                )
            ] + ins
        o = dict(s["orbit"])
        orb = gen.build_orbit(o)
        name = f"S{arrange(case, range(9))[k]}"
        if s["kind"] == "walker":
            sat = S.WalkerConstellation(name=name, orbit=orb, instruments=ins, number_satellites=3, number_planes=3, relative_spacing=1)
        elif s["kind"] == "train":
            sat = S.TrainConstellation(name=name, orbit=orb, instruments=ins, number_satellites=2, interval=timedelta(minutes=7))
        else:
            sat = S.Satellite(name=name, orbit=orb, instruments=ins)
        out["system"].append(sat)
    for k, (la, lo) in enumerate(case["places"]):
        out["point"].append(S.Point(id=arrange(case, range(9))[k], latitude=la, longitude=lo))
        out["station"].append(S.GroundStation(name=f"G{arrange(case, range(9))[k]}", latitude=la / 2, longitude=lo, min_elevation_angle=5))
    for m in case["masks"]:
        b = box(m["x"], m["y"], m["x"] + m["w"], m["y"] + m["h"])
        g = {
            "polygon": lambda: b,
            "multi": lambda: MultiPolygon([b, box(140, 50, 160, 60)]),
            "frame": lambda: gpd.GeoDataFrame({"name": ["p", "q"]}, geometry=[b, box(140, 50, 160, 60)], crs="EPSG:4326", index=[7, 3]),
            "series": lambda: gpd.GeoSeries([b, box(140, 50, 160, 60)], crs="EPSG:4326", index=["u", "v"]),
            "wrapped": lambda: Polygon([(170, m["y"]), (-170, m["y"]), (-170, m["y"] + m["h"]), (170, m["y"] + m["h"])]),
        }[m["as"]]()
        out["mask"].append(g)
    out["times"].append(arrange(case, [t0 + timedelta(seconds=case["step"] * k) for k in range(12)]))
    cells = generate_equally_spaced_cells(4e6)
    out["cells"].append(cells.iloc[arrange(case, range(len(cells)))])
    return out, t0


def snap(o):
    """Comparable image of an argument or result."""
    import geopandas as gpd
    from pydantic import BaseModel

    if isinstance(o, BaseModel):
        return ("model", clean(o))
    if isinstance(o, gpd.GeoSeries):
        return ("series", list(o.index), [g.wkb if g is not None else None for g in o], str(o.crs))
    if isinstance(o, pd.DataFrame):
        cols = {}
        for c in o.columns:
            v = o[c]
            if str(v.dtype) == "geometry":
                cols[c] = [g.wkb if g is not None else None for g in v]
            else:
                cols[c] = [snap(x) for x in v]
        return (
            "frame",
            list(o.columns),
            [str(d) for d in o.dtypes],
            [snap(i) for i in o.index],
            list(o.index.names),
            cols,
            str(getattr(o, "crs", None)),
            getattr(o, "_geometry_column_name", None),
        )
    if isinstance(o, shapely.Geometry):
        return ("geom", o.wkb)
    if isinstance(o, (list, tuple)):
        return [snap(x) for x in o]
    if isinstance(o, np.ndarray):
        return ("array", o.shape, [snap(x) for x in o.ravel().tolist()])
    if o is None or o is pd.NaT or o is pd.NA:
        return None
    if isinstance(o, (float, np.floating)):
        return "nan" if np.isnan(o) else float(o)
    if isinstance(o, (np.integer, np.bool_)):
        return o.item()
    if isinstance(o, (str, int, bool, datetime, timedelta, pd.Timestamp, pd.Timedelta)):
        return o
    if hasattr(o, "position"):
        return ("track", snap(np.asarray(o.position.m)), snap(np.asarray(o.t.tt)))
    return repr(o)


def table(kind, index, tables):
    """A table of the given kind among those made so far."""
    have = [t for k, t in tables if k == kind]
    return have[index % len(have)] if have else None


def run(op, b, tables, t0):
    """Runs one call on the basics and tables; returns (kind of table, result)."""
    from tatc import analysis as A
    from tatc import generation as G
    from tatc import utils as U

    kind, i, j, k, flag = op
    pick_ = lambda name, n: b[name][n % len(b[name])]
    sat = pick_("system", i)
    pt = pick_("point", j)
    mask_ = pick_("mask", k) if flag else None
    times = b["times"][0]
    end = t0 + SPAN
    n_ins = len(sat.instruments)
    if kind == "observations":
        return "obs", A.collect_observations(pt, sat.generate_members()[0] if sat.type != "satellite" else sat, t0, end, k % n_ins, flag)
    if kind == "multi":
        return "obs", A.collect_multi_observations(pt, b["system"] if flag else sat, t0, end)
    if kind == "aggregate":
        t = table("obs", i, tables)
        return None if t is None else ("agg", A.aggregate_observations(t))
    if kind == "reduce":
        t = table("agg", i, tables)
        return None if t is None else ("red", A.reduce_observations(t))
    if kind == "grid":
        t = table("red", i, tables)
        return None if t is None else ("grid", A.grid_observations(t, b["cells"][0]))
    if kind == "downlinks":
        return "down", A.collect_downlinks(b["station"] if flag else pick_("station", j), sat, t0, end)
    if kind == "latencies":
        t, d = table("obs", i, tables), table("down", j, tables)
        return None if t is None or d is None else ("lat", A.compute_latencies(t, d))
    if kind == "reduce_lat":
        t = table("lat", i, tables)
        return None if t is None else ("rlat", A.reduce_latencies(t))
    if kind == "grid_lat":
        t = table("rlat", i, tables)
        return None if t is None else ("grid", A.grid_latencies(t, b["cells"][0]))
    if kind == "dop":
        return "dop", A.compute_dop(times, pt, b["system"], 5, list(A.DopMethod)[k % len(list(A.DopMethod))])
    if kind == "ro":
        return "ro", A.collect_ro_observations(sat, b["system"] if flag else pick_("system", j), times)
    if kind == "orbit_track":
        return "track", A.collect_orbit_track(
            sat,
            times,
            j % n_ins,
            mask=mask_,
            coordinates=list(A.OrbitCoordinate)[k % len(list(A.OrbitCoordinate))],
            orbit_output=list(A.OrbitOutput)[j % len(list(A.OrbitOutput))],
            sat_sunlit=flag,
            solar_altaz=flag,
            solar_beta=flag,
        )
    if kind == "ground_track":
        crs = ["EPSG:4087", "utm", "spice"][j % 3]
        return "track", A.collect_ground_track(sat, times, k % n_ins, mask=mask_, crs=crs, sat_altaz=flag, solar_altaz=flag)
    if kind == "compute_track":
        return "swath", A.compute_ground_track(sat, times, k % n_ins, mask=mask_, method=["point", "line"][j % 2], dissolve_orbits=flag)
    if kind == "pixels":
        wide = [s for s in b["system"] if len(s.instruments) > 1]
        if not wide:
            return None
        sat = wide[i % len(wide)]
        return "track", A.collect_ground_pixels(sat, times[:4], 0, mask=mask_, sat_altaz=flag, solar_altaz=flag)
    if kind == "members":
        return "x", sat.generate_members()
    if kind == "derived":
        return "x", sat.orbit.get_derived_orbit(10.0 * j, 7.0 * k)
    if kind in ("footprint", "limb", "valid"):
        track = sat.orbit.to_tle().get_orbit_track(times[:3])
        before = snap(track)
        ins = sat.instruments[k % n_ins]
        if kind == "footprint":
            r = ins.compute_footprint(track)
        elif kind == "limb":
            r = U.compute_limb(track)
        else:
            r = ins.is_valid_observation(track)
        check(snap(track) == before, f"{kind} changes the orbit track it is given")
        return "x", r
    if kind == "split":
        m = pick_("mask", k)
        return None if not isinstance(m, (Polygon, MultiPolygon)) else ("x", U.split_polygon(m))
    if kind == "normalize":
        return "x", U.normalize_geometry(pick_("mask", k))
    if kind == "project":
        m = pick_("mask", k)
        return None if not isinstance(m, (Polygon, MultiPolygon)) else ("x", U.project_polygon_to_elevation(m, 100.0))
    if kind == "generate":
        m = pick_("mask", k)
        kw = {"mask": m} if flag and isinstance(m, (Polygon, MultiPolygon)) else {}
        fn = [G.generate_equally_spaced_cells, G.generate_equally_spaced_points, G.generate_fibonacci_lattice_points][j % 3]
        return "x", fn(3e6, 10.0, **kw)
    if kind == "repeat":
        return "x", sat.orbit.to_tle().get_repeat_cycle()
    raise AssertionError(kind)


def outcome(op, b, tables, t0):
    """Result of a call, or the type of error it raises."""
    import warnings

    from lib.harness import Violation

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            return run(op, b, tables, t0)
        except Violation:
            raise
        except Exception as err:  # pylint: disable=broad-except
            return "error", f"{type(err).__name__}"


def body(case, ev):
    from tatc import config

    saved = config.rc
    rep = case["repeat_cycle"]
    config.rc = config.RuntimeConfiguration(
        repeat_cycle_for_orbit_track=rep,
        repeat_cycle_for_observation_events=rep,
        repeat_cycle_search_duration_days=1.5,
    )
    try:
        sequence(case, ev)
    finally:
        config.rc = saved


def sequence(case, ev):
    b, t0 = make_basics(case)
    basics = {k: snap(v) for k, v in b.items()}
    tables, blobs = [], []
    seen = set()
    done = chained = 0
    for op in case["calls"]:
        images = [snap(t) for _, t in tables]
        rc_before = settings()
        got = outcome(op, b, tables, t0)
        what = f"{op[0]}"
        for k, v in b.items():
            check(snap(v) == basics[k], lambda: f"{what} changes its {k} argument: {basics[k]} -> {snap(v)}")
        for (k, t), before in zip(tables, images):
            check(snap(t) == before, lambda: f"{what} changes a table ({k}) it was given or that an earlier call returned")
        check(settings() == rc_before, f"{what} changes the configuration")
        if got is None:
            continue
        # the same call on equal, fresh arguments
        fresh = [(k, pickle.loads(x)) for k, x in blobs]
        fb, _ = make_basics(case)
        again = outcome(op, fb, fresh, t0)
        a, c = snap(got[1]), snap(again[1])
        check(got[0] == again[0] and a == c, lambda: f"{what}: result differs from that on equal fresh arguments: {diff(a, c)}")
        # and once more on the shared ones
        third = outcome(op, b, tables, t0)
        d = snap(third[1])
        check(a == d, lambda: f"{what}: the second call gives another result: {diff(a, d)}")
        check(snap(got[1]) == a, f"{what}: calling it again changes the earlier result")
        if got[0] == "error":
            ev.label(f"{op[0]} raises {got[1]}")
            continue
        done += 1
        chained += op[0] in ("aggregate", "reduce", "grid", "latencies", "reduce_lat", "grid_lat") or op[0] in seen
        seen.add(op[0])
        ev.label(op[0])
        if isinstance(got[1], pd.DataFrame):
            # rows in another order, as a user may pass them on
            got = (got[0], got[1].iloc[arrange(case, range(len(got[1])))])
        if got[0] != "x" and len(tables) < 8:
            tables.append(got)
            blobs.append((got[0], pickle.dumps(got[1])))
    ev.nontrivial(done >= 3 and chained > 0)


def settings():
    from tatc import config

    return config.rc.model_dump()


def diff(a, b):
    """First difference of two images."""
    if type(a) is type(b) and isinstance(a, (list, tuple)) and len(a) == len(b):
        for x, y in zip(a, b):
            if x != y:
                return diff(x, y)
    if isinstance(a, dict) and isinstance(b, dict) and set(a) == set(b):
        for k in a:
            if a[k] != b[k]:
                return f"{k}: {diff(a[k], b[k])}"
    return f"{str(a)[:200]} / {str(b)[:200]}"


SUBS = [
    Sub("sequences", strategy, body, quick=340),
    Sub("views", views, body, quick=140),
]
