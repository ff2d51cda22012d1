"""C38: equivalent ways of asking give the same answer."""

import warnings
from datetime import datetime, timedelta, timezone

import numpy as np
import pandas as pd
import shapely
from hypothesis import strategies as st
from shapely.geometry import MultiPolygon, Polygon, box

from lib import gen
from lib.gen import fl, pick, weighted
from lib.harness import Sub, Violation, check
from props.c36 import orbit

RULE = "the call is written in another way in at least one place, and its result has a row, a geometry or a number"
ASSUMPTIONS = [
    "the documented default of an optional argument is that of the signature in the API reference of the pinned commit",
    "numbers are compared to 1e-9 relative and geometries as point sets (1e-6 of their size), as a ring may start elsewhere",
]

REQ = object()

# function -> (where, ordered parameters and their documented defaults)
TRACK = [("satellite", REQ), ("times", REQ), ("instrument_index", 0), ("elevation", 0), ("mask", None)]
SIGN = {
    "collect_observations": ("analysis", [("point", REQ), ("satellite", REQ), ("start", REQ), ("end", REQ), ("instrument_index", 0), ("omit_solar", True)]),
    "collect_multi_observations": ("analysis", [("point", REQ), ("satellites", REQ), ("start", REQ), ("end", REQ), ("omit_solar", True)]),
    "collect_downlinks": ("analysis", [("stations", REQ), ("satellite", REQ), ("start", REQ), ("end", REQ)]),
    "compute_dop": ("analysis", [("times", REQ), ("point", REQ), ("satellites", REQ), ("min_elevation", REQ), ("dop_method", REQ), ("min_count_visible", 3)]),
    "collect_ro_observations": ("analysis", [("receiver", REQ), ("transmitters", REQ), ("times", REQ), ("sample_elevation", 0), ("max_yaw", 65), ("range_elevation", (-200e3, 60e3))]),
    "collect_orbit_track": ("analysis", TRACK + [("coordinates", "wgs84"), ("orbit_output", "position"), ("sat_sunlit", False), ("solar_altaz", False), ("solar_beta", False)]),
    "collect_ground_track": ("analysis", TRACK + [("crs", "EPSG:4087"), ("sat_altaz", False), ("solar_altaz", False)]),
    "compute_ground_track": ("analysis", TRACK + [("crs", "EPSG:4087"), ("method", "point"), ("dissolve_orbits", True)]),
    "collect_ground_pixels": ("analysis", TRACK + [("sat_altaz", False), ("solar_altaz", False)]),
    "generate_equally_spaced_cells": ("generation", [("distance", REQ), ("elevation", 0), ("mask", None), ("strips", None)]),
    "generate_equally_spaced_points": ("generation", [("distance", REQ), ("elevation", 0), ("mask", None)]),
    "generate_fibonacci_lattice_points": ("generation", [("distance", REQ), ("elevation", 0), ("mask", None)]),
    "mean_anomaly_to_true_anomaly": ("utils", [("mean_anomaly", REQ), ("eccentricity", 0)]),
    "true_anomaly_to_mean_anomaly": ("utils", [("true_anomaly", REQ), ("eccentricity", 0)]),
    "swath_width_to_field_of_regard": ("utils", [("altitude", REQ), ("swath_width", REQ), ("elevation", 0)]),
    "swath_width_to_field_of_view": ("utils", [("altitude", REQ), ("swath_width", REQ), ("look_angle", 0), ("elevation", 0)]),
    "field_of_regard_to_swath_width": ("utils", [("altitude", REQ), ("field_of_regard", REQ), ("elevation", 0)]),
    "compute_field_of_regard": ("utils", [("altitude", REQ), ("min_elevation_angle", REQ), ("elevation", 0)]),
    "compute_min_elevation_angle": ("utils", [("altitude", REQ), ("field_of_regard", REQ), ("elevation", 0)]),
    "compute_projected_ray_position": ("utils", [("orbit_track", REQ), ("cross_track_field_of_view", REQ), ("along_track_field_of_view", REQ), ("roll_angle", 0), ("pitch_angle", 0), ("is_rectangular", False), ("angle", 0), ("elevation", 0)]),
    "compute_footprint": ("utils", [("orbit_track", REQ), ("cross_track_field_of_view", REQ), ("along_track_field_of_view", REQ), ("roll_angle", 0), ("pitch_angle", 0), ("is_rectangular", False), ("number_points", None), ("elevation", 0)]),
    "compute_limb": ("utils", [("orbit_track", REQ), ("number_points", 16), ("elevation", 0)]),
    "instrument.compute_footprint": ("ins", [("orbit_track", REQ), ("number_points", None), ("elevation", 0)]),
    "instrument.compute_footprint_center": ("ins", [("orbit_track", REQ), ("elevation", 0)]),
    "pointed.compute_footprint": ("ins", [("orbit_track", REQ), ("number_points", None), ("elevation", 0)]),
    "pointed.compute_footprint_center": ("ins", [("orbit_track", REQ), ("elevation", 0)]),
    "pointed.compute_footprint_pixel_array": ("ins", [("orbit_track", REQ), ("elevation", 0)]),
    "pointed.compute_projected_pixel_position": ("ins", [("orbit_track", REQ), ("cross_track_index", REQ), ("along_track_index", REQ), ("elevation", 0)]),
}
TABLES = [k for k, (w, _) in SIGN.items() if w == "analysis"]
OTHERS = [k for k, (w, _) in SIGN.items() if w != "analysis"]

CHANGES = ["omit", "omit", "positional", "zone", "zone", "single", "mask", "number", "orbit", "stamp"]


def common(changes):
    return {
        "orbits": st.lists(orbit(), min_size=1, max_size=3),
        "place": st.tuples(gen.lat(), gen.lon(), pick(0.0, 0.0, 1500.0)),
        "at": st.integers(-20000, 80000),
        "step": pick(15, 60, 300),
        "n": st.integers(1, 6),
        "zones": st.lists(st.one_of(st.integers(-12 * 60, 14 * 60), pick(0, 330, -570, 840)), min_size=1, max_size=3),
        "mask": st.fixed_dictionaries({"x": fl(-170, 130), "y": fl(-80, 40), "w": fl(5, 60), "h": fl(5, 60), "near": st.booleans(), "form": pick("multi", "frame", "series", "turned", "reversed")}),
        "masked": st.booleans(),
        "for": fl(30, 150),
        "sun": pick(None, None, True, False),
        "changes": st.lists(pick(*changes), min_size=1, max_size=4),
        # optional arguments that keep the documented default in the full call
        "given": st.lists(st.booleans(), min_size=11, max_size=11),
        "num": st.lists(fl(0, 1), min_size=11, max_size=11),
        "numeric": pick("int", "float", "np"),
        "rect": st.booleans(),
    }


def table_strategy():
    return st.fixed_dictionaries({"call": pick(*TABLES), **common(CHANGES)})


def other_strategy():
    return st.fixed_dictionaries({"call": pick(*OTHERS), **common(["omit", "omit", "omit", "positional", "number", "mask"])})


def turned(g, k):
    c = list(g.exterior.coords)[:-1]
    k %= len(c)
    return Polygon(c[k:] + c[:k])


def mask_form(g, form):
    import geopandas as gpd

    return {
        "multi": lambda: MultiPolygon([g]),
        "frame": lambda: gpd.GeoDataFrame({"name": ["p"]}, geometry=[g], crs="EPSG:4326", index=[5]),
        "series": lambda: gpd.GeoSeries([g], crs="EPSG:4326", index=["u"]),
        "turned": lambda: turned(g, 2),
        "reversed": lambda: Polygon(list(g.exterior.coords)[::-1]),
    }[form]()


def satellites(case, as_tle):
    from tatc import schemas as S

    out = []
    for k, o in enumerate(case["orbits"]):
        kw = {"field_of_regard": case["for"], "req_target_sunlit": case["sun"]}
        ins = [
            S.PointedInstrument(
                name="pointed",
                **kw,
                cross_track_field_of_view=min(40, case["for"]),
                along_track_field_of_view=12,
                roll_angle=5,
                is_rectangular=True,
                cross_track_pixels=3,
                along_track_pixels=2,
            ),
            S.Instrument(name="basic", **kw),
        ]
        orb = gen.build_orbit(dict(o))
        out.append(S.Satellite(name=f"S{k}", orbit=orb.to_tle() if as_tle else orb, instruments=ins))
    return out


def args_of(case, call, as_tle=False):
    """The complete arguments of the call, all given by name."""
    from tatc import schemas as S
    from tatc import analysis as A

    sats = satellites(case, as_tle)
    la, lo, el = case["place"]
    t0 = gen.ts(case["orbits"][0]["epoch"]) + timedelta(seconds=case["at"])
    times = [t0 + timedelta(seconds=case["step"] * k) for k in range(case["n"])]
    m = case["mask"]
    u = case["num"]
    if m["near"] and case["masked"]:
        g = sats[0].orbit.to_tle().get_orbit_track(times[0])
        from skyfield.api import wgs84

        p = wgs84.geographic_position_of(g)
        x, y = float(np.ravel(p.longitude.degrees)[0]), float(np.ravel(p.latitude.degrees)[0])
        m = {"x": max(-180, min(180 - m["w"], x - m["w"] / 2)), "y": max(-90, min(90 - m["h"], y - m["h"] / 2)), "w": m["w"], "h": m["h"]}
    region = box(m["x"], m["y"], m["x"] + m["w"], m["y"] + m["h"])
    station = S.GroundStation(name="G", latitude=la / 2, longitude=lo, elevation=el, min_elevation_angle=5)
    if call == "collect_ro_observations":
        # a navigation satellite occults at all yaw angles: enough samples to meet the limits of the defaults
        times = [t0 + timedelta(seconds=60 * k) for k in range(40 * case["n"])]
        far = [S.Satellite(name="T", orbit=S.CircularOrbit(altitude=2e7, inclination=55, right_ascension_ascending_node=round(359 * u[1]), true_anomaly=round(359 * u[2]), epoch=t0))]
    else:
        far = []
    if call == "compute_dop":
        many = [S.Satellite(name=f"M{k}", orbit=S.CircularOrbit(altitude=2e7, inclination=55, right_ascension_ascending_node=60 * (k % 6), true_anomaly=round(359 * u[k % 9]), epoch=t0)) for k in range(2 + int(5.99 * u[7]))]
        if as_tle:
            many = [S.Satellite(name=x.name, orbit=x.orbit.to_tle()) for x in many]
    else:
        many = sats
    where = SIGN[call][0]
    track = lambda: sats[0].orbit.to_tle().get_orbit_track(times)
    alt = 400e3 + 1e6 * u[0]
    vals = {
        "point": S.Point(id=3, latitude=la, longitude=lo, elevation=el),
        "satellite": sats[0],
        "receiver": sats[0],
        "satellites": [sats[0]] if call == "collect_multi_observations" else many,
        "transmitters": far,
        "stations": [station],
        "start": t0,
        "end": t0 + timedelta(hours=24),
        "times": times,
        "min_elevation": round(20 * u[1]) - 90,
        "distance": round(1.5e6 + 2e6 * u[1]),
        "mean_anomaly": round(360 * u[1], 3),
        "true_anomaly": round(360 * u[1], 3),
        "altitude": round(alt),
        "swath_width": round(1e4 + 1e6 * u[1]),
        "field_of_regard": round(1 + 100 * u[1]),
        "min_elevation_angle": round(90 * u[1]),
        "cross_track_field_of_view": round(1 + 60 * u[1]),
        "along_track_field_of_view": round(1 + 60 * u[2]),
        "cross_track_index": int(2.99 * u[1]),
        "along_track_index": int(1.99 * u[2]),
        "orbit_track": track() if where in ("utils", "ins") else None,
        "dop_method": A.DopMethod.GDOP,
    }
    other = {
        "instrument_index": int(1.99 * u[3]) if call != "collect_ground_pixels" else 0,
        "omit_solar": False,
        "min_count_visible": 1 + int(3 * u[3]),
        "sample_elevation": round(2e4 * u[3]),
        "max_yaw": round(180 * u[4]),
        "range_elevation": (-5e5 * u[5], 1e5),
        "elevation": round(3000 * u[4]),
        "mask": region if case["masked"] else None,
        "coordinates": ["wgs84", "ecef", "eci"][int(2.99 * u[5])],
        "orbit_output": ["position", "velocity", "velocity"][int(2.99 * u[6])],
        "sat_sunlit": True,
        "solar_altaz": True,
        "sat_altaz": True,
        "solar_beta": True,
        "crs": ["EPSG:4087", "utm", "spice"][int(2.99 * u[7])],
        "method": "line" if u[8] < 0.5 else "point",
        "dissolve_orbits": False,
        "strips": [None, "lat", "lon"][int(2.99 * u[9])],
        "eccentricity": round(0.9 * u[2], 3),
        "look_angle": round(10 * u[3]),
        "roll_angle": round(40 * u[3] - 20),
        "pitch_angle": round(40 * u[4] - 20),
        "is_rectangular": case["rect"],
        "angle": round(360 * u[5]),
        "number_points": 8 + int(30 * u[6]),
    }
    out = {}
    for k, (name, default) in enumerate(SIGN[call][1]):
        v = vals[name] if default is REQ else other[name] if case["given"][k] or (name == "mask" and case["masked"]) else default
        if name == "coordinates":
            v = A.OrbitCoordinate(v)
        elif name == "orbit_output":
            v = A.OrbitOutput(v)
        out[name] = v
    if out.get("method") == "line" and out.get("crs") == "spice":
        out["crs"] = "utm"
    return out


def same(a, b):
    if a is b:
        return True
    if isinstance(a, (str, int, float, tuple)) or a is None:
        return type(a) is type(b) and a == b
    return getattr(a, "value", a) == b if isinstance(b, str) else False


def as_number(v, kind):
    if isinstance(v, (list, tuple)) or isinstance(v, bool) or not isinstance(v, (int, float)):
        return v
    if kind == "int":
        return int(v) if float(v).is_integer() else v
    if kind == "float":
        return float(v)
    return np.float64(v)


INDEXES = ("instrument_index", "cross_track_index", "along_track_index", "number_points", "min_count_visible")


def in_zone(t, minutes):
    return t.astimezone(timezone(timedelta(minutes=minutes)))


def rewrite(case, call, args, changes):
    """The same call, written differently: positional and named arguments, and what was changed."""
    sign = SIGN[call][1]
    args = dict(args)
    done = set()
    zones = case["zones"]
    for ch in changes:
        if ch in ("zone", "stamp"):
            f = (lambda t, k: in_zone(t, zones[k % len(zones)])) if ch == "zone" else (lambda t, k: pd.Timestamp(t))
            for k, name in enumerate(("start", "end")):
                if name in args:
                    args[name] = f(args[name], k)
                    done.add(ch)
            if "times" in args:
                # a list of instants is written in one zone
                args["times"] = [f(t, 0) for t in args["times"]]
                done.add(ch)
        elif ch == "single":
            for name in ("satellites", "stations", "transmitters"):
                if name in args and call != "compute_dop" and isinstance(args[name], list) and len(args[name]) == 1:
                    args[name] = args[name][0]
                    done.add(ch)
        elif ch == "mask":
            if isinstance(args.get("mask"), Polygon):
                form = case["mask"]["form"]
                if SIGN[call][0] == "generation" and form in ("frame", "series"):
                    form = "multi"
                args["mask"] = mask_form(args["mask"], form)
                done.add(ch)
        elif ch == "number":
            for name in args:
                if name not in INDEXES:
                    v = as_number(args[name], case["numeric"])
                    if type(v) is not type(args[name]):
                        done.add(ch)
                    args[name] = v
        elif ch == "orbit":
            if any(n in args for n in ("satellite", "satellites", "receiver", "transmitters")):
                done.add(ch)
    left_out = set()
    if "omit" in changes:
        for name, default in sign:
            if default is not REQ and same(args[name], default):
                left_out.add(name)
                done.add("omit")
    pos, kw = [], {}
    if "positional" in changes:
        for k, (name, _) in enumerate(sign):
            if name in left_out:
                break
            pos.append(args[name])
        done.add("positional")
    for name, _ in sign[len(pos) :]:
        if name not in left_out:
            kw[name] = args[name]
    return pos, kw, done


def function(case, call, args):
    import tatc.analysis
    import tatc.generation
    import tatc.utils

    where = SIGN[call][0]
    if where == "ins":
        sat = satellites({**case, "orbits": case["orbits"][:1]}, False)[0]
        ins = sat.instruments[0 if call.startswith("pointed") else 1]
        return getattr(ins, call.split(".")[1])
    return getattr(getattr(tatc, where), call)


def ask(fn, pos, kw):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            return "result", fn(*pos, **kw)
        except Violation:
            raise
        except Exception as err:  # pylint: disable=broad-except
            return "error", err


def differ(a, b, at=""):
    """Where two results differ, or None."""
    if isinstance(a, pd.DataFrame):
        if not isinstance(b, pd.DataFrame) or list(a.columns) != list(b.columns) or len(a) != len(b):
            return f"{at}: tables {list(a.columns)} x {len(a)} and {list(getattr(b, 'columns', []))} x {len(b)}"
        if str(getattr(a, "crs", None)) != str(getattr(b, "crs", None)):
            return f"{at}: crs {a.crs} and {b.crs}"
        if list(a.index) != list(b.index):
            return f"{at}: index {list(a.index)[:5]} and {list(b.index)[:5]}"
        for c in a.columns:
            for k, (x, y) in enumerate(zip(a[c], b[c])):
                d = differ(x, y, f"{at} row {k} {c}")
                if d:
                    return d
        return None
    if isinstance(a, (list, tuple)):
        if not isinstance(b, (list, tuple)) or len(a) != len(b):
            return f"{at}: {len(a)} and {b} items"
        for k, (x, y) in enumerate(zip(a, b)):
            d = differ(x, y, f"{at} [{k}]")
            if d:
                return d
        return None
    if isinstance(a, shapely.Geometry):
        if not isinstance(b, shapely.Geometry):
            return f"{at}: {b}"
        if a.wkb == b.wkb:
            return None
        ca, cb = shapely.get_coordinates(a, include_z=True), shapely.get_coordinates(b, include_z=True)
        if ca.shape == cb.shape and np.allclose(ca, cb, rtol=1e-9, atol=1e-9, equal_nan=True):
            return None
        if a.area > 0:
            d = a.symmetric_difference(b).area if a.is_valid and b.is_valid else 0
            if d <= 1e-6 * max(a.area, 1e-3):
                return None
        elif a.equals(b):
            return None
        return f"{at}: {a.wkt[:150]} and {b.wkt[:150]}"
    if hasattr(a, "latitude") and hasattr(a, "longitude"):
        for n in ("latitude", "longitude"):
            d = differ(np.ravel(getattr(a, n).degrees).tolist(), np.ravel(getattr(b, n).degrees).tolist(), f"{at} {n}")
            if d:
                return d
        return differ(np.ravel(a.elevation.m).tolist(), np.ravel(b.elevation.m).tolist(), f"{at} elevation")
    if isinstance(a, np.ndarray):
        return differ(a.tolist(), np.asarray(b).tolist(), at)
    if isinstance(a, (float, np.floating)) and isinstance(b, (float, int, np.floating, np.integer)):
        if np.isnan(a) and np.isnan(b):
            return None
        return None if abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b)) else f"{at}: {a!r} and {b!r}"
    if a is pd.NaT or b is pd.NaT or a is None or b is None:
        return None if a is b else f"{at}: {a!r} and {b!r}"
    if isinstance(a, (datetime, pd.Timestamp)):
        return None if abs((a - b).total_seconds()) < 2e-6 else f"{at}: {a!r} and {b!r}"
    return None if a == b else f"{at}: {a!r} and {b!r}"


def holds(r):
    if isinstance(r, (pd.DataFrame, list, tuple)):
        return len(r) > 0
    return True


def body(case, ev):
    call = case["call"]
    full = args_of(case, call)
    pos, kw, done = rewrite(case, call, args_of(case, call, "orbit" in case["changes"]), case["changes"])
    a = ask(function(case, call, full), [], full)
    b = ask(function(case, call, kw), pos, kw)
    what = f"{call}, {sorted(done)}"
    if a[0] == "error":
        check(b[0] == "error", lambda: f"{what}: {a[1]!r}, and no error when it is asked differently")
        ev.label(f"{call} raises {type(a[1]).__name__}")
        return
    check(b[0] != "error", lambda: f"{what}: raises {b[1]!r} when it is asked differently")
    d = differ(a[1], b[1])
    check(d is None, lambda: f"{what}: {d}")
    ev.label(call)
    ev.nontrivial(bool(done) and holds(a[1]))


SUBS = [
    Sub("tables", table_strategy, body, quick=2500),
    Sub("functions", other_strategy, body, quick=1500),
]
