"""C26: pixel arrays tile the field of view with the requested pixels."""

import math

import numpy as np
from hypothesis import strategies as st
from shapely.geometry import MultiPolygon, Point as SP, box

from lib import gen, ref
from lib.gen import fl, pick, weighted
from lib.harness import Sub, check
from props import c01
from props.c28 import height as c28_height
from props.c24 import judge, orbits, states, track_of

RULE = "more than one pixel, and a pixel away from nadir (arrays); a mask that keeps some pixels and drops others, or several times (tables); more than 25 pixels (wide)"
ASSUMPTIONS = [
    "the cross-track index runs in the direction of positive roll, the along-track index from fore to aft",
    "pixel directions are at equal angular steps from the boresight in the view plane (cone = distance, clock = bearing)",
    "pixel rays within 0.2 % of grazing are not judged; table masks are judged away from their border",
]


def view():
    return {
        "cross": st.one_of(fl(0.1, 60), fl(0.1, 100)),
        "along": st.one_of(fl(0.1, 60), fl(0.1, 100)),
        "roll": st.one_of(st.just(0.0), fl(-40, 40)),
        "pitch": st.one_of(st.just(0.0), fl(-40, 40)),
        "nc": st.integers(1, 5),
        "na": st.integers(1, 5),
        "osc": st.one_of(st.just(0.0), fl(0, 0.95)),
        "osa": st.one_of(st.just(0.0), fl(0, 0.95)),
        "elev": pick(0.0, 0.0, 3000.0, -200.0),
    }


def instrument(case, **kw):
    from tatc.schemas import PointedInstrument

    return PointedInstrument(
        name="px",
        field_of_regard=case.get("for", 180),
        cross_track_field_of_view=case["cross"],
        along_track_field_of_view=case["along"],
        roll_angle=case["roll"],
        pitch_angle=case["pitch"],
        is_rectangular=case.get("rect", True),
        cross_track_pixels=case["nc"],
        along_track_pixels=case["na"],
        cross_track_oversampling=case["osc"],
        along_track_oversampling=case["osa"],
        **kw,
    )


def offsets(case, i, j):
    """Angular offset (deg) of pixel (i, j) from the boresight, toward +roll and forward."""
    dc = case["cross"] * (1 - case["osc"]) / case["nc"]
    da = case["along"] * (1 - case["osa"]) / case["na"]
    return (i - (case["nc"] - 1) / 2) * dc, ((case["na"] - 1) / 2 - j) * da


def pixel_ray(case, pos, vel, i, j):
    v, b, n = ref.lvlh(pos, vel)
    x, y = offsets(case, i, j)
    c = math.hypot(x, y)
    k = math.tan(math.radians(c)) / c if c > 0 else 0.0
    return (
        b
        + v * (math.tan(math.radians(case["pitch"])) + k * y)
        + n * (math.tan(math.radians(case["roll"])) + k * x)
    )


def strategy():
    return st.fixed_dictionaries(
        {
            "orbit": orbits(),
            "at": st.integers(-20000, 80000),
            "n": pick(1, 1, 2, 3),
            "list": st.booleans(),
            "step": pick(30, 600),
            **view(),
            "rect": st.booleans(),
        }
    )


def body(case, ev):
    ins = instrument(case)
    for i in range(case["nc"]):
        for j in range(case["na"]):
            cone, clock = ins.get_pixel_cone_and_clock_angle(i, j)
            x, y = offsets(case, i, j)
            check(
                cone >= 0
                and abs(cone * math.cos(clock) - x) < 1e-7
                and abs(cone * math.sin(clock) - y) < 1e-7,
                f"pixel ({i},{j}): cone {cone} deg clock {clock} rad, offset should be {x} across, {y} along",
            )
    fc, fa = ins.get_cross_track_instantaneous_field_of_view(), ins.get_along_track_instantaneous_field_of_view()
    check(
        abs(fc * (1 - case["osc"]) * case["nc"] - case["cross"]) < 1e-6 * case["cross"]
        and abs(fa * (1 - case["osa"]) * case["na"] - case["along"]) < 1e-6 * case["along"],
        f"instantaneous fields of view {fc}, {fa}",
    )
    track, _, times = track_of(case, case["n"])
    arr = ins.compute_footprint_pixel_array(track, elevation=case["elev"])
    if not isinstance(arr, list):
        arr = [arr]
    check(len(arr) == case["n"], f"{len(arr)} pixel arrays for {case['n']} times")
    for t, ((pos, vel), mp) in enumerate(zip(states(track), arr)):
        pts = list(mp.geoms)
        check(len(pts) == case["nc"] * case["na"], f"{len(pts)} pixels for {case['nc']} x {case['na']}")
        for i in range(case["nc"]):
            for j in range(case["na"]):
                p = pts[i * case["na"] + j]
                judge(pos, vel, pixel_ray(case, pos, vel, i, j), (p.y, p.x, p.z), case["elev"], f"time {t} pixel ({i},{j})", ev)
    # the single pixel accessor agrees with the array
    i, j = case["nc"] // 2, case["na"] - 1
    g = ins.compute_projected_pixel_position(track, i, j, case["elev"])
    la, lo = np.atleast_1d(g.latitude.degrees), np.atleast_1d(g.longitude.degrees)
    for t, mp in enumerate(arr):
        p = list(mp.geoms)[i * case["na"] + j]
        check(
            ref.gc_deg(p.y, p.x, float(la[t]), float(lo[t])) < 1e-6,
            f"time {t}: pixel ({i},{j}) at {la[t]}, {lo[t]} but {p.wkt} in the array",
        )
    ev.is_nt = case["nc"] * case["na"] > 1
    ev.label(f"{case['n']} times")


def wide_strategy():
    """View directions of arrays of many pixels (nothing is projected)."""
    count = st.one_of(st.integers(1, 40), pick(64, 100, 127, 128, 255, 256, 1000))
    return st.fixed_dictionaries({**view(), "nc": count, "na": count, "at": st.lists(st.tuples(fl(0, 1), fl(0, 1)), min_size=3, max_size=8)})


def wide_body(case, ev):
    ins = instrument(case)
    nc, na = case["nc"], case["na"]
    for u, w in case["at"] + [(0.0, 0.0), (1.0, 1.0), (0.0, 1.0), (0.5, 0.5)]:
        i, j = min(nc - 1, int(u * nc)), min(na - 1, int(w * na))
        cone, clock = ins.get_pixel_cone_and_clock_angle(i, j)
        x, y = offsets(case, i, j)
        check(
            cone >= 0 and abs(cone * math.cos(clock) - x) < 1e-7 and abs(cone * math.sin(clock) - y) < 1e-7,
            f"pixel ({i},{j}) of {nc} x {na}: cone {cone} deg clock {clock} rad, offset should be {x} across, {y} along",
        )
    ev.nontrivial(nc * na > 25)


def table_strategy():
    return st.fixed_dictionaries(
        {
            "orbit": st.one_of(
                gen.circular(alt=fl(400e3, 1500e3)), gen.sso(), gen.keplerian(alt=fl(1500e3, 4000e3))
            ),
            "at": st.integers(-20000, 80000),
            "n": st.integers(0, 5),
            "step": pick(5, 15, 60, -15, -60),
            **view(),
            "self": pick(None, None, True, False),
            "target": pick(None, None, True, False),
            "sat_altaz": st.booleans(),
            "solar_altaz": st.booleans(),
            "mask": pick(None, "polygon", "multi", "frame", "series"),
            # fraction of the pixel bounding box kept by the mask
            "wide": weighted((3, st.just(False)), (1, st.just(True))),
            "cut": st.tuples(fl(0, 0.9), fl(0.1, 1), fl(0, 0.9), fl(0.1, 1)),
            "index": st.integers(0, 1),
            "away": weighted((7, st.just(False)), (1, st.just(True))),
        }
    )


def aside_strategy():
    """Narrow views that point well away from the ground below the satellite, always masked."""

    def f(a):
        d, n, step, look, cross, along, kind = a
        d = dict(d, n=n, step=step, cross=cross, along=along, mask=kind, away=False, wide=False)
        d["roll"], d["pitch"] = look
        if d["osc"] < 0.5:
            # possible observations reach just beyond the view
            d["for"] = min(180, 2 * (abs(d["roll"]) + abs(d["pitch"]) + d["cross"] + d["along"]) * 1.1 + 4)
        d["cut"] = (d["cut"][0] / 3, max(d["cut"][1], 0.6), d["cut"][2] / 3, max(d["cut"][3], 0.6))
        return d

    side = st.tuples(fl(20, 45), fl(-10, 10), pick(-1, 1), st.booleans()).map(
        lambda v: (v[2] * v[0], v[1]) if v[3] else (v[1], v[2] * v[0])
    )
    return st.tuples(
        table_strategy(), st.integers(2, 6), pick(2, 5, 20, -20, -90), side, fl(0.5, 6), fl(0.5, 6), pick("polygon", "multi", "frame", "series")
    ).map(f)


def as_mask(kind, g, far):
    import geopandas as gpd

    if kind == "polygon":
        return g
    if kind == "multi":
        return MultiPolygon([g, far])
    if kind == "frame":
        return gpd.GeoDataFrame({"name": ["a", "b"]}, geometry=[far, g], crs="EPSG:4326")
    return gpd.GeoSeries([far, g], crs="EPSG:4326")


def table_body(case, ev):
    from tatc.analysis import collect_ground_pixels
    from tatc.constants import de421
    from tatc.schemas import Instrument, Satellite

    ins = instrument({**case, "rect": True}, req_self_sunlit=case["self"], req_target_sunlit=case["target"])
    track, lines, times = track_of({**case, "list": True}, max(1, case["n"]))
    other = Instrument(name="other")
    inst = [other, other]
    inst[case["index"]] = ins
    sat = Satellite(name="sat", orbit=c01.make_orbit(case["orbit"]).to_tle(), instruments=inst)
    if case["n"] == 0:
        out = collect_ground_pixels(sat, [], instrument_index=case["index"])
        check(len(out) == 0 and {"time", "satellite", "instrument", "valid_obs", "geometry"} <= set(out.columns), "no times")
        return
    exp = []
    for (pos, vel), t in zip(states(track), times):
        for i in range(case["nc"]):
            for j in range(case["na"]):
                exp.append((t, pos, vel, pixel_ray(case, pos, vel, i, j)))
    kw = {}
    keep = None
    full = collect_ground_pixels(
        sat, times, case["index"], case["elev"], None, case["sat_altaz"], case["solar_altaz"]
    )
    check(len(full) == len(exp), f"{len(full)} rows for {len(times)} times x {case['nc']} x {case['na']} pixels")
    check(list(full.index) == list(range(len(full))), "index")
    check(full.crs is not None and full.crs.to_epsg() == 4326, "crs")
    for k, (t, pos, vel, ray) in enumerate(exp):
        r = full.iloc[k]
        what = f"row {k} ({t})"
        check(abs((r["time"].to_pydatetime() - t).total_seconds()) < 1e-3, f"{what}: time {r['time']}")
        check(r["satellite"] == "sat" and r["instrument"] == "px", f"{what}: names")
        g = r["geometry"]
        judge(pos, vel, ray, (g.y, g.x, g.z), case["elev"], what, ev)
        columns(case, r, t, g, lines, pos, de421, what)
    if case["mask"] is None:
        check(("sat_alt" in full.columns) == case["sat_altaz"] and ("solar_alt" in full.columns) == case["solar_altaz"], "columns")
        ev.is_nt = len(times) > 1 and case["nc"] * case["na"] > 1
        return
    if case["away"]:
        la, lo, _ = c28_height(exp[0][1])
        x = lo + 180 if lo < 0 else lo - 180
        m = box(max(-180, x - 3), max(-90, -la - 3), min(180, x + 3), min(90, 3 - la))
        out = collect_ground_pixels(sat, times, case["index"], case["elev"], m, case["sat_altaz"], case["solar_altaz"])
        check(
            len(out) == 0 and {"time", "satellite", "instrument", "valid_obs", "geometry"} <= set(out.columns),
            f"mask on the other side of the Earth: {len(out)} rows, columns {list(out.columns)}",
        )
        for bad in (1 - case["index"],):
            try:
                collect_ground_pixels(sat, times, bad)
            except ValueError:
                continue
            check(False, "pixels of an instrument without pixels")
        ev.label("away")
        return
    xs = np.array([g.x for g in full.geometry])
    ys = np.array([g.y for g in full.geometry])
    if xs.max() - xs.min() < 90 or case["wide"]:
        c = case["cut"]
        x0, x1 = xs.min() - 0.01 + c[0] * (xs.max() - xs.min()), xs.min() + 0.01 + c[1] * (xs.max() - xs.min())
        y0, y1 = ys.min() - 0.01 + c[2] * (ys.max() - ys.min()), ys.min() + 0.01 + c[3] * (ys.max() - ys.min())
        if not (x1 > x0 and y1 > y0):
            return
        if case["wide"]:
            x0, x1 = (-180, 180) if c[0] < 0.45 else (max(-180, x0 - 100), min(180, x1 + 100))
        x0, y0, x1, y1 = max(-180, x0), max(-90, y0), min(180, x1), min(90, y1)
        m = box(x0, y0, x1, y1)
        mlon = (x0 + x1) / 2
        far_lon = mlon - 180 if mlon > 0 else mlon + 180
        far = box(max(-180, far_lon - 1), -80, min(180, far_lon + 1), -79)
        masked = collect_ground_pixels(
            sat, times, case["index"], case["elev"], as_mask(case["mask"], m, far), case["sat_altaz"], case["solar_altaz"]
        )
        key = lambda r: (r["time"], round(r["geometry"].x, 9), round(r["geometry"].y, 9))
        got = {}
        for _, r in masked.iterrows():
            got[key(r)] = got.get(key(r), 0) + 1
        n_keep = n_drop = 0
        # a time is culled by its footprint polygon (chords): judged where that cannot matter
        per = case["nc"] * case["na"]
        safe = []
        for t in range(len(times)):
            ix = range(t * per, (t + 1) * per)
            gx, gy = xs[ix.start : ix.stop], ys[ix.start : ix.stop]
            tol = 0.15 * max(np.ptp(gx), np.ptp(gy)) + 1e-6
            inner = any(
                m.contains(SP(x, y)) and m.boundary.distance(SP(x, y)) > tol for x, y in zip(gx, gy)
            )
            safe.append(inner or len(times) == 1)
        for k in range(len(full)):
            r = full.iloc[k]
            d = m.boundary.distance(SP(r["geometry"].x, r["geometry"].y))
            if d < 1e-6:
                got.pop(key(r), None)
                continue
            want = m.contains(SP(r["geometry"].x, r["geometry"].y))
            have = got.pop(key(r), 0)
            dup = sum(1 for q in range(len(full)) if key(full.iloc[q]) == key(r))
            if dup > 1:
                continue
            if want and not have and not safe[k // per]:
                continue
            check(
                have == (1 if want else 0),
                f"row {k} at {r['geometry'].wkt} is {'inside' if want else 'outside'} the mask {m.bounds} but appears {have} times in the masked table",
            )
            n_keep += want
            n_drop += not want
        check(not got, f"masked table has rows that are not in the unmasked one: {list(got)[:3]}")
        ev.label("masked")
        ev.is_nt = n_keep > 0 and n_drop > 0


def columns(case, r, t, g, lines, pos, eph, what):
    valid = True
    if case["self"] is not None:
        m = ref.sunlit_margin(eph, ref.gcrs(lines, t), t)
        valid = None if abs(m) < 60e3 else (m > 0) == case["self"]
    salt, saz, _ = ref.sun_topos(eph, g.y, g.x, g.z, t)
    if case["target"] is not None and valid is not False:
        if abs(salt) < 0.02:
            valid = None
        elif (salt > 0) != case["target"]:
            valid = False
    if valid is not None:
        check(bool(r["valid_obs"]) == valid, f"{what}: valid_obs {r['valid_obs']}, requirements {case['self']}, {case['target']}")
    if case["sat_altaz"]:
        el, az = ref.elevation_angle(lines, g.y, g.x, g.z, t, 0.0)
        check(abs(r["sat_alt"] - float(el)) < 2e-3, f"{what}: sat_alt {r['sat_alt']} != {el}")
        check(
            ref.ang_diff(r["sat_az"], float(az)) * math.cos(math.radians(float(el))) < 2e-3,
            f"{what}: sat_az {r['sat_az']} != {az}",
        )
    if case["solar_altaz"]:
        check(abs(r["solar_alt"] - salt) < 2e-3, f"{what}: solar_alt {r['solar_alt']} != {salt}")
        check(
            ref.ang_diff(r["solar_az"], saz) * math.cos(math.radians(salt)) < 2e-3,
            f"{what}: solar_az {r['solar_az']} != {saz}",
        )


def reject_strategy():
    return st.fixed_dictionaries(
        {
            "orbit": gen.circular(alt=fl(400e3, 1500e3)),
            "at": st.integers(-20000, 80000),
            "n": st.integers(1, 4),
            "list": st.just(True),
            "step": pick(30, 600),
            **view(),
            "kind": pick("ellipse", "ellipse", "plain", "good"),
            "masked": st.booleans(),
        }
    )


def reject_body(case, ev):
    """Pixels exist for rectangular pointed instruments only."""
    from tatc.analysis import collect_ground_pixels
    from tatc.schemas import Instrument, Satellite

    ins = {
        "ellipse": lambda: instrument({**case, "rect": False}),
        "plain": lambda: Instrument(name="px"),
        "good": lambda: instrument({**case, "rect": True}),
    }[case["kind"]]()
    _, _, times = track_of(case, case["n"])
    sat = Satellite(name="sat", orbit=c01.make_orbit(case["orbit"]).to_tle(), instruments=[ins])
    try:
        out = collect_ground_pixels(sat, times, mask=box(-180, -90, 180, 90) if case["masked"] else None)
    except ValueError:
        check(case["kind"] != "good", "the pixels of a rectangular pointed instrument are rejected")
    else:
        check(case["kind"] == "good", f"{len(out)} pixels of an instrument without them ({case['kind']})")
    ev.label(case["kind"])
    ev.nontrivial(case["nc"] * case["na"] > 1)


def warm():
    c01.no_repeat()


SUBS = [
    Sub("array", strategy, body, quick=720),
    Sub("table", table_strategy, table_body, quick=640),
    Sub("aside", aside_strategy, table_body, quick=120),
    Sub("wide", wide_strategy, wide_body, quick=300),
    Sub("reject", reject_strategy, reject_body, quick=150),
]
