"""C30: aggregated ground tracks cover exactly what the instrument sweeps."""

import math
from datetime import timedelta

import numpy as np
import shapely
from hypothesis import strategies as st
from shapely import affinity
from shapely.geometry import LineString, Point as SP, box

from lib import gen, ref
from lib.gen import fl, pick, weighted
from lib.harness import Sub, check
from props import c01, c28, c29
from props.c24 import states, track_of

RULE = "at least two valid footprints are aggregated, and some valid observation is separated (another orbit or an invalid gap) or a mask cuts the result"
ASSUMPTIONS = [
    "the line method is not asked for utm: a line crosses zones, and the call raises an error of the projection library",
    "individual footprints are those of collect_ground_track, decided by C29",
    "the line method sweeps the mean swath width about the straight line between samples in the projection; points within 1.5 % of the border are not judged; lines with edges over 150 or a span over 340 degrees of longitude, or reaching a pole, are outside the documented limits of the polygon splitting",
    "an orbit is one period from the first sample; samples within 1 s of such a boundary are not judged",
]

PERIOD = 5700


def strategy():
    return st.fixed_dictionaries(
        {
            "orbit": st.one_of(
                gen.circular(alt=fl(350e3, 1500e3), inc=fl(0, 110, 28.0, 51.6)),
                gen.sso(),
                gen.keplerian(alt=fl(900e3, 3000e3), ecc=fl(0, 0.02), inc=fl(0, 110)),
                # the swath width changes along the orbit
                gen.keplerian(alt=fl(1500e3, 4000e3), ecc=fl(0.03, 0.12), inc=fl(0, 110)),
            ),
            "at0": st.integers(-20000, 80000),
            "n": weighted((4, st.integers(6, 14)), (1, st.integers(1, 3))),
            "step": pick(300, 600, 120, 600, 1800, 30),
            "back": pick(False, False, False, True),
            "for": fl(3, 110),
            "pointed": st.booleans(),
            "roll": fl(-15, 15, 0.0),
            "pitch": st.just(0.0),
            "index": st.integers(0, 2),
            "self": pick(None, None, True, False),
            "target": pick(True, None, False),
            "elev": pick(0.0, 1500.0),
            "crs": pick(None, "EPSG:4087", "spice", "utm"),
            "method": pick("point", "line", None),
            "dissolve": pick(True, False, None),
            "mask": pick(None, None, "polygon", "multi", "frame", "series"),
            "shape": pick("local", "local", "local", "local", "wide", "band", "away"),
            "pivot": st.integers(0, 11),
            "off": st.tuples(fl(-0.7, 0.7), fl(-0.7, 0.7)),
            "size": st.tuples(fl(0.4, 3), fl(0.4, 3)),
            "second": st.tuples(fl(-3, 3), fl(-3, 3)),
            "probes": st.lists(
                st.tuples(st.integers(0, 11), fl(0, 1, n=50), fl(0, 1.7, n=1700), fl(0, 6.2831, n=2000)), min_size=6, max_size=12
            ),
        }
    )


def line_strategy():
    """Lines of samples a few minutes apart, mostly of eccentric orbits."""

    def f(d):
        d = dict(d)
        d["method"], d["crs"], d["shape"] = "line", None, "local"
        d["step"] = max(60, d["step"] // 4)
        return d

    def long(d):
        # more than an orbit, cut into pieces by the terminator
        d = dict(d)
        d["n"], d["step"], d["target"], d["self"], d["for"] = 26 + d["n"], max(240, d["step"]), True, None, min(d["for"], 60)
        d["dissolve"] = False
        return d

    ecc = gen.keplerian(alt=fl(1500e3, 4000e3), ecc=fl(0.03, 0.12), inc=fl(0, 80))
    near = gen.keplerian(alt=fl(600e3, 900e3), ecc=fl(0, 0.02), inc=fl(0, 80))
    return st.tuples(strategy(), weighted((2, ecc), (1, near)), pick(False, True)).map(
        lambda a: (long if a[2] else dict)(f({**a[0], "orbit": a[1]}))
    )


def orbits_strategy():
    """Several orbits, kept apart, seen through a region that the first samples may miss."""

    def f(a):
        d, n, step, shape, size = a
        d = dict(d)
        d["method"], d["crs"], d["dissolve"] = "point", "EPSG:4087", False
        d["n"], d["step"], d["shape"], d["size"] = n, step, shape, size
        d["for"], d["self"], d["target"] = min(d["for"], 70), None, None
        if d["mask"] is None:
            d["mask"] = "polygon"
        return d

    return st.tuples(
        strategy(),
        st.integers(14, 24),
        pick(300, 420, 540),
        pick("band", "wide", "cap"),
        st.tuples(fl(0.4, 3), fl(2, 6)),
    ).map(f)


def setup(case):
    c = dict(case)
    c["at"] = [case["at0"] + case["step"] * k for k in range(case["n"])]
    c["sort"] = False
    if case.get("back"):
        c["at"].reverse()
    c["tz"] = "utc"
    return c28.build(c)


def groups_of(case, lines, times, valid, runs):
    """Lists of sample indices aggregated together, or None if a boundary is ambiguous."""
    rev = float(lines[1][52:63])
    period = 86400 / rev
    out, last = {}, {}
    run = 0
    for k, t in enumerate(times):
        s = (t - times[0]).total_seconds()
        if k and abs(s / period - round(s / period)) * period < 1:
            return None
        if k and valid[k] != valid[k - 1]:
            run += 1
        if valid[k]:
            out.setdefault((int(s // period), run if runs else 0), []).append(k)
    return [out[q] for q in sorted(out)]


def prepare_mask(case, lo, la, scale):
    return c29.make_mask(case, lo, la, scale)


def body(case, ev):
    from tatc.analysis import collect_ground_track, compute_ground_track

    method = case["method"] or "point"
    if method == "line" and case["crs"] in ("spice", "utm"):
        if case["crs"] == "utm":
            return
        sat, ins, lines, times = setup(case)
        try:
            compute_ground_track(sat, times, case["index"], crs="spice", method="line")
        except ValueError:
            return
        check(False, "the line method accepts spice footprints")
    sat, ins, lines, times = setup(case)
    crs = case["crs"] or "EPSG:4087"
    kw = {}
    if case["crs"]:
        kw["crs"] = case["crs"]
    if case["method"]:
        kw["method"] = case["method"]
    if case["dissolve"] is not None:
        kw["dissolve_orbits"] = case["dissolve"]
    full = collect_ground_track(sat, times, case["index"], case["elev"], crs=crs)
    geo = [c28.height(ref.state(lines, t)[0]) for t in times]
    pa, po, ph = geo[case["pivot"] % len(times)]
    half = [c29.swath({"kind": "basic", "for": case["for"], "elev": case["elev"]}, g[2]) / 2 for g in geo]
    mask = union = None
    if case["mask"] is not None:
        scale = math.degrees(half[0] / ref.R_E)
        mask, union = prepare_mask(case, po, pa, scale)
        if mask is None:
            return
        kw["mask"] = mask
    if method == "point":
        if union is not None:
            # the individual masked footprints decide (C29)
            part = collect_ground_track(sat, times, case["index"], case["elev"], mask, crs)
            rows = {}
            for k in range(len(part)):
                r = part.iloc[k]
                rows[r["time"]] = (bool(r["valid_obs"]), r["geometry"])
            valid = [rows.get(full.iloc[k]["time"], (False, None))[0] for k in range(len(times))]
            shapes = [rows.get(full.iloc[k]["time"], (False, None))[1] for k in range(len(times))]
        else:
            valid = [bool(v) for v in full["valid_obs"]]
            shapes = list(full.geometry)
        groups = groups_of(case, lines, times, valid, False)
    else:
        from tatc.analysis import collect_orbit_track

        valid = [bool(v) for v in collect_orbit_track(sat, times, case["index"])["valid_obs"]]
        groups = groups_of(case, lines, times, valid, True)
    if groups is None:
        return
    if method == "line" and not supported(groups, geo, half):
        ev.label("unsupported line")
        return
    out = compute_ground_track(sat, times, case["index"], case["elev"], **kw)
    check(out.crs is not None and out.crs.to_epsg() == 4326, "crs")
    dissolve = case["dissolve"] is not False
    if method == "point":
        # the footprints' own geometry may be invalid in rare polar cases
        if any(s is not None and not s.is_valid for s in shapes):
            return
        regions = [shapely.union_all([shapely.force_2d(shapes[k]) for k in g]) for g in groups]
    else:
        regions = None
    want_rows = len(groups)
    if method == "line" and union is not None:
        want_rows = None
    elif dissolve:
        want_rows = min(1, want_rows)
    if want_rows is not None:
        check(len(out) == want_rows, f"{len(out)} rows, expected {want_rows} (groups {groups})")
    if len(out):
        check(set(out["satellite"]) == {"sat 1"} and set(out["instrument"]) == {"cam"}, "names")
    if method == "point":
        if dissolve:
            regions = [shapely.union_all(regions)] if regions else []
            owners = [sum(groups, [])] if groups else []
        else:
            owners = groups
        used = set()
        for reg, own in zip(regions, owners):
            ts = {full.iloc[k]["time"] for k in own}
            match = [k for k in range(len(out)) if out.iloc[k]["time"] in ts]
            check(len(match) == 1, f"{len(match)} rows for the orbit of samples {own}")
            used.add(match[0])
            g = out.geometry.iloc[match[0]]
            bad = shapely.force_2d(g).symmetric_difference(reg).area
            check(
                bad < 1e-6 * reg.area + 1e-9,
                f"aggregated footprint has area {g.area}, the union of its {len(own)} valid footprints {reg.area} ({bad} differ)",
            )
        check(len(used) == len(out), "extra rows")
    else:
        swept(case, out, groups, geo, half, union, dissolve, full, crs)
    ev.label(method, crs)
    ev.nontrivial(
        sum(map(len, groups)) >= 2 and (len(groups) > 1 or not all(valid) or union is not None)
    )


def supported(groups, geo, half):
    """Lines with edges under 150 degrees of longitude, which span less than 360 degrees, off the poles."""
    for g in groups:
        lon = [geo[k][1] for k in g]
        d = [(b - a + 180) % 360 - 180 for a, b in zip(lon, lon[1:])]
        if d and max(map(abs, d)) > 150:
            return False
        c = np.concatenate([[0], np.cumsum(d)])
        w = math.degrees(max(half[k] for k in g) / ref.R_E)
        if c.max() - c.min() + 2 * w > 340 or max(abs(geo[k][0]) for k in g) + w > 89:
            return False
    return True


def swept(case, out, groups, geo, half, union, dissolve, full, crs):
    m = 6378137.0 * math.pi / 180
    lines_ = []
    for g in groups:
        xs, ys = [], []
        for k in g:
            la, lo, _ = geo[k]
            if xs:
                d = (lo - xs[-1] + 180) % 360 - 180
                if abs(d) > 170:
                    return
                lo = xs[-1] + d
            xs.append(lo)
            ys.append(la)
        w = float(np.mean([half[k] for k in g])) / m
        if max(map(abs, ys)) + w > 89:
            return
        shape = LineString(zip(xs, ys)) if len(xs) > 1 else SP(xs[0], ys[0])
        lines_.append((shape, w))
    for k, u, f, ang in case["probes"]:
        if not lines_:
            break
        shape, w = lines_[k % len(lines_)]
        c = shape.interpolate(u, normalized=True) if shape.geom_type == "LineString" else shape
        x, y = c.x + f * w * math.cos(ang), c.y + f * w * math.sin(ang)
        if abs(y) > 89:
            continue
        x = (x + 180) % 360 - 180
        if abs(abs(x) - 180) < 1e-6:
            continue
        p = SP(x, y)
        dist = [
            min(s.distance(SP(x + 360 * j, y)) / ww for j in (-2, -1, 0, 1, 2)) for s, ww in lines_
        ]
        if any(abs(d - 1) < 0.015 for d in dist):
            continue
        if union is not None and union.boundary.distance(p) < 1e-4:
            continue
        masked = union is None or union.contains(p)
        if dissolve:
            got = any(g.intersects(p) for g in out.geometry)
            want = masked and any(d < 1 for d in dist)
            check(got == want, f"point lon {x:.4f} lat {y:.4f} is {min(dist):.3f} half swaths from the track{'' if masked else ' (outside the mask)'} and {'in' if got else 'not in'} the result")
        else:
            for d, g in zip(dist, groups):
                ts = {full.iloc[k]["time"] for k in g}
                got = [k for k in range(len(out)) if out.iloc[k]["time"] in ts and out.geometry.iloc[k].intersects(p)]
                want = int(masked and d < 1)
                check(len(got) == want, f"point lon {x:.4f} lat {y:.4f} is in {len(got)} rows of the track of samples {g}, expected {want}")


def warm():
    c01.no_repeat()


SUBS = [
    Sub("aggregate", strategy, body, quick=1200),
    Sub("line", line_strategy, body, quick=500),
    Sub("orbits", orbits_strategy, body, quick=250),
]
