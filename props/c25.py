"""C25: footprints contain exactly the ground points inside the view."""

import math

import numpy as np
import shapely
from hypothesis import strategies as st
from shapely.geometry import Point as SP

from lib import gen, ref
from lib.gen import fl, pick
from lib.harness import Sub, check
from props.c24 import fov_offset, intersect, orbits, states, track_of

RULE = "some test points are inside and some outside the view"
ASSUMPTIONS = [
    "single points closer to the border of the view than the spacing of the polygon's vertices (great circle) are not judged",
    "the border of the polygon follows the border of the view within 1.5 times the largest distance between the view border and its chords (footprints wholly on the Earth disc, away from poles and antimeridian)",
    "roll/pitch such that the boresight meets the Earth",
]


def strategy(far=False):
    return st.fixed_dictionaries(
        {
            "orbit": orbits(),
            "at": st.integers(-20000, 80000),
            "n": pick(1, 1, 3),
            "list": st.booleans(),
            "step": pick(60, 900),
            "kind": pick("basic", "pointed", "pointed"),
            "for": st.one_of(fl(2, 130), pick(180.0, 360.0, 200.0, 10.0)),
            "cross": st.one_of(fl(2, 60), fl(2, 150)),
            "along": st.one_of(fl(2, 60), fl(2, 150)),
            "roll_u": st.one_of(st.just(0.0), fl(-0.95, 0.95)),
            "pitch_u": st.one_of(st.just(0.0), fl(-0.95, 0.95)),
            "rect": st.booleans(),
            "np": pick(None, None, 33, 64, 100, 16, 9),
            "elev": pick(None, None, 0.0, 3000.0),
            "polar": st.booleans(),
            "probes": st.lists(
                st.tuples(fl(0, 1.8, n=2000), fl(0, 6.2831, n=2000)), min_size=6, max_size=14
            ),
        }
    )


def limb_ray(pos, ray, elev):
    """Direction in the vertical plane of the ray that just grazes the ground."""
    up = pos / np.linalg.norm(pos)
    h = ray - (ray @ up) * up
    h = h / np.linalg.norm(h)
    lo, hi = 0.0, math.pi / 2
    for _ in range(48):
        mid = (lo + hi) / 2
        if intersect(pos, -up * math.cos(mid) + h * math.sin(mid), elev)[0] is not None:
            lo = mid
        else:
            hi = mid
    return -up * math.cos(lo) + h * math.sin(lo)


def ground(pos, ray, elev):
    p, _ = intersect(pos, ray, elev)
    if p is None:
        p, _ = intersect(pos, limb_ray(pos, ray, elev), elev)
    return p


def to_geo(p):
    """Geodetic lat, lon of an ECEF point near the surface (Bowring, iterated)."""
    lo = math.degrees(math.atan2(p[1], p[0]))
    e2 = ref.F_E * (2 - ref.F_E)
    r = math.hypot(p[0], p[1])
    la = math.atan2(p[2], r * (1 - e2))
    for _ in range(6):
        nn = ref.A_E / math.sqrt(1 - e2 * math.sin(la) ** 2)
        la = math.atan2(p[2] + e2 * nn * math.sin(la), r)
    return math.degrees(la), lo


def inside_view(case, pos, vel, p, elev):
    """Whether the ground point is visible and in the view (in view-plane units, < 1 inside)."""
    v, b, n = ref.lvlh(pos, vel)
    d = p - pos
    a, y, x = np.linalg.solve(np.column_stack([b, v, n]), d)
    if a <= 0:
        return False
    x, y = x / a - math.tan(math.radians(case["roll"])), y / a - math.tan(math.radians(case["pitch"]))
    tc = math.tan(math.radians(case["cross"] / 2))
    ta = math.tan(math.radians(case["along"] / 2))
    if case["rect"]:
        return max(abs(x) / tc, abs(y) / ta) < 1
    return (x / tc) ** 2 + (y / ta) ** 2 < 1


def visible(pos, p, elev):
    a, b = ref.A_E + elev, ref.B_E + elev
    return float((pos - p) @ (p / np.array([a * a, a * a, b * b]))) > 0


def check_geometry(g, elev, what):
    check(g.is_valid, f"{what}: invalid geometry {g.wkt[:200]}")
    check(g.geom_type in ("Polygon", "MultiPolygon"), f"{what}: {g.geom_type}")
    check(not g.is_empty, f"{what}: empty")
    a, b, c, d = g.bounds
    check(a >= -180 - 1e-6 and c <= 180 + 1e-6 and b >= -90 - 1e-6 and d <= 90 + 1e-6, f"{what}: bounds {g.bounds}")
    zs = shapely.get_coordinates(g, include_z=True)[:, 2]
    check(np.allclose(zs, elev), f"{what}: heights {sorted(set(zs))[:3]} for elevation {elev}")


def judge_border(g, ray_at, angs, pos, elev, what, ev):
    """The polygon follows the border of the view as closely as its number of points allows."""
    closed = np.append(angs, angs[0] + 2 * math.pi)
    dense = np.concatenate([np.linspace(x, y, 7)[:-1] for x, y in zip(closed, closed[1:])])
    hits = [intersect(pos, ray_at(1.0, x), elev)[0] for x in dense]
    if any(h is None for h in hits):
        return
    geo = [to_geo(h)[::-1] for h in hits]
    lons = [x for x, _ in geo]
    if max(abs(y) for _, y in geo) > 80 or max(lons) - min(lons) > 180:
        return
    fine = shapely.LinearRing(geo)
    coarse = shapely.LinearRing(geo[::6])
    size = max(fine.bounds[2] - fine.bounds[0], fine.bounds[3] - fine.bounds[1])
    tol = 1.5 * fine.hausdorff_distance(coarse) + 1e-3 * size
    got = max(g.boundary.hausdorff_distance(fine), fine.hausdorff_distance(g.boundary))
    check(
        got <= tol,
        lambda: f"{what}: the footprint's border is up to {got:.5f} deg from the border of the view ({size:.4f} deg across, {len(angs)} points)",
    )
    ev.label("border")


def judge_region(g, case, pos, vel, elev, npts, probes, what, ev):
    """Compare membership in g with the view, for points given in view-plane coordinates."""
    v, b, n = ref.lvlh(pos, vel)
    tr, tp = math.tan(math.radians(case["roll"])), math.tan(math.radians(case["pitch"]))

    def ray_at(k, ang):
        x, y = fov_offset(case, ang)
        return b + v * (k * y + tp) + n * (k * x + tr)

    m = 4 * npts if case["rect"] else npts
    if case["rect"]:
        th = math.atan2(math.tan(math.radians(case["along"] / 2)), math.tan(math.radians(case["cross"] / 2)))
        angs = np.concatenate(
            [
                np.linspace(-th, th, npts + 1)[:-1],
                np.linspace(th, math.pi - th, npts + 1)[:-1],
                np.linspace(math.pi - th, math.pi + th, npts + 1)[:-1],
                np.linspace(math.pi + th, 2 * math.pi - th, npts + 1)[:-1],
            ]
        )
    else:
        angs = np.linspace(0, 2 * math.pi, npts)[:-1]
    ring = [ground(pos, ray_at(1.0, a), elev) for a in angs]
    us = np.array([p / np.linalg.norm(p) for p in ring])
    gaps = np.arccos(np.clip((us * np.roll(us, 1, axis=0)).sum(1), -1, 1))
    s_max = float(gaps.max())
    judge_border(g, ray_at, angs, pos, elev, what, ev)
    n_in = n_out = 0
    for k, ang in probes:
        ray = ray_at(k, ang)
        p, q = intersect(pos, ray, elev)
        if p is None:
            # a point just beyond the limb in that direction
            lr = limb_ray(pos, ray, elev)
            t, _ = intersect(pos, lr, elev)
            p = t + lr / np.linalg.norm(lr) * (0.3 + k) * s_max * 6.4e6
            p = p / np.linalg.norm(p) * np.linalg.norm(t)
            if visible(pos, p, elev):
                continue
        u = p / np.linalg.norm(p)
        d = np.arccos(np.clip(us @ u, -1, 1))
        if d.min() < 0.75 * s_max:
            continue
        want = visible(pos, p, elev) and inside_view(case, pos, vel, p, elev)
        la, lo = to_geo(p)
        got = g.intersects(SP(lo, la))
        check(
            got == want,
            lambda: f"{what}: ground point lat {la:.4f} lon {lo:.4f} is {'inside' if want else 'outside'} the view "
            f"(k={k}) but {'in' if got else 'not in'} the footprint {g.bounds}; {math.degrees(d.min()):.3f} deg from the border, spacing {math.degrees(s_max):.3f}",
        )
        n_in += want
        n_out += not want
    # antipode and far points never are in the footprint
    for w in (-pos, np.array([-pos[0], -pos[1], pos[2]]) if abs(pos[2]) < 0.3 * np.linalg.norm(pos) else -pos):
        la, lo = to_geo(w)
        check(not g.intersects(SP(lo, la)), f"{what}: contains the antipode")
    return n_in, n_out


def prepare(case):
    """Instrument and effective view for the case."""
    from tatc.schemas import Instrument, PointedInstrument

    eff = dict(case)
    if case["kind"] == "basic":
        ins = Instrument(name="i", field_of_regard=case["for"])
        w = min(case["for"], 180.0)
        eff.update(cross=w, along=w, roll=0.0, pitch=0.0, rect=False)
    else:
        track, _, _ = track_of(case, 1)
        pos = states(track)[0][0]
        eta = math.degrees(math.asin(min(1.0, ref.B_E / np.linalg.norm(pos))))
        # keep the boresight within the Earth disc
        t = math.tan(math.radians(eta))
        r, p = case["roll_u"] * t, case["pitch_u"] * t
        s = math.hypot(r, p)
        if s > 0.93 * t:
            r, p = r * 0.93 * t / s, p * 0.93 * t / s
        eff.update(roll=math.degrees(math.atan(r)), pitch=math.degrees(math.atan(p)))
        ins = PointedInstrument(
            name="p",
            field_of_regard=180,
            cross_track_field_of_view=case["cross"],
            along_track_field_of_view=case["along"],
            roll_angle=eff["roll"],
            pitch_angle=eff["pitch"],
            is_rectangular=case["rect"],
        )
    return ins, eff


def body(case, ev):
    from tatc import config

    case = dict(case)
    if case["polar"]:
        # time of the highest latitude within one revolution
        track, lines, times = track_of({**case, "step": 60}, 110)
        z = [abs(p[2]) / np.linalg.norm(p) for p, _ in states(track)]
        case["at"] = case["at"] + 60 * int(np.argmax(z))
    ins, eff = prepare(case)
    track, _, times = track_of(case, case["n"])
    kw = {}
    if case["np"] is not None:
        kw["number_points"] = case["np"]
    if case["elev"] is not None:
        kw["elevation"] = case["elev"]
    elev = case["elev"] or 0.0
    npts = case["np"] or (
        config.rc.footprint_points_rectangular_side if eff["rect"] else config.rc.footprint_points_elliptical
    )
    gs = ins.compute_footprint(track, **kw)
    if case["n"] == 1:
        gs = [gs] if not isinstance(gs, list) else gs
    check(len(gs) == len(times), f"{len(gs)} footprints for {len(times)} times")
    tot_in = tot_out = 0
    for k, ((pos, vel), g) in enumerate(zip(states(track), gs)):
        what = f"time {k}"
        check_geometry(g, elev, what)
        i, o = judge_region(g, eff, pos, vel, elev, npts, case["probes"], what, ev)
        tot_in += i
        tot_out += o
        if g.geom_type == "MultiPolygon":
            ev.label("split")
        if g.bounds[3] > 89.99 or g.bounds[1] < -89.99:
            ev.label("pole")
    ev.nontrivial(tot_in > 0 and tot_out > 0)


def limb_strategy():
    return st.fixed_dictionaries(
        {
            "orbit": orbits(),
            "at": st.integers(-20000, 80000),
            "n": pick(1, 3),
            "list": st.booleans(),
            "step": pick(60, 900),
            "np": pick(None, 33, 64, 128, 257),
            "elev": pick(None, 0.0, 3000.0),
            "probes": st.lists(
                st.tuples(st.one_of(fl(0, 1.6, n=2000), fl(0.8, 1.2, n=2000)), fl(0, 6.2831, n=2000)), min_size=12, max_size=30
            ),
        }
    )


def limb_body(case, ev):
    from tatc.utils import compute_limb

    track, _, times = track_of(case, case["n"])
    kw = {}
    if case["np"] is not None:
        kw["number_points"] = case["np"]
    if case["elev"] is not None:
        kw["elevation"] = case["elev"]
    elev = case["elev"] or 0.0
    npts = case["np"] or 16
    gs = compute_limb(track, **kw)
    gs = [gs] if not isinstance(gs, list) else gs
    check(len(gs) == len(times), f"{len(gs)} limbs for {len(times)} times")
    n_in = n_out = 0
    for k, ((pos, _), g) in enumerate(zip(states(track), gs)):
        check_geometry(g, elev, f"limb {k}")
        if g.geom_type == "Polygon" and max(abs(g.bounds[1]), g.bounds[3]) < 85 and max(abs(g.bounds[0]), g.bounds[2]) < 179:
            check(len(g.exterior.coords) in (npts, npts + 1), f"limb {k}: {len(g.exterior.coords)} border points, requested {npts}")
        up = pos / np.linalg.norm(pos)
        lam = math.acos(ref.R_E / np.linalg.norm(pos))
        # chord error of the inscribed polygon, with a margin for flattening
        sag = lam * (1 - math.cos(math.pi / (npts - 1))) + 0.006
        # edges are straight in longitude and latitude, which bends them near the poles
        spacing = 2 * math.pi / (npts - 1) * math.sin(lam)
        far = max(abs(g.bounds[1]), g.bounds[3]) < 70
        slack = 1.5 * sag + 0.25 * spacing if far else max(sag, 0.75 * spacing)
        e1 = np.cross(up, [0, 0, 1.0] if abs(up[2]) < 0.9 else [1.0, 0, 0])
        e1 /= np.linalg.norm(e1)
        e2 = np.cross(up, e1)
        for f, ang in case["probes"]:
            c = f * lam
            if abs(c - lam) < slack or c > math.pi - lam:
                continue
            u = up * math.cos(c) + (e1 * math.cos(ang) + e2 * math.sin(ang)) * math.sin(c)
            p, _ = intersect(u * 1e8, -u, elev)
            want = visible(pos, p, elev)
            la, lo = to_geo(p)
            got = g.intersects(SP(lo, la))
            check(got == want, f"limb {k}: ground point lat {la:.4f} lon {lo:.4f} (central angle {f:.3f} of the horizon) {'visible' if want else 'hidden'} but {'in' if got else 'not in'} the limb")
            n_in += want
            n_out += not want
        if g.geom_type == "MultiPolygon":
            ev.label("split")
    ev.nontrivial(n_in > 0 and n_out > 0)


SUBS = [
    Sub("footprint", strategy, body, quick=1000),
    Sub("limb", limb_strategy, limb_body, quick=400),
]
