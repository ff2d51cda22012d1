"""C24: projected rays hit the Earth where the instrument points."""

import math
from datetime import timedelta

import numpy as np
from hypothesis import strategies as st
from skyfield.framelib import itrs

from lib import gen, ref
from lib.gen import fl, pick
from lib.harness import Sub, check
from props import c01

RULE = "the ray is off nadir by more than 1 degree, or misses the Earth"
ASSUMPTIONS = [
    "the ground is the ellipsoid with both semi-axes raised by the elevation",
    "rays within 0.2 % of grazing are not judged; roll/pitch within 80 degrees of nadir",
    "ray = nadir + tan(pitch) v + tan(roll) n + field-of-view offset, n = v x nadir, v the Earth-fixed velocity",
]


def orbits():
    return st.one_of(
        c01.leo_orbit(),
        gen.circular(alt=fl(2000e3, 40000e3)),
        gen.keplerian(alt=fl(7000e3, 20000e3), ecc=fl(0, 0.4)),
    )


def track_of(case, n=1):
    """(track, lines, times) for a case with orbit/at/step."""
    c01.no_repeat()
    tle = c01.make_orbit(case["orbit"]).to_tle()
    t0 = tle.get_epoch() + timedelta(seconds=case["at"])
    times = [t0 + timedelta(seconds=k * case.get("step", 60)) for k in range(n)]
    return tle.get_orbit_track(times if n > 1 or case.get("list") else times[0]), tle.tle, times


def states(track):
    p, v = track.frame_xyz_and_velocity(itrs)
    p, v = p.m, v.m_per_s
    if p.ndim == 1:
        return [(p, v)]
    return [(p[:, k], v[:, k]) for k in range(p.shape[1])]


def intersect(pos, ray, elev):
    """(first point, s) on the raised ellipsoid or (None, closeness)."""
    a, b = ref.A_E + elev, ref.B_E + elev
    sc = np.array([1 / a, 1 / a, 1 / b])
    p, d = pos * sc, ray * sc
    A, B, C = d @ d, p @ d, p @ p - 1
    disc = B * B - A * C
    if B >= 0:
        return None, -1.0
    if disc < 0:
        return None, disc / (B * B)
    return pos + ray * ((-B - math.sqrt(disc)) / A), disc / (B * B)


def fov_offset(case, angle):
    """tan offsets along n and v of the edge of the view at the clock angle."""
    tc = math.tan(math.radians(case["cross"] / 2))
    ta = math.tan(math.radians(case["along"] / 2))
    if not case["rect"]:
        return tc * math.cos(angle), ta * math.sin(angle)
    # ray from the centre at the clock angle to the rectangle border
    c, s = math.cos(angle), math.sin(angle)
    k = min(tc / abs(c) if abs(c) > 1e-12 else 1e18, ta / abs(s) if abs(s) > 1e-12 else 1e18)
    return k * c, k * s


def strategy():
    return st.fixed_dictionaries(
        {
            "orbit": orbits(),
            "at": st.integers(-20000, 80000),
            "n": pick(1, 1, 2, 4),
            "list": st.booleans(),
            "step": pick(30, 600),
            "cross": st.one_of(fl(0.01, 60), fl(0.01, 170)),
            "along": st.one_of(fl(0.01, 60), fl(0.01, 170)),
            "roll": st.one_of(st.just(0.0), fl(-80, 80), fl(-30, 30)),
            "pitch": st.one_of(st.just(0.0), fl(-80, 80), fl(-30, 30)),
            "rect": st.booleans(),
            "angle": fl(0, 6.283185, 0.0, math.pi / 2, math.pi, 3 * math.pi / 2),
            "elev": st.one_of(st.just(0.0), fl(-400, 9000)),
        }
    )


def lat_lon_h(g):
    la = np.atleast_1d(g.latitude.degrees)
    lo = np.atleast_1d(g.longitude.degrees)
    h = np.atleast_1d(g.elevation.m)
    return list(zip(map(float, la), map(float, lo), map(float, h)))


def judge(pos, vel, ray, got, elev, what, ev):
    la, lo, h = got
    check(math.isfinite(la) and math.isfinite(lo) and math.isfinite(h), f"{what}: position {got}")
    check(-90 <= la <= 90 and -180 <= lo <= 180, f"{what}: position {got} out of range")
    p = ref.ecef(la, lo, h)
    check(abs(h - elev) < 0.01 * abs(elev) + 25 + 1e-3, f"{what}: height {h} for elevation {elev}")
    exp, q = intersect(pos, ray, elev)
    if exp is not None and q > 0.002:
        err = float(np.linalg.norm(p - exp))
        # skyfield rounds nothing; spice works in doubles
        check(err < 5 + 1e-6 * np.linalg.norm(pos), f"{what}: {err:.1f} m from where the ray meets the ground (q={q:.4f})")
        off = math.degrees(math.acos(min(1, float(-(pos @ ray) / np.linalg.norm(pos) / np.linalg.norm(ray)))))
        ev.nontrivial(off > 1)
        ev.label("hit")
        return
    if exp is None and (q < -0.002):
        # limb point: on the ground, tangent to it, in the vertical plane of the ray, on its side
        a, b = ref.A_E + elev, ref.B_E + elev
        grad = p / np.array([a * a, a * a, b * b])
        check(abs(float(p @ grad) - 1) < 1e-5, f"{what}: limb point not on the ground")
        los = p - pos
        s = abs(float(los @ grad)) / np.linalg.norm(los) / np.linalg.norm(grad)
        check(s < 2e-3, f"{what}: limb point not on the limb (elevation angle {math.degrees(math.asin(s)):.3f})")
        up = pos / np.linalg.norm(pos)
        hr = ray - (ray @ up) * up
        hp = p - (p @ up) * up
        cosang = float(hr @ hp) / np.linalg.norm(hr) / np.linalg.norm(hp)
        check(cosang > 1 - 1e-4, f"{what}: limb point at azimuth {math.degrees(math.acos(max(-1, min(1, cosang)))):.2f} deg from the ray")
        ev.nontrivial()
        ev.label("limb")


def body(case, ev):
    from tatc.utils import compute_projected_ray_position

    track, _, times = track_of(case, case["n"])
    # arguments at their documented defaults are left out
    opt = {"roll_angle": case["roll"], "pitch_angle": case["pitch"], "is_rectangular": case["rect"], "angle": case["angle"], "elevation": case["elev"]}
    opt = {k: v for k, v in opt.items() if v}
    got = lat_lon_h(compute_projected_ray_position(track, case["cross"], case["along"], **opt))
    check(len(got) == len(times), f"{len(got)} positions for {len(times)} times")
    x, y = fov_offset(case, case["angle"])
    for (pos, vel), g in zip(states(track), got):
        v, b, n = ref.lvlh(pos, vel)
        ray = b + v * (y + math.tan(math.radians(case["pitch"]))) + n * (x + math.tan(math.radians(case["roll"])))
        judge(pos, vel, ray, g, case["elev"], f"ray {case['angle']:.3f}", ev)
    if case["n"] > 1:
        ev.label("array")


def center_strategy():
    return st.fixed_dictionaries(
        {
            "orbit": orbits(),
            "at": st.integers(-20000, 80000),
            "n": pick(1, 3),
            "list": st.booleans(),
            "roll": st.one_of(st.just(0.0), fl(-70, 70)),
            "pitch": st.one_of(st.just(0.0), fl(-70, 70)),
            "elev": pick(0.0, 2500.0, None),
            "pointed": st.booleans(),
        }
    )


def center_body(case, ev):
    from tatc.schemas import Instrument, PointedInstrument

    track, _, times = track_of(case, case["n"])
    if case["pointed"]:
        ins = PointedInstrument(
            name="p",
            cross_track_field_of_view=10,
            along_track_field_of_view=20,
            roll_angle=case["roll"],
            pitch_angle=case["pitch"],
            is_rectangular=True,
        )
        r, p = case["roll"], case["pitch"]
    else:
        ins = Instrument(name="i", field_of_regard=70)
        r = p = 0.0
    kw = {} if case["elev"] is None else {"elevation": case["elev"]}
    got = lat_lon_h(ins.compute_footprint_center(track, **kw))
    check(len(got) == len(times), f"{len(got)} centres for {len(times)} times")
    for (pos, vel), g in zip(states(track), got):
        v, b, n = ref.lvlh(pos, vel)
        ray = b + v * math.tan(math.radians(p)) + n * math.tan(math.radians(r))
        judge(pos, vel, ray, g, case["elev"] or 0.0, "footprint centre", ev)


SUBS = [
    Sub("ray", strategy, body, quick=2000),
    Sub("center", center_strategy, center_body, quick=600),
]
