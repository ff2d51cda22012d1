"""C22: mutual orbiting groups follow their relative ellipse around the reference orbit."""

import math

import numpy as np
from hypothesis import strategies as st
from pydantic import ValidationError

from lib import gen, ref
from lib.gen import fl, pick
from lib.harness import Sub, check
from props.c01 import TZ
from props.c20 import NAME, common, elements, instruments

RULE = "two or more satellites"
ASSUMPTIONS = [
    "two-body motion of the specified orbits; axes are full lengths; second-order terms in (axis / radius) are allowed for",
    "sense of motion as seen from above, looking at the Earth",
]


def strategy():
    return st.fixed_dictionaries(
        {
            "name": NAME,
            "orbit": gen.circular(
                alt=fl(300e3, 2000e3), inc=st.one_of(fl(2, 178, 50.0, 90.0, 98.0), pick(0.0, 45.0))
            ),
            "tz": pick("utc", "pst"),
            "ins": instruments(),
            "parallel": st.one_of(fl(1e3, 50e3), fl(20e3, 400e3), fl(200e3, 1200e3)),
            "transverse": st.one_of(fl(1e3, 50e3), fl(20e3, 400e3)),
            "clockwise": pick(True, False, None),
            "n": st.one_of(st.integers(1, 6), pick(None, 12)),
        }
    )


def two_body(o, u):
    """Inertial positions at reference phase u (rad) after the epoch, from the elements."""
    e = getattr(o, "eccentricity", 0.0)
    a = ref.R_E + o.altitude
    nu = math.radians(o.true_anomaly)
    x0 = 2 * math.atan2(math.sqrt(1 - e) * math.sin(nu / 2), math.sqrt(1 + e) * math.cos(nu / 2))
    m = x0 - e * math.sin(x0) + u
    x = m + e * np.sin(m)
    for _ in range(30):
        x = x - (x - e * np.sin(x) - m) / (1 - e * np.cos(x))
    p, q = a * (np.cos(x) - e), a * math.sqrt(1 - e * e) * np.sin(x)
    w, om, i = (
        math.radians(getattr(o, "perigee_argument", 0.0)),
        math.radians(o.right_ascension_ascending_node),
        math.radians(o.inclination),
    )
    p, q = math.cos(w) * p - math.sin(w) * q, math.sin(w) * p + math.cos(w) * q
    return np.stack(
        [
            math.cos(om) * p - math.sin(om) * math.cos(i) * q,
            math.sin(om) * p + math.cos(om) * math.cos(i) * q,
            math.sin(i) * q,
        ]
    )


def body(case, ev):
    from tatc.schemas import CircularOrbit, MOGConstellation

    d = dict(case["orbit"])
    d["epoch"] = gen.ts(d["epoch"]).astimezone(TZ[case["tz"]])
    orbit = CircularOrbit(**d)
    ins = [gen.build_instrument(i) for i in case["ins"]]
    kw = {}
    if case["clockwise"] is not None:
        kw["clockwise"] = case["clockwise"]
    if case["n"] is not None:
        kw["number_satellites"] = case["n"]
    n = case["n"] or 2
    c = MOGConstellation(
        name=case["name"],
        orbit=orbit,
        instruments=ins,
        parallel_axis=case["parallel"],
        transverse_axis=case["transverse"],
        **kw,
    )
    base = elements(orbit)
    members = c.generate_members()
    common(case, members, base, n, orbit, ins)
    a = ref.R_E + d["altitude"]
    u = np.linspace(0, 2 * np.pi, 145)
    r0 = two_body(orbit, u)
    rh = r0 / np.linalg.norm(r0, axis=0)
    eps = 1e-4
    v0 = (two_body(orbit, u + eps) - two_body(orbit, u - eps)) / (2 * eps)
    h = np.cross(r0.T, v0.T).T
    h /= np.linalg.norm(h, axis=0)
    s = np.cross(h.T, rh.T).T
    size = max(case["parallel"], case["transverse"])
    slack = 2.0 * size**2 / a + 5.0  # second-order terms
    sense = -1 if case["clockwise"] is not False else 1
    starts = []
    for m in members:
        check(m.orbit.epoch == orbit.epoch, f"{m.name}: epoch {m.orbit.epoch}")
        e = elements(m.orbit)
        check(abs(e["mm"] - base["mm"]) < 2e-8, f"{m.name}: mean motion {e['mm']} != {base['mm']}")
        rel = two_body(m.orbit, u) - r0
        al, ct, ra = (rel * s).sum(0), (rel * h).sum(0), (rel * rh).sum(0)
        check(
            abs(np.ptp(al) - case["parallel"]) < slack and abs(al.max() + al.min()) < 2 * slack,
            f"{m.name}: along-track motion {al.min():.1f}..{al.max():.1f} m, axis {case['parallel']} (slack {slack:.1f})",
        )
        # mirror symmetry about the plane normal to the line of nodes: the along-track
        # offset is odd in time, so that its mean over a revolution vanishes exactly
        check(
            abs(al[:-1].mean()) < 2.0 + 2e-5 * size,
            f"{m.name}: along-track motion not centred on the reference (mean offset {al[:-1].mean():.1f} m)",
        )
        check(
            abs(np.ptp(ct) - case["transverse"]) < 5.0 + 1e-3 * case["transverse"] + case["transverse"] ** 3 / a**2 and abs(ct.max() + ct.min()) < 2 * slack,
            f"{m.name}: cross-track motion {ct.min():.1f}..{ct.max():.1f} m, axis {case['transverse']} (slack {slack:.1f})",
        )
        check(
            abs(np.ptp(ra) - case["parallel"] / 2) < slack,
            f"{m.name}: radial motion {ra.min():.1f}..{ra.max():.1f} m for a parallel axis of {case['parallel']}",
        )
        # phase on the ellipse, seen from above: x to the right of motion, y forward
        ph = np.unwrap(np.arctan2(al / case["parallel"], -ct / case["transverse"]))
        turn = ph[-1] - ph[0]
        check(abs(turn - sense * 2 * np.pi) < 0.05, f"{m.name}: turns {turn} rad per revolution, clockwise={case['clockwise']}")
        rad = np.hypot(al / (case["parallel"] / 2), ct / (case["transverse"] / 2))
        k = slack / (min(case["parallel"], case["transverse"]) / 2)
        if k < 0.3:
            check(abs(rad - 1).max() < k + 0.01, f"{m.name}: relative path is not the ellipse (radius {rad.min()}..{rad.max()})")
            starts.append(math.degrees(ph[0]))
    if len(starts) == n and n > 1:
        ev.label("phases")
        tol = math.degrees(min(0.5, 2 * slack / (min(case["parallel"], case["transverse"]) / 2))) + 0.5
        srt = sorted(x % 360 for x in starts)
        gaps = [(b - a_) % 360 for a_, b in zip(srt, srt[1:] + srt[:1])]
        if tol < 180 / n:
            check(all(abs(g - 360 / n) < tol for g in gaps), f"phases not even: {srt}")
    ev.nontrivial(n > 1)


def bad_strategy():
    return st.fixed_dictionaries(
        {"n": st.integers(-2, 3), "p": pick(-1.0, 0.0, 1000.0), "t": pick(-1.0, 0.0, 1000.0)}
    )


def bad_body(case, ev):
    from tatc.schemas import CircularOrbit, MOGConstellation

    ok = case["n"] > 0 and case["p"] > 0 and case["t"] > 0
    try:
        MOGConstellation(
            name="m",
            orbit=CircularOrbit(altitude=500e3, epoch=gen.BASE),
            parallel_axis=case["p"],
            transverse_axis=case["t"],
            number_satellites=case["n"],
        )
        got = True
    except ValidationError:
        got = False
    check(got == ok, f"{case}: {'accepted' if got else 'rejected'}")
    ev.nontrivial(not ok)


SUBS = [
    Sub("ellipse", strategy, body, quick=600),
    Sub("reject", bad_strategy, bad_body, quick=60, shards=2),
]
