"""C19: viewing-geometry conversions agree with the Earth triangle and invert each other."""

import math

from hypothesis import strategies as st

from lib import ref
from lib.gen import fl
from lib.harness import Sub, check

RULE = "the edge of the view is inside the horizon and off nadir (so the triangle is not degenerate), or the field exceeds the horizon and must saturate"
ASSUMPTIONS = [
    "spherical mean-radius Earth, as documented",
    "swath widths beyond the horizon have no field of regard (not judged)",
]

ALT = st.one_of(fl(150e3, 2000e3, 705e3, 500e3), fl(2000e3, 40000e3, 35786e3))
ELEV = st.one_of(st.just(0.0), fl(-400, 8000, 0.0))


def strategy():
    return st.fixed_dictionaries(
        {
            "alt": ALT,
            "elev": ELEV,
            "for": st.one_of(fl(0.01, 180, 180.0, 90.0), fl(180, 360, 360.0), fl(0.001, 2)),
            "el": fl(0, 90, 0.0, 5.0, 89.0),
            "u": fl(0.0001, 0.999, n=10**5),
            "look": fl(-0.98, 0.98, 0.0, n=10**5),
            "w": fl(0.0001, 0.95, n=10**5),
        }
    )


def nadir_of(lam, r, a):
    """Off-nadir angle (signed) of the ground point at central angle lam."""
    return math.atan2(r * math.sin(lam), a - r * math.cos(lam))


def elev_of(lam, r, a):
    """Elevation angle of the satellite at the ground point at central angle lam, vectors."""
    px, pz = r * math.sin(lam), r * math.cos(lam)
    dx, dz = -px, a - pz
    return math.asin((dx * px + dz * pz) / math.hypot(dx, dz) / r)


def solve_lambda(eta, r, a):
    """Central angle of the first ground point at off-nadir angle eta (bisection)."""
    lo, hi = 0.0, math.acos(r / a)
    if nadir_of(hi, r, a) <= eta:
        return hi
    for _ in range(100):
        mid = (lo + hi) / 2
        if nadir_of(mid, r, a) < eta:
            lo = mid
        else:
            hi = mid
    return (lo + hi) / 2


def body(case, ev):
    from tatc import utils as U
    from tatc.schemas import Instrument

    r, a = ref.R_E + case["elev"], ref.R_E + case["alt"]
    kw = {} if case["elev"] == 0 else {"elevation": case["elev"]}
    horizon = math.acos(r / a)
    eta_max = math.asin(r / a)
    eta = math.radians(min(case["for"], 180.0)) / 2
    lam = solve_lambda(eta, r, a)
    tight = eta > 0.999 * eta_max and eta < 1.001 * eta_max  # badly conditioned at the limb
    # field of regard -> swath width, minimum elevation angle
    sw = float(U.field_of_regard_to_swath_width(case["alt"], case["for"], **kw))
    tol = 1e-6 * (1 + 2 * r * lam) * (1e3 if tight else 1) + 0.05
    check(abs(sw - 2 * r * lam) < tol, f"field of regard {case['for']}: swath {sw}, triangle {2 * r * lam}")
    el = float(U.compute_min_elevation_angle(case["alt"], case["for"], **kw))
    exp_el = max(0.0, math.degrees(elev_of(lam, r, a)))
    check(abs(el - exp_el) < (0.2 if tight else 1e-4), f"field of regard {case['for']}: elevation {el}, triangle {exp_el}")
    if case["elev"] == 0:
        ins = Instrument(name="i", field_of_regard=case["for"])
        check(abs(ins.get_swath_width(case["alt"]) - sw) < 1e-6, "Instrument.get_swath_width differs")
        check(abs(ins.get_min_elevation_angle(case["alt"]) - el) < 1e-9, "Instrument.get_min_elevation_angle differs")
    if eta < 0.99 * eta_max:
        back = float(U.swath_width_to_field_of_regard(case["alt"], sw, **kw))
        check(abs(back - case["for"]) < 1e-6 * (1 + case["for"]), f"field of regard {case['for']} -> swath {sw} -> {back}")
        back = float(U.compute_field_of_regard(case["alt"], el, **kw))
        check(abs(back - case["for"]) < 1e-4, f"field of regard {case['for']} -> elevation {el} -> {back}")
        ev.nontrivial()
    elif eta > 1.01 * eta_max:
        ev.label("beyond_horizon")
        ev.nontrivial()
        check(abs(sw - 2 * r * horizon) < 1e-6 * sw + 0.05 and el == 0, f"beyond the horizon: swath {sw}, elevation {el}")
    # elevation angle -> field of regard
    fr = float(U.compute_field_of_regard(case["alt"], case["el"], **kw))
    eps = math.radians(case["el"])
    exp = 2 * math.degrees(math.asin(min(1.0, r / a * math.cos(eps))))
    check(abs(fr - exp) < 1e-7, f"elevation {case['el']}: field of regard {fr}, triangle {exp}")
    lam2 = math.pi / 2 - eps - math.radians(exp) / 2
    check(abs(math.degrees(elev_of(lam2, r, a)) - case["el"]) < 1e-5, "reference triangle")
    # swath width -> field of regard
    lam3 = case["u"] * horizon
    fr = float(U.swath_width_to_field_of_regard(case["alt"], 2 * r * lam3, **kw))
    exp = 2 * math.degrees(nadir_of(lam3, r, a))
    check(abs(fr - exp) < 1e-6 * (1 + exp), f"swath {2 * r * lam3}: field of regard {fr}, triangle {exp}")
    # swath width about an off-nadir centre -> field of view
    lam_c = case["look"] * horizon
    half = case["w"] * (horizon - abs(lam_c))
    look = math.degrees(nadir_of(lam_c, r, a))
    fv = float(U.swath_width_to_field_of_view(case["alt"], 2 * r * half, look, **kw))
    exp = math.degrees(nadir_of(lam_c + half, r, a) - nadir_of(lam_c - half, r, a))
    # near the limb the centre is badly determined by the look angle
    slack = 1e-6 * (1 + exp) + 1e-9 / max(1e-6, 1 - abs(case["look"]))
    check(abs(fv - exp) < slack, f"swath {2 * r * half} at look angle {look}: field of view {fv}, triangle {exp}")
    if case["look"] == 0:
        fr = float(U.swath_width_to_field_of_regard(case["alt"], 2 * r * half, **kw))
        check(abs(fr - fv) < 1e-6, "field of view and of regard differ at nadir")


def mono_strategy():
    return st.fixed_dictionaries(
        {"alt": ALT, "alt2": ALT, "a": fl(0.1, 180), "b": fl(0.1, 180), "elev": ELEV}
    )


def mono_body(case, ev):
    """A wider field sees a wider swath at a lower elevation angle; so does a higher satellite."""
    from tatc import utils as U

    a, b = sorted((case["a"], case["b"]))
    kw = {"elevation": case["elev"]}
    h, e = case["alt"], 1e-6
    check(
        U.field_of_regard_to_swath_width(h, a, **kw) <= U.field_of_regard_to_swath_width(h, b, **kw) + e,
        f"swath shrinks from field of regard {a} to {b} at {h} m",
    )
    check(
        U.compute_min_elevation_angle(h, a, **kw) >= U.compute_min_elevation_angle(h, b, **kw) - e,
        f"minimum elevation angle grows from field of regard {a} to {b} at {h} m",
    )
    lo, hi = sorted((case["alt"], case["alt2"]))
    check(
        U.field_of_regard_to_swath_width(lo, a, **kw) <= U.field_of_regard_to_swath_width(hi, a, **kw) + e,
        f"swath shrinks from altitude {lo} to {hi} at field of regard {a}",
    )
    ev.nontrivial(a < b and lo < hi)


def limb_strategy():
    return st.fixed_dictionaries(
        {"alt": ALT, "elev": ELEV, "eps": st.one_of(fl(0.02, 3, 0.05, n=10**5), fl(0.02, 0.5, n=10**5))}
    )


def limb_body(case, ev):
    """Fields whose edge is seen just above the horizon do not saturate yet."""
    from tatc import utils as U

    r, a = ref.R_E + case["elev"], ref.R_E + case["alt"]
    kw = {} if case["elev"] == 0 else {"elevation": case["elev"]}
    eps = math.radians(case["eps"])
    eta = math.asin(r / a * math.cos(eps))
    lam = math.pi / 2 - eps - eta
    field = 2 * math.degrees(eta)
    el = float(U.compute_min_elevation_angle(case["alt"], field, **kw))
    check(abs(el - case["eps"]) < 1e-5, f"field of regard {field}: elevation {el}, triangle {case['eps']}")
    sw = float(U.field_of_regard_to_swath_width(case["alt"], field, **kw))
    check(abs(sw - 2 * r * lam) < 1.0, f"field of regard {field}: swath {sw}, triangle {2 * r * lam}")
    back = float(U.compute_field_of_regard(case["alt"], case["eps"], **kw))
    check(abs(back - field) < 1e-7, f"elevation {case['eps']}: field of regard {back}, triangle {field}")
    back = float(U.swath_width_to_field_of_regard(case["alt"], 2 * r * lam, **kw))
    check(abs(back - field) < 1e-6, f"swath {2 * r * lam}: field of regard {back}, triangle {field}")
    ev.nontrivial()


SUBS = [
    Sub("limb", limb_strategy, limb_body, quick=1500),
    Sub("triangle", strategy, body, quick=3000),
    Sub("monotone", mono_strategy, mono_body, quick=1500),
]
