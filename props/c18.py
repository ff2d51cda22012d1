"""C18: orbital-mechanics utilities satisfy Kepler's laws and invert each other."""

import math

from hypothesis import strategies as st

from lib import ref
from lib.gen import fl
from lib.harness import Sub, check

RULE = "anomaly: non-zero eccentricity and angle; kinematics: non-polar inclination; samples: more than one sample"
ASSUMPTIONS = ["spherical mean-radius Earth, two-body motion, as documented"]

ECC = st.one_of(fl(0, 0.2), fl(0, 0.95, 0.0, 0.5, 0.74, 0.9), st.integers(0, 1000).map(lambda k: k * 1e-7))


def anomaly_strategy():
    return st.fixed_dictionaries(
        {
            "x": st.one_of(fl(0, 360, 0.0, 180.0, 179.999, 360.0), fl(-720, 720), fl(-2, 2)),
            "dx": fl(0.001, 20),
            "e": ECC,
        }
    )


def kepler_m(nu_deg, e):
    """Mean anomaly (deg, same revolution) by definition."""
    turns = math.floor((nu_deg + 180) / 360)
    nu = math.radians(nu_deg - 360 * turns)
    x = 2 * math.atan2(math.sqrt(1 - e) * math.sin(nu / 2), math.sqrt(1 + e) * math.cos(nu / 2))
    return math.degrees(x - e * math.sin(x)) + 360 * turns


def anomaly_body(case, ev):
    from tatc import utils as U

    x, e = case["x"], case["e"]
    m = float(U.true_anomaly_to_mean_anomaly(x, e))
    check(math.isfinite(m), f"mean anomaly {m}")
    check(ref.ang_close(m, kepler_m(x, e), 1e-7), f"true anomaly {x}, e {e}: mean anomaly {m}, Kepler {kepler_m(x, e)}")
    nu = float(U.mean_anomaly_to_true_anomaly(x, e))
    check(
        ref.ang_close(kepler_m(nu, e), x, 1e-6),
        f"mean anomaly {x}, e {e}: true anomaly {nu} has mean anomaly {kepler_m(nu, e)}",
    )
    back = float(U.mean_anomaly_to_true_anomaly(m, e))
    check(ref.ang_close(back, x, 1e-5), f"true anomaly {x} -> {m} -> {back} (e {e})")
    back = float(U.true_anomaly_to_mean_anomaly(nu, e))
    check(ref.ang_close(back, x, 1e-5), f"mean anomaly {x} -> {nu} -> {back} (e {e})")
    if e == 0:
        check(ref.ang_close(m, x, 1e-9) and ref.ang_close(nu, x, 1e-9), "anomalies differ on a circle")
        check(
            ref.ang_close(float(U.true_anomaly_to_mean_anomaly(x)), x, 1e-9)
            and ref.ang_close(float(U.mean_anomaly_to_true_anomaly(x)), x, 1e-9),
            "default eccentricity is not zero",
        )
    # monotone in the anomaly
    m2 = float(U.true_anomaly_to_mean_anomaly(x + case["dx"], e))
    step = (m2 - m) % 360
    check(0 < step < 360 - 1e-9, f"mean anomaly not increasing from {x} to {x + case['dx']}")
    check(abs(step - (kepler_m(x + case["dx"], e) - kepler_m(x, e))) < 1e-6, f"step {step}")
    ev.nontrivial(e > 0 and x % 180 != 0)


def kin_strategy():
    return st.fixed_dictionaries(
        {
            "alt": st.one_of(fl(150e3, 2000e3), fl(2000e3, 40000e3, 20200e3, 35786e3)),
            "inc": fl(0, 180, 0.0, 90.0, 180.0, 98.0, 51.6),
            "el": fl(0, 90, 0.0, 5.0, 89.9),
            "d": st.one_of(fl(0, 3e6, 0.0), fl(0, 1000)),
        }
    )


def kin_body(case, ev):
    from tatc import utils as U

    a = ref.R_E + case["alt"]
    n = math.sqrt(ref.MU / a**3)
    p = float(U.compute_orbit_period(case["alt"]))
    check(abs(p * n / (2 * math.pi) - 1) < 1e-9, f"period {p} at {case['alt']} m, Kepler {2 * math.pi / n}")
    v = float(U.compute_ground_velocity(case["alt"], case["inc"]))
    exp = ref.R_E * (n - 2 * math.pi / ref.SIDEREAL * math.cos(math.radians(case["inc"])))
    check(abs(v - exp) < 1e-6 * ref.R_E * n, f"ground velocity {v} != {exp} at {case['alt']} m, {case['inc']} deg")
    if abs(exp) > 1:
        t = float(U.along_track_distance_to_access_time(case["alt"], case["inc"], case["d"]))
        check(abs(t * exp - case["d"]) < 1e-6 * (1 + case["d"]), f"{case['d']} m takes {t} s at {exp} m/s")
        back = float(U.access_time_to_along_track_distance(case["alt"], case["inc"], t))
        check(abs(back - case["d"]) < 1e-6 * (1 + case["d"]), f"distance {case['d']} -> time {t} -> {back}")
    d = float(U.access_time_to_along_track_distance(case["alt"], case["inc"], case["d"] / 1000))
    check(abs(d - exp * case["d"] / 1000) < 1e-6 * (1 + abs(d)) + 1e-3, f"{case['d'] / 1000} s covers {d} m at {exp} m/s")
    # longest pass: bound by the half circle above the mask, never below the true overhead pass
    el = case["el"]
    mx = float(U.compute_max_access_time(case["alt"], el))
    check(
        abs(mx - 2 * math.pi / n * (180 - 2 * el) / 360) < 1e-6 * (1 + mx),
        f"maximum access time {mx} at {case['alt']} m above {el} deg",
    )
    eta = math.degrees(math.asin(ref.R_E / a * math.cos(math.radians(el))))
    overhead = 2 * (90 - el - eta) / 360 * 2 * math.pi / n
    check(mx >= overhead - 1e-6, f"maximum access time {mx} below an overhead pass of {overhead} s")
    ev.nontrivial(abs(case["inc"] - 90) > 1)


def samples_strategy():
    return st.fixed_dictionaries({"d": st.one_of(fl(5e3, 1e6), fl(1e6, 1.9e7), fl(100, 5e3))})


def samples_body(case, ev):
    from tatc import utils as U

    n = U.compute_number_samples(case["d"])
    check(n == int(n), f"{n} samples")
    cap = 2 * math.pi * ref.R_E**2 * (2 * math.sin(case["d"] / ref.R_E / 4) ** 2)
    area = 510065621724078.9  # WGS 84 surface area
    tol = 1e-6 + 2e-15 / (2 * math.sin(case["d"] / ref.R_E / 4) ** 2)  # 1 - cos in floats
    check(n * cap <= area * (1 + tol) and (n + 1) * cap >= area * (1 - tol), f"{n} samples at {case['d']} m: caps cover {n * cap / area}")
    ev.nontrivial(n > 1)


SUBS = [
    Sub("anomaly", anomaly_strategy, anomaly_body, quick=3000),
    Sub("kinematics", kin_strategy, kin_body, quick=2000),
    Sub("samples", samples_strategy, samples_body, quick=800),
]


def warm():
    from tatc import utils as U

    U.mean_anomaly_to_true_anomaly(10.0, 0.1)
    U.true_anomaly_to_mean_anomaly(10.0, 0.1)
    U.mean_anomaly_to_true_anomaly(10.0)
    U.true_anomaly_to_mean_anomaly(10.0)
    kin_body({"alt": 5e5, "inc": 10.0, "el": 3.0, "d": 10.0}, type("E", (), {"nontrivial": lambda s, x: None})())
