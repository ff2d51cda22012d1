"""C12: every orbit specification converts to the TLE that encodes it."""

import math
from datetime import timedelta

from hypothesis import strategies as st

from lib import gen, ref
from lib.gen import fl, pick
from lib.harness import Sub, check
from props.c01 import TZ

RULE = "the orbit has a non-zero true anomaly or eccentricity"
ASSUMPTIONS = [
    "TLE resolution: 1e-4 deg, 1e-7 eccentricity, 1e-8 rev/day, 1 ms epoch",
    "altitude is the semimajor axis minus the mean Earth radius, except for Molniya orbits (perigee altitude, given period)",
]


def strategy():
    common = {
        "true_anomaly": fl(0, 359.999, 0.0, 180.0, 359.99999),
        "epoch": gen.epochs(),
        "inclination": fl(0, 179.99, 0.0, 90.0, 63.4),
        "right_ascension_ascending_node": fl(0, 359.999, 0.0, 359.99999),
        "perigee_argument": fl(0, 359.999, 0.0, 270.0),
    }
    return st.fixed_dictionaries(
        {
            "orbit": st.one_of(
                gen.circular(alt=fl(250e3, 42000e3, 35786e3)),
                gen.keplerian(alt=fl(300e3, 42000e3), ecc=fl(0, 0.85, 0.0, 0.7)),
                gen.sso(alt=fl(250e3, 5900e3)),
                st.fixed_dictionaries(
                    {
                        "type": st.just("molniya"),
                        "altitude": fl(200e3, 5000e3),
                        "orbital_period": fl(20000, 90000, 43080.0, 43200.0),
                        **common,
                    }
                ),
                st.fixed_dictionaries(
                    {
                        "type": st.just("tundra"),
                        "altitude": fl(200e3, 30000e3),
                        "orbital_period": fl(20000, 90000, 86400.0, 86164.0),
                        "eccentricity": fl(0, 0.7, 0.2),
                        **common,
                    }
                ),
            ),
            "tz": pick("utc", "ist", "pst"),
        }
    )


def mean_anomaly(nu_deg, e):
    nu = math.radians(nu_deg)
    x = 2 * math.atan2(math.sqrt(1 - e) * math.sin(nu / 2), math.sqrt(1 + e) * math.cos(nu / 2))
    return math.degrees(x - e * math.sin(x)) % 360


def spec(d):
    """(mean motion rev/day, e, e_tol) by definition."""
    if d["type"] in ("molniya", "tundra"):
        period = d["orbital_period"]
        if d["type"] == "tundra":
            return 86400 / period, d["eccentricity"], 2e-7
        a = (ref.MU * (period / 2 / math.pi) ** 2) ** (1 / 3)
        return 86400 / period, 1 - (d["altitude"] + ref.A_E) / a, 2e-4
    a = ref.R_E + d["altitude"]
    n = math.sqrt(ref.MU / a**3) * 86400 / 2 / math.pi
    return n, d.get("eccentricity", 0.0), 2e-7


def body(case, ev):
    d = dict(case["orbit"])
    d["epoch"] = gen.ts(d["epoch"]).astimezone(TZ[case["tz"]])
    n, e, etol = spec(d)
    if e < 0:
        ev.label("skipped_negative_eccentricity")
        return
    o = gen.build_orbit(d)
    tle = o.to_tle()
    l1, l2 = tle.tle
    check(len(tle.tle) == 2 and len(l1) == 69 and len(l2) == 69, "not one two-line element set")
    inc = d.get("inclination")
    raan = d.get("right_ascension_ascending_node")
    if inc is not None:
        check(abs(float(l2[8:16]) - inc) < 1.1e-4, f"inclination {l2[8:16]} != {inc}")
        check(ref.ang_close(float(l2[17:25]), raan, 1.1e-4), f"raan {l2[17:25]} != {raan}")
    ecc = float("0." + l2[26:33])
    check(abs(ecc - e) < etol, f"eccentricity {ecc} != {e}")
    argp = d.get("perigee_argument", 0.0)
    check(ref.ang_close(float(l2[34:42]), argp, 1.1e-4), f"argument of perigee {l2[34:42]} != {argp}")
    ma = mean_anomaly(d["true_anomaly"], ecc if etol > 1e-5 else e)
    tol = 0.05 if etol > 1e-5 else 2e-4
    check(ref.ang_close(float(l2[43:51]), ma, tol), f"mean anomaly {l2[43:51]} != {ma} (nu={d['true_anomaly']}, e={e})")
    check(abs(float(l2[52:63]) - n) < 2e-8 + 1e-8 * n, f"mean motion {l2[52:63]} != {n}")
    dt = abs((tle.get_epoch() - d["epoch"]) / timedelta(seconds=1))
    check(dt < 2e-3, f"epoch {tle.get_epoch()} != {d['epoch']}")
    check(float(l1[33:43]) == 0 and int(l1[54:59].strip() or 0) == 0, f"drag terms appear: {l1}")
    check(o.to_tle().tle == tle.tle, "second conversion differs")
    check(o.to_tle(lazy_load=False).tle == tle.tle, "fresh conversion differs")
    # the specification's own accessors agree with the definition
    check(ref.ang_close(o.get_mean_anomaly(), ma, tol), f"get_mean_anomaly {o.get_mean_anomaly()} != {ma}")
    check(abs(o.get_mean_motion() - n) < 1e-6 * n, f"get_mean_motion {o.get_mean_motion()} != {n}")
    p = o.get_orbit_period() / timedelta(seconds=1)
    check(abs(p - 86400 / n) < 1e-3, f"period {p} != {86400 / n}")
    a = (ref.MU * (86400 / n / 2 / math.pi) ** 2) ** (1 / 3)
    check(abs(o.get_semimajor_axis() - a) < 3e-4 * a, f"semimajor axis {o.get_semimajor_axis()} != {a}")
    ev.nontrivial(d["true_anomaly"] != 0 or e != 0)
    ev.label(d["type"])


SUBS = [Sub("convert", strategy, body, quick=2500)]
