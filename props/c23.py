"""C23: streets-of-coverage constellations have enough planes and satellites per plane."""

import math
from collections import Counter

from hypothesis import strategies as st
from pydantic import ValidationError

from lib import gen, ref
from lib.gen import fl, pick
from lib.harness import Sub, check
from props.c01 import TZ
from props.c20 import NAME, common, elements, instruments, match

RULE = "two or more planes"
ASSUMPTIONS = [
    "footprint radius R sin(swath / 2R); centres in a plane at most packing x diameter apart, planes at most sqrt(3)/2 of that (Anderson et al. 2022)",
    "swaths within the horizon; counts within 1e-9 of an integer ratio may be one more",
]


def strategy():
    return st.fixed_dictionaries(
        {
            "name": NAME,
            "orbit": gen.circular(alt=st.one_of(fl(900e3, 4000e3), fl(4000e3, 20000e3), fl(300e3, 900e3))),
            "tz": pick("utc", "pst"),
            "ins": instruments(),
            "u": fl(0.3, 0.98),
            "pack": fl(0.5, 1.0, 1.0),
        }
    )


def body(case, ev):
    from tatc.schemas import CircularOrbit, SOCConstellation

    d = dict(case["orbit"])
    d["epoch"] = gen.ts(d["epoch"]).astimezone(TZ[case["tz"]])
    orbit = CircularOrbit(**d)
    ins = [gen.build_instrument(i) for i in case["ins"]]
    horizon = math.acos(ref.R_E / (ref.R_E + d["altitude"]))
    gamma = case["u"] * horizon
    swath = 2 * ref.R_E * gamma
    # expected counts straight from the central angle
    f = 2 * math.asin(math.sin(gamma) * case["pack"])
    p = 2 * math.asin(math.sqrt(3) / 2 * math.sin(gamma) * case["pack"])
    per_x, planes_x = 2 * math.pi / f, 2 * math.pi / p
    if per_x * planes_x > 900:
        ev.label("skipped_large")
        return
    c = SOCConstellation(
        name=case["name"], orbit=orbit, instruments=ins, swath_width=swath, packing_distance=case["pack"]
    )
    base = elements(orbit)
    members = c.generate_members()
    opts = [
        (a, b)
        for a in {math.ceil(per_x - 1e-6), math.ceil(per_x + 1e-6)}
        for b in {math.ceil(planes_x - 1e-6), math.ceil(planes_x + 1e-6)}
    ]
    n = len(members)
    check(any(a * b == n for a, b in opts), f"{n} satellites; expected {opts[0][1]} planes of {opts[0][0]}")
    per, planes = [o for o in opts if o[0] * o[1] == n][0]
    common(case, members, base, n, orbit, ins)
    exp = [
        (base["raan"] + k * 360 / planes, base["ma"] + j * 360 / per)
        for k in range(planes)
        for j in range(per)
    ]
    got = []
    for m in members:
        e = elements(m.orbit)
        got.append((e["raan"], e["ma"]))
        for key in ("inc", "argp"):
            check(ref.ang_close(e[key], base[key], 2e-4), f"{m.name}: {key} {e[key]} != {base[key]}")
        check(e["ecc"] == base["ecc"] and e["epoch"] == base["epoch"] and abs(e["mm"] - base["mm"]) < 2e-8, f"{m.name}: {e} vs {base}")
    match(exp, got, f"{planes} planes of {per}")
    # consequence: neighbouring footprint centres are as close as requested
    r_foot = ref.R_E * math.sin(gamma)
    check(2 * ref.R_E * math.sin(math.pi / per) <= 2 * r_foot * case["pack"] * (1 + 1e-6), "in-plane spacing too wide")
    check(2 * ref.R_E * math.sin(math.pi / planes) <= math.sqrt(3) * r_foot * case["pack"] * (1 + 1e-6), "plane spacing too wide")
    ev.nontrivial(planes > 1)
    ev.label(f"planes_{min(planes // 5 * 5, 30)}")


def bad_strategy():
    return st.fixed_dictionaries(
        {"s": pick(-1.0, 0.0, 1e6), "p": pick(-0.5, 0.0, 0.7, 1.0, 1.0001, 2.0)}
    )


def bad_body(case, ev):
    from tatc.schemas import CircularOrbit, SOCConstellation

    ok = case["s"] > 0 and 0 < case["p"] <= 1
    try:
        SOCConstellation(
            name="m",
            orbit=CircularOrbit(altitude=500e3, epoch=gen.BASE),
            swath_width=case["s"],
            packing_distance=case["p"],
        )
        got = True
    except ValidationError:
        got = False
    check(got == ok, f"{case}: {'accepted' if got else 'rejected'}")
    ev.nontrivial(not ok)


SUBS = [
    Sub("pattern", strategy, body, quick=400),
    Sub("reject", bad_strategy, bad_body, quick=40, shards=2),
]
