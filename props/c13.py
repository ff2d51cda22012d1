"""C13: a derived orbit shifts mean anomaly and RAAN, and nothing else."""

from hypothesis import strategies as st

from lib import gen, ref
from lib.gen import fl, pick
from lib.harness import Sub, check
from props import c12
from props.c01 import TZ

RULE = "at least one shift is not a multiple of 360 degrees"
ASSUMPTIONS = ["compared at TLE resolution; catalog identity fields of a derived TLE are not specified"]

SHIFT = st.one_of(
    fl(-720, 720, 0.0, 360.0, -360.0, 180.0, -1e-9), pick(0.0, 90.0, -1e-14, 1e-12, 359.99999)
)


def strategy():
    return st.fixed_dictionaries(
        {"base": c12.strategy(), "dm": SHIFT, "dr": SHIFT}
    )


def elements(lines, k=0):
    l1, l2 = lines[2 * k], lines[2 * k + 1]
    return {
        "epoch": l1[18:32],
        "ndot": l1[33:43],
        "nddot": l1[44:52],
        "bstar": l1[53:61],
        "inc": float(l2[8:16]),
        "raan": float(l2[17:25]),
        "ecc": float("0." + l2[26:33]),
        "argp": float(l2[34:42]),
        "ma": float(l2[43:51]),
        "mm": float(l2[52:63]),
    }


def compare(a, b, dm, dr, what):
    check(abs(a["inc"] - b["inc"]) < 1.1e-4, f"{what}: inclination {a['inc']} -> {b['inc']}")
    check(abs(a["ecc"] - b["ecc"]) < 2e-7, f"{what}: eccentricity {a['ecc']} -> {b['ecc']}")
    check(abs(a["mm"] - b["mm"]) < 3e-8, f"{what}: mean motion {a['mm']} -> {b['mm']}")
    check(ref.ang_close(a["argp"], b["argp"], 1.1e-4), f"{what}: argument of perigee changed")
    check(
        abs(float(a["epoch"]) - float(b["epoch"])) < 2.1e-8,
        f"{what}: epoch {a['epoch']} -> {b['epoch']}",
    )
    check(
        ref.ang_close(b["ma"], a["ma"] + dm, 2.5e-4),
        f"{what}: mean anomaly {a['ma']} + {dm} -> {b['ma']}",
    )
    check(
        ref.ang_close(b["raan"], a["raan"] + dr, 2.5e-4), f"{what}: raan {a['raan']} + {dr} -> {b['raan']}"
    )


def body(case, ev):
    d = dict(case["base"]["orbit"])
    d["epoch"] = gen.ts(d["epoch"]).astimezone(TZ[case["base"]["tz"]])
    n, e, _ = c12.spec(d)
    if e < 0:
        return
    o = gen.build_orbit(d)
    dump = o.model_dump()
    if d["type"] == "sso" and case["dm"] >= 0:
        o.to_tle()  # with and without a cached conversion
    lead = list(o.to_tle(lazy_load=False).tle)
    new = o.get_derived_orbit(case["dm"], case["dr"])
    compare(elements(lead), elements(list(new.to_tle().tle)), case["dm"], case["dr"], d["type"])
    check(o.model_dump() == dump, "the lead orbit changed")
    check(new is not o, "the lead orbit itself is returned")
    if d["type"] != "sso":
        check(type(new) is type(o), f"derived orbit is a {type(new).__name__}")
    ev.label(d["type"])
    ev.nontrivial(case["dm"] % 360 != 0 or case["dr"] % 360 != 0)


def tle_strategy():
    return st.fixed_dictionaries(
        {
            "f": st.lists(gen.tle_fields(ecc=st.integers(0, 7000000)), min_size=1, max_size=6),
            "dm": SHIFT,
            "dr": SHIFT,
        }
    )


def tle_body(case, ev):
    from tatc.schemas import TwoLineElements

    fs = sorted(case["f"], key=lambda f: gen.ts(f["epoch"]))
    lines = [x for f in fs for x in gen.format_tle(f)]
    o = TwoLineElements(tle=lines)
    new = o.get_derived_orbit(case["dm"], case["dr"])
    check(o.tle == lines, "the lead TLE changed")
    check(new.get_tle_count() == len(fs), f"{new.get_tle_count()} element sets, expected {len(fs)}")
    for k in range(len(fs)):
        a, b = elements(lines, k), elements(list(new.tle), k)
        compare(a, b, case["dm"], case["dr"], f"tle {k}")
        for get, rel in (
            ("get_b_star", 1e-4),
            ("get_first_derivative_mean_motion", 1e-4),
            ("get_second_derivative_mean_motion", 1e-3),
        ):
            x, y = getattr(o, get)(k), getattr(new, get)(k)
            check(abs(x - y) <= rel * abs(x) + 1.1e-8, f"tle {k}: {get} {x} -> {y}")
        bx, by = o.get_b_star(k), new.get_b_star(k)
        check(abs(bx - by) <= 1e-3 * abs(bx) + 1e-12, f"tle {k}: b* {bx} -> {by}")
    ev.nontrivial(case["dm"] % 360 != 0 or case["dr"] % 360 != 0)
    if len(fs) > 1:
        ev.label("multi")


SUBS = [Sub("specs", strategy, body, quick=2000), Sub("tle", tle_strategy, tle_body, quick=1200)]
