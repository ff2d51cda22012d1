"""C21: train constellations follow the leader by the interval."""

from datetime import timedelta

import numpy as np
from hypothesis import strategies as st
from pydantic import ValidationError

from lib import gen, ref
from lib.gen import pick
from lib.harness import Sub, check
from props.c20 import build_lead, common, elements, instruments, lead, NAME

RULE = "two or more satellites and a non-zero interval"
ASSUMPTIONS = [
    "the interval is one of local solar time: nodes shift by 360 degrees per solar day",
    "followers repeat the leader's Earth-fixed path to within 1.2 % of the distance travelled in the interval (J2 drift and solar vs sidereal day)",
]


def strategy():
    return st.fixed_dictionaries(
        {
            "name": NAME,
            "orbit": lead(),
            "tz": pick("utc", "pst"),
            "ins": instruments(),
            "n": st.one_of(st.integers(1, 4), st.integers(1, 12)),
            "interval_ms": st.one_of(
                st.integers(1, 1800000), st.integers(-1800000, 86400000), st.sampled_from([0, 600000])
            ),
            "repeat": pick(True, False, None),
            "at": st.integers(-7200, 7200),
        }
    )


def body(case, ev):
    from tatc.schemas import TrainConstellation

    orbit = build_lead(case["orbit"], case["tz"])
    ins = [gen.build_instrument(i) for i in case["ins"]]
    dt = timedelta(milliseconds=case["interval_ms"])
    kw = {} if case["repeat"] is None else {"repeat_ground_track": case["repeat"]}
    c = TrainConstellation(
        name=case["name"], orbit=orbit, instruments=ins, number_satellites=case["n"], interval=dt, **kw
    )
    base = elements(orbit)
    members = c.generate_members()
    common(case, members, base, case["n"], orbit, ins)
    days = case["interval_ms"] / 86400e3
    rep = case["repeat"] is not False
    lead_lines = orbit.to_tle().tle
    t = gen.ts(case["orbit"]["epoch"]) + timedelta(seconds=case["at"])
    for k, m in enumerate(members):
        e = elements(m.orbit)
        for key in ("inc", "argp"):
            check(ref.ang_close(e[key], base[key], 2e-4), f"{m.name}: {key} {e[key]} != lead {base[key]}")
        check(abs(e["ecc"] - base["ecc"]) < 2e-7, f"{m.name}: eccentricity {e['ecc']} != {base['ecc']}")
        check(abs(e["mm"] - base["mm"]) < 2e-7, f"{m.name}: mean motion {e['mm']} != {base['mm']}")
        check(abs(float(e["epoch"]) - float(base["epoch"])) < 2e-8, f"{m.name}: epoch differs")
        exp_ma = base["ma"] - k * 360 * base["mm"] * days
        check(
            ref.ang_close(e["ma"], exp_ma, 5e-4 + 1e-6 * abs(k * 360 * base["mm"] * days)),
            f"{m.name} (+{k} x {dt}): mean anomaly {e['ma']}, expected {exp_ma % 360}",
        )
        exp_raan = base["raan"] + (k * 360 * days if rep else 0)
        check(
            ref.ang_close(e["raan"], exp_raan, 3e-4),
            f"{m.name} (+{k} x {dt}, repeat ground track {case['repeat']}): node {e['raan']}, expected {exp_raan % 360}",
        )
        # the follower is where the leader was k intervals ago: over the ground, or in space
        if k and abs(k * days) < 0.5 and case["orbit"]["type"] != "tle" and base["ecc"] < 0.01:
            from skyfield.framelib import itrs

            a = ref.sat_of(lead_lines).at(ref.t_of(t))
            b = ref.sat_of(m.orbit.to_tle().tle).at(ref.t_of(t + k * dt))
            if rep:
                pa, pb = a.frame_xyz(itrs).m, b.frame_xyz(itrs).m
            else:
                pa, pb = a.position.m, b.position.m
            err = float(np.linalg.norm(pa - pb))
            lim = 0.012 * abs(k * dt.total_seconds()) * 7600 + 8e3
            check(err < lim, f"{m.name}: {err:.0f} m from the leader's position {k} intervals ago (limit {lim:.0f})")
            ev.label("path_followed")
    ev.nontrivial(case["n"] > 1 and case["interval_ms"] != 0)
    ev.label(case["orbit"]["type"])


def bad_strategy():
    return st.fixed_dictionaries({"n": st.integers(-3, 3), "drop": pick(None, "interval", "orbit", "name")})


def bad_body(case, ev):
    from tatc.schemas import CircularOrbit, TrainConstellation

    kw = {
        "name": "t",
        "orbit": CircularOrbit(altitude=500e3, epoch=gen.BASE),
        "interval": timedelta(minutes=10),
        "number_satellites": case["n"],
    }
    kw.pop(case["drop"], None)
    try:
        TrainConstellation(**kw)
        got = True
    except ValidationError:
        got = False
    ok = case["n"] >= 1 and case["drop"] is None
    check(got == ok, f"train {case}: {'accepted' if got else 'rejected'}")
    ev.nontrivial(not ok)


SUBS = [
    Sub("members", strategy, body, quick=1000),
    Sub("reject", bad_strategy, bad_body, quick=100),
]
