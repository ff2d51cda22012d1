"""C20: Walker constellations place every satellite at its Walker position."""

import math

from hypothesis import strategies as st
from pydantic import ValidationError

from lib import gen, ref
from lib.gen import fl, pick
from lib.harness import Sub, check
from props.c01 import TZ

RULE = "two or more planes and two or more satellites per plane, or an invalid configuration"
ASSUMPTIONS = [
    "compared on the element sets, at TLE resolution",
    "if the planes do not divide the satellites: planes are filled in order with ceil(N/P) slots (the implemented reading)",
]

NAME = pick("W", "walker 3", "Ünïcode", "A B")


def lead():
    return st.one_of(
        gen.circular(),
        gen.keplerian(alt=fl(600e3, 30000e3), ecc=st.one_of(fl(0, 0.05, 0.0), fl(0, 0.6))),
        gen.sso(),
        gen.tle_fields(numeric_catalog=True).map(
            lambda f: {"type": "tle", "tle": gen.format_tle(f), "epoch": f["epoch"]}
        ),
    )


def instruments():
    one = st.one_of(
        st.fixed_dictionaries(
            {"kind": st.just("basic"), "name": pick("a", "b"), "field_of_regard": fl(1, 180)}
        ),
        st.fixed_dictionaries(
            {
                "kind": st.just("pointed"),
                "name": pick("p", "q"),
                "field_of_regard": fl(1, 180),
                "cross_track_field_of_view": fl(1, 60),
                "along_track_field_of_view": fl(1, 60),
                "roll_angle": fl(-40, 40),
            }
        ),
    )
    return st.lists(one, min_size=1, max_size=2)


def elements(orbit):
    l1, l2 = orbit.to_tle().tle[:2]
    return {
        "inc": float(l2[8:16]),
        "raan": float(l2[17:25]),
        "ecc": float("0." + l2[26:33].replace(" ", "0")),
        "argp": float(l2[34:42]),
        "ma": float(l2[43:51]),
        "mm": float(l2[52:63]),
        "drag": l1[33:61],
        "epoch": l1[18:32],
    }


def build_lead(d, tz="utc"):
    d = dict(d)
    if d["type"] != "tle":
        d["epoch"] = gen.ts(d["epoch"]).astimezone(TZ[tz])
    else:
        d.pop("epoch")
    return gen.build_orbit(d)


def common(case, members, base, n, orbit, ins):
    """What every constellation shares: count, names, instruments, other elements."""
    from tatc.schemas import Satellite

    check(len(members) == n, f"{len(members)} members of {n}")
    names = [m.name for m in members]
    check(len(set(names)) == n, f"names not distinct: {names[:5]}")
    check(names == sorted(names), f"names do not sort in order: {names[:12]}")
    check(all(x.startswith(case["name"]) for x in names), f"names without the constellation name: {names[:3]}")
    tails = [x[len(case["name"]) :] for x in names]
    check(
        all(t.strip().isdigit() and int(t) == k + 1 for k, t in enumerate(tails)) and len({len(t) for t in tails}) == 1,
        f"names do not count from 1 with leading zeros: {names[:12]}",
    )
    for m in members:
        check(type(m) is Satellite, f"member of type {type(m)}")
        check(
            [type(i) for i in m.instruments] == [type(i) for i in ins] and m.instruments == ins,
            f"member instruments {m.instruments} are not the constellation's",
        )
    if n > 1:
        check(
            all(a is not b for a in members[0].instruments for b in members[-1].instruments),
            "members share instrument objects",
        )
    check(elements(orbit) == base, "the lead orbit changed")


def match(exp, got, what):
    """Order-insensitive matching of (raan, ma) pairs."""
    left = list(got)
    for e in exp:
        hit = [g for g in left if ref.ang_close(g[0], e[0], 2e-4) and ref.ang_close(g[1], e[1], 4e-4)]
        check(bool(hit), lambda: f"{what}: no satellite at raan {e[0] % 360:.4f}, mean anomaly {e[1] % 360:.4f}; left {left[:6]}")
        left.remove(hit[0])


def strategy():
    return st.fixed_dictionaries(
        {
            "name": NAME,
            "orbit": lead(),
            "tz": pick("utc", "ist"),
            "ins": instruments(),
            "cfg": pick("delta", "star", None),
            "shape": st.one_of(
                st.integers(1, 7).flatmap(
                    lambda p: st.tuples(
                        st.integers(1, 8).map(lambda s: p * s), st.just(p), st.integers(0, p - 1)
                    )
                ),
                st.integers(1, 13).flatmap(
                    lambda n: st.integers(1, n).flatmap(
                        lambda p: st.tuples(st.just(n), st.just(p), st.integers(0, p - 1))
                    )
                ),
            ),
        }
    )


def body(case, ev):
    from tatc.schemas import WalkerConstellation

    n, p, f = case["shape"]
    orbit = build_lead(case["orbit"], case["tz"])
    ins = [gen.build_instrument(i) for i in case["ins"]]
    kw = {} if case["cfg"] is None else {"configuration": case["cfg"]}
    c = WalkerConstellation(
        name=case["name"],
        orbit=orbit,
        instruments=ins,
        number_satellites=n,
        number_planes=p,
        relative_spacing=f,
        **kw,
    )
    base = elements(orbit)
    members = c.generate_members()
    common(case, members, base, n, orbit, ins)
    per = math.ceil(n / p)
    fan = 180.0 if case["cfg"] == "star" else 360.0
    exp = []
    for i in range(n):
        plane, slot = divmod(i, per)
        exp.append((base["raan"] + plane * fan / p, base["ma"] + slot * 360 / per + plane * f * 360 / n))
    got = []
    for m in members:
        e = elements(m.orbit)
        got.append((e["raan"], e["ma"]))
        for k in ("inc", "argp"):
            check(ref.ang_close(e[k], base[k], 2e-4), f"{m.name}: {k} {e[k]} != lead {base[k]}")
        check(abs(e["ecc"] - base["ecc"]) < 2e-7, f"{m.name}: eccentricity {e['ecc']} != {base['ecc']}")
        check(abs(e["mm"] - base["mm"]) < 2e-7, f"{m.name}: mean motion {e['mm']} != {base['mm']}")
        check(abs(float(e["epoch"]) - float(base["epoch"])) < 2e-8, f"{m.name}: epoch {e['epoch']} != {base['epoch']}")
    match(exp, got, f"{n}/{p}/{f} {case['cfg']}")
    again = c.generate_members()
    check([m.orbit for m in again] == [m.orbit for m in members] and [m.name for m in again] == [m.name for m in members], "generated again: different members")
    ev.nontrivial(p > 1 and per > 1)
    ev.label("even" if n % p == 0 else "uneven", case["cfg"] or "default", case["orbit"]["type"])


def bad_strategy():
    return st.fixed_dictionaries(
        {
            "n": st.integers(-1, 8),
            "p": st.integers(-1, 9),
            "f": st.integers(-1, 9),
            "cfg": pick("delta", "star", "delta", "spiral"),
        }
    )


def bad_body(case, ev):
    from tatc.schemas import CircularOrbit, WalkerConstellation

    n, p, f = case["n"], case["p"], case["f"]
    ok = n >= 1 and 1 <= p <= n and 0 <= f < p and case["cfg"] != "spiral"
    try:
        WalkerConstellation(
            name="w",
            orbit=CircularOrbit(altitude=500e3, epoch=gen.BASE),
            number_satellites=n,
            number_planes=p,
            relative_spacing=f,
            configuration=case["cfg"],
        )
        got = True
    except ValidationError:
        got = False
    check(got == ok, f"Walker {n}/{p}/{f} {case['cfg']}: {'accepted' if got else 'rejected'}")
    ev.nontrivial(not ok)


SUBS = [
    Sub("pattern", strategy, body, quick=500),
    Sub("reject", bad_strategy, bad_body, quick=600),
]
