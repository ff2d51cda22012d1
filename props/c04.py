"""C04: collect_multi_observations is the time-ordered union over members and instruments."""

from collections import Counter
from datetime import timedelta

from hypothesis import strategies as st

from lib import gen, ref
from lib.gen import fl, pick
from lib.harness import Sub, check
from props import c01

RULE = "two or more (satellite, instrument) pairs contribute rows"
ASSUMPTIONS = ["collect_observations (decided by C01/C03) is the reference for one satellite and instrument"]


def strategy():
    inst = st.fixed_dictionaries({"for": fl(5, 180, 180.0, 60.0), "name": pick("a", "b", "b")})
    system = st.fixed_dictionaries(
        {
            "kind": pick("satellite", "satellite", "walker", "train", "mog"),
            "orbit": st.one_of(gen.circular(), gen.keplerian(), gen.sso()),
            "instruments": st.lists(inst, min_size=1, max_size=3),
            "n": st.integers(1, 4),
            "name": pick(0, 1, 2, 3),
        }
    )
    return st.fixed_dictionaries(
        {
            "systems": st.lists(system, min_size=1, max_size=3),
            "single": st.booleans(),
            **c01.window(st.integers(300, 12000)),
            **c01.near_point(15.0),
            "omit_solar": pick(True, True, False),
        }
    )


def build(k, s, epoch):
    from tatc.schemas import (
        Instrument,
        MOGConstellation,
        Satellite,
        TrainConstellation,
        WalkerConstellation,
    )

    ins = [
        Instrument(name=i["name"], field_of_regard=i["for"]) for i in s["instruments"]
    ]
    orbit = gen.build_orbit({**s["orbit"], "epoch": epoch})
    kind = s["kind"]
    if kind == "mog" and s["orbit"]["type"] != "circular":
        kind = "satellite"
    common = {"name": f"s{s['name']}", "orbit": orbit, "instruments": ins}
    if kind == "satellite":
        return Satellite(**common)
    if kind == "walker":
        return WalkerConstellation(
            **common, number_satellites=s["n"], number_planes=1 + s["n"] % 2 if s["n"] > 1 else 1
        )
    if kind == "train":
        return TrainConstellation(
            **common, number_satellites=s["n"], interval=timedelta(minutes=7), repeat_ground_track=bool(s["n"] % 2)
        )
    return MOGConstellation(
        **common,
        parallel_axis=100e3,
        transverse_axis=60e3,
        number_satellites=s["n"],
    )


def body(case, ev):
    import pandas as pd
    from tatc.analysis import collect_multi_observations, collect_observations
    from tatc.schemas import Point

    c01.no_repeat()
    epoch = case["systems"][0]["orbit"]["epoch"]
    systems = [build(k, s, epoch) for k, s in enumerate(case["systems"])]
    if case["single"]:
        systems = systems[:1]
    _, _, start, end, pt = c01.setup({**case, "orbit": case["systems"][0]["orbit"]})
    point = Point(id=3, latitude=pt["lat"], longitude=pt["lon"], elevation=pt["elev"])
    members = [m for s in systems for m in s.generate_members()]
    got = collect_multi_observations(
        point,
        systems[0] if case["single"] else systems,
        start,
        end,
        omit_solar=case["omit_solar"],
    )
    exp = []
    for m in members:
        for i in range(len(m.instruments)):
            one = collect_observations(
                point, m, start, end, instrument_index=i, omit_solar=case["omit_solar"]
            )
            check(
                set(one["instrument"]) <= {m.instruments[i].name}
                and set(one["satellite"]) <= {m.name},
                "records carry the wrong satellite or instrument name",
            )
            exp += [tuple(r) for r in one[cols(case)].itertuples(index=False)]
    check(set(cols(case)) <= set(got.columns), f"columns {list(got.columns)}")
    rows = [tuple(r) for r in got[cols(case)].itertuples(index=False)]
    check(
        Counter(rows) == Counter(exp),
        lambda: f"{len(rows)} rows, expected {len(exp)}; extra {list((Counter(rows) - Counter(exp)).items())[:3]} missing {list((Counter(exp) - Counter(rows)).items())[:3]}",
    )
    check(list(got["start"]) == sorted(got["start"]), "rows are not sorted by start")
    check(list(got.index) == list(range(len(got))), "rows are not re-indexed")
    pairs = {(r[1], r[2]) for r in rows}
    ev.nontrivial(len(pairs) > 1)
    if len(members) > len(systems):
        ev.label("constellation")
    if not rows:
        ev.label("empty")
    ev.label("solar" if not case["omit_solar"] else "no_solar")


def cols(case):
    base = ["point_id", "satellite", "instrument", "start", "end", "epoch", "sat_alt", "sat_az"]
    if not case["omit_solar"]:
        base += ["sat_sunlit", "solar_alt", "solar_az", "solar_time"]
    return base


def warm():
    c01.no_repeat()


SUBS = [Sub("union", strategy, body, quick=400)]
