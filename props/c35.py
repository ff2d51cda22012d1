"""C35: configuration defaults are honoured and overrides stay in force."""

import os
import tempfile
from datetime import timedelta

import numpy as np
import shapely
from hypothesis import strategies as st
from pydantic import ValidationError

from lib import gen
from lib.gen import fl, pick, weighted
from lib.harness import Sub, check
from props import c16

RULE = "at least one setting differs from its default when a consumer of that setting is probed (search: and some setting alone decides what is found); files: at least one setting given or the file is faulty"
ASSUMPTIONS = [
    "settings are changed by assigning attributes of tatc.config.rc, by replacing tatc.config.rc, or by loading a YAML file",
    "a previously computed repeat cycle or element set is reused only while lazy loading is configured or requested",
    "unknown settings in a file are not judged",
]

# documented defaults and domains
DEFAULTS = {
    "footprint_points_elliptical": 32,
    "footprint_points_rectangular_side": 8,
    "repeat_cycle_delta_position_m": 10000,
    "repeat_cycle_delta_velocity_m_per_s": 10,
    "repeat_cycle_search_elevation_deg": 88,
    "repeat_cycle_search_duration_days": 30,
    "repeat_cycle_lazy_load": True,
    "repeat_cycle_for_orbit_track": True,
    "repeat_cycle_for_observation_events": True,
    "orbit_tle_lazy_load": True,
}
GOOD = {
    "footprint_points_elliptical": st.integers(4, 60),
    "footprint_points_rectangular_side": st.integers(1, 20),
    "repeat_cycle_delta_position_m": pick(1e-3, 3000, 10000, 4e4, 5e5),
    "repeat_cycle_delta_velocity_m_per_s": pick(1e-3, 5, 10, 50, 1000),
    "repeat_cycle_search_elevation_deg": pick(30, 60, 88, 89.5),
    "repeat_cycle_search_duration_days": pick(0.5, 1.5, 2.5, 4),
    "repeat_cycle_lazy_load": st.booleans(),
    "repeat_cycle_for_orbit_track": st.booleans(),
    "repeat_cycle_for_observation_events": st.booleans(),
    "orbit_tle_lazy_load": st.booleans(),
}
BAD = {
    "footprint_points_elliptical": pick(3, 0, -5, 7.5, "x", None),
    "footprint_points_rectangular_side": pick(0, -1, 2.5, "x", None),
    "repeat_cycle_delta_position_m": pick(0, -1.0, "x", None),
    "repeat_cycle_delta_velocity_m_per_s": pick(0, -0.5, "x", None),
    "repeat_cycle_search_elevation_deg": pick(0, -10, "x", None),
    "repeat_cycle_search_duration_days": pick("x", None, [1]),
    "repeat_cycle_lazy_load": pick("perhaps", 7, None),
    "repeat_cycle_for_orbit_track": pick("perhaps", 7, None),
    "repeat_cycle_for_observation_events": pick("perhaps", 7, None),
    "orbit_tle_lazy_load": pick("perhaps", 7, None),
}


def setting():
    return st.sampled_from(sorted(GOOD)).flatmap(lambda k: st.tuples(st.just(k), GOOD[k]))


def some():
    return st.fixed_dictionaries({}, optional=GOOD)


def operation():
    return weighted(
        (5, setting().map(lambda s: ["set", *s])),
        (1, some().map(lambda d: ["replace", d])),
        (1, some().map(lambda d: ["load", d])),
        (1, st.just(["reset"])),
        (2, pick("ellipse", "rectangle", "instrument", "pointed").map(lambda k: ["footprint", k])),
        (3, st.tuples(st.just("cycle"), st.integers(0, 1), pick(None, True, False), some()).map(list)),
        (2, st.tuples(st.just("track"), st.integers(0, 1), fl(-2, 4)).map(list)),
        (2, st.tuples(st.just("events"), st.integers(0, 1), fl(-60, 60), fl(-180, 180)).map(list)),
        (2, st.tuples(st.just("tle"), pick("circular", "sso", "keplerian", "molniya"), pick(None, True, False)).map(list)),
    )


def history_strategy():
    tle = st.fixed_dictionaries({"f": c16.fields(), "rd": c16.revs_days(3)})
    return st.fixed_dictionaries(
        {"orbits": st.tuples(tle, tle), "ops": st.lists(operation(), min_size=2, max_size=10)}
    )


def search_strategy():
    return st.fixed_dictionaries(
        {
            "orbit": st.fixed_dictionaries({"f": c16.fields(), "rd": c16.revs_days(3)}),
            "set": st.fixed_dictionaries(
                {
                    "repeat_cycle_delta_position_m": pick(5e5, 8e5, 1.5e6, 4e4, 10000),
                    "repeat_cycle_delta_velocity_m_per_s": pick(1000, 2000, 300, 10),
                    "repeat_cycle_search_elevation_deg": pick(20, 30, 45, 60, 75, 88, 89.5),
                    "repeat_cycle_search_duration_days": pick(0.5, 1.5, 2.5, 3.5),
                }
            ),
        }
    )


def search_body(case, ev):
    """Each setting of the search counts, where it decides what is found."""
    from tatc import config
    from tatc.schemas import TwoLineElements

    lines = c16.build(case["orbit"])[0]
    m = case["set"]
    saved = config.rc
    config.rc = config.RuntimeConfiguration(**m)
    try:
        got = TwoLineElements(tle=lines).get_repeat_cycle()
        want = TwoLineElements(tle=lines).get_repeat_cycle(**cycle_args(m), lazy_load=False)
        check(got == want, f"repeat cycle {got}, expected {want} (configured {m})")
        # settings given to the search go before the configured ones, one by one
        for a, s in CYCLE.items():
            alt = {**m, s: 1.2 if s.endswith("days") else DEFAULTS[s]}
            if alt[s] == m[s]:
                continue
            full = cycle_args(alt)
            one = TwoLineElements(tle=lines).get_repeat_cycle(**{a: full[a]})
            other = TwoLineElements(tle=lines).get_repeat_cycle(**full, lazy_load=False)
            check(one == other, f"repeat cycle {one} with {a}={full[a]}, expected {other} (configured {m})")
            if other != want:
                ev.label(f"{s} decides")
                ev.nontrivial()
    finally:
        config.rc = saved


CYCLE = {
    "max_delta_position": "repeat_cycle_delta_position_m",
    "max_delta_velocity": "repeat_cycle_delta_velocity_m_per_s",
    "min_elevation_angle": "repeat_cycle_search_elevation_deg",
    "max_search_duration": "repeat_cycle_search_duration_days",
}


def cycle_args(m):
    kw = {a: m[s] for a, s in CYCLE.items()}
    kw["max_search_duration"] = timedelta(days=kw["max_search_duration"])
    return kw


def same_geom(a, b):
    a, b = np.atleast_1d(a), np.atleast_1d(b)
    return len(a) == len(b) and all(shapely.equals_exact(x, y, 0) for x, y in zip(a, b))


def same_events(a, b):
    return list(a[1]) == list(b[1]) and np.array_equal(np.asarray(a[0].tt, float), np.asarray(b[0].tt, float))


def history_body(case, ev):
    from tatc import config

    saved = config.rc
    config.rc = config.RuntimeConfiguration()
    try:
        run(case, ev)
    finally:
        config.rc = saved


def run(case, ev):
    from tatc import config
    from tatc.schemas import (
        CircularOrbit,
        Instrument,
        KeplerianOrbit,
        MolniyaOrbit,
        Point,
        PointedInstrument,
        SunSynchronousOrbit,
        TwoLineElements,
    )
    from tatc.utils import compute_footprint

    m = dict(DEFAULTS)
    check({k: getattr(config.rc, k) for k in m} == m, lambda: f"settings start as {config.rc}")
    # the search is bounded to keep probes short
    config.rc.repeat_cycle_search_duration_days = m["repeat_cycle_search_duration_days"] = 4
    lines = [c16.build(o)[0] for o in case["orbits"]]
    pool = [TwoLineElements(tle=l) for l in lines]
    known = [None, None]  # repeat cycle each orbit has computed (a 1-tuple)
    fresh = [TwoLineElements(tle=l) for l in lines]
    base = dict(m)
    for op in case["ops"]:
        kind = op[0]
        if kind == "set":
            setattr(config.rc, op[1], op[2])
            m[op[1]] = op[2]
        elif kind in ("replace", "load"):
            d = op[1]
            if kind == "replace":
                config.rc = config.RuntimeConfiguration(**d)
            else:
                config.rc = load(dump(d))
            m = {**DEFAULTS, **d}
            if "repeat_cycle_search_duration_days" not in d:
                config.rc.repeat_cycle_search_duration_days = m["repeat_cycle_search_duration_days"] = 4
        elif kind == "reset":
            config.rc = config.RuntimeConfiguration()
            config.rc.repeat_cycle_search_duration_days = 4
            m = dict(base)
        elif kind == "footprint":
            t = fresh[0].get_orbit_track(fresh[0].get_epoch(), try_repeat=False)
            rect = op[1] in ("rectangle", "pointed")
            n = m["footprint_points_rectangular_side" if rect else "footprint_points_elliptical"]
            if op[1] == "instrument":
                i = Instrument(field_of_regard=30)
                a, b = i.compute_footprint(t), i.compute_footprint(t, number_points=n)
            elif op[1] == "pointed":
                i = PointedInstrument(cross_track_field_of_view=20, along_track_field_of_view=9, is_rectangular=True, roll_angle=5)
                a, b = i.compute_footprint(t), i.compute_footprint(t, number_points=n)
            else:
                a = compute_footprint(t, 20, 12, is_rectangular=rect)
                b = compute_footprint(t, 20, 12, is_rectangular=rect, number_points=n)
            check(same_geom(a, b), f"{op[1]} footprint does not have the {n} configured points: {a} / {b}")
            ev.label("footprint")
            ev.nontrivial(n != (8 if rect else 32))
        elif kind == "cycle":
            _, i, lazy, over = op
            args = {a: over[s] for a, s in CYCLE.items() if s in over}
            full = cycle_args({**m, **over})
            if "max_search_duration" in args:
                args["max_search_duration"] = full["max_search_duration"]
            if lazy is not None:
                args["lazy_load"] = lazy
            got = pool[i].get_repeat_cycle(**args)
            use = m["repeat_cycle_lazy_load"] if lazy is None else lazy
            if use and known[i] is not None:
                want = known[i][0]
                ev.label("reused cycle")
            else:
                want = TwoLineElements(tle=lines[i]).get_repeat_cycle(**full, lazy_load=False)
                ev.label("computed cycle")
            check(got == want, f"repeat cycle {got}, expected {want} (configured {m}, given {args})")
            known[i] = (got,)
            ev.nontrivial(any(m[k] != base[k] for k in CYCLE.values()) or not use)
        elif kind == "track":
            _, i, days = op
            t = pool[i].get_epoch() + timedelta(days=days)
            rep = m["repeat_cycle_for_orbit_track"]
            got = pool[i].get_orbit_track([t, t + timedelta(hours=1)])
            if rep:
                note(known, i, m, lines)
            o = copy_of(known, i, m, lines)
            want = o.get_orbit_track([t, t + timedelta(hours=1)], try_repeat=rep)
            check(np.array_equal(got.position.m, want.position.m), f"orbit track differs from that with try_repeat={rep}")
            if not rep:
                direct = fresh[i].as_skyfield().at(got.t).position.m
                check(np.allclose(got.position.m, direct, atol=1.0), "orbit track is not the propagated one")
            ev.label("track")
            ev.nontrivial(not rep)
        elif kind == "events":
            _, i, la, lo = op
            pt = Point(id=0, latitude=la, longitude=lo)
            start = pool[i].get_epoch()
            end = start + timedelta(days=3.5)
            rep = m["repeat_cycle_for_observation_events"]
            got = pool[i].get_observation_events(pt, start, end, 20)
            if rep:
                note(known, i, m, lines)
            want = copy_of(known, i, m, lines).get_observation_events(pt, start, end, 20, try_repeat=rep)
            check(same_events(got, want), f"events differ from those with try_repeat={rep}")
            ev.label("events")
            ev.nontrivial(not rep and len(got[1]) > 0)
        elif kind == "tle":
            _, what, lazy = op
            e = gen.BASE
            o = {
                "circular": lambda: CircularOrbit(altitude=6e5, inclination=40, epoch=e),
                "sso": lambda: SunSynchronousOrbit(altitude=6e5, equator_crossing_time="10:30", epoch=e),
                "keplerian": lambda: KeplerianOrbit(altitude=6e5, eccentricity=0.01, inclination=40, epoch=e),
                "molniya": lambda: MolniyaOrbit(altitude=6e5, inclination=63.4, epoch=e),
            }[what]()
            kw = {} if lazy is None else {"lazy_load": lazy}
            use = m["orbit_tle_lazy_load"] if lazy is None else lazy
            first = o.to_tle(**kw).tle
            check(o.to_tle(**kw).tle == first, "asked again, the element set differs")
            o.true_anomaly = 90.0
            second = o.to_tle(**kw).tle
            changed = type(o)(**o.model_dump()).to_tle(lazy_load=False).tle
            check(changed != first, "the element set ignores the true anomaly")
            if not use:
                check(second == changed, f"{what}: without lazy loading, the element set is not computed again")
            ev.label("tle")
            ev.nontrivial(not use)
        for k, v in m.items():
            check(getattr(config.rc, k) == v, f"setting {k} is {getattr(config.rc, k)} instead of {v} after {kind}")


def note(known, i, m, lines):
    """Records the repeat cycle an automatic search leaves with the orbit."""
    from tatc.schemas import TwoLineElements

    if known[i] is None or not m["repeat_cycle_lazy_load"]:
        known[i] = (TwoLineElements(tle=lines[i]).get_repeat_cycle(**cycle_args(m), lazy_load=False),)


def copy_of(known, i, m, lines):
    """Equal orbit with the same computed repeat cycle."""
    from tatc.schemas import TwoLineElements

    class Known(TwoLineElements):
        """Orbit of which the repeat cycle is already known."""

        def get_repeat_cycle(self, *_, **__):
            return known[i][0]

    return Known(tle=lines[i])


def dump(d):
    out = []
    for k, v in d.items():
        if isinstance(v, bool):
            v = "true" if v else "False"
        elif v is None:
            v = "null"
        elif isinstance(v, float):
            v = repr(v) if "e" not in repr(v) else f"{v:.12f}"
        out.append(f"{k}: {v}")
    return "\n".join(out) + "\n" if out else "{}\n"


def load(text, name="settings.yml"):
    from tatc.config import load_yaml_config

    with tempfile.TemporaryDirectory() as tmp:
        path = os.path.join(tmp, name)
        with open(path, "w", encoding="utf-8") as f:
            f.write(text)
        return load_yaml_config(path)


def file_strategy():
    return st.fixed_dictionaries(
        {
            "values": some(),
            "bad": st.one_of(
                st.none(),
                st.sampled_from(sorted(BAD)).flatmap(lambda k: st.tuples(st.just(k), BAD[k])),
                pick("missing", "flow", "tab", "scalar", "list", "indent", "quote", "tag", "control"),
            ),
            "comment": st.booleans(),
            "name": pick("settings.yml", "my config.yaml", "noext"),
        }
    )


JUNK = {
    "flow": "x: [1, 2\n",
    "tab": "\tx: 3\n",
    "scalar": "just some words\n",
    "list": "- 1\n- 2\n",
    "indent": "x:\n  - 1\n y: 2\n",
    "quote": 'x: "open\n',
    "tag": "x: !!python/object:os.system 3\n",
    "control": "x: \x00\n",
}


def file_body(case, ev):
    from tatc import config

    before = config.rc.model_dump()
    vals, bad = case["values"], case["bad"]
    text = ("# settings\n---\n" if case["comment"] else "") + dump(vals)
    if isinstance(bad, str):
        try:
            if bad == "missing":
                with tempfile.TemporaryDirectory() as tmp:
                    config.load_yaml_config(os.path.join(tmp, "none.yml"))
            else:
                junk = JUNK[bad]
                load(junk if bad in ("scalar", "list") else (dump(vals) if vals else "") + junk)
        except config.ConfigError:
            ev.label("faulty file")
            ev.nontrivial()
            check(config.rc.model_dump() == before, "a faulty file changes the settings in force")
            return
        check(False, f"a file with a {bad} fault is accepted")
    if bad is not None:
        vals = {**vals, bad[0]: bad[1]}
        try:
            config.RuntimeConfiguration(**vals)
            check(False, f"{bad[0]} = {bad[1]!r} is accepted")
        except ValidationError:
            pass
        try:
            load(dump(vals))
        except config.ConfigError:
            ev.label("out of range")
            ev.nontrivial()
            check(config.rc.model_dump() == before, "a faulty file changes the settings in force")
            return
        check(False, f"a file with {bad[0]}: {bad[1]!r} is accepted")
    rc = load(text, case["name"])
    for k, v in {**DEFAULTS, **vals}.items():
        got = getattr(rc, k)
        check(got == v and isinstance(got, bool) == isinstance(v, bool), f"{k} is {got!r} in the loaded settings, expected {v!r}")
    check(rc == config.RuntimeConfiguration(**vals), "loaded settings differ from those constructed directly")
    check(config.rc.model_dump() == before, "loading a file changes the settings in force")
    ev.nontrivial(bool(vals))


def start_body(case, ev):
    """A new process starts with the packaged defaults."""
    import subprocess
    import sys

    code = (
        "import sys; sys.path.insert(0, sys.argv[1]); from lib import boot; boot.load_tatc();"
        "from tatc import config; print(config.rc.model_dump_json());"
        "import os; p = os.path.join(os.path.dirname(config.__file__), 'resources', 'defaults.yml');"
        "print(config.load_yaml_config(p).model_dump_json())"
    )
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with tempfile.TemporaryDirectory() as tmp:
        out = subprocess.run([sys.executable, "-B", "-c", code, here], capture_output=True, text=True, cwd=tmp, check=False)
    check(out.returncode == 0, out.stderr[-500:])
    import json

    for line in out.stdout.strip().splitlines()[-2:]:
        check(json.loads(line) == DEFAULTS, f"settings start as {line}")
    ev.nontrivial()


SUBS = [
    Sub("history", history_strategy, history_body, quick=1500),
    Sub("search", search_strategy, search_body, quick=400),
    Sub("files", file_strategy, file_body, quick=800),
    Sub("start", lambda: st.just({}), start_body, quick=1),
]
