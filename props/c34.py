"""C34: schemas accept exactly their documented domain and round-trip through JSON."""

import copy
import json
import math
import pickle
from datetime import timedelta

from hypothesis import strategies as st
from pydantic import ValidationError

from lib import gen, ref
from lib.gen import fl, pick, weighted
from lib.harness import Sub, check

RULE = "at least one optional field is given a value other than its default, or exactly one value outside its domain is supplied"
ASSUMPTIONS = [
    "the documented domain is that of the field descriptions in the API reference: bounds, defaults and the relations between Walker counts",
    "finite values only; dates carry a UTC offset; orbits of satellites are element sets, circular, sun-synchronous or Keplerian orbits",
]

REQ = object()  # required field
ANY = (None, None, None, None)


def R(ge=None, le=None, gt=None, lt=None):
    return (ge, le, gt, lt)


# field -> (kind, domain, default)
INSTR = {
    "name": ("str", None, "Default"),
    "field_of_regard": ("num", R(gt=0, le=360), 180),
    "min_access_time": ("dur", None, 0),
    "req_self_sunlit": ("obool", None, None),
    "req_target_sunlit": ("obool", None, None),
    "access_time_fixed": ("bool", None, False),
}
PLACE = {
    "latitude": ("num", R(-90, 90), REQ),
    "longitude": ("num", R(-180, 180), REQ),
    "elevation": ("num", ANY, 0),
}
ORBIT = {
    "altitude": ("alt", ANY, REQ),
    "true_anomaly": ("num", R(ge=0, lt=360), 0),
    "epoch": ("date", None, None),
}
CIRC = {
    **ORBIT,
    "inclination": ("num", R(ge=0, lt=180), 0),
    "right_ascension_ascending_node": ("num", R(ge=0, lt=360), 0),
}
FIELDS = {
    "Point": {"id": ("int", R(ge=0), REQ), **PLACE},
    "GroundStation": {
        "name": ("str", None, REQ),
        **PLACE,
        "min_elevation_angle": ("num", R(0, 90), 0),
        "min_access_time": ("dur", None, 0),
    },
    "Instrument": INSTR,
    "PointedInstrument": {
        **INSTR,
        "cross_track_field_of_view": ("num", R(gt=0, le=180), REQ),
        "along_track_field_of_view": ("num", R(gt=0, le=180), REQ),
        "roll_angle": ("num", R(-180, 180), 0),
        "pitch_angle": ("num", R(-180, 180), 0),
        "is_rectangular": ("bool", None, False),
        "cross_track_pixels": ("int", R(ge=1), 1),
        "along_track_pixels": ("int", R(ge=1), 1),
        "cross_track_oversampling": ("num", R(ge=0, lt=1), 0),
        "along_track_oversampling": ("num", R(ge=0, lt=1), 0),
    },
    "CircularOrbit": CIRC,
    "SunSynchronousOrbit": {
        **ORBIT,
        "altitude": ("num", R(ge=0, lt=12352000 - ref.R_E), REQ),
        "equator_crossing_time": ("time", None, REQ),
        "equator_crossing_ascending": ("bool", None, True),
    },
    "KeplerianOrbit": {
        **CIRC,
        "eccentricity": ("ecc", R(ge=0), 0),
        "perigee_argument": ("num", R(ge=0, lt=360), 0),
    },
    "MolniyaOrbit": {
        **CIRC,
        "orbital_period": ("num", R(gt=0), 43080),
        "perigee_argument": ("num", R(ge=0, lt=360), 0),
    },
    "TundraOrbit": {
        **CIRC,
        "inclination": ("num", R(ge=0, lt=180), 63.4),
        "orbital_period": ("num", R(gt=0), 86400),
        "perigee_argument": ("num", R(ge=0, lt=360), 270),
        "eccentricity": ("ecc", R(ge=0), 0.2),
    },
}
TYPE = {
    "CircularOrbit": "circular",
    "SunSynchronousOrbit": "sso",
    "KeplerianOrbit": "keplerian",
    "MolniyaOrbit": "molniya",
    "TundraOrbit": "tundra",
    "TwoLineElements": "tle",
    "Satellite": "satellite",
    "TrainConstellation": "train",
    "WalkerConstellation": "walker",
    "MOGConstellation": "mog",
    "SOCConstellation": "soc",
}


def good(kind, dom, integer=False):
    ge, le, gt, lt = dom or ANY
    if kind == "str":
        return pick("a", "Station 1", "Ünïcødé ☂", "", "with \"quotes\"\n")
    if kind == "bool":
        return st.booleans()
    if kind == "obool":
        return pick(None, True, False)
    if kind == "dur":
        return st.one_of(st.integers(0, 10**6), st.integers(0, 10**11).map(lambda k: k / 1e6))
    if kind == "date":
        return gen.epochs()
    if kind == "time":
        return st.integers(0, 86399).map(lambda k: f"{k // 3600:02d}:{k // 60 % 60:02d}:{k % 60:02d}")
    if kind == "alt":
        return fl(2e5, 4e7)
    if kind == "ecc":
        return fl(0, 0.9, 0)
    if kind == "int":
        return st.one_of(st.integers(ge, ge + 3), st.integers(ge, 10**5))
    lo = ge if ge is not None else gt
    hi = le if le is not None else lt
    special = [v for v in (ge, le) if v is not None]
    if gt is not None:
        special.append(math.nextafter(gt, math.inf) if gt else 1e-9)
        lo = gt + 1e-6
    if lt is not None:
        special.append(math.nextafter(lt, -math.inf))
        hi = lt - 1e-6
    return fl(lo if lo is not None else -1e4, hi if hi is not None else (lo or 0) + 1e5, *special)


def bad(kind, dom):
    """Values outside the domain (None: there are none)."""
    ge, le, gt, lt = dom or ANY
    if kind in ("str", "date", "time", "dur", "alt"):
        return pick([1, 2], {"x": 1}) if kind == "str" else pick("nonsense", [])
    if kind in ("bool", "obool"):
        return pick("perhaps", 17, [])
    out = [st.just("nonsense")]
    if kind == "int":
        out.append(st.integers(-(10**4), ge - 1))
        out.append(st.just(ge + 0.5))
        return st.one_of(out)
    if ge is not None:
        out += [st.just(math.nextafter(ge, -math.inf)), fl(ge - 1000, ge - 1e-6)]
    if gt is not None:
        out += [st.just(gt), fl(gt - 1000, gt - 1e-6)]
    if le is not None:
        out += [st.just(math.nextafter(le, math.inf)), fl(le + 1e-6, le + 1000)]
    if lt is not None:
        out += [st.just(lt), fl(lt + 1e-6, lt + 1000)]
    return weighted(*[(1, o) for o in out])


def values(cls):
    out = {}
    for k, (kind, dom, default) in FIELDS[cls].items():
        s = good(kind, dom)
        if default is not REQ:
            s = st.one_of(st.just("__default__"), s)
        out[k] = s
    return st.fixed_dictionaries(out).map(lambda d: {k: v for k, v in d.items() if v != "__default__"})


def flat_strategy():
    return st.sampled_from(sorted(FIELDS)).flatmap(
        lambda cls: st.fixed_dictionaries(
            {
                "cls": st.just(cls),
                "values": values(cls),
                "bad": weighted(
                    (2, st.none()),
                    (
                        1,
                        st.sampled_from(sorted(FIELDS[cls])).flatmap(
                            lambda f: st.tuples(st.just(f), bad(*FIELDS[cls][f][:2]))
                        ),
                    ),
                    (1, st.sampled_from([k for k, v in FIELDS[cls].items() if v[2] is REQ] or [None]).map(lambda k: (k,) if k else None)),
                ),
                "touch": st.booleans(),
                "off": fl(1e-6, 200, 0.0, 1.0),
            }
        )
    )


def edges(dom, off):
    """(value, inside) at and around the limits of a domain."""
    ge, le, gt, lt = dom or ANY
    for v, s, closed in ((ge, -1, True), (le, 1, True), (gt, -1, False), (lt, 1, False)):
        if v is not None:
            yield v, closed
            yield (v + s * off if off else math.nextafter(v, s * math.inf)), False


def same(want, got, kind):
    if want is None or got is None:
        return want is got
    if kind in ("num", "alt", "ecc", "int", "str"):
        return got == want
    if kind in ("bool", "obool"):
        return got is want
    if kind == "dur":
        return isinstance(got, timedelta) and abs(got.total_seconds() - want) < 2e-6
    if kind == "date":
        return got == gen.ts(want) and got.tzinfo is not None
    return got.isoformat() == want


def clean(o):
    """Type and content of a schema object, independent of cached attributes."""
    from pydantic import BaseModel

    if isinstance(o, BaseModel):
        return (type(o).__name__, {f: clean(getattr(o, f)) for f in type(o).model_fields})
    if isinstance(o, (list, tuple)):
        return [clean(v) for v in o]
    return o


def trips(obj, what):
    """All supported ways to write and read an object give an equal object."""
    want = clean(obj)
    text = obj.model_dump_json()
    cls = type(obj)
    for how, new in (
        ("JSON text", lambda: cls.model_validate_json(text)),
        ("parsed JSON", lambda: cls(**json.loads(text))),
        ("JSON-mode dictionary", lambda: cls.model_validate(obj.model_dump(mode="json"))),
        ("dictionary", lambda: cls(**obj.model_dump())),
        ("deep copy", lambda: copy.deepcopy(obj)),
        ("model copy", lambda: obj.model_copy(deep=True)),
        ("pickle", lambda: pickle.loads(pickle.dumps(obj))),
    ):
        try:
            got = clean(new())
        except (ValidationError, TypeError) as err:
            check(False, f"{what}: not readable through {how}: {str(err)[:300]}")
        check(got == want, lambda: f"{what}: changed through {how}: {got} instead of {want}")
    check(clean(obj) == want, f"{what}: changed by being written")
    check(json.loads(text) == json.loads(cls.model_validate_json(text).model_dump_json()), f"{what}: JSON text changes when written again")


def flat_body(case, ev):
    from tatc import schemas

    name, vals = case["cls"], dict(case["values"])
    cls = getattr(schemas, name)
    fields = FIELDS[name]
    if case["bad"]:
        k, *v = case["bad"]
        if v:
            vals[k] = v[0]
        else:
            vals.pop(k)
        try:
            cls(**vals)
        except ValidationError as err:
            check(
                any(e["loc"][:1] == (k,) for e in err.errors()),
                f"{name}({vals}): rejected because of {[e['loc'] for e in err.errors()]}, not because of {k}",
            )
            ev.label("rejected")
            ev.nontrivial()
            return
        check(False, f"{name}: {k} = {v[0] if v else 'missing'} is accepted")
    try:
        obj = cls(**vals)
    except ValidationError as err:
        check(False, f"{name}({vals}) is rejected: {str(err)[:200]}")
    given = 0
    for k, (kind, _, default) in fields.items():
        got = getattr(obj, k)
        if k in vals:
            check(same(vals[k], got, kind), f"{name}.{k} is {got!r}, given {vals[k]!r}")
            given += default is not REQ
        elif k != "epoch":
            check(same(default, got, kind), f"{name}.{k} is {got!r} by default, documented {default!r}")
        else:
            check(got is not None and got.tzinfo is not None, "default epoch")
    for k, (kind, dom, _) in fields.items():
        if kind not in ("num", "int", "ecc"):
            continue
        for v, inside in edges(dom, case["off"] if kind != "int" else round(case["off"]) + 1):
            try:
                cls(**{**vals, k: v})
                check(inside, f"{name}: {k} = {v} is accepted")
            except ValidationError as err:
                check(not inside, f"{name}: {k} = {v} is rejected: {str(err)[:200]}")
    if name in TYPE:
        check(obj.type == TYPE[name], f"{name}.type is {obj.type}")
    if case["touch"] and name.endswith("Orbit") and obj.altitude < 3e7:
        touch(obj)
    trips(obj, name)
    if name in TYPE:
        ok = {**json.loads(obj.model_dump_json()), "type": "other"}
        try:
            cls(**ok)
            check(False, f"{name} accepts type 'other'")
        except ValidationError:
            pass
    ev.label(name)
    ev.nontrivial(given > 0)


def touch(orbit):
    """Fills any caches an orbit keeps."""
    try:
        orbit.to_tle()
    except Exception:  # pylint: disable=broad-except
        pass  # not judged here


# nested systems -------------------------------------------------------------

ORBITS = ["TwoLineElements", "CircularOrbit", "SunSynchronousOrbit", "KeplerianOrbit"]


def orbit_dict(cls):
    if cls == "TwoLineElements":
        return gen.tle_fields(numeric_catalog=True).map(lambda f: {"cls": cls, "tle": gen.format_tle(f)})
    return values(cls).map(lambda d: {"cls": cls, **d})


def instr_dict():
    return st.sampled_from(["Instrument", "PointedInstrument"]).flatmap(lambda c: values(c).map(lambda d: {"cls": c, **d}))


EXTRA = {
    "Satellite": st.just({}),
    "TrainConstellation": st.fixed_dictionaries(
        {"interval": st.one_of(st.integers(-3600, 86400), fl(0, 1000))},
        optional={"repeat_ground_track": st.booleans(), "number_satellites": st.integers(-1, 12)},
    ),
    "WalkerConstellation": st.fixed_dictionaries(
        {},
        optional={
            "configuration": pick("delta", "star"),
            "number_satellites": st.integers(0, 9),
            "number_planes": st.integers(0, 9),
            "relative_spacing": st.integers(-1, 5),
        },
    ),
    "MOGConstellation": st.fixed_dictionaries(
        {"parallel_axis": fl(-1000, 1e5, 0.0, 1.0), "transverse_axis": fl(-1000, 1e5, 0.0, 1.0)},
        optional={"clockwise": st.booleans(), "number_satellites": st.integers(0, 9)},
    ),
    "SOCConstellation": st.fixed_dictionaries(
        {"swath_width": fl(-1000, 1e6, 0.0, 1.0), "packing_distance": fl(-0.1, 1.1, 0.0, 1.0)}
    ),
}


def valid(cls, x):
    """Documented domain of the space system parameters."""
    if cls == "WalkerConstellation":
        n, p, f = x.get("number_satellites", 1), x.get("number_planes", 1), x.get("relative_spacing", 0)
        return n >= 1 and 1 <= p <= n and 0 <= f <= p - 1
    if cls == "TrainConstellation":
        return x.get("number_satellites", 1) >= 1
    if cls == "MOGConstellation":
        return x["parallel_axis"] > 0 and x["transverse_axis"] > 0 and x.get("number_satellites", 2) > 0
    if cls == "SOCConstellation":
        return x["swath_width"] > 0 and 0 < x["packing_distance"] <= 1
    return True


DEFAULT = {
    "TrainConstellation": {"repeat_ground_track": True, "number_satellites": 1},
    "WalkerConstellation": {"configuration": "delta", "number_satellites": 1, "number_planes": 1, "relative_spacing": 0},
    "MOGConstellation": {"clockwise": True, "number_satellites": 2},
}


def system_dict():
    def one(cls):
        orbits = ["CircularOrbit"] if cls in ("MOGConstellation", "SOCConstellation") else ORBITS
        return st.fixed_dictionaries(
            {
                "cls": st.just(cls),
                "name": good("str", None),
                "orbit": st.sampled_from(orbits).flatmap(orbit_dict),
                "extra": EXTRA[cls],
            },
            optional={"instruments": st.lists(instr_dict(), min_size=1, max_size=3)},
        )

    return st.sampled_from(sorted(EXTRA)).flatmap(one)


def system_strategy():
    return st.fixed_dictionaries({"system": system_dict(), "dicts": st.booleans(), "touch": st.booleans(), "empty": pick(*[False] * 7, True)})


def build(d, dicts=False):
    """Nested object from its description; nested values as typed dictionaries if `dicts`."""
    from tatc import schemas

    d = dict(d)
    cls = d.pop("cls")
    if cls in EXTRA:
        d.update(d.pop("extra"))
        d["orbit"] = build(d["orbit"], dicts)
        if "instruments" in d:
            d["instruments"] = [build(i, dicts) for i in d["instruments"]]
        return getattr(schemas, cls)(**d)
    if dicts:
        return {**d, "type": TYPE[cls]} if cls in TYPE else d
    return getattr(schemas, cls)(**d)


def judge_nested(d, obj):
    """The types and values of nested objects are those that were given."""
    check(type(obj).__name__ == d["cls"], f"a {d['cls']} became a {type(obj).__name__}")
    check(obj.type == TYPE[d["cls"]] and obj.name == d["name"], "type or name")
    check(type(obj.orbit).__name__ == d["orbit"]["cls"], f"orbit: a {d['orbit']['cls']} became a {type(obj.orbit).__name__}")
    for k, v in d["orbit"].items():
        if k in ("cls", "tle"):
            continue
        check(same(v, getattr(obj.orbit, k), FIELDS[d["orbit"]["cls"]][k][0]), f"orbit {k}")
    if "tle" in d["orbit"]:
        check(list(obj.orbit.tle) == d["orbit"]["tle"], "element set")
    want = d.get("instruments", [{"cls": "Instrument"}])
    check(len(obj.instruments) == len(want), "number of instruments")
    for i, w in zip(obj.instruments, want):
        check(type(i).__name__ == w["cls"], f"instrument: a {w['cls']} became a {type(i).__name__}")
        for k, (kind, _, default) in FIELDS[w["cls"]].items():
            check(same(w.get(k, default), getattr(i, k), kind), f"instrument {k} is {getattr(i, k)!r}, given {w.get(k, default)!r}")
    for k, v in {**DEFAULT.get(d["cls"], {}), **d["extra"]}.items():
        got = getattr(obj, k)
        if k == "interval":
            got, v = got.total_seconds(), round(v, 6)
        if k == "configuration":
            got = got.value
        check(got == v, f"{k} is {got!r}, given {v!r}")


def system_body(case, ev):
    d = case["system"]
    if case["empty"]:
        try:
            build({**d, "instruments": []}, case["dicts"])
        except ValidationError:
            ev.nontrivial()
            ev.label("no instruments")
            return
        check(False, "a space system without instruments is accepted")
    ok = valid(d["cls"], d["extra"])
    try:
        obj = build(d, case["dicts"])
    except ValidationError as err:
        check(not ok, f"{d['cls']}({d['extra']}) is rejected: {str(err)[:200]}")
        ev.nontrivial()
        ev.label("rejected")
        return
    check(ok, f"{d['cls']}({d['extra']}) is accepted")
    judge_nested(d, obj)
    if case["touch"]:
        touch(obj.orbit)
    trips(obj, d["cls"])
    judge_nested(d, type(obj).model_validate_json(obj.model_dump_json()))
    ev.label(d["cls"])
    ev.nontrivial(len(d["extra"]) > 0 or "instruments" in d)


def arch_strategy():
    return st.fixed_dictionaries(
        {
            "name": good("str", None),
            "systems": st.lists(system_dict().filter(lambda d: valid(d["cls"], d["extra"])), max_size=4),
            "stations": st.lists(values("GroundStation"), max_size=3),
            "omit": pick(*[False] * 7, True),
        }
    )


def arch_body(case, ev):
    from tatc.schemas import Architecture, GroundStation

    if case["omit"]:
        a = Architecture(name=case["name"])
        b = Architecture(name=case["name"])
        check(a.satellites == [] and a.stations == [], "an architecture is not empty by default")
        a.stations.append(GroundStation(name="x", latitude=0, longitude=0))
        check(b.stations == [] and Architecture(name="c").stations == [], "architectures share their default lists")
        return
    a = Architecture(
        name=case["name"],
        satellites=[build(d) for d in case["systems"]],
        stations=[GroundStation(**s) for s in case["stations"]],
    )
    for obj in (a, Architecture.model_validate_json(a.model_dump_json()), Architecture(**json.loads(a.model_dump_json()))):
        check(obj.name == case["name"], "name")
        check(len(obj.satellites) == len(case["systems"]) and len(obj.stations) == len(case["stations"]), "number of members")
        for d, s in zip(case["systems"], obj.satellites):
            judge_nested(d, s)
        for d, s in zip(case["stations"], obj.stations):
            for k, v in d.items():
                check(same(v, getattr(s, k), FIELDS["GroundStation"][k][0]), f"station {k}")
    trips(a, "Architecture")
    ev.nontrivial(len(case["systems"]) >= 1)


def counts_strategy():
    """Walker counts around the documented relations between them."""
    return st.fixed_dictionaries(
        {
            "n": st.integers(0, 40),
            "dp": st.one_of(st.integers(-3, 2), st.integers(-40, 0)),
            "df": st.one_of(st.integers(-3, 2), st.integers(-40, 0)),
            "configuration": pick("delta", "star"),
        }
    )


def counts_body(case, ev):
    from tatc.schemas import CircularOrbit, WalkerConstellation

    n = case["n"]
    p = n + case["dp"]
    f = p + case["df"]
    x = {"number_satellites": n, "number_planes": p, "relative_spacing": f}
    try:
        w = WalkerConstellation(
            name="w", orbit=CircularOrbit(altitude=700e3, epoch=gen.BASE), configuration=case["configuration"], **x
        )
    except ValidationError as err:
        check(not valid("WalkerConstellation", x), f"{x} is rejected: {str(err)[:200]}")
    else:
        check(valid("WalkerConstellation", x), f"{x} is accepted")
        trips(w, "WalkerConstellation")
    ev.nontrivial(n >= 1 and p >= 1 and f >= 0)


SUBS = [
    Sub("fields", flat_strategy, flat_body, quick=2500),
    Sub("systems", system_strategy, system_body, quick=1200),
    Sub("counts", counts_strategy, counts_body, quick=400, shards=2),
    Sub("architectures", arch_strategy, arch_body, quick=500),
]
