"""Strategies (yielding JSON-serialisable values) and builders of tatc objects."""

from datetime import datetime, timedelta, timezone

from hypothesis import strategies as st

UTC = timezone.utc
BASE = datetime(2020, 1, 1, tzinfo=UTC)


def fl(lo, hi, *special, n=10**6):
    """Roughly uniform float in [lo, hi], mixed with the special values."""

    def f(k):
        # round to keep replay files readable; stays inside [lo, hi]
        return min(hi, max(lo, round(lo + (hi - lo) * (k / n), 9)))

    if not special:
        return st.integers(0, n).map(f)
    sp = list(special)
    # one draw in five is a special value (one_of would draw them half of the time)
    return st.integers(0, n + n // 4).map(lambda k: f(k) if k <= n else sp[k % len(sp)])


def weighted(*pairs):
    """Choice among (weight, strategy) pairs."""
    index = [s for w, s in pairs for _ in range(w)]
    return st.integers(0, len(index) - 1).flatmap(lambda k: index[k])


def pick(*xs):
    return st.sampled_from(list(xs))


def opt(s, none=None):
    return st.one_of(st.just(none), s)


def iso(t):
    return t.isoformat()


def ts(s):
    """ISO string -> aware datetime."""
    return datetime.fromisoformat(s)


def utc_instants(days=3000, step_us=1):
    """ISO strings of instants in 2020..2028, UTC."""
    return st.one_of(
        st.integers(0, days * 86400).map(lambda k: iso(BASE + timedelta(seconds=k))),
        st.integers(0, days * 86400 * 10**6).map(
            lambda k: iso(BASE + timedelta(microseconds=k))
        ),
    )


def epochs():
    return utc_instants()


def lat():
    return fl(-90, 90, 0.0, 90.0, -90.0, 45.0, 89.9, -89.9)


def lon():
    return fl(-180, 180, 0.0, 180.0, -180.0, 179.9, -179.9)


def circular(alt=None, inc=None, epoch=None):
    return st.fixed_dictionaries(
        {
            "type": st.just("circular"),
            "altitude": alt or fl(250e3, 2000e3, 400e3, 705e3),
            "true_anomaly": fl(0, 359.9, 0.0, 180.0),
            "epoch": epoch or epochs(),
            "inclination": inc or fl(0, 179, 0.0, 51.6, 90.0, 98.0),
            "right_ascension_ascending_node": fl(0, 359.9, 0.0),
        }
    )


def keplerian(alt=None, ecc=None, inc=None, epoch=None):
    return st.fixed_dictionaries(
        {
            "type": st.just("keplerian"),
            "altitude": alt or fl(600e3, 2000e3),
            "true_anomaly": fl(0, 359.9, 0.0, 180.0),
            "epoch": epoch or epochs(),
            "inclination": inc or fl(0, 179, 0.0, 63.4, 98.0),
            "right_ascension_ascending_node": fl(0, 359.9, 0.0),
            "eccentricity": ecc or fl(0, 0.05, 0.0),
            "perigee_argument": fl(0, 359.9, 0.0, 270.0),
        }
    )


def sso(alt=None, epoch=None):
    return st.fixed_dictionaries(
        {
            "type": st.just("sso"),
            "altitude": alt or fl(300e3, 1500e3, 705e3),
            "true_anomaly": fl(0, 359.9, 0.0),
            "epoch": epoch or epochs(),
            "equator_crossing_time": st.integers(0, 86399).map(
                lambda k: (datetime(2000, 1, 1) + timedelta(seconds=k))
                .time()
                .isoformat()
            ),
            "equator_crossing_ascending": st.booleans(),
        }
    )


def build_orbit(d):
    from tatc import schemas as S

    cls = {
        "circular": S.CircularOrbit,
        "keplerian": S.KeplerianOrbit,
        "sso": S.SunSynchronousOrbit,
        "molniya": S.MolniyaOrbit,
        "tundra": S.TundraOrbit,
        "tle": S.TwoLineElements,
    }[d["type"]]
    return cls(**d)


def tle_checksum(line68):
    n = 0
    for c in line68:
        if c.isdigit():
            n += int(c)
        elif c == "-":
            n += 1
    return n % 10


def with_checksum(line68):
    assert len(line68) == 68, (len(line68), line68)
    return line68 + str(tle_checksum(line68))


def _expfield(mant, exp):
    """TLE assumed-decimal field ' 12345-6' from signed 5-digit mantissa, exponent."""
    sign = "-" if mant < 0 else " "
    return f"{sign}{abs(mant):05d}{'-' if exp <= 0 else '+'}{abs(exp)}"


def format_tle(d):
    """Format the two lines for a dict of TLE fields (see tle_fields)."""
    desig = f"{d['desig']:<8}"
    ep = ts(d["epoch"])
    day = (ep - datetime(ep.year, 1, 1, tzinfo=UTC)) / timedelta(days=1) + 1
    ndot = d["ndot"]  # integer units of 1e-8
    nd = f"{'-' if ndot < 0 else ' '}.{abs(ndot):08d}"
    l1 = (
        f"1 {d['catalog']}{d['class']} {desig} {ep.year % 100:02d}{day:012.8f} {nd} "
        f"{_expfield(*d['nddot'])} {_expfield(*d['bstar'])} {d['etype']} {d['elset']:>4}"
    )
    l2 = (
        f"2 {d['catalog']} {d['inc']:8.4f} {d['raan']:8.4f} {d['ecc']:07d} "
        f"{d['argp']:8.4f} {d['ma']:8.4f} {d['mm']:11.8f}{d['rev']:>5}"
    )
    return [with_checksum(l1), with_checksum(l2)]


# normalised assumed-decimal mantissas
MANTISSA = st.one_of(st.integers(10000, 99999), st.integers(-99999, -10000))


def tle_fields(epoch=None, mm=None, ecc=None, inc=None, numeric_catalog=False):
    cat = st.integers(1, 99999).map(lambda k: f"{k:05d}")
    alpha = st.tuples(
        st.sampled_from("ABCDEFGHJKLMNPQRSTUVWXYZ"), st.integers(0, 9999)
    ).map(lambda t: f"{t[0]}{t[1]:04d}")
    return st.fixed_dictionaries(
        {
            "catalog": cat if numeric_catalog else st.one_of(cat, cat, alpha),
            "class": pick("U", "C", "S"),
            "desig": st.tuples(
                st.integers(57, 156), st.integers(1, 999), pick("A", "B", "AB", "ABC")
            ).map(lambda t: f"{t[0] % 100:02d}{t[1]:03d}{t[2]}"),
            "epoch": epoch or epochs(),
            "ndot": st.integers(-99999, 99999),
            "nddot": st.tuples(
                st.one_of(st.just(0), MANTISSA), st.integers(-9, 0)
            ),
            "bstar": st.tuples(
                st.one_of(st.just(0), MANTISSA), st.integers(-9, -3)
            ),
            "etype": st.just(0),
            "elset": st.integers(0, 9999),
            "inc": st.integers(0, 1799999).map(lambda k: k / 10000) if inc is None else inc,
            "raan": st.integers(0, 3599999).map(lambda k: k / 10000),
            "ecc": (st.integers(0, 200000) if ecc is None else ecc),
            "argp": st.integers(0, 3599999).map(lambda k: k / 10000),
            "ma": st.integers(0, 3599999).map(lambda k: k / 10000),
            "mm": (
                st.integers(12 * 10**8, 16 * 10**8).map(lambda k: k / 10**8)
                if mm is None
                else mm
            ),
            "rev": st.integers(0, 99999),
        }
    )


def build_instrument(d):
    from tatc.schemas import Instrument, PointedInstrument

    d = dict(d)
    for k in ("min_access_time",):
        if k in d and not isinstance(d[k], timedelta):
            d[k] = timedelta(seconds=d[k])
    kind = d.pop("kind", "basic")
    return (PointedInstrument if kind == "pointed" else Instrument)(**d)


def build_satellite(d):
    from tatc.schemas import Satellite

    kw = {}
    if d.get("instruments"):
        kw["instruments"] = [build_instrument(i) for i in d["instruments"]]
    return Satellite(name=d.get("name", "SAT"), orbit=build_orbit(d["orbit"]), **kw)


def build_point(d):
    from tatc.schemas import Point

    return Point(
        id=d.get("id", 0),
        latitude=d["lat"],
        longitude=d["lon"],
        elevation=d.get("elev", 0),
    )


def build_station(d):
    from tatc.schemas import GroundStation

    return GroundStation(
        name=d.get("name", "GS"),
        latitude=d["lat"],
        longitude=d["lon"],
        elevation=d.get("elev", 0),
        min_elevation_angle=d.get("min_el", 0),
        min_access_time=timedelta(seconds=d.get("min_access", 0)),
    )
