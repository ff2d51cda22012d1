"""C03: instrument constraints select observations; records carry the right attributes."""

import math
from datetime import timedelta

import pandas as pd
from hypothesis import strategies as st

from lib import gen, ref
from lib.gen import fl, opt, pick
from lib.harness import Sub, check
from props import c01

RULE = "the unconstrained instrument has an observation that a constraint (access time, sunlight or pointed view) removes, or one that passes an active constraint"
ASSUMPTIONS = [
    "the unconstrained observation periods are decided by C01",
    "targets within 10 % of the edge of a pointed view, or within 0.02 deg / 60 km of the terminator, may go either way",
    "solar geometry is taken from skyfield with the repository's ephemeris object",
]


def strategy():
    pointed = st.fixed_dictionaries(
        {
            "cross": fl(2, 70, 30.0),
            "along": fl(5, 70, 40.0),
            "roll": fl(-35, 35, 0.0),
            "pitch": fl(-12, 12, 0.0, 0.0),
            "rect": st.booleans(),
            "aim": st.one_of(st.none(), st.tuples(fl(-1.6, 1.6), fl(-1.6, 1.6)), st.tuples(fl(-1.6, 1.6), fl(-1.6, 1.6))),
            "narrow": st.one_of(st.none(), st.tuples(fl(0.5, 4), fl(0.5, 4))),
        }
    )
    return st.fixed_dictionaries(
        {
            "orbit": st.one_of(gen.circular(), gen.keplerian(), gen.sso()),
            "for": fl(20, 180, 100.0, 140.0),
            "min_access": pick(0, 0, 1, 30, 60, 120, 200, 400, 900, "equal", "above"),
            "fixed": st.booleans(),
            "self": pick(None, None, True, False),
            "target": pick(None, None, True, False),
            "pointed": st.one_of(st.none(), pointed, pointed),
            "omit_solar": st.booleans(),
            "pid": st.integers(0, 10**6),
            "index": st.integers(0, 2),
            **c01.window(st.one_of(st.integers(300, 6000), st.integers(6000, 40000))),
            **c01.near_point(9.0),
        }
    )


def pointing(p, b, lines, pt):
    """The view: as drawn, or aimed so that the target is at a drawn offset from its centre."""
    if p is None:
        return None
    p = dict(p)
    if p["narrow"]:
        p["cross"], p["along"] = p["narrow"]
    if p["aim"] and len(b) > 0:
        r = b.iloc[0]
        pos, vel = ref.state(lines, (r["start"] + (r["end"] - r["start"]) / 2).to_pydatetime())
        x, y, a = ref.view_coords(pos, vel, ref.ecef(pt["lat"], pt["lon"], pt["elev"]))
        if a > 0:
            p["roll"] = math.degrees(math.atan(x - p["aim"][0] * math.tan(math.radians(p["cross"] / 2))))
            p["pitch"] = math.degrees(math.atan(y - p["aim"][1] * math.tan(math.radians(p["along"] / 2))))
    return p


def body(case, ev):
    from tatc.analysis import collect_observations
    from tatc.constants import de421
    from tatc.schemas import Instrument, Point, PointedInstrument, Satellite

    c01.no_repeat()
    orbit, lines, start, end, pt = c01.setup(case)
    base = Instrument(name="base", field_of_regard=case["for"])
    point = Point(id=case["pid"], latitude=pt["lat"], longitude=pt["lon"], elevation=pt["elev"])
    b = collect_observations(point, Satellite(name="S", orbit=orbit, instruments=[base]), start, end)
    macc = case["min_access"]
    if macc in ("equal", "above"):
        # the length of an observation, or a microsecond more
        first = (b["end"] - b["start"]).iloc[0].to_pytimedelta() if len(b) else timedelta(seconds=5)
        macc = first + timedelta(microseconds=1 if macc == "above" else 0)
        ev.label("minimum access equal to an observation")
    else:
        macc = timedelta(seconds=macc)
    common = {
        "name": "the one",
        "field_of_regard": case["for"],
        "min_access_time": macc,
        "access_time_fixed": case["fixed"],
        "req_self_sunlit": case["self"],
        "req_target_sunlit": case["target"],
    }
    p = pointing(case["pointed"], b, lines, pt)
    if p is None:
        inst = Instrument(**common)
    else:
        inst = PointedInstrument(
            **common,
            cross_track_field_of_view=p["cross"],
            along_track_field_of_view=p["along"],
            roll_angle=p["roll"],
            pitch_angle=p["pitch"],
            is_rectangular=p["rect"],
        )
    decoy = Instrument(name="decoy", field_of_regard=5)
    ins = [decoy, decoy, decoy]
    ins[case["index"]] = inst
    gdf = collect_observations(
        point,
        Satellite(name="Sat A", orbit=orbit, instruments=ins),
        start,
        end,
        instrument_index=case["index"],
        omit_solar=case["omit_solar"],
    )
    got = {r["epoch"]: r for _, r in gdf.iterrows()}
    check(len(got) == len(gdf), "two records share an epoch")
    for _, r in b.iterrows():
        mid = r["start"] + (r["end"] - r["start"]) / 2
        dt = mid.to_pydatetime()
        valid = True
        why = "min_access"
        if r["end"] - r["start"] < macc:
            valid = False
        if valid is not False and case["self"] is not None:
            m = ref.sunlit_margin(de421, ref.gcrs(lines, dt), dt)
            if abs(m) < 60e3:
                valid = None
            elif (m > 0) != case["self"]:
                valid, why = False, "self_sunlit"
        if valid is not False and case["target"] is not None:
            alt, _, _ = ref.sun_topos(de421, pt["lat"], pt["lon"], pt["elev"], dt)
            if abs(alt) < 0.02:
                valid = None
            elif (alt > 0) != case["target"]:
                valid, why = False, "target_sunlit"
        if valid is not False and p is not None:
            pos, vel = ref.state(lines, dt)
            x, y, a = ref.view_coords(pos, vel, ref.ecef(pt["lat"], pt["lon"], pt["elev"]))
            x = (x - math.tan(math.radians(p["roll"]))) / math.tan(math.radians(p["cross"] / 2))
            y = (y - math.tan(math.radians(p["pitch"]))) / math.tan(math.radians(p["along"] / 2))
            q = max(abs(x), abs(y)) if p["rect"] else math.hypot(x, y)
            if a <= 0:
                q = 99.0
            # footprints reaching the limb or a pole are distorted in lon/lat
            edge = max(
                abs(p["roll"]) + p["cross"] / 2, abs(p["pitch"]) + p["along"] / 2
            )
            soft = abs(pt["lat"]) > 75 or edge > 50
            lo, hi = (0.5, 2.0) if soft else (0.9, 1.1)
            if q > hi:
                if not soft:
                    valid, why = False, "not_in_view"
                else:
                    valid = None
            elif q > lo:
                valid = None
        row = got.pop(mid, None)
        if row is None:
            alt_key = [k for k in got if abs(k - mid) < pd.Timedelta(microseconds=5)]
            row = got.pop(alt_key[0]) if alt_key else None
        check(
            not (valid is True and row is None),
            lambda: f"observation at {mid} satisfies every constraint but is missing (minimum {macc}, {r['end'] - r['start']})",
        )
        check(
            not (valid is False and row is not None),
            lambda: f"observation at {mid} violates {why} but is recorded",
        )
        if valid is False:
            ev.label("removed_" + why)
            ev.nontrivial()
        if valid is True and (macc or p or case["self"] is not None or case["target"] is not None):
            ev.label("kept_with_constraint")
            ev.nontrivial()
        if row is not None:
            record(case, row, r, pt, lines, mid, macc, de421)
    check(not got, lambda: f"records at {list(got)} are not observations without the constraints")
    want = {"point_id", "geometry", "satellite", "instrument", "start", "end", "epoch", "sat_alt", "sat_az"}
    solar = {"sat_sunlit", "solar_alt", "solar_az", "solar_time"}
    check(want <= set(gdf.columns), f"columns {list(gdf.columns)}")
    check(
        (solar <= set(gdf.columns)) if not case["omit_solar"] else not (solar & set(gdf.columns)),
        f"solar columns with omit_solar={case['omit_solar']}: {list(gdf.columns)}",
    )


def record(case, row, r, pt, lines, mid, macc, eph):
    check(row["point_id"] == case["pid"], f"point_id {row['point_id']}")
    check(row["satellite"] == "Sat A" and row["instrument"] == "the one", "names")
    g = row["geometry"]
    check(
        (g.x, g.y, g.z) == (pt["lon"], pt["lat"], float(pt["elev"])), f"geometry {g} for {pt}"
    )
    if case["fixed"]:
        check(
            abs((row["start"] - (mid - macc / 2)) / pd.Timedelta(seconds=1)) < 1e-5
            and abs((row["end"] - (mid + macc / 2)) / pd.Timedelta(seconds=1)) < 1e-5,
            f"fixed access {row['start']}..{row['end']} is not {macc} centred on {mid}",
        )
    else:
        check(
            row["start"] == r["start"] and row["end"] == r["end"],
            f"period {row['start']}..{row['end']}, expected {r['start']}..{r['end']}",
        )
    dt = mid.to_pydatetime()
    el, az = ref.elevation_angle(lines, pt["lat"], pt["lon"], pt["elev"], dt, 0.0)
    check(abs(row["sat_alt"] - float(el)) < 1e-3, f"sat_alt {row['sat_alt']} != {el}")
    check(
        ref.ang_diff(row["sat_az"], float(az)) * math.cos(math.radians(float(el))) < 1e-3,
        f"sat_az {row['sat_az']} != {az}",
    )
    if not case["omit_solar"]:
        alt, az, ha = ref.sun_topos(eph, pt["lat"], pt["lon"], pt["elev"], dt)
        check(abs(row["solar_alt"] - alt) < 1e-3, f"solar_alt {row['solar_alt']} != {alt}")
        check(
            ref.ang_diff(row["solar_az"], az) * math.cos(math.radians(alt)) < 1e-3,
            f"solar_az {row['solar_az']} != {az}",
        )
        st_h = (ha + 12) % 24
        dh = abs((row["solar_time"] - st_h + 12) % 24 - 12)
        check(dh < 1e-3 and 0 <= row["solar_time"] <= 24, f"solar_time {row['solar_time']} != {st_h}")
        m = ref.sunlit_margin(eph, ref.gcrs(lines, dt), dt)
        if abs(m) > 60e3:
            check(bool(row["sat_sunlit"]) == (m > 0), f"sat_sunlit {row['sat_sunlit']}, margin {m}")


def warm():
    c01.no_repeat()


def pointed_strategy():
    """Narrow views aimed at, or just past, a target well above or below the datum."""
    off = st.one_of(fl(-0.88, 0.88), fl(1.12, 1.6), fl(-1.6, -1.12))
    return st.fixed_dictionaries(
        {
            "orbit": st.one_of(gen.circular(), gen.keplerian(), gen.sso()),
            "for": fl(60, 140),
            "min_access": pick(0),
            "fixed": st.booleans(),
            "self": pick(None),
            "target": pick(None),
            "pointed": st.fixed_dictionaries(
                {
                    "cross": pick(1.0),
                    "along": pick(1.0),
                    "roll": pick(0.0),
                    "pitch": pick(0.0),
                    "rect": st.booleans(),
                    "aim": st.tuples(off, off),
                    "narrow": st.tuples(fl(0.3, 3), fl(0.3, 3)),
                }
            ),
            "omit_solar": pick(True),
            "pid": st.integers(0, 10),
            "index": st.integers(0, 2),
            **c01.window(st.integers(300, 6000)),
            **c01.near_point(6.0),
            "elev": st.one_of(fl(-10000, -2000), fl(2000, 9000), pick(0.0)),
        }
    )


SUBS = [Sub("constraints", strategy, body, quick=1200), Sub("pointed", pointed_strategy, body, quick=300)]
