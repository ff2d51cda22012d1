"""C11: TLEs are accepted iff well formed and ordered, and decode to the encoded values."""

import math
import re
from datetime import timedelta

from hypothesis import strategies as st
from pydantic import ValidationError

from lib import gen, ref
from lib.gen import pick
from lib.harness import Sub, check

RULE = "decode: the TLE has a non-zero drag or acceleration field, or an Alpha-5 catalog number; reject: the corrupted text differs from the valid one; multi: two or more element sets"
ASSUMPTIONS = ["catalog numbers use the Alpha-5 convention above 99999"]

ALPHA5 = "ABCDEFGHJKLMNPQRSTUVWXYZ"


def decode_strategy():
    return st.fixed_dictionaries(
        {
            "f": st.lists(
                gen.tle_fields(
                    ecc=st.one_of(st.integers(0, 9000000), st.integers(0, 2000), st.just(0)),
                    mm=st.one_of(
                        st.integers(12 * 10**8, 17 * 10**8), st.integers(10**7, 12 * 10**8)
                    ).map(lambda k: k / 10**8),
                ),
                min_size=1,
                max_size=3,
            ),
            "pad": st.booleans(),
            # analyst objects have no launch: the designator columns are blank
            "blank": st.sampled_from([False, False, False, True]),
            # explicit positive signs (mantissa and exponent), other ephemeris types
            "plus": st.booleans(),
            "exponent": st.integers(0, 3),
            "etype": st.sampled_from([0, 0, 0, 1, 2, 3, 4, 5]),
        }
    )


def kepler(ma_deg, e):
    m = math.radians(ma_deg) % (2 * math.pi)
    lo, hi = 0.0, 2 * math.pi
    for _ in range(200):
        mid = (lo + hi) / 2
        if mid - e * math.sin(mid) < m:
            lo = mid
        else:
            hi = mid
    x = (lo + hi) / 2
    return math.degrees(
        2 * math.atan2(math.sqrt(1 + e) * math.sin(x / 2), math.sqrt(1 - e) * math.cos(x / 2))
    ) % 360


def near(a, b, tol, what):
    check(abs(a - b) <= tol, f"{what} {a}, expected {b}")


def decode_body(case, ev):
    from tatc.schemas import TwoLineElements

    fs = sorted(case["f"], key=lambda f: gen.ts(f["epoch"]))
    lines = []
    blank, plus = case.get("blank", False), case.get("plus", False)
    fs = [{**f, "etype": case.get("etype", f["etype"])} for f in fs]
    if plus:
        fs = [{**f, "nddot": [f["nddot"][0], case["exponent"]]} for f in fs]
    for f in fs:
        a, b = gen.format_tle({**f, "desig": ""} if blank else f)
        if plus:
            a = (
                a[:33]
                + a[33].replace(" ", "+")
                + a[34:44]
                + a[44].replace(" ", "+")
                + a[45:50]
                + ("+" if case["exponent"] >= 0 else "-")
                + a[51:53]
                + a[53].replace(" ", "+")
                + a[54:]
            )
            a = gen.with_checksum(a[:68])
        if case["pad"]:
            # zero-padded numbers, and a blank-padded catalog number
            b = (
                b[:8]
                + f"{f['inc']:08.4f} {f['raan']:08.4f}"
                + b[25:34]
                + f"{f['argp']:08.4f} {f['ma']:08.4f} {f['mm']:011.8f}"
                + b[63:]
            )
            if f["catalog"][0] == "0":
                c = f"{int(f['catalog']):>5}"
                a, b = a[:2] + c + a[7:], b[:2] + c + b[7:]
            a, b = gen.with_checksum(a[:68]), gen.with_checksum(b[:68])
        lines += [a, b]
    o = TwoLineElements(tle=lines)
    check(o.tle == lines, "lines changed")
    check(o.to_tle().tle == lines, "to_tle changed the lines")
    check(o.get_tle_count() == len(fs), f"tle count {o.get_tle_count()}")
    for i, f in enumerate(fs):
        c = f["catalog"]
        cat = (
            int(c)
            if c[0].isdigit()
            else (ALPHA5.index(c[0]) + 10) * 10000 + int(c[1:])
        )
        check(o.get_catalog_number(i) == cat, f"catalog {o.get_catalog_number(i)} != {cat}")
        check(o.get_classification(i) == f["class"], "classification")
        got = o.get_international_designator(i)
        if blank:
            check(got.strip(" -") == "", f"designator {got!r} from blank columns")
        else:
            yy = int(f["desig"][:2])
            want = f"{2000 + yy if yy < 57 else 1900 + yy}-{f['desig'][2:]}"
            check(got == want, f"designator {got} != {want}")
        dt = abs((o.get_epoch(i) - gen.ts(f["epoch"])).total_seconds())
        check(dt < 2e-3, f"epoch {o.get_epoch(i)} != {f['epoch']}")
        near(o.get_first_derivative_mean_motion(i), f["ndot"] * 1e-8, 1e-15, "ndot")
        m, x = f["nddot"]
        near(o.get_second_derivative_mean_motion(i), m * 1e-5 * 10.0**x, 1e-9 * abs(m) * 10.0**x + 1e-30, "nddot")
        m, x = f["bstar"]
        near(o.get_b_star(i), m * 1e-5 * 10.0**x, 1e-9 * abs(m) * 10.0**x + 1e-30, "bstar")
        check(o.get_ephemeris_type(i) == f["etype"], "ephemeris type")
        check(o.get_element_set_number(i) == f["elset"], f"element set {o.get_element_set_number(i)} != {f['elset']}")
        near(o.get_inclination(i), f["inc"], 1e-9, "inclination")
        near(o.get_right_ascension_ascending_node(i), f["raan"], 1e-9, "raan")
        e = f["ecc"] * 1e-7
        near(o.get_eccentricity(i), e, 1e-12, "eccentricity")
        near(o.get_perigee_argument(i), f["argp"], 1e-9, "argument of perigee")
        near(o.get_mean_anomaly(i), f["ma"], 1e-9, "mean anomaly")
        near(o.get_mean_motion(i), f["mm"], 1e-9, "mean motion")
        check(o.get_revolution_number_at_epoch(i) == f["rev"], "revolution number")
        n = f["mm"] * 2 * math.pi / 86400
        a = (ref.MU / n**2) ** (1 / 3)
        near(o.get_semimajor_axis(i), a, 1e-6 * a, "semimajor axis")
        near(o.get_altitude(i), a - ref.R_E, 1e-6 * a, "altitude")
        near(o.get_orbit_period(i) / timedelta(seconds=1), 86400 / f["mm"], 1e-5, "period")
        nu = kepler(f["ma"], e)
        check(
            ref.ang_diff(o.get_true_anomaly(i), nu) < 1e-6,
            f"true anomaly {o.get_true_anomaly(i)} != {nu} (e={e}, M={f['ma']})",
        )
        ev.nontrivial(f["bstar"][0] != 0 or f["nddot"][0] != 0 or not c[0].isdigit())
        if not c[0].isdigit():
            ev.label("alpha5")
        if f["bstar"][0] < 0 or f["nddot"][0] < 0:
            ev.label("negative_term")
        if f["ecc"] > 2000000:
            ev.label("eccentric")


def reject_strategy():
    return st.fixed_dictionaries(
        {
            "f": gen.tle_fields(numeric_catalog=True),
            "f2": gen.tle_fields(numeric_catalog=True),
            "two": st.booleans(),
            "op": pick("digit", "digit", "char", "drop", "add", "swap", "odd", "checksum", "minus", "lineno"),
            "line": st.integers(0, 3),
            "pos": st.integers(0, 68),
            "k": st.integers(1, 9),
        }
    )


def reject_body(case, ev):
    from tatc.schemas import TwoLineElements

    fs = [case["f"]]
    if case["two"]:
        fs.append({**case["f2"], "epoch": case["f"]["epoch"]})
    good = [ln for f in fs for ln in gen.format_tle(f)]
    TwoLineElements(tle=good)  # must be accepted
    bad = list(good)
    i = case["line"] % len(bad)
    s, p = bad[i], case["pos"]
    op = case["op"]
    if op == "digit":
        ds = [k for k in range(68) if s[k].isdigit()]
        p = ds[p % len(ds)]
        s = s[:p] + str((int(s[p]) + case["k"]) % 10) + s[p + 1 :]
        if p == 0:
            op = "lineno"
    elif op == "checksum":
        s = s[:68] + str((int(s[68]) + case["k"]) % 10)
    elif op == "char":
        p = p % 69
        s = s[:p] + pick_char(case["k"]) + s[p + 1 :]
    elif op == "drop":
        s = s[:p] + s[p + 1 :]
    elif op == "add":
        s = s[:p] + " " + s[p:]
    elif op == "minus":
        ds = [k for k in range(2, 68) if s[k] == "-"] or [k for k in range(68) if s[k] == "1"]
        p = ds[p % len(ds)]
        s = s[:p] + ("+" if s[p] == "-" else "-") + s[p + 1 :]
        if sum_of(s) == int(s[68]):
            return
    elif op == "lineno":
        s = ("2" if s[0] == "1" else "1") + s[1:]
        s = gen.with_checksum(s[:68])
    bad[i] = s
    if op == "swap":
        bad[0], bad[1] = bad[1], bad[0]
    elif op == "odd":
        bad = bad[:-1] if case["k"] % 2 else bad + [bad[0]]
    try:
        TwoLineElements(tle=bad)
    except ValidationError:
        ev.nontrivial(bad != good)
        ev.label(op)
        return
    check(False, f"malformed TLE accepted ({op} line {i} position {p}): {bad}")


def sum_of(s):
    return gen.tle_checksum(s[:68])


def pick_char(k):
    return "*?x_/:;,="[k - 1]


def multi_strategy():
    return st.fixed_dictionaries(
        {
            "f": st.lists(gen.tle_fields(numeric_catalog=True), min_size=2, max_size=4),
            "gaps": st.lists(pick(0, 0, 1, 60, 3600, 86400, -1, -60, -86400), min_size=3, max_size=3),
        }
    )


def multi_body(case, ev):
    from tatc.schemas import TwoLineElements

    t = gen.ts(case["f"][0]["epoch"])
    fs = [case["f"][0]]
    for f, g in zip(case["f"][1:], case["gaps"]):
        t = t + timedelta(seconds=g)
        fs.append({**f, "epoch": gen.iso(t)})
    lines = [ln for f in fs for ln in gen.format_tle(f)]

    # the order that counts is the one of the encoded epochs
    def key(ln):
        y = int(ln[18:20])
        return (1900 if y >= 57 else 2000) + y, float(ln[20:32])

    keys = [key(ln) for ln in lines[::2]]
    ordered = all(a <= b for a, b in zip(keys, keys[1:]))
    try:
        TwoLineElements(tle=lines)
        ok = True
    except ValidationError:
        ok = False
    check(ok == ordered, f"epochs {keys}: {'accepted' if ok else 'rejected'}")
    ev.label("ordered" if ordered else "unordered")
    ev.nontrivial()


SUBS = [
    Sub("decode", decode_strategy, decode_body, quick=1200),
    Sub("reject", reject_strategy, reject_body, quick=1200),
    Sub("multi", multi_strategy, multi_body, quick=600),
]
