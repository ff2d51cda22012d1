"""Reference computations, independent of tatc (skyfield / sgp4 / numpy only)."""

import math
from datetime import datetime, timedelta, timezone

import numpy as np
from skyfield.api import EarthSatellite, load, wgs84
from skyfield.framelib import itrs

UTC = timezone.utc
A_E = 6378137.0
F_E = 1 / 298.257223563
B_E = A_E * (1 - F_E)
R_E = (2 * A_E + B_E) / 3
MU = 3.986004418e14
SIDEREAL = 86164.0905

_TS = None


def ts():
    global _TS
    if _TS is None:
        _TS = load.timescale()
    return _TS


def sat_of(lines):
    return EarthSatellite(lines[0], lines[1], None, ts())


def t_of(dt):
    return ts().from_datetime(dt.astimezone(UTC))


def t_after(start, seconds):
    """Vector (or scalar) of times `seconds` after datetime `start` (no leap second)."""
    t0 = t_of(start)
    return ts().tt_jd(t0.whole, t0.tt_fraction + np.asarray(seconds) / 86400.0)


def secs(t, start):
    """Seconds from datetime start to timestamp t."""
    if hasattr(t, "to_pydatetime"):
        base = t.tz_convert("UTC") if t.tzinfo else t
        import pandas as pd

        return (base - pd.Timestamp(start.astimezone(UTC))) / pd.Timedelta(seconds=1)
    return (t - start) / timedelta(seconds=1)


def elevation_angle(lines, lat, lon, elev, start, seconds):
    topos = wgs84.latlon(lat, lon, elev)
    alt, az, _ = (sat_of(lines) - topos).at(t_after(start, seconds)).altaz()
    return alt.degrees, az.degrees


def ang_close(a, b, tol):
    return abs((a - b + 180.0) % 360.0 - 180.0) <= tol


def ang_diff(a, b):
    return abs((a - b + 180.0) % 360.0 - 180.0)


def unit(lat, lon):
    la, lo = math.radians(lat), math.radians(lon)
    return np.array(
        [math.cos(la) * math.cos(lo), math.cos(la) * math.sin(lo), math.sin(la)]
    )


def gc_deg(lat1, lon1, lat2, lon2):
    a, b = unit(lat1, lon1), unit(lat2, lon2)
    return math.degrees(math.atan2(np.linalg.norm(np.cross(a, b)), float(a @ b)))


def destination(lat, lon, brg, dist_deg):
    la, lo, b, d = map(math.radians, (lat, lon, brg, dist_deg))
    la2 = math.asin(
        max(-1, min(1, math.sin(la) * math.cos(d) + math.cos(la) * math.sin(d) * math.cos(b)))
    )
    lo2 = lo + math.atan2(
        math.sin(b) * math.sin(d) * math.cos(la),
        math.cos(d) - math.sin(la) * math.sin(la2),
    )
    lo2 = (math.degrees(lo2) + 180) % 360 - 180
    return max(-90.0, min(90.0, math.degrees(la2))), max(-180.0, min(180.0, lo2))


def min_elevation(alt, fov, elevation=0.0):
    """Elevation angle (deg) of a satellite at the edge of its field of regard."""
    s = math.sin(math.radians(min(fov, 180.0)) / 2) * (R_E + alt) / (R_E + elevation)
    return 0.0 if s >= 1 else math.degrees(math.acos(s))


def geodetic(lines, dt):
    g = wgs84.geographic_position_of(sat_of(lines).at(t_of(dt)))
    return g.latitude.degrees, g.longitude.degrees, g.elevation.m


def mean_motion_of(lines):
    return float(lines[1][52:63])


def visible_intervals(lines, lat, lon, elev, min_el, start, dur):
    """
    Brute-force visible intervals in [start, start+dur] (seconds).

    Returns (intervals, resolvable): intervals are dicts with a, b (s), margin
    (max elevation above the threshold), tol_a, tol_b (time tolerance of an
    elevation-threshold search), and must (False for grazing slivers, which an
    event search may legitimately miss). resolvable is False when the visible
    pattern cannot be bracketed by [start, culminations, their midpoints, end].
    """
    period = 86400.0 / mean_motion_of(lines)
    step = max(min(period / 400.0, dur / 40.0), 0.05)
    n = int(math.ceil(dur / step)) + 1
    s = np.linspace(0, dur, max(n, 3))

    def g(x):
        return elevation_angle(lines, lat, lon, elev, start, x)[0] - min_el

    v = g(s)
    # add local maxima so that passes shorter than a step are seen
    h = s[1] - s[0]
    se = np.concatenate([[-2 * h, -h], s, [dur + h, dur + 2 * h]])
    ve = np.concatenate([g(se[:2]), v, g(se[-2:])])
    k = np.nonzero((ve[1:-1] >= ve[:-2]) & (ve[1:-1] >= ve[2:]))[0] + 1
    maxima = []
    if len(k):
        lo, hi = se[k - 1], se[k + 1]
        for _ in range(30):
            m1 = lo + (hi - lo) * 0.382
            m2 = lo + (hi - lo) * 0.618
            g1, g2 = g(m1), g(m2)
            left = g1 > g2
            hi = np.where(left, m2, hi)
            lo = np.where(left, lo, m1)
        mx = (lo + hi) / 2
        mx = mx[(mx > 0) & (mx < dur)]
        gm = g(mx) if len(mx) else mx
        maxima = [(float(a), float(b)) for a, b in zip(mx, gm)]
        s = np.concatenate([s, mx])
        v = np.concatenate([v, gm])
        o = np.argsort(s, kind="stable")
        s, v = s[o], v[o]
    up = v >= 0
    idx = np.nonzero(up[1:] != up[:-1])[0]
    cross = np.array([])
    slope = np.array([])
    if len(idx):
        lo, hi = s[idx].copy(), s[idx + 1].copy()
        rising = ~up[idx]
        for _ in range(40):
            mid = (lo + hi) / 2
            above = g(mid) >= 0
            go_hi = above == rising
            hi = np.where(go_hi, mid, hi)
            lo = np.where(go_hi, lo, mid)
        cross = (lo + hi) / 2
        d = 0.5
        slope = np.abs(g(cross + d) - g(cross - d)) / (2 * d)
    pts = [(float(c), float(sl)) for c, sl in zip(cross, slope)]
    out = []
    cur = (0.0, None) if up[0] else None
    for c, sl in pts:
        if cur is None:
            cur = (c, sl)
        else:
            out.append((cur, (c, sl)))
            cur = None
    if cur is not None:
        out.append((cur, (float(dur), None)))
    res = []
    for (a, sa), (b, sb) in out:
        inside = (s >= a) & (s <= b)
        m = float(v[inside].max()) if inside.any() else 0.0

        def tol(sl):
            return 1.0 if sl is None else 1.0 + min(30.0, 0.01 / max(sl, 1e-6))

        res.append(
            {
                "a": a,
                "b": b,
                "margin": m,
                "tol_a": tol(sa),
                "tol_b": tol(sb),
                "must": (b - a) > 5.0 and m > 0.05,
            }
        )
    keep = sorted(a for a, m in maxima if m >= 0)
    nodes = [0.0] + keep + [float(dur)]
    probes = sorted(set(nodes + [(p + q) / 2 for p, q in zip(nodes, nodes[1:])]))
    resolvable = all(
        sum(1 for c, _ in pts if p <= c < q) <= 1 for p, q in zip(probes, probes[1:])
    )
    if resolvable and pts and (period > 5 * 3600 or float("0." + lines[1][26:33]) > 0.1):
        resolvable = _events_found(lines, lat, lon, elev, min_el, start, dur, res)
    return res, resolvable


def _events_found(lines, lat, lon, elev, min_el, start, dur, res):
    """
    Whether the event search of the Skyfield library, called directly, sees the
    gaps between these intervals: on slow or eccentric orbits, where visibility
    may last for several culminations, it can miss a gap altogether.
    """
    from skyfield.api import wgs84

    t0 = t_of(start)
    t1 = t_of(start + timedelta(seconds=float(dur)))
    t, e = sat_of(lines).find_events(wgs84.latlon(lat, lon, elev), t0, t1, min_el)
    ev = [secs(x.utc_datetime(), start) for x, k in zip(t, e) if k != 1]
    long = [r for r in res if r["must"]]
    edges = [(r["a"], r["tol_a"]) for r in long if r["a"] > 0] + [(r["b"], r["tol_b"]) for r in long if r["b"] < dur]
    return all(any(abs(x - a) <= tol + 1 for x in ev) for a, tol in edges)


def compare_intervals(rep, exp, check, what, soft_until=None):
    """rep: list of (a, b) seconds; exp: from visible_intervals. Two-way matching."""
    used = set()
    for a, b in rep:
        hit = None
        for i, e in enumerate(exp):
            if i not in used and abs(a - e["a"]) <= e["tol_a"] and abs(b - e["b"]) <= e["tol_b"]:
                hit = i
                break
        check(
            hit is not None,
            lambda: f"{what}: reported interval ({a:.3f}, {b:.3f}) s is not a visible interval; "
            f"expected {[(round(e['a'], 3), round(e['b'], 3), round(e['margin'], 3)) for e in exp][:12]}",
        )
        used.add(hit)
    for i, e in enumerate(exp):
        if i not in used and e["must"]:
            check(
                False,
                f"{what}: visible interval ({e['a']:.3f}, {e['b']:.3f}) s, {e['margin']:.3f} deg above "
                f"the threshold, is not reported; reported {[(round(a, 3), round(b, 3)) for a, b in rep][:12]}",
            )


def ecef(lat, lon, h):
    la, lo = math.radians(lat), math.radians(lon)
    e2 = F_E * (2 - F_E)
    nn = A_E / math.sqrt(1 - e2 * math.sin(la) ** 2)
    return np.array(
        [
            (nn + h) * math.cos(la) * math.cos(lo),
            (nn + h) * math.cos(la) * math.sin(lo),
            (nn * (1 - e2) + h) * math.sin(la),
        ]
    )


def lvlh(pos, vel):
    """Earth-fixed velocity, nadir and v x nadir unit vectors."""
    v = vel / np.linalg.norm(vel)
    b = -pos / np.linalg.norm(pos)
    n = np.cross(v, b)
    return v, b, n


def state(lines, dt):
    p, v = sat_of(lines).at(t_of(dt)).frame_xyz_and_velocity(itrs)
    return p.m, v.m_per_s


def view_coords(pos, vel, target):
    """(x, y, a): direction to target = a (b + y v + x n); a <= 0 means behind."""
    v, b, n = lvlh(pos, vel)
    d = target - pos
    d = d / np.linalg.norm(d)
    a, y, x = np.linalg.solve(np.column_stack([b, v, n]), d)
    return x / a, y / a, a


def sun_topos(eph, lat, lon, elev, dt):
    """Solar altitude, azimuth (deg), hour angle (h) from skyfield."""
    topos = wgs84.latlon(lat, lon, elev)
    app = (eph["earth"] + topos).at(t_of(dt)).observe(eph["sun"]).apparent()
    alt, az, _ = app.altaz()
    ha = app.hadec()[0].hours
    return alt.degrees, az.degrees, ha


def sunlit_margin(eph, pos_gcrs, dt):
    """Metres by which the ray from the satellite to the Sun clears (+) or hits (-) a spherical Earth."""
    t = t_of(dt)
    sun = (eph["sun"] - eph["earth"]).at(t).position.m
    d = sun - pos_gcrs
    d = d / np.linalg.norm(d)
    along = float(pos_gcrs @ d)
    perp = float(np.linalg.norm(pos_gcrs - along * d))
    if along >= 0:
        return 1e9
    return perp - 6378136.6


def gcrs(lines, dt):
    return sat_of(lines).at(t_of(dt)).position.m
