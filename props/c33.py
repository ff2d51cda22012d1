"""C33: grid points and cells tile the globe and correspond by id."""

import math

import shapely
from hypothesis import strategies as st
from shapely.geometry import Point as SP, Polygon, box

from lib import ref
from lib.gen import fl, pick
from lib.harness import Sub, check
from props.c32 import DIST, build_mask, polygons

RULE = "at least four cells; with a mask, some cells or points are kept and some dropped"
ASSUMPTIONS = [
    "the grid starts at longitude -180, latitude -90 with equal angular steps of distance / mean Earth radius, and has the number of rows and columns closest to filling the globe",
    "a masked cell is clipped to the mask and replaced by the convex hull; cells whose centre is outside the bounding box of the mask are dropped",
    "points and cells within 1e-7 degrees of the border of the mask are not judged; masks lie between longitude -180 and 360, and those beyond 180 span less than the globe",
]


def strategy():
    return st.fixed_dictionaries(
        {
            "dist": DIST,
            "elev": fl(-400, 8000, 0.0),
            "default": st.booleans(),
            "mask": st.one_of(st.none(), polygons(), polygons()),
            "strips": pick(None, None, "lat", "lon"),
            "where": st.lists(st.tuples(fl(0, 1), fl(0, 1)), min_size=3, max_size=8),
        }
    )


def fine_strategy():
    """Fine grids within small masks."""
    corner = {"lon": st.one_of(fl(-180, 170), fl(180, 330)), "lat": fl(-90, 85)}
    b = st.fixed_dictionaries({**corner, "w": fl(0.5, 10), "h": fl(0.5, 5)})
    star = st.fixed_dictionaries(
        {"lon": fl(-170, 170), "lat": fl(-75, 75), "size": fl(1, 5), "radii": st.lists(fl(0.3, 1, n=70), min_size=3, max_size=8), "hole": st.booleans()}
    )
    return st.fixed_dictionaries(
        {
            "dist": fl(2e4, 2e5),
            "elev": fl(-400, 8000, 0.0),
            "default": st.booleans(),
            "mask": st.lists(st.one_of(b, star), min_size=1, max_size=1),
            "strips": pick(None, None, "lat", "lon"),
            "where": st.just([]),
        }
    )


def near_half(v):
    return abs(v - math.floor(v) - 0.5) < 1e-7


def body(case, ev):
    from tatc.generation import generate_equally_spaced_cells, generate_equally_spaced_points

    th = math.degrees(case["dist"] / ref.R_E)
    if near_half(360 / th) or near_half(180 / th):
        return
    nx, ny = round(360 / th), round(180 / th)
    kw = {} if case["default"] else {"elevation": case["elev"]}
    z = 0.0 if case["default"] else case["elev"]
    if nx * ny > 3000 and case["mask"] is None:
        return
    mask = None
    if case["mask"] is not None:
        mask = build_mask(case["mask"])
        if mask is None:
            return
        kw["mask"] = mask
    bx = mask.bounds if mask is not None else (-180, -90, 180, 90)
    if bx[2] > 180 and bx[2] - bx[0] > 360 - 2 * th:
        return  # the mask would reach the same cell from both sides
    s = case["strips"]
    pts = generate_equally_spaced_points(case["dist"], **kw)
    cells = generate_equally_spaced_cells(case["dist"], strips=s, **kw) if s or case["elev"] > 0 else generate_equally_spaced_cells(case["dist"], **kw)
    for g in (pts, cells):
        check(g.crs is not None and g.crs.to_epsg() == 4326, "crs")
        check(list(g.index) == list(range(len(g))), "index")
    ids = [int(i) for i in pts["point_id"]]
    check(len(set(ids)) == len(ids), f"point ids repeat: {sorted(i for i in ids if ids.count(i) > 1)[:4]}")
    cid = [int(i) for i in cells["cell_id"]]
    check(len(set(cid)) == len(cid), f"cell ids repeat: {sorted(i for i in cid if cid.count(i) > 1)[:4]}")
    # points
    kept = dropped = 0
    got = dict(zip(ids, pts.geometry))
    cols = range(0, 2 * nx) if bx[2] > 180 else range(nx)
    rows = range(ny)
    if nx * ny > 3000:
        # only the surroundings of the mask
        cols = range(max(0, int((bx[0] + 180) / th) - 2), min(cols.stop, int((bx[2] + 180) / th) + 3))
        rows = range(max(0, int((bx[1] + 90) / th) - 2), min(ny, int((bx[3] + 90) / th) + 3))
        if len(cols) * len(rows) > 3000:
            return
        ev.label("fine")
    for j in rows:
        for i in cols:
            x, y = -180 + (i + 0.5) * th, -90 + (j + 0.5) * th
            if mask is not None:
                p = SP(x, y)
                if mask.boundary.distance(p) < 1e-7:
                    got.pop(j * nx + i % nx, None)
                    continue
                want = mask.contains(p)
            else:
                want = True
            if not want:
                dropped += 1
                continue
            kept += 1
            g = got.pop(j * nx + i % nx, None)
            check(g is not None, f"point of column {i}, row {j} (lon {x}, lat {y}) is missing")
            check(abs(g.x - x) < 1e-7 and abs(g.y - y) < 1e-7 and g.z == z, f"point of column {i}, row {j} at {g.wkt}, expected lon {x} lat {y} height {z}")
    check(not got, lambda: f"extra points {[(k, v.wkt) for k, v in got.items()][:3]}")
    if mask is None and len(pts):
        check(pts.geometry.x.abs().max() <= 180 and pts.geometry.y.abs().max() <= 90, "points out of range")
    # cells
    got = dict(zip(cid, cells.geometry))
    ks = kd = 0
    total = 0.0
    for j in range(1) if s == "lon" else rows:
        for i in (range(1) if s == "lat" else cols):
            x0, x1 = (bx[0], bx[2]) if s == "lat" else (-180 + i * th, -180 + (i + 1) * th)
            y0, y1 = (bx[1], bx[3]) if s == "lon" else (-90 + j * th, -90 + (j + 1) * th)
            xm, ym = (x0 + x1) / 2, (y0 + y1) / 2
            edge = (s != "lat" and min(abs(xm - bx[0]), abs(xm - bx[2])) < 1e-7) or (
                s != "lon" and min(abs(ym - bx[1]), abs(ym - bx[3])) < 1e-7
            )
            inside = (s == "lat" or bx[0] < xm < bx[2]) and (s == "lon" or bx[1] < ym < bx[3])
            key = j * nx + i % nx
            if mask is None:
                want = box(x0, y0, x1, y1)
            else:
                if edge:
                    got.pop(key, None)
                    continue
                if not inside:
                    kd += 1
                    continue
                want = box(x0, y0, x1, y1).intersection(mask)
                if want.area < 1e-7:
                    g = got.pop(key, None)
                    check(g is None or g.area < 1e-6, f"cell {key} does not reach the mask but is kept")
                    kd += 1
                    continue
                want = want.convex_hull
            ks += 1
            g = got.pop(key, None)
            check(g is not None, f"cell {key} (lon {x0:.4f}..{x1:.4f}, lat {y0:.4f}..{y1:.4f}) is missing")
            check(g.is_valid and g.symmetric_difference(want).area < 1e-6 * want.area + 1e-9, f"cell {key} is {g.bounds} ({g.area}), expected {want.bounds} ({want.area})")
            zs = shapely.get_coordinates(g, include_z=True)[:, 2]
            check(all(abs(v - z) <= 1e-9 * (1 + abs(z)) for v in zs), f"cell {key}: elevations {sorted(set(zs))[:3]}, expected {z}")
            total += g.area
    check(not got, lambda: f"extra cells {[(k, v.bounds) for k, v in got.items()][:3]}")
    if mask is None and len(cells):
        # tiling: every place of the grid is in exactly one cell
        tree = shapely.STRtree(list(cells.geometry))
        for u, v in case["where"]:
            p = SP(-180 + u * min(360, nx * th) * 0.999999, -90 + v * min(180, ny * th) * 0.999999)
            hits = tree.query(p, predicate="intersects")
            if not any(cells.geometry.iloc[int(h)].boundary.distance(p) < 1e-9 for h in hits):
                check(len(hits) == 1, f"place {p.wkt} is in {len(hits)} cells")
        # cells and points correspond by id
        if s is None:
            where = dict(zip(ids, pts.geometry))
            check(set(where) == set(cid), "cells and points have different ids")
            for i, g in zip(cid, cells.geometry):
                c = g.centroid
                check(abs(c.x - where[i].x) < 1e-6 and abs(c.y - where[i].y) < 1e-6, f"point {i} is not at the centre of its cell")
    ev.label(str(s), "mask" if mask is not None else "globe")
    ev.nontrivial(ks >= 4 if mask is None else (kept + ks > 0 and dropped + kd > 0))


def bad_strategy():
    return st.fixed_dictionaries({"dist": fl(1e6, 4e6), "what": pick("points", "cells", "fibonacci"), "x": fl(-100, 100), "y": fl(-50, 50), "w": fl(1, 40)})


def bad_body(case, ev):
    from tatc.generation import (
        generate_equally_spaced_cells,
        generate_equally_spaced_points,
        generate_fibonacci_lattice_points,
    )

    x, y, w = case["x"], case["y"], case["w"]
    bow = Polygon([(x, y), (x + w, y + w), (x + w, y), (x, y + w)])
    fn = {"points": generate_equally_spaced_points, "cells": generate_equally_spaced_cells, "fibonacci": generate_fibonacci_lattice_points}[case["what"]]
    try:
        fn(case["dist"], mask=bow)
    except ValueError:
        ev.nontrivial()
        return
    check(False, f"{case['what']}: a self-crossing mask is accepted")


SUBS = [
    Sub("grid", strategy, body, quick=1600),
    Sub("fine", fine_strategy, body, quick=500),
    Sub("bad_mask", bad_strategy, bad_body, quick=60),
]
