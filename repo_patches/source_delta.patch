From 4eeb13f58b3dddc47de5850e8b14a368bf666a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:14 +0000
Subject: [PATCH 01/42] fix: convert inclination to radians in ground velocity
 computations

---
 src/tatc/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tatc/utils.py b/src/tatc/utils.py
index 04f2202..b9a8469 100644
--- a/src/tatc/utils.py
+++ b/src/tatc/utils.py
@@ -303,7 +303,7 @@ def compute_ground_velocity(altitude: float, inclination: float) -> float:
     mean_motion_rad_s = np.sqrt(constants.EARTH_MU / semimajor_axis**3)
     return constants.EARTH_MEAN_RADIUS * (
         mean_motion_rad_s
-        - (2 * np.pi * np.cos(np.degrees(inclination)) / constants.EARTH_SIDEREAL_DAY_S)
+        - (2 * np.pi * np.cos(np.radians(inclination)) / constants.EARTH_SIDEREAL_DAY_S)
     )
 
 
@@ -326,7 +326,7 @@ def along_track_distance_to_access_time(
     mean_motion_rad_s = np.sqrt(constants.EARTH_MU / semimajor_axis**3)
     ground_velocity = constants.EARTH_MEAN_RADIUS * (
         mean_motion_rad_s
-        - (2 * np.pi * np.cos(np.degrees(inclination)) / constants.EARTH_SIDEREAL_DAY_S)
+        - (2 * np.pi * np.cos(np.radians(inclination)) / constants.EARTH_SIDEREAL_DAY_S)
     )
     return along_track / ground_velocity
 
@@ -350,7 +350,7 @@ def access_time_to_along_track_distance(
     mean_motion_rad_s = np.sqrt(constants.EARTH_MU / semimajor_axis**3)
     ground_velocity = constants.EARTH_MEAN_RADIUS * (
         mean_motion_rad_s
-        - (2 * np.pi * np.cos(np.degrees(inclination)) / constants.EARTH_SIDEREAL_DAY_S)
+        - (2 * np.pi * np.cos(np.radians(inclination)) / constants.EARTH_SIDEREAL_DAY_S)
     )
     return ground_velocity * access_time
 
-- 
2.43.0


From 73b72e7169914e1c1c3bbf4ef27a418c8353df68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:06 +0000
Subject: [PATCH 02/42] fix: keep the orbital period of Molniya and Tundra
 orbits

---
 src/tatc/schemas/orbit.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/tatc/schemas/orbit.py b/src/tatc/schemas/orbit.py
index f9f80c1..9e4a074 100644
--- a/src/tatc/schemas/orbit.py
+++ b/src/tatc/schemas/orbit.py
@@ -1045,6 +1045,15 @@ class MolniyaOrbit(OrbitBase):
             / (4 * (np.pi**2))
         )
 
+    def get_orbit_period(self) -> timedelta:
+        """
+        Gets the orbit period.
+
+        Returns:
+            timedelta: the orbit period
+        """
+        return timedelta(seconds=self.orbital_period)
+
     def get_eccentricity(self) -> float:
         """
         Gets the eccentricity (float between 0 and 1).
@@ -1093,7 +1102,7 @@ class MolniyaOrbit(OrbitBase):
             epoch=self.epoch,
             inclination=self.inclination,
             right_ascension_ascending_node=raan,
-            eccentricity=self.get_eccentricity(),
+            orbital_period=self.orbital_period,
             perigee_argument=self.perigee_argument,
         )
 
@@ -1178,6 +1187,7 @@ class TundraOrbit(MolniyaOrbit):
             epoch=self.epoch,
             inclination=self.inclination,
             right_ascension_ascending_node=raan,
+            orbital_period=self.orbital_period,
             eccentricity=self.eccentricity,
             perigee_argument=self.perigee_argument,
         )
-- 
2.43.0


From 9aec1e7b5e75be9a05f915f4d98050bc4fa0870e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:11 +0000
Subject: [PATCH 03/42] fix: weight gridded metrics by the samples of each
 reduced record

---
 src/tatc/analysis/coverage.py | 23 +++++++++++------------
 src/tatc/analysis/latency.py  | 21 ++++++++++-----------
 2 files changed, 21 insertions(+), 23 deletions(-)

diff --git a/src/tatc/analysis/coverage.py b/src/tatc/analysis/coverage.py
index 856f86f..8eaef7b 100644
--- a/src/tatc/analysis/coverage.py
+++ b/src/tatc/analysis/coverage.py
@@ -433,18 +433,17 @@ def grid_observations(
     # convert access and revisit to numeric values before aggregation
     gdf["access"] = gdf["access"] / timedelta(seconds=1)
     gdf["revisit"] = gdf["revisit"] / timedelta(seconds=1)
-    gdf = (
-        cells.sjoin(gdf, how="inner", predicate="contains")
-        .dissolve(
-            by="cell_id",
-            aggfunc={
-                "samples": "sum",
-                "access": lambda r: np.average(r, weights=gdf.loc[r.index, "samples"]),
-                "revisit": lambda r: np.average(r, weights=gdf.loc[r.index, "samples"]),
-            },
-        )
-        .reset_index()
-    )
+    # join to cells (re-indexed to look up sample weights of each joined record)
+    gdf = cells.sjoin(gdf, how="inner", predicate="contains").reset_index(drop=True)
+    samples = gdf["samples"]
+    gdf = gdf.dissolve(
+        by="cell_id",
+        aggfunc={
+            "samples": "sum",
+            "access": lambda r: np.average(r, weights=samples[r.index]),
+            "revisit": lambda r: np.average(r, weights=samples[r.index]),
+        },
+    ).reset_index()
     # convert access and revisit from numeric values after aggregation
     gdf["access"] = gdf["access"].apply(lambda t: timedelta(seconds=t))
     gdf["revisit"] = gdf["revisit"].apply(
diff --git a/src/tatc/analysis/latency.py b/src/tatc/analysis/latency.py
index 50528fa..8133bef 100644
--- a/src/tatc/analysis/latency.py
+++ b/src/tatc/analysis/latency.py
@@ -273,17 +273,16 @@ def grid_latencies(
     gdf = reduced_latencies.copy()
     # convert latency to numeric values before aggregation
     gdf["latency"] = gdf["latency"] / timedelta(seconds=1)
-    gdf = (
-        cells.sjoin(gdf, how="inner", predicate="contains")
-        .dissolve(
-            by="cell_id",
-            aggfunc={
-                "samples": "sum",
-                "latency": lambda r: np.average(r, weights=gdf.loc[r.index, "samples"]),
-            },
-        )
-        .reset_index()
-    )
+    # join to cells (re-indexed to look up sample weights of each joined record)
+    gdf = cells.sjoin(gdf, how="inner", predicate="contains").reset_index(drop=True)
+    samples = gdf["samples"]
+    gdf = gdf.dissolve(
+        by="cell_id",
+        aggfunc={
+            "samples": "sum",
+            "latency": lambda r: np.average(r, weights=samples[r.index]),
+        },
+    ).reset_index()
     # convert latency from numeric values after aggregation
     gdf["latency"] = gdf["latency"].apply(
         lambda t: pd.NaT if pd.isna(t) else timedelta(seconds=t)
-- 
2.43.0


From 83dec1dfd1ae5db70fb874d0ee3c4c035d10331d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:39 +0000
Subject: [PATCH 04/42] fix: report DOP geometry as longitude, latitude

---
 src/tatc/analysis/dop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tatc/analysis/dop.py b/src/tatc/analysis/dop.py
index fab7deb..7d274d2 100644
--- a/src/tatc/analysis/dop.py
+++ b/src/tatc/analysis/dop.py
@@ -126,7 +126,7 @@ def compute_dop(
         "dop": pd.Series(dop, dtype="float", index=times),
         "geometry": pd.Series(
             gpd.points_from_xy(
-                [point.latitude] * len(dop), [point.longitude] * len(dop)
+                [point.longitude] * len(dop), [point.latitude] * len(dop)
             ),
             dtype="object",
             index=times,
-- 
2.43.0


From 1026625ac9d8884e0e50f577bf4aecd8954960c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:39 +0000
Subject: [PATCH 05/42] fix: include point elevation in DOP geometry

---
 src/tatc/analysis/dop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tatc/analysis/dop.py b/src/tatc/analysis/dop.py
index 7d274d2..e83b62f 100644
--- a/src/tatc/analysis/dop.py
+++ b/src/tatc/analysis/dop.py
@@ -68,7 +68,7 @@ def compute_dop(
     sk_times = timescale.from_datetimes(times)
 
     # construct skyfield geodetic position for user
-    sk_position = wgs84.latlon(point.latitude, point.longitude)
+    sk_position = wgs84.latlon(point.latitude, point.longitude, point.elevation)
 
     # compute elevation/azimuth angles and range
     altazs = [(sk_sat - sk_position).at(sk_times).altaz() for sk_sat in sk_sats]
-- 
2.43.0


From ad8a3f2455c3c2dc74be60b9ec3677c4c4d18c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:39 +0000
Subject: [PATCH 06/42] fix: wrap polygon interiors over the south pole

---
 src/tatc/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tatc/utils.py b/src/tatc/utils.py
index b9a8469..71aa122 100644
--- a/src/tatc/utils.py
+++ b/src/tatc/utils.py
@@ -908,7 +908,7 @@ def _wrap_polygon_over_south_pole(
             [
                 [
                     [
-                        (c[0] + lat_shift if c[1] <= -90 else c[0],),
+                        c[0] + lat_shift if c[1] <= -90 else c[0],
                         -180 - c[1] if c[1] <= -90 else c[1],
                     ]
                     for c in i.coords
-- 
2.43.0


From 4fbb68a43e9f3d9a5922cf804154b18bee0ff511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:39 +0000
Subject: [PATCH 07/42] fix: partition multi-TLE timelines by the TLE closest
 after each midpoint

---
 src/tatc/schemas/orbit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tatc/schemas/orbit.py b/src/tatc/schemas/orbit.py
index 9e4a074..89bf274 100644
--- a/src/tatc/schemas/orbit.py
+++ b/src/tatc/schemas/orbit.py
@@ -466,7 +466,7 @@ class TwoLineElements(BaseModel):
             [start] + list(epoch_midpoints[midpoint_indices]) + [end],
             (
                 [self.get_closest_tle_index(start)]
-                + list(map(int, tle_i[midpoint_indices]))
+                + [int(tle_i[i + 1]) for i in midpoint_indices]
                 + [self.get_closest_tle_index(end)]
             ),
         )
-- 
2.43.0


From 6e7db89d68932163e81abe66ce35eb090ba94f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:20 +0000
Subject: [PATCH 08/42] fix: match each rise with its set regardless of pass
 duration

---
 src/tatc/analysis/coverage.py | 28 ++++++----------------------
 1 file changed, 6 insertions(+), 22 deletions(-)

diff --git a/src/tatc/analysis/coverage.py b/src/tatc/analysis/coverage.py
index 8eaef7b..fc9004d 100644
--- a/src/tatc/analysis/coverage.py
+++ b/src/tatc/analysis/coverage.py
@@ -20,7 +20,6 @@ from ..schemas.satellite import Satellite
 
 from ..utils import (
     compute_min_elevation_angle,
-    compute_max_access_time,
     compute_footprint,
 )
 from ..constants import de421, timescale
@@ -46,16 +45,6 @@ def _get_visible_interval_series(
     Returns:
         pandas.Series: Series of observation intervals.
     """
-    # define starting and ending points
-    t_0 = timescale.from_datetime(start)
-    # build skyfield objects
-    sat = satellite.orbit.to_tle().as_skyfield()
-    # compute the initial satellite altitude
-    satellite_altitude = wgs84.geographic_position_of(sat.at(t_0)).elevation.m
-    # compute the maximum access time to filter bad data
-    max_access_time = timedelta(
-        seconds=compute_max_access_time(satellite_altitude, min_elevation_angle)
-    )
     # find the set of observation events
     times, events = satellite.orbit.to_tle().get_observation_events(
         point, start, end, min_elevation_angle
@@ -87,26 +76,21 @@ def _get_visible_interval_series(
                     right=pd.Timestamp(sets[0].utc_datetime()),
                 )
             ]
-        # create an observation period to match with each rise event if
-        # there is a following set event within twice the maximum access time
+        # create an observation period to match each rise event with the
+        # following set event (unless interrupted by another rise event)
         obs_periods += [
             pd.Interval(
                 left=pd.Timestamp(rise.utc_datetime()),
                 right=pd.Timestamp(
-                    sets[
-                        np.logical_and(
-                            rise.utc_datetime() < sets.utc_datetime(),
-                            sets.utc_datetime()
-                            < rise.utc_datetime() + 2 * max_access_time,
-                        )
-                    ][0].utc_datetime()
+                    sets[rise.utc_datetime() < sets.utc_datetime()][0].utc_datetime()
                 ),
             )
-            for rise in rises
+            for i, rise in enumerate(rises)
             if np.any(
                 np.logical_and(
                     rise.utc_datetime() < sets.utc_datetime(),
-                    sets.utc_datetime() < rise.utc_datetime() + 2 * max_access_time,
+                    i + 1 == len(rises)
+                    or sets.utc_datetime() < rises[i + 1].utc_datetime(),
                 )
             )
         ]
-- 
2.43.0


From 82115fb9abae3cf29d62e51123417023060bdf95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:25 +0000
Subject: [PATCH 09/42] fix: report satellites that remain visible without any
 events

---
 src/tatc/analysis/coverage.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/tatc/analysis/coverage.py b/src/tatc/analysis/coverage.py
index fc9004d..299e3ab 100644
--- a/src/tatc/analysis/coverage.py
+++ b/src/tatc/analysis/coverage.py
@@ -52,8 +52,20 @@ def _get_visible_interval_series(
 
     # build the observation periods
     obs_periods = []
-    if len(events) > 0 and np.all(events == 1):
-        # if all events are type 1 (culminate), create a period from start to end
+    if len(events) > 0:
+        is_always_visible = np.all(events == 1)
+    else:
+        # without events, the satellite is either always or never visible
+        mid = start + (end - start) / 2
+        topos = wgs84.latlon(point.latitude, point.longitude, point.elevation)
+        altitude, _, _ = (
+            satellite.orbit.to_tle().get_orbit_track(mid)
+            - topos.at(timescale.from_datetime(mid))
+        ).altaz()
+        is_always_visible = altitude.degrees >= min_elevation_angle
+    if is_always_visible:
+        # if all events are type 1 (culminate) or the satellite remains visible
+        # without any events, create a period from start to end
         obs_periods += [
             pd.Interval(
                 left=pd.Timestamp(start.astimezone(tz=timezone.utc)),
-- 
2.43.0


From 9f5aa03ae2a354499a6ab85f7095a4e09241df40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:58 +0000
Subject: [PATCH 10/42] fix: wrap derived orbit angles to [0, 360)

---
 src/tatc/schemas/orbit.py | 60 +++++++++++++++++++++++++++------------
 1 file changed, 42 insertions(+), 18 deletions(-)

diff --git a/src/tatc/schemas/orbit.py b/src/tatc/schemas/orbit.py
index 89bf274..d9df807 100644
--- a/src/tatc/schemas/orbit.py
+++ b/src/tatc/schemas/orbit.py
@@ -24,6 +24,20 @@ from .point import Point
 from .. import config, constants, utils
 
 
+def _wrap_angle(angle: float) -> float:
+    """
+    Wraps an angle to the interval [0, 360). Note: the modulo of a small negative
+    angle rounds to 360 in floating point arithmetic.
+
+    Args:
+        angle (float): the angle (degrees).
+
+    Returns:
+        float: the wrapped angle (degrees)
+    """
+    return np.mod(np.mod(angle, 360), 360)
+
+
 class TwoLineElements(BaseModel):
     """
     Orbit defined with standard two line elements.
@@ -775,10 +789,12 @@ class CircularOrbit(OrbitBase):
         Returns:
             CircularOrbit: the derived orbit
         """
-        true_anomaly = utils.mean_anomaly_to_true_anomaly(
-            np.mod(self.get_mean_anomaly() + delta_mean_anomaly, 360)
+        true_anomaly = _wrap_angle(
+            utils.mean_anomaly_to_true_anomaly(
+                np.mod(self.get_mean_anomaly() + delta_mean_anomaly, 360)
+            )
         )
-        raan = np.mod(self.right_ascension_ascending_node + delta_raan, 360)
+        raan = _wrap_angle(self.right_ascension_ascending_node + delta_raan)
         return CircularOrbit(
             altitude=self.altitude,
             true_anomaly=true_anomaly,
@@ -885,10 +901,12 @@ class SunSynchronousOrbit(OrbitBase):
         Returns:
             CircularOrbit: the derived orbit
         """
-        true_anomaly = utils.mean_anomaly_to_true_anomaly(
-            np.mod(self.get_mean_anomaly() + delta_mean_anomaly, 360)
+        true_anomaly = _wrap_angle(
+            utils.mean_anomaly_to_true_anomaly(
+                np.mod(self.get_mean_anomaly() + delta_mean_anomaly, 360)
+            )
         )
-        raan = np.mod(self.get_right_ascension_ascending_node() + delta_raan, 360)
+        raan = _wrap_angle(self.get_right_ascension_ascending_node() + delta_raan)
         # TODO the resulting orbit *is* still sun-synchronous; however, with a
         # different equator-crossing time. Need to do the math to determine.
         # For now, simply return a circular orbit with the correct parameters.
@@ -964,11 +982,13 @@ class KeplerianOrbit(CircularOrbit):
         Returns:
             KeplerianOrbit: the derived orbit
         """
-        true_anomaly = utils.mean_anomaly_to_true_anomaly(
-            np.mod(self.get_mean_anomaly() + delta_mean_anomaly, 360),
-            eccentricity=self.eccentricity,
+        true_anomaly = _wrap_angle(
+            utils.mean_anomaly_to_true_anomaly(
+                np.mod(self.get_mean_anomaly() + delta_mean_anomaly, 360),
+                eccentricity=self.eccentricity,
+            )
         )
-        raan = np.mod(self.right_ascension_ascending_node + delta_raan, 360)
+        raan = _wrap_angle(self.right_ascension_ascending_node + delta_raan)
         return KeplerianOrbit(
             altitude=self.altitude,
             true_anomaly=true_anomaly,
@@ -1091,11 +1111,13 @@ class MolniyaOrbit(OrbitBase):
         Returns:
             Molniya Orbit: the derived orbit
         """
-        true_anomaly = utils.mean_anomaly_to_true_anomaly(
-            np.mod(self.get_mean_anomaly() + delta_mean_anomaly, 360),
-            eccentricity=self.get_eccentricity(),
+        true_anomaly = _wrap_angle(
+            utils.mean_anomaly_to_true_anomaly(
+                np.mod(self.get_mean_anomaly() + delta_mean_anomaly, 360),
+                eccentricity=self.get_eccentricity(),
+            )
         )
-        raan = np.mod(self.right_ascension_ascending_node + delta_raan, 360)
+        raan = _wrap_angle(self.right_ascension_ascending_node + delta_raan)
         return MolniyaOrbit(
             altitude=self.altitude,
             true_anomaly=true_anomaly,
@@ -1176,11 +1198,13 @@ class TundraOrbit(MolniyaOrbit):
         Returns:
             Tundra Orbit: the derived orbit
         """
-        true_anomaly = utils.mean_anomaly_to_true_anomaly(
-            np.mod(self.get_mean_anomaly() + delta_mean_anomaly, 360),
-            eccentricity=self.get_eccentricity(),
+        true_anomaly = _wrap_angle(
+            utils.mean_anomaly_to_true_anomaly(
+                np.mod(self.get_mean_anomaly() + delta_mean_anomaly, 360),
+                eccentricity=self.get_eccentricity(),
+            )
         )
-        raan = np.mod(self.right_ascension_ascending_node + delta_raan, 360)
+        raan = _wrap_angle(self.right_ascension_ascending_node + delta_raan)
         return TundraOrbit(
             altitude=self.altitude,
             true_anomaly=true_anomaly,
-- 
2.43.0


From ea12e32488031e056e215ba32b8a2bcddbbe6d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:33 +0000
Subject: [PATCH 11/42] fix: validate TLE structure before chronological order

---
 src/tatc/schemas/orbit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tatc/schemas/orbit.py b/src/tatc/schemas/orbit.py
index d9df807..e0f5011 100644
--- a/src/tatc/schemas/orbit.py
+++ b/src/tatc/schemas/orbit.py
@@ -46,9 +46,9 @@ class TwoLineElements(BaseModel):
     type: Literal["tle"] = Field("tle", description="Orbit type discriminator.")
     tle: Annotated[
         List[str],
-        AfterValidator(utils.is_chronological_tle),
-        AfterValidator(utils.is_valid_tle),
         AfterValidator(utils.is_even_length_list),
+        AfterValidator(utils.is_valid_tle),
+        AfterValidator(utils.is_chronological_tle),
     ] = Field(
         ...,
         description="Two line elements. Multiple TLEs must be in chronological order.",
-- 
2.43.0


From bccaa8cf5e7ab8fae14f875742cb2ebcca71108f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:39 +0000
Subject: [PATCH 12/42] fix: decode negative TLE drag and mean motion
 acceleration terms

---
 src/tatc/schemas/orbit.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/tatc/schemas/orbit.py b/src/tatc/schemas/orbit.py
index e0f5011..25dda33 100644
--- a/src/tatc/schemas/orbit.py
+++ b/src/tatc/schemas/orbit.py
@@ -157,9 +157,9 @@ class TwoLineElements(BaseModel):
             float: the second derivative of mean motion
         """
         # pylint: disable=E1136
-        return float("0." + self.tle[2 * tle_i][44:50].strip()) * 10 ** (
-            int(self.tle[2 * tle_i][50:52])
-        )
+        return float(
+            self.tle[2 * tle_i][44].strip() + "0." + self.tle[2 * tle_i][45:50].strip()
+        ) * 10 ** (int(self.tle[2 * tle_i][50:52]))
 
     def get_b_star(self, tle_i=0) -> float:
         """
@@ -172,9 +172,9 @@ class TwoLineElements(BaseModel):
             float: the b-star term
         """
         # pylint: disable=E1136
-        return float("0." + self.tle[2 * tle_i][53:59].strip()) * 10 ** (
-            int(self.tle[2 * tle_i][59:61])
-        )
+        return float(
+            self.tle[2 * tle_i][53].strip() + "0." + self.tle[2 * tle_i][54:59].strip()
+        ) * 10 ** (int(self.tle[2 * tle_i][59:61]))
 
     def get_ephemeris_type(self, tle_i=0) -> int:
         """
-- 
2.43.0


From c7b9ff7dfdd1497d66a730450b40999a4f2f2d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:45 +0000
Subject: [PATCH 13/42] fix: decode Alpha-5 catalog numbers

---
 src/tatc/schemas/orbit.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tatc/schemas/orbit.py b/src/tatc/schemas/orbit.py
index 25dda33..aec19ac 100644
--- a/src/tatc/schemas/orbit.py
+++ b/src/tatc/schemas/orbit.py
@@ -14,6 +14,7 @@ import numpy as np
 from pydantic import AfterValidator, BaseModel, Field
 from sgp4.api import Satrec, WGS72
 from sgp4 import exporter
+from sgp4.alpha5 import from_alpha5
 from sgp4.conveniences import sat_epoch_datetime
 from skyfield.api import EarthSatellite, Time, wgs84
 from skyfield.positionlib import Geocentric
@@ -81,7 +82,7 @@ class TwoLineElements(BaseModel):
             int: the catalog number
         """
         # pylint: disable=E1136
-        return int(self.tle[2 * tle_i][2:7])
+        return from_alpha5(self.tle[2 * tle_i][2:7])
 
     def get_classification(self, tle_i=0) -> str:
         """
-- 
2.43.0


From b8170fdbb73e95e26b7627f0bcdd485d4ef2b42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:39 +0000
Subject: [PATCH 14/42] fix: convert mean and true anomaly with Kepler's
 equation for all eccentricities

---
 src/tatc/utils.py | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/src/tatc/utils.py b/src/tatc/utils.py
index 71aa122..557932e 100644
--- a/src/tatc/utils.py
+++ b/src/tatc/utils.py
@@ -46,11 +46,20 @@ def mean_anomaly_to_true_anomaly(mean_anomaly: float, eccentricity: float = 0) -
         float: The true anomaly (degrees).
     """
     mean_anomaly_rad = np.radians(mean_anomaly)
-    true_anomaly_rad = (
-        mean_anomaly_rad
-        + (2 * eccentricity - (1 / 4) * eccentricity**3) * np.sin(mean_anomaly_rad)
-        + (5 / 4) * eccentricity**2 * np.sin(2 * mean_anomaly_rad)
-        + (13 / 12) * eccentricity**3 * np.sin(3 * mean_anomaly_rad)
+    # solve Kepler's equation for the eccentric anomaly using Newton's method
+    eccentric_anomaly_rad = mean_anomaly_rad + 0.85 * eccentricity * np.sign(
+        np.sin(mean_anomaly_rad)
+    )
+    for _ in range(20):
+        eccentric_anomaly_rad = eccentric_anomaly_rad - (
+            eccentric_anomaly_rad
+            - eccentricity * np.sin(eccentric_anomaly_rad)
+            - mean_anomaly_rad
+        ) / (1 - eccentricity * np.cos(eccentric_anomaly_rad))
+    beta = eccentricity / (1 + np.sqrt(1 - eccentricity**2))
+    true_anomaly_rad = eccentric_anomaly_rad + 2 * np.arctan2(
+        beta * np.sin(eccentric_anomaly_rad),
+        1 - beta * np.cos(eccentric_anomaly_rad),
     )
     return np.degrees(true_anomaly_rad)
 
@@ -68,13 +77,14 @@ def true_anomaly_to_mean_anomaly(true_anomaly: float, eccentricity: float = 0) -
         float: The mean anomaly (degrees).
     """
     true_anomaly_rad = np.radians(true_anomaly)
-    mean_anomaly_rad = (
-        true_anomaly_rad
-        - 2 * eccentricity * np.sin(true_anomaly_rad)
-        + ((3 / 4) * eccentricity**2 + (1 / 8) * eccentricity**4)
-        * np.sin(2 * true_anomaly_rad)
-        - (1 / 3) * eccentricity**3 * np.sin(3 * true_anomaly_rad)
-        + (5 / 32) * eccentricity**4 * np.sin(4 * true_anomaly_rad)
+    # compute the eccentric anomaly and apply Kepler's equation
+    beta = eccentricity / (1 + np.sqrt(1 - eccentricity**2))
+    eccentric_anomaly_rad = true_anomaly_rad - 2 * np.arctan2(
+        beta * np.sin(true_anomaly_rad),
+        1 + beta * np.cos(true_anomaly_rad),
+    )
+    mean_anomaly_rad = eccentric_anomaly_rad - eccentricity * np.sin(
+        eccentric_anomaly_rad
     )
     return np.degrees(mean_anomaly_rad)
 
-- 
2.43.0


From a673401b61a4bc68da3f42f4390692e967ffdb2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:39 +0000
Subject: [PATCH 15/42] fix: limit fields of regard beyond 180 degrees to the
 observable limb

---
 src/tatc/schemas/instrument.py | 4 ++--
 src/tatc/utils.py              | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tatc/schemas/instrument.py b/src/tatc/schemas/instrument.py
index 073633e..ca38278 100644
--- a/src/tatc/schemas/instrument.py
+++ b/src/tatc/schemas/instrument.py
@@ -101,8 +101,8 @@ class Instrument(BaseModel):
         """
         return compute_footprint(
             orbit_track=orbit_track,
-            cross_track_field_of_view=self.field_of_regard,
-            along_track_field_of_view=self.field_of_regard,
+            cross_track_field_of_view=min(self.field_of_regard, 180),
+            along_track_field_of_view=min(self.field_of_regard, 180),
             roll_angle=0,
             pitch_angle=0,
             is_rectangular=False,
diff --git a/src/tatc/utils.py b/src/tatc/utils.py
index 557932e..dd20e4e 100644
--- a/src/tatc/utils.py
+++ b/src/tatc/utils.py
@@ -198,7 +198,7 @@ def field_of_regard_to_swath_width(
         constants.EARTH_MEAN_RADIUS + altitude
     )
     # eta is the angular radius of the region viewable by the satellite
-    sin_eta = min(sin_rho, np.sin(np.radians(field_of_regard) / 2))
+    sin_eta = min(sin_rho, np.sin(np.radians(min(field_of_regard, 180)) / 2))
     # epsilon is the min satellite elevation for obs (grazing angle)
     cos_epsilon = sin_eta / sin_rho
     # lambda is the Earth central angle
@@ -248,7 +248,7 @@ def compute_min_elevation_angle(
         float: The minimum elevation angle (degrees) for observation.
     """
     # eta is the angular radius of the region viewable by the satellite
-    sin_eta = np.sin(np.radians(field_of_regard) / 2)
+    sin_eta = np.sin(np.radians(min(field_of_regard, 180)) / 2)
     # rho is the angular radius of the earth viewed by the satellite
     sin_rho = (constants.EARTH_MEAN_RADIUS + elevation) / (
         constants.EARTH_MEAN_RADIUS + altitude
-- 
2.43.0


From 2f2fea5cb5405325eb81660e46bea7d2fd4235cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:44 +0000
Subject: [PATCH 16/42] fix: use the full off-nadir look angle to convert swath
 width to field of view

---
 src/tatc/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tatc/utils.py b/src/tatc/utils.py
index dd20e4e..45b044a 100644
--- a/src/tatc/utils.py
+++ b/src/tatc/utils.py
@@ -161,7 +161,7 @@ def swath_width_to_field_of_view(
         constants.EARTH_MEAN_RADIUS + altitude
     )
     # eta is the angular radius from sub-satellite point to center of view
-    sin_eta = min(sin_rho, np.sin(np.radians(look_angle) / 2))
+    sin_eta = min(sin_rho, np.sin(np.radians(look_angle)))
     # epsilon is the satellite elevation from the center of view
     cos_epsilon = sin_eta / sin_rho
     # lambda is the Earth central angle to the center of view
-- 
2.43.0


From 68fe13be32a2f5d631cc6fb1abea347826cfd17d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:21 +0000
Subject: [PATCH 17/42] fix: assign unique ids to equally spaced grid points

---
 src/tatc/generation/points.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tatc/generation/points.py b/src/tatc/generation/points.py
index 8151d85..3509525 100644
--- a/src/tatc/generation/points.py
+++ b/src/tatc/generation/points.py
@@ -194,7 +194,9 @@ def _compute_equally_spaced_point_id(
     Returns:
         int: The id of this point.
     """
-    return int(j * int(360 / theta_j) + np.mod(i, int(360 / theta_i)))
+    # number of points per row, consistent with the generated longitude indices
+    number_i = int(np.round(360 / theta_i))
+    return int(j * number_i + np.mod(i, number_i))
 
 
 def _get_bounds(mask: Union[Polygon, MultiPolygon]) -> tuple:
-- 
2.43.0


From fa5956fb7a6830119c0aee05401b268722f692b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:48 +0000
Subject: [PATCH 18/42] fix: cull tracks with all geometries of a GeoSeries
 mask

---
 src/tatc/analysis/track.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tatc/analysis/track.py b/src/tatc/analysis/track.py
index 3ff3274..3ddf07c 100644
--- a/src/tatc/analysis/track.py
+++ b/src/tatc/analysis/track.py
@@ -340,7 +340,7 @@ def collect_ground_track(
                 else (
                     mask.dissolve().iloc[0].geometry
                     if isinstance(mask, gpd.GeoDataFrame)
-                    else mask.iloc[0]
+                    else mask.to_frame("geometry").dissolve().iloc[0].geometry
                 )
             ),
             altitude=satellite.orbit.to_tle().get_altitude(),
@@ -661,7 +661,7 @@ def collect_ground_pixels(
                 else (
                     mask.dissolve().iloc[0].geometry
                     if isinstance(mask, gpd.GeoDataFrame)
-                    else mask.iloc[0]
+                    else mask.to_frame("geometry").dissolve().iloc[0].geometry
                 )
             ),
             altitude=satellite.orbit.to_tle().get_altitude(),
-- 
2.43.0


From d52c5a3b8c454544565fc6a1c16fa4dab07c3ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:55 +0000
Subject: [PATCH 19/42] fix: keep masked orbit tracks in ECEF and ECI
 coordinates

---
 src/tatc/analysis/track.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/tatc/analysis/track.py b/src/tatc/analysis/track.py
index 3ddf07c..cabfb3d 100644
--- a/src/tatc/analysis/track.py
+++ b/src/tatc/analysis/track.py
@@ -231,8 +231,6 @@ def collect_orbit_track(
         sun = de421["earth"].at(orbit_track.t).observe(de421["sun"]).position.m
         beta = np.pi / 2 - angle_between(plane_normal, sun)
         track["solar_beta"] = np.degrees(beta)
-    if mask is not None:
-        track = gpd.clip(track, mask).reset_index(drop=True)
     return track
 
 
-- 
2.43.0


From 7031a3e880d17e1bd37213f7920758f0ae989528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:42 +0000
Subject: [PATCH 20/42] fix: keep all ground track segments across the
 antimeridian with the line method

---
 src/tatc/analysis/track.py | 83 +++++++++++++++++---------------------
 1 file changed, 38 insertions(+), 45 deletions(-)

diff --git a/src/tatc/analysis/track.py b/src/tatc/analysis/track.py
index cabfb3d..c4fbf9d 100644
--- a/src/tatc/analysis/track.py
+++ b/src/tatc/analysis/track.py
@@ -21,8 +21,9 @@ from shapely.geometry import (
     MultiPolygon,
     Point,
     LineString,
+    MultiLineString,
 )
-from shapely.ops import clip_by_rect, split
+from shapely.ops import clip_by_rect, split, unary_union
 import pyproj
 
 from ..schemas.instrument import PointedInstrument
@@ -541,60 +542,52 @@ def compute_ground_track(
         )
         # filter to valid observations
         track = track[track.valid_obs].reset_index(drop=True)
-        segments = []
-        swath_widths = []
+        to_crs = pyproj.Transformer.from_crs(track.crs, pyproj.CRS(crs), always_xy=True)
+        from_crs = pyproj.Transformer.from_crs(
+            pyproj.CRS(crs), track.crs, always_xy=True
+        )
+        # anti-meridian lines at which to split segments
+        antimeridians = MultiLineString(
+            [[(lon, -180), (lon, 180)] for lon in (-540, -180, 180, 540)]
+        )
+        polygons = []
         for _, sub_track in track.groupby(["orbit_id", "track_id"]):
             # project points to specified elevation
-            points = sub_track.geometry.apply(lambda p: Point(p.x, p.y, elevation))
-            # extract longitudes
-            lon = sub_track.geometry.apply(lambda p: p.x)
+            points = list(
+                sub_track.geometry.apply(lambda p: Point(p.x, p.y, elevation))
+            )
             # extract average swath width
-            swath_widths.append(sub_track.swath_width.mean())
-            # no anti-meridian crossings if all absolute longitude differences
-            # are less than 180 deg
-            if np.all(np.abs(np.diff(lon)) < 180):
-                segments.append(LineString(points))
+            swath_width = sub_track.swath_width.mean()
+            if len(points) == 1:
+                segments = points
             else:
-                # find anti-meridian crossings and calculate shift direction
-                # coords from W -> E (shift < 0) will add 360 degrees to E component
-                # coords from E -> W (shift > 0) will subtract 360 degrees from W component
+                # unwrap longitudes over anti-meridian crossings (adjacent
+                # longitude differs by more than 180 degrees)
+                lon = [p.x for p in points]
                 shift = np.insert(np.cumsum(np.around(np.diff(lon) / 360)), 0, 0)
-                points = [
-                    Point(p.x - 360 * shift[i], p.y, p.z) for i, p in enumerate(points)
-                ]
-                # split along the anti-meridian (-180 for shift > 0; 180 for shift < 0)
-                shift_dir = -180 if shift.max() >= 1 else 180
-                collection = split(
-                    LineString(points),
-                    LineString([(shift_dir, -180), (shift_dir, 180)]),
+                line = LineString(
+                    [(p.x - 360 * shift[i], p.y, p.z) for i, p in enumerate(points)]
                 )
-                # map longitudes from (-540, -180] to (-180, 180] and from [180, 540) to [-180, 180)
-                segments.extend(
+                # split along the anti-meridian and map longitudes to [-180, 180]
+                segments = [
+                    LineString(
+                        [
+                            (c[0] - 360 * np.around(part.centroid.x / 360), c[1], c[2])
+                            for c in part.coords
+                        ]
+                    )
+                    for part in split(line, antimeridians).geoms
+                ]
+            polygons.append(
+                unary_union(
                     [
-                        (
-                            LineString([(c[0] + 360, c[1], c[2]) for c in line.coords])
-                            if np.all([c[0] <= -180 for c in line.coords])
-                            else (
-                                LineString(
-                                    [(c[0] - 360, c[1], c[2]) for c in line.coords]
-                                )
-                                if np.all([c[0] >= 180 for c in line.coords])
-                                else LineString(
-                                    [(c[0], c[1], c[2]) for c in line.coords]
-                                )
-                            )
+                        buffer_footprint(
+                            segment, to_crs, from_crs, swath_width, elevation
                         )
-                        for line in collection.geoms
+                        for segment in segments
                     ]
                 )
-        to_crs = pyproj.Transformer.from_crs(track.crs, pyproj.CRS(crs), always_xy=True)
-        from_crs = pyproj.Transformer.from_crs(
-            pyproj.CRS(crs), track.crs, always_xy=True
-        )
-        polygons = [
-            buffer_footprint(segment, to_crs, from_crs, swath_width, elevation)
-            for segment, swath_width in zip(segments, swath_widths)
-        ]
+            )
         # dissolve the original track
         track = track.dissolve(by=["orbit_id", "track_id"]).reset_index(drop=True)
         # and replace the geometry with the union of computed polygons
-- 
2.43.0


From c7c2cd0f73889ac6656b18b9e33df5bc725f6e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:05 +0000
Subject: [PATCH 21/42] fix: project pixels at their full angular offset from
 the boresight

---
 src/tatc/schemas/instrument.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tatc/schemas/instrument.py b/src/tatc/schemas/instrument.py
index ca38278..dfd52e9 100644
--- a/src/tatc/schemas/instrument.py
+++ b/src/tatc/schemas/instrument.py
@@ -324,8 +324,8 @@ class PointedInstrument(Instrument):
 
         return compute_projected_ray_position(
             orbit_track=orbit_track,
-            cross_track_field_of_view=cone,
-            along_track_field_of_view=cone,
+            cross_track_field_of_view=2 * cone,
+            along_track_field_of_view=2 * cone,
             roll_angle=self.roll_angle,
             pitch_angle=self.pitch_angle,
             is_rectangular=False,
-- 
2.43.0


From 9031bcff447d71d76bd2c4c0c09e84123ead557f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:10 +0000
Subject: [PATCH 22/42] fix: orient rectangular footprint corners with the
 projected field of view

---
 src/tatc/utils.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/tatc/utils.py b/src/tatc/utils.py
index 45b044a..8876e2a 100644
--- a/src/tatc/utils.py
+++ b/src/tatc/utils.py
@@ -410,12 +410,12 @@ def compute_projected_ray_position(
         n = np.cross(v, b)
     # construct projected ray
     if is_rectangular:
-        # find orientation of rectangle corner
-        theta = np.arctan(along_track_field_of_view / cross_track_field_of_view)
         # along track half width
         tan_a_2 = np.tan(np.radians(along_track_field_of_view / 2))
         # cross track half width
         tan_c_2 = np.tan(np.radians(cross_track_field_of_view / 2))
+        # find orientation of rectangle corner
+        theta = np.arctan(tan_a_2 / tan_c_2)
         # compose the ray with different equations for each side
         ray = (
             b
@@ -574,7 +574,10 @@ def compute_footprint(
         else:
             number_points = config.rc.footprint_points_elliptical
     if is_rectangular:
-        theta = np.arctan(along_track_field_of_view / cross_track_field_of_view)
+        theta = np.arctan(
+            np.tan(np.radians(along_track_field_of_view / 2))
+            / np.tan(np.radians(cross_track_field_of_view / 2))
+        )
         angles = np.concatenate(
             (
                 np.linspace(-theta, theta, number_points, endpoint=False),
-- 
2.43.0


From 3a44775914cd90673b748d4c068ccd07c1614edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:42 +0000
Subject: [PATCH 23/42] fix: project rays beyond the limb to the limb in the
 direction of the ray

---
 src/tatc/utils.py | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/tatc/utils.py b/src/tatc/utils.py
index 8876e2a..2cdb2b3 100644
--- a/src/tatc/utils.py
+++ b/src/tatc/utils.py
@@ -505,16 +505,9 @@ def compute_projected_ray_position(
                 constants.EARTH_POLAR_RADIUS + elevation,
                 _position,
             )
-            # find the two intersection points between orthogonal plane and limb ellipse
-            _v = v[:, i].copy() if i >= 0 else v
-            _n = n[:, i].copy() if i >= 0 else n
-            _, pt_1, pt_2 = inelpl(
-                limb,
-                nvp2pl(
-                    _v * np.sin(np.pi / 2 + angle) + _n * np.cos(np.pi / 2 + angle),
-                    _position,
-                ),
-            )
+            # find the two intersection points between the vertical plane through
+            # the ray and limb ellipse
+            _, pt_1, pt_2 = inelpl(limb, nvp2pl(np.cross(_ray, _position), _position))
             # compute the angles between the ray and limb intersection points
             angle_1 = np.arccos(
                 np.dot(_ray, pt_1) / np.linalg.norm(_ray) / np.linalg.norm(pt_1)
-- 
2.43.0


From 6106f80febc2ef5af0354e76a403b41b73fa580f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:15 +0000
Subject: [PATCH 24/42] fix: interpolate polar footprint latitude across the
 antimeridian

---
 src/tatc/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tatc/utils.py b/src/tatc/utils.py
index 2cdb2b3..2974539 100644
--- a/src/tatc/utils.py
+++ b/src/tatc/utils.py
@@ -1085,7 +1085,7 @@ def _split_polygon_antimeridian(
             n_s = 1 if np.array(coords)[:, 1].mean() > 0 else -1
             # interpolate latitude at antimeridian
             lat = np.interp(
-                180, [coords[-1][0], coords[0][0] + 180], [coords[-1][1], coords[0][1]]
+                180, [coords[-1][0], coords[0][0] + 360], [coords[-1][1], coords[0][1]]
             )
             # reconstruct polygon (ccw) with added coords on antimeridian
             # TODO potential problem if provided polygon has z-dimension
-- 
2.43.0


From 7f71fc6d0f5547c0bcfa6bff689961c4e3f04d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:57 +0000
Subject: [PATCH 25/42] fix: repeat the Earth-fixed orbit track over the repeat
 cycle

---
 src/tatc/schemas/orbit.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/tatc/schemas/orbit.py b/src/tatc/schemas/orbit.py
index aec19ac..5c4fd52 100644
--- a/src/tatc/schemas/orbit.py
+++ b/src/tatc/schemas/orbit.py
@@ -623,9 +623,12 @@ class TwoLineElements(BaseModel):
                         + np.sign(offset / timedelta(1))
                         * np.mod(np.abs(offset), repeat_cycle)
                     )
-                repeat_track = self.as_skyfield().at(repeat_times)
-                return Geocentric(
-                    repeat_track.position.au, repeat_track.velocity.au_per_d, ts_times
+                # repeat the Earth-fixed position and velocity
+                position, velocity = (
+                    self.as_skyfield().at(repeat_times).frame_xyz_and_velocity(itrs)
+                )
+                return Geocentric.from_time_and_frame_vectors(
+                    ts_times, itrs, position, velocity
                 )
         # compute satellite positions
         return self.as_skyfield().at(ts_times)
-- 
2.43.0


From 29fe04eee37264edbc26b56baad17cd77937085a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:56 +0000
Subject: [PATCH 26/42] fix: keep undefined revisits and latencies as
 timedeltas

---
 src/tatc/analysis/coverage.py | 8 ++------
 src/tatc/analysis/latency.py  | 8 ++------
 2 files changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/tatc/analysis/coverage.py b/src/tatc/analysis/coverage.py
index 299e3ab..08ced3e 100644
--- a/src/tatc/analysis/coverage.py
+++ b/src/tatc/analysis/coverage.py
@@ -399,9 +399,7 @@ def reduce_observations(aggregated_observations: gpd.GeoDataFrame) -> gpd.GeoDat
     ).reset_index()
     # convert access and revisit from numeric values after aggregation
     gdf["access"] = gdf["access"].apply(lambda t: timedelta(seconds=t))
-    gdf["revisit"] = gdf["revisit"].apply(
-        lambda t: pd.NaT if pd.isna(t) else timedelta(seconds=t)
-    )
+    gdf["revisit"] = pd.to_timedelta(gdf["revisit"], unit="s")
     return gdf
 
 
@@ -442,7 +440,5 @@ def grid_observations(
     ).reset_index()
     # convert access and revisit from numeric values after aggregation
     gdf["access"] = gdf["access"].apply(lambda t: timedelta(seconds=t))
-    gdf["revisit"] = gdf["revisit"].apply(
-        lambda t: pd.NaT if pd.isna(t) else timedelta(seconds=t)
-    )
+    gdf["revisit"] = pd.to_timedelta(gdf["revisit"], unit="s")
     return gdf
diff --git a/src/tatc/analysis/latency.py b/src/tatc/analysis/latency.py
index 8133bef..0d66e1f 100644
--- a/src/tatc/analysis/latency.py
+++ b/src/tatc/analysis/latency.py
@@ -245,9 +245,7 @@ def reduce_latencies(latency_observations: gpd.GeoDataFrame) -> gpd.GeoDataFrame
         },
     ).reset_index()
     # convert latency from numeric values after aggregation
-    gdf["latency"] = gdf["latency"].apply(
-        lambda t: pd.NaT if pd.isna(t) else timedelta(seconds=t)
-    )
+    gdf["latency"] = pd.to_timedelta(gdf["latency"], unit="s")
     return gdf
 
 
@@ -284,7 +282,5 @@ def grid_latencies(
         },
     ).reset_index()
     # convert latency from numeric values after aggregation
-    gdf["latency"] = gdf["latency"].apply(
-        lambda t: pd.NaT if pd.isna(t) else timedelta(seconds=t)
-    )
+    gdf["latency"] = pd.to_timedelta(gdf["latency"], unit="s")
     return gdf
-- 
2.43.0


From 5b97accec3bf74868e47c795e1a1521fdbe05027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:53 +0000
Subject: [PATCH 27/42] fix: accept radio occultations directly aft of the
 receiver

---
 src/tatc/analysis/ro_coverage.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/tatc/analysis/ro_coverage.py b/src/tatc/analysis/ro_coverage.py
index f68639b..4e4d4ee 100644
--- a/src/tatc/analysis/ro_coverage.py
+++ b/src/tatc/analysis/ro_coverage.py
@@ -123,8 +123,11 @@ def _collect_ro_series(
     occ_obs = []
     # occultation arc
     occ_arc = None
-    # valid if tangent point intersects and yaw angle below maximum
-    valid = np.logical_and(tp_sign < 0, np.abs(rx_tx_yaw) % (180 - max_yaw) < max_yaw)
+    # valid if tangent point intersects and yaw angle (fore or aft) below maximum
+    valid = np.logical_and(
+        tp_sign < 0,
+        np.minimum(np.abs(rx_tx_yaw), 180 - np.abs(rx_tx_yaw)) < max_yaw,
+    )
     # events occur when validity changes value
     is_event = np.diff(valid)
     # loop over valid times
-- 
2.43.0


From a43daa68c6de45dd170b5d5b9b91a8467fcfb492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:53 +0000
Subject: [PATCH 28/42] fix: normalize geometry without modifying the caller's
 data frame

---
 src/tatc/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tatc/utils.py b/src/tatc/utils.py
index 2974539..381f84b 100644
--- a/src/tatc/utils.py
+++ b/src/tatc/utils.py
@@ -1189,6 +1189,8 @@ def normalize_geometry(
     elif isinstance(geometry, gpd.GeoSeries):
         geometry = gpd.GeoDataFrame(geometry=geometry, crs="EPSG:4326")
     if isinstance(geometry, gpd.GeoDataFrame):
+        # operate on a copy of the data frame
+        geometry = geometry.copy()
         geometry["geometry"] = geometry.apply(
             lambda r: split_polygon(r.geometry),
             axis=1,
-- 
2.43.0


From 6e93b80a3dfc61b33f0d460824b4fa31944e9336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:17 +0000
Subject: [PATCH 29/42] fix: handle multi-TLE orbits without observation events

---
 src/tatc/schemas/orbit.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tatc/schemas/orbit.py b/src/tatc/schemas/orbit.py
index 5c4fd52..b1439fc 100644
--- a/src/tatc/schemas/orbit.py
+++ b/src/tatc/schemas/orbit.py
@@ -670,6 +670,8 @@ class TwoLineElements(BaseModel):
                 )
                 for i in range(len(part_ts) - 1)
             ]
+            if all(len(e[1]) == 0 for e in events):
+                return events[0]
             return (
                 constants.timescale.from_datetimes(
                     [t.utc_datetime() for e in events for t in e[0]]
-- 
2.43.0


From 21cb7e4b780212d813c0c699f91c25432c89ae58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:25 +0000
Subject: [PATCH 30/42] fix: center mutual orbiting groups on the reference
 true anomaly

---
 src/tatc/schemas/satellite.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tatc/schemas/satellite.py b/src/tatc/schemas/satellite.py
index 66e8146..b515738 100644
--- a/src/tatc/schemas/satellite.py
+++ b/src/tatc/schemas/satellite.py
@@ -363,6 +363,9 @@ class MOGConstellation(Satellite):
                 s * np.dot(t, np.array([1, 0, 0])),
                 s * np.dot(t, np.cross(l_0, np.array([1, 0, 0]))),
             )
+            # advance to the position of the reference orbiter at the epoch
+            # pylint: disable=E1101
+            n = n + np.radians(self.orbit.true_anomaly)
 
             # eccentric anomaly (radians) implicit equation [Eq. (32) in Leroy et al. (2020)]
             psi_ = 0
-- 
2.43.0


From 44bde55c26de9f33a7a440494b7664b7dbb2229c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:54 +0000
Subject: [PATCH 31/42] fix: compute footprints and pixel arrays of single-time
 orbit tracks

---
 src/tatc/schemas/instrument.py | 4 +++-
 src/tatc/utils.py              | 5 ++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/tatc/schemas/instrument.py b/src/tatc/schemas/instrument.py
index dfd52e9..29233e6 100644
--- a/src/tatc/schemas/instrument.py
+++ b/src/tatc/schemas/instrument.py
@@ -406,7 +406,9 @@ class PointedInstrument(Instrument):
         return MultiPoint(
             [
                 Point(
-                    point.longitude.degrees, point.latitude.degrees, point.elevation.m
+                    np.squeeze(point.longitude.degrees),
+                    np.squeeze(point.latitude.degrees),
+                    np.squeeze(point.elevation.m),
                 )
                 for point in points
             ]
diff --git a/src/tatc/utils.py b/src/tatc/utils.py
index 381f84b..c35c20d 100644
--- a/src/tatc/utils.py
+++ b/src/tatc/utils.py
@@ -616,7 +616,10 @@ def compute_footprint(
     return project_polygon_to_elevation(
         split_polygon(
             Polygon(
-                [(point.longitude.degrees, point.latitude.degrees) for point in points]
+                [
+                    (np.squeeze(point.longitude.degrees), np.squeeze(point.latitude.degrees))
+                    for point in points
+                ]
             )
         ),
         elevation,
-- 
2.43.0


From 0052dc2a8ec5fbb57569f420a9e62081590cbbc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:15 +0000
Subject: [PATCH 32/42] fix: project rays to the limb near the poles

---
 src/tatc/utils.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/tatc/utils.py b/src/tatc/utils.py
index c35c20d..10c39ca 100644
--- a/src/tatc/utils.py
+++ b/src/tatc/utils.py
@@ -26,7 +26,7 @@ from skyfield.api import wgs84
 from skyfield.framelib import itrs
 from skyfield.toposlib import GeographicPosition
 from skyfield.positionlib import Geocentric
-from spiceypy.spiceypy import edlimb, inelpl, nvp2pl, recgeo, surfpt
+from spiceypy.spiceypy import edlimb, recgeo, surfpt
 from spiceypy.utils.exceptions import NotFoundError
 
 from . import constants
@@ -507,7 +507,20 @@ def compute_projected_ray_position(
             )
             # find the two intersection points between the vertical plane through
             # the ray and limb ellipse
-            _, pt_1, pt_2 = inelpl(limb, nvp2pl(np.cross(_ray, _position), _position))
+            # (direct solution: SPICE rejects the almost-circular limb near the poles)
+            normal = np.cross(_ray, _position)
+            cos_coef = np.dot(normal, limb.semi_major)
+            sin_coef = np.dot(normal, limb.semi_minor)
+            phase = np.arctan2(sin_coef, cos_coef)
+            offset = np.arccos(
+                np.dot(normal, _position - limb.center) / np.hypot(cos_coef, sin_coef)
+            )
+            pt_1, pt_2 = [
+                limb.center
+                + np.cos(phi) * limb.semi_major
+                + np.sin(phi) * limb.semi_minor
+                for phi in (phase - offset, phase + offset)
+            ]
             # compute the angles between the ray and limb intersection points
             angle_1 = np.arccos(
                 np.dot(_ray, pt_1) / np.linalg.norm(_ray) / np.linalg.norm(pt_1)
-- 
2.43.0


From 2be36b375ef36c72a9951e23f10e3be290c6f7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:30 +0000
Subject: [PATCH 33/42] fix: split polygons with longitudes beyond the
 antimeridian

---
 src/tatc/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tatc/utils.py b/src/tatc/utils.py
index 10c39ca..a5b0140 100644
--- a/src/tatc/utils.py
+++ b/src/tatc/utils.py
@@ -1088,7 +1088,7 @@ def _split_polygon_antimeridian(
         lon = np.array([c[0] for c in polygon.exterior.coords])
         # check if any longitudes cross the anti-meridian
         # (adjacent coordinate longitude differs by more than 180 degrees)
-        if all(np.abs(np.diff(lon)) < 180):
+        if all(np.abs(np.diff(lon)) < 180) and all(np.abs(lon) <= 180):
             return polygon
         # check if this polygon contains a pole
         if Polygon(zip(np.cos(np.radians(lon)), np.sin(np.radians(lon)))).contains(
@@ -1139,7 +1139,7 @@ def _split_polygon_antimeridian(
             ],
         )
         # split along the anti-meridian (-180 for shift > 0; 180 for shift < 0)
-        shift_dir = -180 if shift.max() >= 1 else 180
+        shift_dir = -180 if pgon.bounds[0] < -180 else 180
         parts = split(pgon, LineString([(shift_dir, -180), (shift_dir, 180)]))
         # convert to multi polygon
         if isinstance(parts, GeometryCollection):
-- 
2.43.0


From b3c9b7807a3c07034ba9986f499e6dd59ccfc39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:03 +0000
Subject: [PATCH 34/42] fix: buffer masks for culling of reversed sample times

---
 src/tatc/analysis/track.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tatc/analysis/track.py b/src/tatc/analysis/track.py
index c4fbf9d..f5b0f3c 100644
--- a/src/tatc/analysis/track.py
+++ b/src/tatc/analysis/track.py
@@ -345,7 +345,7 @@ def collect_ground_track(
             altitude=satellite.orbit.to_tle().get_altitude(),
             inclination=satellite.orbit.to_tle().get_inclination(),
             field_of_regard=instrument.field_of_regard,
-            time_step=np.diff(times).mean() / timedelta(seconds=1),
+            time_step=np.abs(np.diff(times)).mean() / timedelta(seconds=1),
         )
         # cull orbit track with buffered mask
         buffered_mask_contains_ssp = [
@@ -658,7 +658,7 @@ def collect_ground_pixels(
             altitude=satellite.orbit.to_tle().get_altitude(),
             inclination=satellite.orbit.to_tle().get_inclination(),
             field_of_regard=instrument.field_of_regard,
-            time_step=np.diff(times).mean() / timedelta(seconds=1),
+            time_step=np.abs(np.diff(times)).mean() / timedelta(seconds=1),
         )
         # cull orbit track with buffered mask
         buffered_mask_contains_ssp = [
-- 
2.43.0


From 82c88be0dcfe402f2a11a3dc7c98cab92a9edfc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:08 +0000
Subject: [PATCH 35/42] fix: keep pointed instruments of satellites in
 serialized and parsed data

---
 src/tatc/schemas/satellite.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tatc/schemas/satellite.py b/src/tatc/schemas/satellite.py
index b515738..9c0d07c 100644
--- a/src/tatc/schemas/satellite.py
+++ b/src/tatc/schemas/satellite.py
@@ -22,7 +22,7 @@ from tatc.utils import (
     compute_min_elevation_angle,
 )
 from ..constants import EARTH_MEAN_RADIUS
-from .instrument import Instrument
+from .instrument import Instrument, PointedInstrument
 from .orbit import TwoLineElements, CircularOrbit, SunSynchronousOrbit, KeplerianOrbit
 
 
@@ -39,7 +39,7 @@ class SpaceSystem(BaseModel):
     orbit: Union[
         TwoLineElements, CircularOrbit, SunSynchronousOrbit, KeplerianOrbit
     ] = Field(..., description="Orbit specification.")
-    instruments: List[Instrument] = Field(
+    instruments: List[Union[PointedInstrument, Instrument]] = Field(
         [Instrument()], min_length=1, description="List of assigned instruments."
     )
 
-- 
2.43.0


From deb8c97c58bbe3f1448dc88df1f871a0f6362c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:16 +0000
Subject: [PATCH 36/42] fix: read streets of coverage constellations of an
 architecture

---
 src/tatc/schemas/architecture.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/tatc/schemas/architecture.py b/src/tatc/schemas/architecture.py
index e82f4ab..e22a543 100644
--- a/src/tatc/schemas/architecture.py
+++ b/src/tatc/schemas/architecture.py
@@ -14,6 +14,7 @@ from .satellite import (
     TrainConstellation,
     WalkerConstellation,
     MOGConstellation,
+    SOCConstellation,
 )
 from .point import GroundStation
 
@@ -25,7 +26,13 @@ class Architecture(BaseModel):
 
     name: str = Field(..., description="Name of this mission.")
     satellites: List[
-        Union[Satellite, TrainConstellation, WalkerConstellation, MOGConstellation]
+        Union[
+            Satellite,
+            TrainConstellation,
+            WalkerConstellation,
+            MOGConstellation,
+            SOCConstellation,
+        ]
     ] = Field([], description="List of member space systems.")
     stations: List[GroundStation] = Field(
         [], description="List of member ground stations."
-- 
2.43.0


From fff14b990d58d6c6ff16b99d59a02e629b6dab3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:55:57 +0000
Subject: [PATCH 37/42] fix: report unreadable configuration files as
 configuration errors

---
 src/tatc/config.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/tatc/config.py b/src/tatc/config.py
index 86aeaee..4e12ff7 100644
--- a/src/tatc/config.py
+++ b/src/tatc/config.py
@@ -9,7 +9,6 @@ import os
 import pathlib
 
 import yaml
-from yaml.parser import ParserError
 from pydantic import BaseModel, Field, ValidationError
 
 
@@ -75,10 +74,10 @@ def load_yaml_config(path: pathlib.Path):
     with open(path, "r", encoding="utf-8") as f:
         try:
             config = yaml.safe_load(f)
-        except ParserError as err:
+        except yaml.YAMLError as err:
             raise ConfigError(f"Couldn't parse config file - {err}") from err
     try:
-        return RuntimeConfiguration(**config)
+        return RuntimeConfiguration.model_validate(config)
     except ValidationError as err:
         raise ConfigError(f"Couldn't validate config file - {err}") from err
 
-- 
2.43.0


From fafb0ce330dcbeb72769cb27df28b02cc9a55291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:04 +0000
Subject: [PATCH 38/42] fix: compute latencies of observations and downlinks
 with different time resolutions

---
 src/tatc/analysis/latency.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/tatc/analysis/latency.py b/src/tatc/analysis/latency.py
index 0d66e1f..b9fb090 100644
--- a/src/tatc/analysis/latency.py
+++ b/src/tatc/analysis/latency.py
@@ -137,9 +137,14 @@ def compute_latencies(
         return _get_empty_latency_frame()
 
     # merge observations with downlinks to find matching satellite downlinks
+    # (requires merge keys with the same time resolution)
     obs = pd.merge_asof(
-        observations.sort_values(by="end"),
-        downlinks.sort_values(by="start"),
+        observations.assign(end=observations["end"].dt.as_unit("ns")).sort_values(
+            by="end"
+        ),
+        downlinks.assign(start=downlinks["start"].dt.as_unit("ns")).sort_values(
+            by="start"
+        ),
         by="satellite",
         left_on="end",
         right_on="start",
-- 
2.43.0


From 17b2c9618678812d4586520eb219da54ae49495e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:47 +0000
Subject: [PATCH 39/42] fix: cull masked ground tracks conservatively for wide
 masks, high latitudes and eccentric orbits

---
 src/tatc/analysis/track.py |  4 ++--
 src/tatc/utils.py          | 31 +++++++++++++++++++++++++++++--
 2 files changed, 31 insertions(+), 4 deletions(-)

diff --git a/src/tatc/analysis/track.py b/src/tatc/analysis/track.py
index f5b0f3c..4889e01 100644
--- a/src/tatc/analysis/track.py
+++ b/src/tatc/analysis/track.py
@@ -342,7 +342,7 @@ def collect_ground_track(
                     else mask.to_frame("geometry").dissolve().iloc[0].geometry
                 )
             ),
-            altitude=satellite.orbit.to_tle().get_altitude(),
+            altitude=ssp.elevation.m.max(),
             inclination=satellite.orbit.to_tle().get_inclination(),
             field_of_regard=instrument.field_of_regard,
             time_step=np.abs(np.diff(times)).mean() / timedelta(seconds=1),
@@ -655,7 +655,7 @@ def collect_ground_pixels(
                     else mask.to_frame("geometry").dissolve().iloc[0].geometry
                 )
             ),
-            altitude=satellite.orbit.to_tle().get_altitude(),
+            altitude=ssp.elevation.m.max(),
             inclination=satellite.orbit.to_tle().get_inclination(),
             field_of_regard=instrument.field_of_regard,
             time_step=np.abs(np.diff(times)).mean() / timedelta(seconds=1),
diff --git a/src/tatc/utils.py b/src/tatc/utils.py
index a5b0140..76d65a3 100644
--- a/src/tatc/utils.py
+++ b/src/tatc/utils.py
@@ -14,12 +14,14 @@ from pyproj import Transformer
 from sgp4.conveniences import sat_epoch_datetime
 from sgp4.api import Satrec
 from shapely import Geometry, make_valid, simplify
+from shapely.affinity import scale
 from shapely.geometry import (
     Point,
     Polygon,
     MultiPolygon,
     GeometryCollection,
     LineString,
+    box,
 )
 from shapely.ops import split, transform
 from skyfield.api import wgs84
@@ -760,11 +762,36 @@ def buffer_target(
     to_crs = Transformer.from_crs("EPSG:4326", distance_crs, always_xy=True)
     from_crs = Transformer.from_crs(distance_crs, "EPSG:4326", always_xy=True)
     swath_width = field_of_regard_to_swath_width(altitude, field_of_regard)
-    ground_distance = compute_ground_velocity(altitude, inclination) * time_step
+    ground_distance = abs(compute_ground_velocity(altitude, inclination)) * time_step
     distance = (ground_distance + swath_width / 2) * distance_scaling
+    # angular buffer distance (degrees)
+    delta_latitude = np.degrees(distance / constants.EARTH_MEAN_RADIUS)
+    min_longitude, min_latitude, max_longitude, max_latitude = geometry.bounds
+    max_abs_latitude = max(abs(min_latitude), abs(max_latitude)) + delta_latitude
+    # stretch factor because lines of longitude converge toward the poles
+    stretch = (
+        1 / np.cos(np.radians(max_abs_latitude)) if max_abs_latitude < 90 else np.inf
+    )
+    if max_longitude - min_longitude + 2 * delta_latitude * stretch >= 360:
+        # the buffer spans all longitudes
+        return box(
+            -180,
+            max(-90, min_latitude - delta_latitude),
+            180,
+            min(90, max_latitude + delta_latitude),
+        )
+    buffer = scale(
+        scale(transform(to_crs.transform, geometry), 1 / stretch, origin=(0, 0)).buffer(
+            distance
+        ),
+        stretch,
+        origin=(0, 0),
+    )
+    # limit segment length because split_polygon detects anti-meridian crossings
+    # as adjacent longitudes that differ by more than 180 degrees
     return split_polygon(
         transform(
-            from_crs.transform, transform(to_crs.transform, geometry).buffer(distance)
+            from_crs.transform, buffer.segmentize(constants.EARTH_MEAN_RADIUS / 2)
         )
     )
 
-- 
2.43.0


From ae67b1dd1780aad7e2c766d538b5a0ca3a2f6ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:05 +0000
Subject: [PATCH 40/42] fix: keep the order of coordinates of polygons around a
 pole

---
 src/tatc/utils.py | 57 ++++++++++++++++++++++++++++++-----------------
 1 file changed, 36 insertions(+), 21 deletions(-)

diff --git a/src/tatc/utils.py b/src/tatc/utils.py
index 76d65a3..d8b99f1 100644
--- a/src/tatc/utils.py
+++ b/src/tatc/utils.py
@@ -1117,37 +1117,52 @@ def _split_polygon_antimeridian(
         # (adjacent coordinate longitude differs by more than 180 degrees)
         if all(np.abs(np.diff(lon)) < 180) and all(np.abs(lon) <= 180):
             return polygon
+        # find anti-meridian crossings and calculate shift direction
+        # coords from W -> E (shift < 0) will add 360 degrees to E component
+        # coords from E -> W (shift > 0) will subtract 360 degrees from W component
+        shift = np.insert(np.cumsum(np.around(np.diff(lon) / 360)), 0, 0)
         # check if this polygon contains a pole
-        if Polygon(zip(np.cos(np.radians(lon)), np.sin(np.radians(lon)))).contains(
-            Point(0, 0)
-        ):
-            # extract and sort coords by longitude
-            coords = polygon.exterior.coords[0:-1]
-            coords.sort(key=lambda r: r[0])
-            # determine if contains north or south pole based on sign of mean latitude
-            n_s = 1 if np.array(coords)[:, 1].mean() > 0 else -1
-            # interpolate latitude at antimeridian
-            lat = np.interp(
-                180, [coords[-1][0], coords[0][0] + 360], [coords[-1][1], coords[0][1]]
+        # (longitudes complete a revolution along the exterior)
+        if shift[-1] != 0:
+            # unwrap longitudes, preserving the order of coordinates
+            coords = np.array([c[:2] for c in polygon.exterior.coords])
+            coords[:, 0] -= 360 * shift
+            if shift[-1] > 0:
+                coords = coords[::-1]
+            # determine if contains north or south pole, assuming less than a
+            # hemisphere is enclosed, based on sign of mean sine of latitude
+            sin_lat = np.sin(np.radians(coords[:, 1]))
+            n_s = (
+                1
+                if np.sum((sin_lat[1:] + sin_lat[:-1]) * np.diff(coords[:, 0])) > 0
+                else -1
+            )
+            # start from the coordinate closest to the pole
+            coords = np.roll(coords[:-1], -np.argmax(n_s * coords[:-1, 1]), axis=0)
+            coords[:, 0] -= 360 * np.insert(
+                np.cumsum(np.around(np.diff(coords[:, 0]) / 360)), 0, 0
             )
-            # reconstruct polygon (ccw) with added coords on antimeridian
+            coords[:, 0] -= 360 * np.around(coords[0, 0] / 360)
+            # reconstruct polygon between antimeridians, repeating coordinates east
+            # and west such that both edges (to the pole) are outside of this range
             # TODO potential problem if provided polygon has z-dimension
-            pgon = Polygon(
-                [(-180, 90 * n_s), (-180, lat)]
-                + coords
-                + [(180, lat), (180, 90 * n_s), (-180, 90 * n_s)],
-                polygon.interiors,
+            ring = [(x + 360 * i, y) for i in range(-2, 4) for x, y in coords][
+                : 5 * len(coords) + 1
+            ]
+            pgon = Polygon(ring + [(ring[-1][0], 90 * n_s), (ring[0][0], 90 * n_s)])
+            pgon = make_valid(pgon).intersection(
+                Polygon([(-180, -90), (180, -90), (180, 90), (-180, 90)])
             )
+            for i in polygon.interiors:
+                pgon = pgon.difference(_split_polygon_antimeridian(Polygon(i)))
+            if isinstance(pgon, GeometryCollection):
+                pgon = _convert_collection_to_polygon(pgon)
             # return polygon split down prime meridian to improve handling
             parts = split(pgon, LineString([(0, -180), (0, 180)]))
             # convert to multi polygon
             if isinstance(parts, GeometryCollection):
                 parts = _convert_collection_to_polygon(parts)
             return parts
-        # find anti-meridian crossings and calculate shift direction
-        # coords from W -> E (shift < 0) will add 360 degrees to E component
-        # coords from E -> W (shift > 0) will subtract 360 degrees from W component
-        shift = np.insert(np.cumsum(np.around(np.diff(lon) / 360)), 0, 0)
         pgon = Polygon(
             [
                 (c[0] - 360 * shift[i], c[1])
-- 
2.43.0


From 3646a26e3ddc114b01661d5517963165cec15eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:43 +0000
Subject: [PATCH 41/42] fix: compute dilution of precision with the closest of
 several element sets

---
 src/tatc/analysis/dop.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/tatc/analysis/dop.py b/src/tatc/analysis/dop.py
index e83b62f..80b0c55 100644
--- a/src/tatc/analysis/dop.py
+++ b/src/tatc/analysis/dop.py
@@ -13,7 +13,7 @@ from typing import List
 import pandas as pd
 import numpy as np
 import geopandas as gpd
-from skyfield.api import wgs84, EarthSatellite
+from skyfield.api import wgs84
 
 from ..constants import timescale
 from ..schemas import Point, Satellite
@@ -54,16 +54,6 @@ def compute_dop(
     - geopandas.GeoDataFrame: the dop for the given user location and satellite.
 
     """
-    # construct skyfield satellites for each satellite
-    sk_sats = [
-        EarthSatellite(
-            satellite.orbit.to_tle().tle[0],
-            satellite.orbit.to_tle().tle[1],
-            satellite.name,
-        )
-        for satellite in satellites
-    ]
-
     # construct skyfield times for each datetime
     sk_times = timescale.from_datetimes(times)
 
@@ -71,7 +61,13 @@ def compute_dop(
     sk_position = wgs84.latlon(point.latitude, point.longitude, point.elevation)
 
     # compute elevation/azimuth angles and range
-    altazs = [(sk_sat - sk_position).at(sk_times).altaz() for sk_sat in sk_sats]
+    altazs = [
+        (
+            satellite.orbit.to_tle().get_orbit_track(times, try_repeat=False)
+            - sk_position.at(sk_times)
+        ).altaz()
+        for satellite in satellites
+    ]
     el = np.array(list(map(lambda i: i[0].radians, altazs)))
     az = np.array(list(map(lambda i: i[1].radians, altazs)))
     r = np.array(list(map(lambda i: i[2].m, altazs)))
-- 
2.43.0


From 6fc430dc19bee3c8157b102b20f5a0096299d2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:43 +0000
Subject: [PATCH 42/42] fix: compute occultation azimuths with the closest of
 several element sets

---
 src/tatc/analysis/ro_coverage.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/tatc/analysis/ro_coverage.py b/src/tatc/analysis/ro_coverage.py
index 4e4d4ee..a44976c 100644
--- a/src/tatc/analysis/ro_coverage.py
+++ b/src/tatc/analysis/ro_coverage.py
@@ -155,8 +155,7 @@ def _collect_ro_series(
 
             # azimuth of transmitter from geodetic tangent point (clockwise from North)
             tp_tx_azmimuth = (
-                (transmitter.orbit.to_tle().as_skyfield() - tpp_geo)
-                .at(timescale.from_datetime(times[j]))
+                (tx_pv[j] - tpp_geo.at(timescale.from_datetime(times[j])))
                 .altaz()[1]
                 .degrees
             )
-- 
2.43.0

