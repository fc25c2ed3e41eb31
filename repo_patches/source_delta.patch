From bc09bcd50a7e1fb1ff8618a73f16b711eee98b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:53 +0000
Subject: [PATCH 01/29] fix: convert inclination to radians in ground speed and
 access time conversions

---
 src/tatc/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tatc/utils.py b/src/tatc/utils.py
index 04f2202..b9a8469 100644
--- a/src/tatc/utils.py
+++ b/src/tatc/utils.py
@@ -303,7 +303,7 @@ def compute_ground_velocity(altitude: float, inclination: float) -> float:
     mean_motion_rad_s = np.sqrt(constants.EARTH_MU / semimajor_axis**3)
     return constants.EARTH_MEAN_RADIUS * (
         mean_motion_rad_s
-        - (2 * np.pi * np.cos(np.degrees(inclination)) / constants.EARTH_SIDEREAL_DAY_S)
+        - (2 * np.pi * np.cos(np.radians(inclination)) / constants.EARTH_SIDEREAL_DAY_S)
     )
 
 
@@ -326,7 +326,7 @@ def along_track_distance_to_access_time(
     mean_motion_rad_s = np.sqrt(constants.EARTH_MU / semimajor_axis**3)
     ground_velocity = constants.EARTH_MEAN_RADIUS * (
         mean_motion_rad_s
-        - (2 * np.pi * np.cos(np.degrees(inclination)) / constants.EARTH_SIDEREAL_DAY_S)
+        - (2 * np.pi * np.cos(np.radians(inclination)) / constants.EARTH_SIDEREAL_DAY_S)
     )
     return along_track / ground_velocity
 
@@ -350,7 +350,7 @@ def access_time_to_along_track_distance(
     mean_motion_rad_s = np.sqrt(constants.EARTH_MU / semimajor_axis**3)
     ground_velocity = constants.EARTH_MEAN_RADIUS * (
         mean_motion_rad_s
-        - (2 * np.pi * np.cos(np.degrees(inclination)) / constants.EARTH_SIDEREAL_DAY_S)
+        - (2 * np.pi * np.cos(np.radians(inclination)) / constants.EARTH_SIDEREAL_DAY_S)
     )
     return ground_velocity * access_time
 
-- 
2.43.0


From 9d16c1afae6088d078bfde26bb7b9acdcdc6f13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:53 +0000
Subject: [PATCH 02/29] fix: use the full off-nadir look angle in
 swath_width_to_field_of_view

---
 src/tatc/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tatc/utils.py b/src/tatc/utils.py
index b9a8469..4dfb799 100644
--- a/src/tatc/utils.py
+++ b/src/tatc/utils.py
@@ -151,7 +151,7 @@ def swath_width_to_field_of_view(
         constants.EARTH_MEAN_RADIUS + altitude
     )
     # eta is the angular radius from sub-satellite point to center of view
-    sin_eta = min(sin_rho, np.sin(np.radians(look_angle) / 2))
+    sin_eta = min(sin_rho, np.sin(np.radians(look_angle)))
     # epsilon is the satellite elevation from the center of view
     cos_epsilon = sin_eta / sin_rho
     # lambda is the Earth central angle to the center of view
-- 
2.43.0


From 69ce8cfd69914cb9fa5cd43217343e61280a955e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:13 +0000
Subject: [PATCH 03/29] fix: keep the orbital period of Molniya and Tundra
 orbits in derived orbits and mean motion

---
 src/tatc/schemas/orbit.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/tatc/schemas/orbit.py b/src/tatc/schemas/orbit.py
index f9f80c1..5d5a2b1 100644
--- a/src/tatc/schemas/orbit.py
+++ b/src/tatc/schemas/orbit.py
@@ -1034,6 +1034,15 @@ class MolniyaOrbit(OrbitBase):
         0, description="Perigee argument (degrees).", ge=0, lt=360
     )
 
+    def get_orbit_period(self) -> timedelta:
+        """
+        Gets the orbit period.
+
+        Returns:
+            timedelta: the orbit period
+        """
+        return timedelta(seconds=self.orbital_period)
+
     def get_semimajor_axis(self) -> float:
         gravitational_constant = 6.6743e-11
         earth_mass = 5.9736e24
@@ -1093,7 +1102,7 @@ class MolniyaOrbit(OrbitBase):
             epoch=self.epoch,
             inclination=self.inclination,
             right_ascension_ascending_node=raan,
-            eccentricity=self.get_eccentricity(),
+            orbital_period=self.orbital_period,
             perigee_argument=self.perigee_argument,
         )
 
@@ -1178,6 +1187,7 @@ class TundraOrbit(MolniyaOrbit):
             epoch=self.epoch,
             inclination=self.inclination,
             right_ascension_ascending_node=raan,
+            orbital_period=self.orbital_period,
             eccentricity=self.eccentricity,
             perigee_argument=self.perigee_argument,
         )
-- 
2.43.0


From d00cc0cf56b3e4904ea00c4ef349c2fa79cb297e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:21 +0000
Subject: [PATCH 04/29] fix: derived orbits no longer fail when a wrapped angle
 rounds to 360 degrees

---
 src/tatc/schemas/orbit.py | 48 ++++++++++++++++++++++++---------------
 src/tatc/utils.py         | 14 ++++++++++++
 2 files changed, 44 insertions(+), 18 deletions(-)

diff --git a/src/tatc/schemas/orbit.py b/src/tatc/schemas/orbit.py
index 5d5a2b1..245f776 100644
--- a/src/tatc/schemas/orbit.py
+++ b/src/tatc/schemas/orbit.py
@@ -775,10 +775,12 @@ class CircularOrbit(OrbitBase):
         Returns:
             CircularOrbit: the derived orbit
         """
-        true_anomaly = utils.mean_anomaly_to_true_anomaly(
-            np.mod(self.get_mean_anomaly() + delta_mean_anomaly, 360)
+        true_anomaly = utils.wrap_degrees(
+            utils.mean_anomaly_to_true_anomaly(
+                utils.wrap_degrees(self.get_mean_anomaly() + delta_mean_anomaly)
+            )
         )
-        raan = np.mod(self.right_ascension_ascending_node + delta_raan, 360)
+        raan = utils.wrap_degrees(self.right_ascension_ascending_node + delta_raan)
         return CircularOrbit(
             altitude=self.altitude,
             true_anomaly=true_anomaly,
@@ -885,10 +887,14 @@ class SunSynchronousOrbit(OrbitBase):
         Returns:
             CircularOrbit: the derived orbit
         """
-        true_anomaly = utils.mean_anomaly_to_true_anomaly(
-            np.mod(self.get_mean_anomaly() + delta_mean_anomaly, 360)
+        true_anomaly = utils.wrap_degrees(
+            utils.mean_anomaly_to_true_anomaly(
+                utils.wrap_degrees(self.get_mean_anomaly() + delta_mean_anomaly)
+            )
+        )
+        raan = utils.wrap_degrees(
+            self.get_right_ascension_ascending_node() + delta_raan
         )
-        raan = np.mod(self.get_right_ascension_ascending_node() + delta_raan, 360)
         # TODO the resulting orbit *is* still sun-synchronous; however, with a
         # different equator-crossing time. Need to do the math to determine.
         # For now, simply return a circular orbit with the correct parameters.
@@ -964,11 +970,13 @@ class KeplerianOrbit(CircularOrbit):
         Returns:
             KeplerianOrbit: the derived orbit
         """
-        true_anomaly = utils.mean_anomaly_to_true_anomaly(
-            np.mod(self.get_mean_anomaly() + delta_mean_anomaly, 360),
-            eccentricity=self.eccentricity,
+        true_anomaly = utils.wrap_degrees(
+            utils.mean_anomaly_to_true_anomaly(
+                utils.wrap_degrees(self.get_mean_anomaly() + delta_mean_anomaly),
+                eccentricity=self.eccentricity,
+            )
         )
-        raan = np.mod(self.right_ascension_ascending_node + delta_raan, 360)
+        raan = utils.wrap_degrees(self.right_ascension_ascending_node + delta_raan)
         return KeplerianOrbit(
             altitude=self.altitude,
             true_anomaly=true_anomaly,
@@ -1091,11 +1099,13 @@ class MolniyaOrbit(OrbitBase):
         Returns:
             Molniya Orbit: the derived orbit
         """
-        true_anomaly = utils.mean_anomaly_to_true_anomaly(
-            np.mod(self.get_mean_anomaly() + delta_mean_anomaly, 360),
-            eccentricity=self.get_eccentricity(),
+        true_anomaly = utils.wrap_degrees(
+            utils.mean_anomaly_to_true_anomaly(
+                utils.wrap_degrees(self.get_mean_anomaly() + delta_mean_anomaly),
+                eccentricity=self.get_eccentricity(),
+            )
         )
-        raan = np.mod(self.right_ascension_ascending_node + delta_raan, 360)
+        raan = utils.wrap_degrees(self.right_ascension_ascending_node + delta_raan)
         return MolniyaOrbit(
             altitude=self.altitude,
             true_anomaly=true_anomaly,
@@ -1176,11 +1186,13 @@ class TundraOrbit(MolniyaOrbit):
         Returns:
             Tundra Orbit: the derived orbit
         """
-        true_anomaly = utils.mean_anomaly_to_true_anomaly(
-            np.mod(self.get_mean_anomaly() + delta_mean_anomaly, 360),
-            eccentricity=self.get_eccentricity(),
+        true_anomaly = utils.wrap_degrees(
+            utils.mean_anomaly_to_true_anomaly(
+                utils.wrap_degrees(self.get_mean_anomaly() + delta_mean_anomaly),
+                eccentricity=self.get_eccentricity(),
+            )
         )
-        raan = np.mod(self.right_ascension_ascending_node + delta_raan, 360)
+        raan = utils.wrap_degrees(self.right_ascension_ascending_node + delta_raan)
         return TundraOrbit(
             altitude=self.altitude,
             true_anomaly=true_anomaly,
diff --git a/src/tatc/utils.py b/src/tatc/utils.py
index 4dfb799..4ee12f9 100644
--- a/src/tatc/utils.py
+++ b/src/tatc/utils.py
@@ -33,6 +33,20 @@ from . import constants
 from . import config
 
 
+def wrap_degrees(angle: float) -> float:
+    """
+    Wraps an angle to the half-open interval [0, 360).
+
+    Args:
+        angle (float): The angle (degrees).
+
+    Returns:
+        float: The wrapped angle (degrees).
+    """
+    # a second modulo maps 360 (rounded from a small negative angle) to 0
+    return np.mod(np.mod(angle, 360), 360)
+
+
 @njit
 def mean_anomaly_to_true_anomaly(mean_anomaly: float, eccentricity: float = 0) -> float:
     """
-- 
2.43.0


From 3e641f4c9a44eb2e8d99393a254d07da343023fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:55 +0000
Subject: [PATCH 05/29] fix: report an odd number of element lines as a
 validation error

---
 src/tatc/schemas/orbit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tatc/schemas/orbit.py b/src/tatc/schemas/orbit.py
index 245f776..eff29dc 100644
--- a/src/tatc/schemas/orbit.py
+++ b/src/tatc/schemas/orbit.py
@@ -32,9 +32,9 @@ class TwoLineElements(BaseModel):
     type: Literal["tle"] = Field("tle", description="Orbit type discriminator.")
     tle: Annotated[
         List[str],
-        AfterValidator(utils.is_chronological_tle),
-        AfterValidator(utils.is_valid_tle),
         AfterValidator(utils.is_even_length_list),
+        AfterValidator(utils.is_valid_tle),
+        AfterValidator(utils.is_chronological_tle),
     ] = Field(
         ...,
         description="Two line elements. Multiple TLEs must be in chronological order.",
-- 
2.43.0


From 6e0af069b19da804d37c9a6c663512ee41781bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:26 +0000
Subject: [PATCH 06/29] fix: read the sign of the second mean motion derivative
 and b-star terms

---
 src/tatc/schemas/orbit.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tatc/schemas/orbit.py b/src/tatc/schemas/orbit.py
index eff29dc..401f72a 100644
--- a/src/tatc/schemas/orbit.py
+++ b/src/tatc/schemas/orbit.py
@@ -143,7 +143,8 @@ class TwoLineElements(BaseModel):
             float: the second derivative of mean motion
         """
         # pylint: disable=E1136
-        return float("0." + self.tle[2 * tle_i][44:50].strip()) * 10 ** (
+        sign, mantissa = self.tle[2 * tle_i][44], self.tle[2 * tle_i][45:50]
+        return float(sign.strip() + "0." + mantissa.strip()) * 10 ** (
             int(self.tle[2 * tle_i][50:52])
         )
 
@@ -158,7 +159,8 @@ class TwoLineElements(BaseModel):
             float: the b-star term
         """
         # pylint: disable=E1136
-        return float("0." + self.tle[2 * tle_i][53:59].strip()) * 10 ** (
+        sign, mantissa = self.tle[2 * tle_i][53], self.tle[2 * tle_i][54:59]
+        return float(sign.strip() + "0." + mantissa.strip()) * 10 ** (
             int(self.tle[2 * tle_i][59:61])
         )
 
-- 
2.43.0


From a40dad9903b2d001b8d88fe5fa69787a7e594e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:32 +0000
Subject: [PATCH 07/29] fix: read letter-prefixed (Alpha-5) catalog numbers

---
 src/tatc/schemas/orbit.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tatc/schemas/orbit.py b/src/tatc/schemas/orbit.py
index 401f72a..13aabc2 100644
--- a/src/tatc/schemas/orbit.py
+++ b/src/tatc/schemas/orbit.py
@@ -14,6 +14,7 @@ import numpy as np
 from pydantic import AfterValidator, BaseModel, Field
 from sgp4.api import Satrec, WGS72
 from sgp4 import exporter
+from sgp4.alpha5 import from_alpha5
 from sgp4.conveniences import sat_epoch_datetime
 from skyfield.api import EarthSatellite, Time, wgs84
 from skyfield.positionlib import Geocentric
@@ -67,7 +68,7 @@ class TwoLineElements(BaseModel):
             int: the catalog number
         """
         # pylint: disable=E1136
-        return int(self.tle[2 * tle_i][2:7])
+        return from_alpha5(self.tle[2 * tle_i][2:7])
 
     def get_classification(self, tle_i=0) -> str:
         """
-- 
2.43.0


From 44c37fc879cd6d644f1169e267f86ee599a9d7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:44 +0000
Subject: [PATCH 08/29] fix: use the following element set after each epoch
 midpoint in timeline partitions

---
 src/tatc/schemas/orbit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tatc/schemas/orbit.py b/src/tatc/schemas/orbit.py
index 13aabc2..72a9b2c 100644
--- a/src/tatc/schemas/orbit.py
+++ b/src/tatc/schemas/orbit.py
@@ -469,7 +469,7 @@ class TwoLineElements(BaseModel):
             [start] + list(epoch_midpoints[midpoint_indices]) + [end],
             (
                 [self.get_closest_tle_index(start)]
-                + list(map(int, tle_i[midpoint_indices]))
+                + list(map(int, tle_i[1:][midpoint_indices]))
                 + [self.get_closest_tle_index(end)]
             ),
         )
-- 
2.43.0


From 94bf6db12827cd3fbf624a43008c2aef2ce7b565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:25 +0000
Subject: [PATCH 09/29] fix: observation events of several element sets no
 longer fail on no events or empty pieces

---
 src/tatc/schemas/orbit.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tatc/schemas/orbit.py b/src/tatc/schemas/orbit.py
index 72a9b2c..16ee78f 100644
--- a/src/tatc/schemas/orbit.py
+++ b/src/tatc/schemas/orbit.py
@@ -654,7 +654,10 @@ class TwoLineElements(BaseModel):
                     min_elevation_angle,
                 )
                 for i in range(len(part_ts) - 1)
+                if part_ts[i] < part_ts[i + 1]
             ]
+            if all(len(e[0]) == 0 for e in events):
+                return (Time([], []), np.array([], dtype=int))
             return (
                 constants.timescale.from_datetimes(
                     [t.utc_datetime() for e in events for t in e[0]]
-- 
2.43.0


From 93ba568139f7e7a8296d85bdb165a39e844e743a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:22 +0000
Subject: [PATCH 10/29] fix: weight gridded statistics by the samples of each
 point, not of the row labelled like the cell

---
 src/tatc/analysis/coverage.py | 22 ++++++++++------------
 src/tatc/analysis/latency.py  | 20 +++++++++-----------
 2 files changed, 19 insertions(+), 23 deletions(-)

diff --git a/src/tatc/analysis/coverage.py b/src/tatc/analysis/coverage.py
index 856f86f..ac1e997 100644
--- a/src/tatc/analysis/coverage.py
+++ b/src/tatc/analysis/coverage.py
@@ -433,18 +433,16 @@ def grid_observations(
     # convert access and revisit to numeric values before aggregation
     gdf["access"] = gdf["access"] / timedelta(seconds=1)
     gdf["revisit"] = gdf["revisit"] / timedelta(seconds=1)
-    gdf = (
-        cells.sjoin(gdf, how="inner", predicate="contains")
-        .dissolve(
-            by="cell_id",
-            aggfunc={
-                "samples": "sum",
-                "access": lambda r: np.average(r, weights=gdf.loc[r.index, "samples"]),
-                "revisit": lambda r: np.average(r, weights=gdf.loc[r.index, "samples"]),
-            },
-        )
-        .reset_index()
-    )
+    # join points to cells; each joined row (cell, point) has a unique label
+    gdf = cells.sjoin(gdf, how="inner", predicate="contains").reset_index(drop=True)
+    gdf = gdf.dissolve(
+        by="cell_id",
+        aggfunc={
+            "samples": "sum",
+            "access": lambda r: np.average(r, weights=gdf.loc[r.index, "samples"]),
+            "revisit": lambda r: np.average(r, weights=gdf.loc[r.index, "samples"]),
+        },
+    ).reset_index()
     # convert access and revisit from numeric values after aggregation
     gdf["access"] = gdf["access"].apply(lambda t: timedelta(seconds=t))
     gdf["revisit"] = gdf["revisit"].apply(
diff --git a/src/tatc/analysis/latency.py b/src/tatc/analysis/latency.py
index 50528fa..e1e05eb 100644
--- a/src/tatc/analysis/latency.py
+++ b/src/tatc/analysis/latency.py
@@ -273,17 +273,15 @@ def grid_latencies(
     gdf = reduced_latencies.copy()
     # convert latency to numeric values before aggregation
     gdf["latency"] = gdf["latency"] / timedelta(seconds=1)
-    gdf = (
-        cells.sjoin(gdf, how="inner", predicate="contains")
-        .dissolve(
-            by="cell_id",
-            aggfunc={
-                "samples": "sum",
-                "latency": lambda r: np.average(r, weights=gdf.loc[r.index, "samples"]),
-            },
-        )
-        .reset_index()
-    )
+    # join points to cells; each joined row (cell, point) has a unique label
+    gdf = cells.sjoin(gdf, how="inner", predicate="contains").reset_index(drop=True)
+    gdf = gdf.dissolve(
+        by="cell_id",
+        aggfunc={
+            "samples": "sum",
+            "latency": lambda r: np.average(r, weights=gdf.loc[r.index, "samples"]),
+        },
+    ).reset_index()
     # convert latency from numeric values after aggregation
     gdf["latency"] = gdf["latency"].apply(
         lambda t: pd.NaT if pd.isna(t) else timedelta(seconds=t)
-- 
2.43.0


From 1670e17a55c23fd7b03210a36b607a9f1fa5ff6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:15:16 +0000
Subject: [PATCH 11/29] fix: locate dilution of precision rows at (longitude,
 latitude)

---
 src/tatc/analysis/dop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tatc/analysis/dop.py b/src/tatc/analysis/dop.py
index fab7deb..7d274d2 100644
--- a/src/tatc/analysis/dop.py
+++ b/src/tatc/analysis/dop.py
@@ -126,7 +126,7 @@ def compute_dop(
         "dop": pd.Series(dop, dtype="float", index=times),
         "geometry": pd.Series(
             gpd.points_from_xy(
-                [point.latitude] * len(dop), [point.longitude] * len(dop)
+                [point.longitude] * len(dop), [point.latitude] * len(dop)
             ),
             dtype="object",
             index=times,
-- 
2.43.0


From 66c0a89fb4772eb7e1da593c4e3763e80a24644c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:15:16 +0000
Subject: [PATCH 12/29] fix: compute dilution of precision when exactly the
 minimum number of satellites is visible

---
 src/tatc/analysis/dop.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tatc/analysis/dop.py b/src/tatc/analysis/dop.py
index 7d274d2..c7f7ada 100644
--- a/src/tatc/analysis/dop.py
+++ b/src/tatc/analysis/dop.py
@@ -88,7 +88,8 @@ def compute_dop(
         """
         Compute the dilution of precision value for time index i.
         """
-        if n[i] <= min_count_visible:
+        # four satellites are needed to solve for position and time
+        if n[i] < max(min_count_visible, 4):
             return np.nan
         mask = el[:, i] >= np.deg2rad(min_elevation)
         # H is a nx4 matrix where n is the number of visible satellites
-- 
2.43.0


From 5211e0325c849d0f0282b4666e353759411b94e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:15:16 +0000
Subject: [PATCH 13/29] fix: observe satellites from the elevation of the point
 in dilution of precision

---
 src/tatc/analysis/dop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tatc/analysis/dop.py b/src/tatc/analysis/dop.py
index c7f7ada..7cc17d0 100644
--- a/src/tatc/analysis/dop.py
+++ b/src/tatc/analysis/dop.py
@@ -68,7 +68,7 @@ def compute_dop(
     sk_times = timescale.from_datetimes(times)
 
     # construct skyfield geodetic position for user
-    sk_position = wgs84.latlon(point.latitude, point.longitude)
+    sk_position = wgs84.latlon(point.latitude, point.longitude, point.elevation)
 
     # compute elevation/azimuth angles and range
     altazs = [(sk_sat - sk_position).at(sk_times).altaz() for sk_sat in sk_sats]
-- 
2.43.0


From a871383148bb960a54d5ec73c066c7139a74d13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:42 +0000
Subject: [PATCH 14/29] fix: use the element set nearest each time in dilution
 of precision

---
 src/tatc/analysis/dop.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/tatc/analysis/dop.py b/src/tatc/analysis/dop.py
index 7cc17d0..7f98238 100644
--- a/src/tatc/analysis/dop.py
+++ b/src/tatc/analysis/dop.py
@@ -13,7 +13,7 @@ from typing import List
 import pandas as pd
 import numpy as np
 import geopandas as gpd
-from skyfield.api import wgs84, EarthSatellite
+from skyfield.api import wgs84
 
 from ..constants import timescale
 from ..schemas import Point, Satellite
@@ -54,16 +54,6 @@ def compute_dop(
     - geopandas.GeoDataFrame: the dop for the given user location and satellite.
 
     """
-    # construct skyfield satellites for each satellite
-    sk_sats = [
-        EarthSatellite(
-            satellite.orbit.to_tle().tle[0],
-            satellite.orbit.to_tle().tle[1],
-            satellite.name,
-        )
-        for satellite in satellites
-    ]
-
     # construct skyfield times for each datetime
     sk_times = timescale.from_datetimes(times)
 
@@ -71,7 +61,13 @@ def compute_dop(
     sk_position = wgs84.latlon(point.latitude, point.longitude, point.elevation)
 
     # compute elevation/azimuth angles and range
-    altazs = [(sk_sat - sk_position).at(sk_times).altaz() for sk_sat in sk_sats]
+    altazs = [
+        (
+            satellite.orbit.to_tle().get_orbit_track(times, try_repeat=False)
+            - sk_position.at(sk_times)
+        ).altaz()
+        for satellite in satellites
+    ]
     el = np.array(list(map(lambda i: i[0].radians, altazs)))
     az = np.array(list(map(lambda i: i[1].radians, altazs)))
     r = np.array(list(map(lambda i: i[2].m, altazs)))
-- 
2.43.0


From 0eef6ced291aecefe0291f9aaddae7a5f8ddb491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:23:54 +0000
Subject: [PATCH 15/29] fix: report the azimuth of the transmitter at the
 position used for the tangent point

---
 src/tatc/analysis/ro_coverage.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/tatc/analysis/ro_coverage.py b/src/tatc/analysis/ro_coverage.py
index f68639b..9c01337 100644
--- a/src/tatc/analysis/ro_coverage.py
+++ b/src/tatc/analysis/ro_coverage.py
@@ -152,8 +152,14 @@ def _collect_ro_series(
 
             # azimuth of transmitter from geodetic tangent point (clockwise from North)
             tp_tx_azmimuth = (
-                (transmitter.orbit.to_tle().as_skyfield() - tpp_geo)
-                .at(timescale.from_datetime(times[j]))
+                (
+                    Geocentric(
+                        tx_pv.position.au[:, j],
+                        tx_pv.velocity.au_per_d[:, j],
+                        tpp_pv.t,
+                    )
+                    - tpp_geo.at(tpp_pv.t)
+                )
                 .altaz()[1]
                 .degrees
             )
-- 
2.43.0


From 63c81b69485d58193e650084be637f4c24418a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:54 +0000
Subject: [PATCH 16/29] fix: give equally spaced points distinct identifiers
 for every spacing

Rows hold round(360 / theta) points but the identifier truncated 360 / theta, so
the last point of a row could share its identifier with the first of a row.
---
 src/tatc/generation/points.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tatc/generation/points.py b/src/tatc/generation/points.py
index 8151d85..d293b06 100644
--- a/src/tatc/generation/points.py
+++ b/src/tatc/generation/points.py
@@ -194,7 +194,9 @@ def _compute_equally_spaced_point_id(
     Returns:
         int: The id of this point.
     """
-    return int(j * int(360 / theta_j) + np.mod(i, int(360 / theta_i)))
+    # number of points in each row
+    row_length = int(np.round(360 / theta_i))
+    return int(j * row_length + np.mod(i, row_length))
 
 
 def _get_bounds(mask: Union[Polygon, MultiPolygon]) -> tuple:
-- 
2.43.0


From 5cf0a83712a8d2f3cb2473d6ddd1f4ebc3a26799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:54 +0000
Subject: [PATCH 17/29] fix: keep lattice points west of the prime meridian in
 masks extending over the antimeridian

---
 src/tatc/generation/points.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tatc/generation/points.py b/src/tatc/generation/points.py
index d293b06..106c41c 100644
--- a/src/tatc/generation/points.py
+++ b/src/tatc/generation/points.py
@@ -111,7 +111,7 @@ def generate_fibonacci_lattice_points(
                 <= (
                     _compute_fibonacci_lattice_point_longitude(i) + 360
                     if max_longitude > 180
-                    and _compute_fibonacci_lattice_point_longitude(i) < 0
+                    and _compute_fibonacci_lattice_point_longitude(i) < min_longitude
                     else _compute_fibonacci_lattice_point_longitude(i)
                 )
                 <= max_longitude
@@ -127,7 +127,7 @@ def generate_fibonacci_lattice_points(
                         _compute_fibonacci_lattice_point_longitude(i) + 360
                         if mask is not None
                         and max_longitude > 180
-                        and _compute_fibonacci_lattice_point_longitude(i) < 0
+                        and _compute_fibonacci_lattice_point_longitude(i) < min_longitude
                         else _compute_fibonacci_lattice_point_longitude(i)
                     ),
                     _compute_fibonacci_lattice_point_latitude(i, samples),
-- 
2.43.0


From b5195a4196439534b55d3e04c4c24a3bfc9cc5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:17 +0000
Subject: [PATCH 18/29] fix: wrap holes of polygons over the south pole

---
 src/tatc/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tatc/utils.py b/src/tatc/utils.py
index 4ee12f9..e84fa8f 100644
--- a/src/tatc/utils.py
+++ b/src/tatc/utils.py
@@ -922,7 +922,7 @@ def _wrap_polygon_over_south_pole(
             [
                 [
                     [
-                        (c[0] + lat_shift if c[1] <= -90 else c[0],),
+                        c[0] + lat_shift if c[1] <= -90 else c[0],
                         -180 - c[1] if c[1] <= -90 else c[1],
                     ]
                     for c in i.coords
-- 
2.43.0


From c3902d6523d5deb0d020849f5120eef9078b1de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:17 +0000
Subject: [PATCH 19/29] fix: interpolate the latitude of polar polygons across
 the antimeridian

---
 src/tatc/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tatc/utils.py b/src/tatc/utils.py
index e84fa8f..3399b70 100644
--- a/src/tatc/utils.py
+++ b/src/tatc/utils.py
@@ -1093,7 +1093,7 @@ def _split_polygon_antimeridian(
             n_s = 1 if np.array(coords)[:, 1].mean() > 0 else -1
             # interpolate latitude at antimeridian
             lat = np.interp(
-                180, [coords[-1][0], coords[0][0] + 180], [coords[-1][1], coords[0][1]]
+                180, [coords[-1][0], coords[0][0] + 360], [coords[-1][1], coords[0][1]]
             )
             # reconstruct polygon (ccw) with added coords on antimeridian
             # TODO potential problem if provided polygon has z-dimension
-- 
2.43.0


From 4d6c53dc2b16d5aa23bb94a5a2dc5df71bb9881c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:00 +0000
Subject: [PATCH 20/29] fix: report unreadable, malformed and non-mapping
 configuration files as configuration errors

---
 src/tatc/config.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/tatc/config.py b/src/tatc/config.py
index 86aeaee..9b5013e 100644
--- a/src/tatc/config.py
+++ b/src/tatc/config.py
@@ -9,7 +9,6 @@ import os
 import pathlib
 
 import yaml
-from yaml.parser import ParserError
 from pydantic import BaseModel, Field, ValidationError
 
 
@@ -72,14 +71,17 @@ def load_yaml_config(path: pathlib.Path):
     """
     if not os.path.exists(path):
         raise ConfigError("Couldn't load config file (not found)")
-    with open(path, "r", encoding="utf-8") as f:
-        try:
+    try:
+        with open(path, "r", encoding="utf-8") as f:
             config = yaml.safe_load(f)
-        except ParserError as err:
-            raise ConfigError(f"Couldn't parse config file - {err}") from err
+    except OSError as err:
+        raise ConfigError(f"Couldn't load config file - {err}") from err
+    except Exception as err:
+        # malformed content fails in many ways (e.g., YAMLError, UnicodeDecodeError, ValueError)
+        raise ConfigError(f"Couldn't parse config file - {err}") from err
     try:
         return RuntimeConfiguration(**config)
-    except ValidationError as err:
+    except (TypeError, ValidationError) as err:
         raise ConfigError(f"Couldn't validate config file - {err}") from err
 
 
-- 
2.43.0


From a98b7920bf8a3c2c6e13b56e6d1af16ead46cc30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:00 +0000
Subject: [PATCH 21/29] fix: orient rectangular footprint corners by the
 tangents of the half fields of view

---
 src/tatc/utils.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/tatc/utils.py b/src/tatc/utils.py
index 3399b70..67164bf 100644
--- a/src/tatc/utils.py
+++ b/src/tatc/utils.py
@@ -414,12 +414,12 @@ def compute_projected_ray_position(
         n = np.cross(v, b)
     # construct projected ray
     if is_rectangular:
-        # find orientation of rectangle corner
-        theta = np.arctan(along_track_field_of_view / cross_track_field_of_view)
         # along track half width
         tan_a_2 = np.tan(np.radians(along_track_field_of_view / 2))
         # cross track half width
         tan_c_2 = np.tan(np.radians(cross_track_field_of_view / 2))
+        # find orientation of rectangle corner
+        theta = np.arctan(tan_a_2 / tan_c_2)
         # compose the ray with different equations for each side
         ray = (
             b
@@ -578,7 +578,10 @@ def compute_footprint(
         else:
             number_points = config.rc.footprint_points_elliptical
     if is_rectangular:
-        theta = np.arctan(along_track_field_of_view / cross_track_field_of_view)
+        theta = np.arctan(
+            np.tan(np.radians(along_track_field_of_view / 2))
+            / np.tan(np.radians(cross_track_field_of_view / 2))
+        )
         angles = np.concatenate(
             (
                 np.linspace(-theta, theta, number_points, endpoint=False),
-- 
2.43.0


From 19f79831055a6de401d683d5d2abe1781bde57db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:00 +0000
Subject: [PATCH 22/29] fix: compute footprints of orbit tracks with one time

---
 src/tatc/utils.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/tatc/utils.py b/src/tatc/utils.py
index 67164bf..38399ee 100644
--- a/src/tatc/utils.py
+++ b/src/tatc/utils.py
@@ -627,7 +627,13 @@ def compute_footprint(
     return project_polygon_to_elevation(
         split_polygon(
             Polygon(
-                [(point.longitude.degrees, point.latitude.degrees) for point in points]
+                [
+                    (
+                        np.squeeze(point.longitude.degrees),
+                        np.squeeze(point.latitude.degrees),
+                    )
+                    for point in points
+                ]
             )
         ),
         elevation,
-- 
2.43.0


From fe6b2be5de98586c276e1edc257025bc4a1eb100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:24 +0000
Subject: [PATCH 23/29] fix: project pixels at their cone angle from the
 boresight

---
 src/tatc/schemas/instrument.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tatc/schemas/instrument.py b/src/tatc/schemas/instrument.py
index 073633e..6b5bb05 100644
--- a/src/tatc/schemas/instrument.py
+++ b/src/tatc/schemas/instrument.py
@@ -324,8 +324,8 @@ class PointedInstrument(Instrument):
 
         return compute_projected_ray_position(
             orbit_track=orbit_track,
-            cross_track_field_of_view=cone,
-            along_track_field_of_view=cone,
+            cross_track_field_of_view=2 * cone,
+            along_track_field_of_view=2 * cone,
             roll_angle=self.roll_angle,
             pitch_angle=self.pitch_angle,
             is_rectangular=False,
-- 
2.43.0


From e3625e9fa28df602860416b2d8b3ac4360fb863c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:24 +0000
Subject: [PATCH 24/29] fix: place footprint rays that miss the Earth at the
 limb in the direction of the ray

---
 src/tatc/utils.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/tatc/utils.py b/src/tatc/utils.py
index 38399ee..7534a73 100644
--- a/src/tatc/utils.py
+++ b/src/tatc/utils.py
@@ -509,15 +509,10 @@ def compute_projected_ray_position(
                 constants.EARTH_POLAR_RADIUS + elevation,
                 _position,
             )
-            # find the two intersection points between orthogonal plane and limb ellipse
-            _v = v[:, i].copy() if i >= 0 else v
-            _n = n[:, i].copy() if i >= 0 else n
+            # find the two intersection points between ray-nadir plane and limb ellipse
             _, pt_1, pt_2 = inelpl(
                 limb,
-                nvp2pl(
-                    _v * np.sin(np.pi / 2 + angle) + _n * np.cos(np.pi / 2 + angle),
-                    _position,
-                ),
+                nvp2pl(np.cross(_position, _ray), _position),
             )
             # compute the angles between the ray and limb intersection points
             angle_1 = np.arccos(
-- 
2.43.0


From 9484ccde37ec150578ffd892a600f38562782ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:28 +0000
Subject: [PATCH 25/29] fix: cull ground tracks and pixels with every geometry
 of a series mask

---
 src/tatc/analysis/track.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tatc/analysis/track.py b/src/tatc/analysis/track.py
index 3ff3274..a0e479e 100644
--- a/src/tatc/analysis/track.py
+++ b/src/tatc/analysis/track.py
@@ -22,7 +22,7 @@ from shapely.geometry import (
     Point,
     LineString,
 )
-from shapely.ops import clip_by_rect, split
+from shapely.ops import clip_by_rect, split, unary_union
 import pyproj
 
 from ..schemas.instrument import PointedInstrument
@@ -340,7 +340,7 @@ def collect_ground_track(
                 else (
                     mask.dissolve().iloc[0].geometry
                     if isinstance(mask, gpd.GeoDataFrame)
-                    else mask.iloc[0]
+                    else unary_union(mask.tolist())
                 )
             ),
             altitude=satellite.orbit.to_tle().get_altitude(),
@@ -661,7 +661,7 @@ def collect_ground_pixels(
                 else (
                     mask.dissolve().iloc[0].geometry
                     if isinstance(mask, gpd.GeoDataFrame)
-                    else mask.iloc[0]
+                    else unary_union(mask.tolist())
                 )
             ),
             altitude=satellite.orbit.to_tle().get_altitude(),
-- 
2.43.0


From 20df299417f70fd9676b2137c9a7905e7f00581a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:28 +0000
Subject: [PATCH 26/29] fix: keep masked orbit tracks in Cartesian coordinates

---
 src/tatc/analysis/track.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tatc/analysis/track.py b/src/tatc/analysis/track.py
index a0e479e..c630c0e 100644
--- a/src/tatc/analysis/track.py
+++ b/src/tatc/analysis/track.py
@@ -231,7 +231,7 @@ def collect_orbit_track(
         sun = de421["earth"].at(orbit_track.t).observe(de421["sun"]).position.m
         beta = np.pi / 2 - angle_between(plane_normal, sun)
         track["solar_beta"] = np.degrees(beta)
-    if mask is not None:
+    if mask is not None and coordinates == OrbitCoordinate.WGS84:
         track = gpd.clip(track, mask).reset_index(drop=True)
     return track
 
-- 
2.43.0


From 5674313eaabe4493c01c9fd2597626a2e3f79cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:28 +0000
Subject: [PATCH 27/29] fix: buffer line ground tracks over the antimeridian
 and of single points

---
 src/tatc/analysis/track.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/tatc/analysis/track.py b/src/tatc/analysis/track.py
index c630c0e..e14432d 100644
--- a/src/tatc/analysis/track.py
+++ b/src/tatc/analysis/track.py
@@ -554,8 +554,10 @@ def compute_ground_track(
             swath_widths.append(sub_track.swath_width.mean())
             # no anti-meridian crossings if all absolute longitude differences
             # are less than 180 deg
-            if np.all(np.abs(np.diff(lon)) < 180):
-                segments.append(LineString(points))
+            if len(points) == 1:
+                segments.append([points.iloc[0]])
+            elif np.all(np.abs(np.diff(lon)) < 180):
+                segments.append([LineString(points)])
             else:
                 # find anti-meridian crossings and calculate shift direction
                 # coords from W -> E (shift < 0) will add 360 degrees to E component
@@ -571,7 +573,7 @@ def compute_ground_track(
                     LineString([(shift_dir, -180), (shift_dir, 180)]),
                 )
                 # map longitudes from (-540, -180] to (-180, 180] and from [180, 540) to [-180, 180)
-                segments.extend(
+                segments.append(
                     [
                         (
                             LineString([(c[0] + 360, c[1], c[2]) for c in line.coords])
@@ -594,8 +596,13 @@ def compute_ground_track(
             pyproj.CRS(crs), track.crs, always_xy=True
         )
         polygons = [
-            buffer_footprint(segment, to_crs, from_crs, swath_width, elevation)
-            for segment, swath_width in zip(segments, swath_widths)
+            unary_union(
+                [
+                    buffer_footprint(segment, to_crs, from_crs, swath_width, elevation)
+                    for segment in sub_segments
+                ]
+            )
+            for sub_segments, swath_width in zip(segments, swath_widths)
         ]
         # dissolve the original track
         track = track.dissolve(by=["orbit_id", "track_id"]).reset_index(drop=True)
-- 
2.43.0


From c99968be5055f49af16a6eeef7424406355db6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:02 +0000
Subject: [PATCH 28/29] fix: collecting observations of an empty satellite list
 returns an empty table

---
 src/tatc/analysis/coverage.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tatc/analysis/coverage.py b/src/tatc/analysis/coverage.py
index ac1e997..321c16c 100644
--- a/src/tatc/analysis/coverage.py
+++ b/src/tatc/analysis/coverage.py
@@ -290,6 +290,8 @@ def collect_multi_observations(
         for satellite in (constellation.generate_members())
         for instrument_index in range(len(satellite.instruments))
     ]
+    if len(gdfs) == 0:
+        return _get_empty_coverage_frame(omit_solar)
     # concatenate into one data frame, sort by start time, and re-index
     return pd.concat(gdfs).sort_values("start").reset_index(drop=True)
 
-- 
2.43.0


From 82b6df047b1b916bd261e1ba02e9d31f4ced430e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:04 +0000
Subject: [PATCH 29/29] fix: cull ground tracks with the entire globe where the
 buffered mask spans more than half a turn

---
 src/tatc/utils.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/tatc/utils.py b/src/tatc/utils.py
index 7534a73..2711a06 100644
--- a/src/tatc/utils.py
+++ b/src/tatc/utils.py
@@ -20,6 +20,7 @@ from shapely.geometry import (
     MultiPolygon,
     GeometryCollection,
     LineString,
+    box,
 )
 from shapely.ops import split, transform
 from skyfield.api import wgs84
@@ -758,11 +759,17 @@ def buffer_target(
     swath_width = field_of_regard_to_swath_width(altitude, field_of_regard)
     ground_distance = compute_ground_velocity(altitude, inclination) * time_step
     distance = (ground_distance + swath_width / 2) * distance_scaling
-    return split_polygon(
-        transform(
-            from_crs.transform, transform(to_crs.transform, geometry).buffer(distance)
+    buffered = transform(to_crs.transform, geometry).buffer(distance)
+    # polygons which span more than half a turn can not be split after wrapping
+    # longitudes to [-180, 180]: select the entire globe
+    if any(
+        part.bounds[2] - part.bounds[0] >= constants.EARTH_EQUATORIAL_CIRCUMFERENCE / 2
+        for part in (
+            buffered.geoms if isinstance(buffered, MultiPolygon) else [buffered]
         )
-    )
+    ):
+        return box(-180, -90, 180, 90)
+    return split_polygon(transform(from_crs.transform, buffered))
 
 
 def project_polygon_to_elevation(
-- 
2.43.0

