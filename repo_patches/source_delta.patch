From 8934af642230b9ebaf714d91d23758b556db1916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:20 +0000
Subject: [PATCH 001/142] fix: inertial_to_body is the inverse of
 body_to_inertial (wrong term in third row)

---
 src/auv_nav/tools/inertial_to_body.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/auv_nav/tools/inertial_to_body.py b/src/auv_nav/tools/inertial_to_body.py
index a57bf22..5c9eb6b 100644
--- a/src/auv_nav/tools/inertial_to_body.py
+++ b/src/auv_nav/tools/inertial_to_body.py
@@ -45,7 +45,7 @@ def inertial_to_body(roll, pitch, yaw, old_x, old_y, old_z):
 
     # new_y = ((sy*cp)            * old_x   # d
     #       + ( cy*cr + sy*sp*sr) * old_y   # e
-    #       + (-cy*sr + sy*sp*sr) * old_z   # f
+    #       + (-cy*sr + sy*sp*cr) * old_z   # f
     # )
     # new_z = ((-sp  )           * old_x    # g
     #       + ( cp*sr)           * old_y    # h
@@ -67,7 +67,7 @@ def inertial_to_body(roll, pitch, yaw, old_x, old_y, old_z):
 
     new_z = (
         (sy * sr + cy * sp * cr) * old_x  # c
-        + (-cy * sr + sy * sp * sr) * old_y  # f
+        + (-cy * sr + sy * sp * cr) * old_y  # f
         + (cp * cr) * old_z  # i
     )
 
-- 
2.43.0


From 7bb1ca875af6bcbc185e2b6f64b0aae15fbc97b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:20 +0000
Subject: [PATCH 002/142] fix: read_timezone: CET is UTC+1, as in the mission
 parser

---
 src/auv_nav/tools/time_conversions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/auv_nav/tools/time_conversions.py b/src/auv_nav/tools/time_conversions.py
index 9827b7e..3d3218b 100644
--- a/src/auv_nav/tools/time_conversions.py
+++ b/src/auv_nav/tools/time_conversions.py
@@ -84,7 +84,7 @@ def read_timezone(timezone):
         if timezone == "utc" or timezone == "UTC":
             timezone_offset_h = 0.0
         elif timezone == "cet" or timezone == "CET":
-            timezone_offset_h = 0.0
+            timezone_offset_h = 1.0
         elif timezone == "jst" or timezone == "JST":
             timezone_offset_h = 9.0
         elif timezone == "bst" or timezone == "BST":
-- 
2.43.0


From 3a003062d5400fc458dd4023c5f927e253b7d00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:20 +0000
Subject: [PATCH 003/142] fix: interpolate_altitude no longer runs past the end
 of the list

---
 src/auv_nav/tools/interpolate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/auv_nav/tools/interpolate.py b/src/auv_nav/tools/interpolate.py
index e62e609..a5083a3 100644
--- a/src/auv_nav/tools/interpolate.py
+++ b/src/auv_nav/tools/interpolate.py
@@ -29,7 +29,7 @@ def interpolate(x_query, x_lower, x_upper, y_lower, y_upper):
 
 def interpolate_altitude(query_timestamp, data):
     i = 1
-    while i < len(data) and data[i].epoch_timestamp < query_timestamp:
+    while i < len(data) - 1 and data[i].epoch_timestamp < query_timestamp:
         i += 1
     return interpolate(
         query_timestamp,
-- 
2.43.0


From 88b88fe9e5187a5298e1701d0072ee8be5de8605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:20 +0000
Subject: [PATCH 004/142] fix: interpolate_camera uses the first interval and
 wraps the heading

---
 src/auv_nav/tools/interpolate.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/auv_nav/tools/interpolate.py b/src/auv_nav/tools/interpolate.py
index a5083a3..0dab069 100644
--- a/src/auv_nav/tools/interpolate.py
+++ b/src/auv_nav/tools/interpolate.py
@@ -142,7 +142,7 @@ def interpolate_camera(query_timestamp, camera_list, filename):
             break
     c1 = camera_list[i]
     c2 = camera_list[i]
-    if i > 1:
+    if i > 0:
         c1 = camera_list[i - 1]
 
     c = Camera()
@@ -197,9 +197,17 @@ def interpolate_camera(query_timestamp, camera_list, filename):
         c1.pitch,
         c2.pitch,
     )
+    yaw_1 = c1.yaw
+    if abs(c2.yaw - yaw_1) > 180:
+        # Interpolate over the 0/360 wrap along the shortest path
+        yaw_1 += 360 if c2.yaw > yaw_1 else -360
     c.yaw = interpolate(
-        query_timestamp, c1.epoch_timestamp, c2.epoch_timestamp, c1.yaw, c2.yaw
+        query_timestamp, c1.epoch_timestamp, c2.epoch_timestamp, yaw_1, c2.yaw
     )
+    if c.yaw > 360:
+        c.yaw -= 360
+    elif yaw_1 < c1.yaw and c.yaw < 0:
+        c.yaw += 360
     c.x_velocity = interpolate(
         query_timestamp,
         c1.epoch_timestamp,
-- 
2.43.0


From 2439ecc284a5b3673655de0c6e3edc22dc739bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:20 +0000
Subject: [PATCH 005/142] fix: sensor positions are interpolated between the
 enclosing navigation states

Measurements in the last enclosing interval were extrapolated from the
previous one, one measurement after the end of the navigation solution was
extrapolated, and further ones within the last interval were dropped.
---
 src/auv_nav/tools/interpolate.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/auv_nav/tools/interpolate.py b/src/auv_nav/tools/interpolate.py
index 0dab069..18f31d9 100644
--- a/src/auv_nav/tools/interpolate.py
+++ b/src/auv_nav/tools/interpolate.py
@@ -358,7 +358,7 @@ def interpolate_sensor_list(
                     del sensor_list[:i]
                 break
         for i in range(len(sensor_list)):
-            if j >= len(_centre_list) - 1:
+            if sensor_list[i].epoch_timestamp > end_time:
                 ii = len(sensor_list) - i
                 if ii > 0:
                     Console.warn(
@@ -378,12 +378,6 @@ def interpolate_sensor_list(
                 sensor_overlap_flag = 1
                 break
             while _centre_list[j].epoch_timestamp < sensor_list[i].epoch_timestamp:
-                if (
-                    j + 1 > len(_centre_list) - 1
-                    or _centre_list[j + 1].epoch_timestamp
-                    > sensor_list[-1].epoch_timestamp
-                ):
-                    break
                 j += 1
             # if j>=1: ?
 
-- 
2.43.0


From 872dca07a8dedf8275670a93339d65295ee8b31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:24 +0000
Subject: [PATCH 006/142] fix: Tide reads back the JSON keys it writes, and has
 a category

---
 src/auv_nav/sensors.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/auv_nav/sensors.py b/src/auv_nav/sensors.py
index ffdafb6..16aee9d 100644
--- a/src/auv_nav/sensors.py
+++ b/src/auv_nav/sensors.py
@@ -1534,6 +1534,7 @@ class Tide(OutputFormat):
         self.ts = ts
         self.height_std_factor = height_std_factor
         self.sensor_string = "unknown"
+        self.category = Category.TIDE
         self.clear()
 
     def clear(self):
@@ -1546,10 +1547,10 @@ class Tide(OutputFormat):
     def from_json(self, json, sensor_std):
         self.epoch_timestamp = json["epoch_timestamp"]
         #        self.tide_timestamp = json['epoch_timestamp_tide']
-        self.height = json["data"][0]["tide"]
+        self.height = json["data"][0]["height"]
 
         if sensor_std["model"] == "sensor":
-            self.height_std = json["data"][0]["tide_std"]
+            self.height_std = json["data"][0]["height_std"]
         elif sensor_std["model"] == "linear":
             self.height_std = sensor_std["offset"] + sensor_std["factor"] * self.height
         else:
-- 
2.43.0


From 0f80a6aff23fd432b5e1f9d8f8ae170d5e6b61d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:24 +0000
Subject: [PATCH 007/142] fix: the linear uncertainty model grows with the
 magnitude of the measurement

Negative velocities and angles produced negative standard deviations.
---
 src/auv_nav/sensors.py | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/src/auv_nav/sensors.py b/src/auv_nav/sensors.py
index 16aee9d..cb017f0 100644
--- a/src/auv_nav/sensors.py
+++ b/src/auv_nav/sensors.py
@@ -377,23 +377,26 @@ class BodyVelocity(OutputFormat):
         elif sensor_std["model"] == "linear":
             if "offset_x" in sensor_std:
                 self.x_velocity_std = (
-                    sensor_std["offset_x"] + sensor_std["factor_x"] * self.x_velocity
+                    sensor_std["offset_x"]
+                    + sensor_std["factor_x"] * abs(self.x_velocity)
                 )
                 self.y_velocity_std = (
-                    sensor_std["offset_y"] + sensor_std["factor_y"] * self.y_velocity
+                    sensor_std["offset_y"]
+                    + sensor_std["factor_y"] * abs(self.y_velocity)
                 )
                 self.z_velocity_std = (
-                    sensor_std["offset_z"] + sensor_std["factor_z"] * self.z_velocity
+                    sensor_std["offset_z"]
+                    + sensor_std["factor_z"] * abs(self.z_velocity)
                 )
             else:
                 self.x_velocity_std = (
-                    sensor_std["offset"] + sensor_std["factor"] * self.x_velocity
+                    sensor_std["offset"] + sensor_std["factor"] * abs(self.x_velocity)
                 )
                 self.y_velocity_std = (
-                    sensor_std["offset"] + sensor_std["factor"] * self.y_velocity
+                    sensor_std["offset"] + sensor_std["factor"] * abs(self.y_velocity)
                 )
                 self.z_velocity_std = (
-                    sensor_std["offset"] + sensor_std["factor"] * self.z_velocity
+                    sensor_std["offset"] + sensor_std["factor"] * abs(self.z_velocity)
                 )
         else:
             Console.error("The STD model you entered for DVL is not supported.")
@@ -764,9 +767,9 @@ class Orientation(OutputFormat):
             self.pitch_std = json["data"][2]["pitch_std"]
             self.yaw_std = json["data"][0]["heading_std"]
         elif sensor_std["model"] == "linear":
-            self.roll_std = sensor_std["offset"] + sensor_std["factor"] * self.roll
-            self.pitch_std = sensor_std["offset"] + sensor_std["factor"] * self.pitch
-            self.yaw_std = sensor_std["offset"] + sensor_std["factor"] * self.yaw
+            self.roll_std = sensor_std["offset"] + sensor_std["factor"] * abs(self.roll)
+            self.pitch_std = sensor_std["offset"] + sensor_std["factor"] * abs(self.pitch)
+            self.yaw_std = sensor_std["offset"] + sensor_std["factor"] * abs(self.yaw)
         else:
             Console.error("The STD model you entered for Orientation is not supported.")
             Console.quit("STD model not supported.")
@@ -944,7 +947,9 @@ class Depth(OutputFormat):
         if sensor_std["model"] == "sensor":
             self.depth_std = json["data"][0]["depth_std"]
         elif sensor_std["model"] == "linear":
-            self.depth_std = sensor_std["offset"] + sensor_std["factor"] * self.depth
+            self.depth_std = sensor_std["offset"] + sensor_std["factor"] * abs(
+                self.depth
+            )
         else:
             Console.error("The STD model you entered for Depth is not supported.")
             Console.quit("STD model not supported.")
@@ -1552,7 +1557,9 @@ class Tide(OutputFormat):
         if sensor_std["model"] == "sensor":
             self.height_std = json["data"][0]["height_std"]
         elif sensor_std["model"] == "linear":
-            self.height_std = sensor_std["offset"] + sensor_std["factor"] * self.height
+            self.height_std = sensor_std["offset"] + sensor_std["factor"] * abs(
+                self.height
+            )
         else:
             Console.error("The STD model you entered for TIDE is not supported.")
             Console.quit("STD model not supported.")
-- 
2.43.0


From 510588bee8687c200ac1f850f2b50408ebc5732c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:24 +0000
Subject: [PATCH 008/142] fix: latitude and longitude of EKF cameras are those
 of the camera, not of the vehicle

---
 src/auv_nav/sensors.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/auv_nav/sensors.py b/src/auv_nav/sensors.py
index cb017f0..d6ce9b2 100644
--- a/src/auv_nav/sensors.py
+++ b/src/auv_nav/sensors.py
@@ -1906,8 +1906,8 @@ class Camera(SyncedOrientationBodyVelocity):
         [self.latitude, self.longitude] = metres_to_latlon(
             latitude_reference,
             longitude_reference,
-            other.eastings,
-            other.northings,
+            self.eastings,
+            self.northings,
         )
 
         self.updated = True
-- 
2.43.0


From 6c32aa5f1ca7bcdf6cfbd48cb80a366b3e830e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:24 +0000
Subject: [PATCH 009/142] fix: compute_angular_speeds handles the second of two
 orientations

---
 src/auv_nav/tools/dvl_level_arm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/auv_nav/tools/dvl_level_arm.py b/src/auv_nav/tools/dvl_level_arm.py
index f086f39..03f472b 100644
--- a/src/auv_nav/tools/dvl_level_arm.py
+++ b/src/auv_nav/tools/dvl_level_arm.py
@@ -44,7 +44,7 @@ def compute_angular_speeds(orientation_vec, i):
     if i >= 1 and i < len(orientation_vec) - 1:
         o1 = orientation_vec[i - 1]
         o2 = orientation_vec[i + 1]
-    elif i > 1 and i == len(orientation_vec) - 1:
+    elif i >= 1 and i == len(orientation_vec) - 1:
         o1 = orientation_vec[i - 1]
         o2 = orientation_vec[i]
     elif i == 0:
-- 
2.43.0


From 7a81f73e77719bcbfe316dbf167d9cc837079ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:33 +0000
Subject: [PATCH 010/142] fix: timestamp files are stored, so that indexed
 filenames resolve to their epoch

The epochs were written to copies of the rows and lost.
---
 src/oplab/filename_to_date.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/oplab/filename_to_date.py b/src/oplab/filename_to_date.py
index 9493234..d65f976 100644
--- a/src/oplab/filename_to_date.py
+++ b/src/oplab/filename_to_date.py
@@ -150,7 +150,7 @@ class FilenameToDate:
         header = lines[0]
         first_row = lines[1]
 
-        headers = header.split(",")
+        headers = header.strip().split(",")
 
         hn = len(headers)
         ln = len(first_row.split(","))
@@ -186,10 +186,10 @@ class FilenameToDate:
         last_idx = int(df.shape[0])
         Console.info("Found", last_idx, "timestamp records in", filename)
 
-        for index, row in df.iterrows():
-            row["epoch_timestamp"] = self.string_to_epoch(
-                row["combined"], row["combined_format"]
-            )
+        df["epoch_timestamp"] = [
+            self.string_to_epoch(combined, combined_format)
+            for combined, combined_format in zip(df["combined"], df["combined_format"])
+        ]
 
         df = df.drop("combined", axis=1)
         df = df.drop("combined_format", axis=1)
-- 
2.43.0


From b31170c146e4435862db38cd6b47af5fc15e7ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:41 +0000
Subject: [PATCH 011/142] fix: interlacing sorts time stamps as numbers, not as
 text

---
 src/auv_nav/parsers/parse_interlacer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/auv_nav/parsers/parse_interlacer.py b/src/auv_nav/parsers/parse_interlacer.py
index b6e6b34..786245d 100644
--- a/src/auv_nav/parsers/parse_interlacer.py
+++ b/src/auv_nav/parsers/parse_interlacer.py
@@ -31,7 +31,7 @@ def parse_interlacer(outpath, filename):
         with filepath.open("r") as json_file:
             data = json.load(json_file)
             for i, data_packet in enumerate(data):
-                value.append(str(float(data_packet["epoch_timestamp"])))
+                value.append(float(data_packet["epoch_timestamp"]))
 
     except ValueError:
         Console.quit("Error: no data in JSON file")
-- 
2.43.0


From 2b13b5e9dde463e7fe78c9f41697b93e366be260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:41 +0000
Subject: [PATCH 012/142] fix: tidal correction also covers the last interval
 of the tide data

---
 src/auv_nav/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/auv_nav/parse.py b/src/auv_nav/parse.py
index e2549bc..c6418dc 100644
--- a/src/auv_nav/parse.py
+++ b/src/auv_nav/parse.py
@@ -713,7 +713,7 @@ def parse_single(filepath, force_overwrite):
                 j = 0
                 for k in range(len(results)):
                     while (
-                        j < len(tide_list)-2
+                        j < len(tide_list) - 1
                         and tide_list[j]["epoch_timestamp"]
                         < results[k]["epoch_timestamp"]
                     ):
-- 
2.43.0


From 5a112c4cab4bc8d2fe579066e3a9430ff9677851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:41 +0000
Subject: [PATCH 013/142] fix: an existing but empty output folder does not
 count as parsed data

---
 src/auv_nav/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/auv_nav/parse.py b/src/auv_nav/parse.py
index c6418dc..574f2f3 100644
--- a/src/auv_nav/parse.py
+++ b/src/auv_nav/parse.py
@@ -790,7 +790,7 @@ def check_output_files_exist(processed_dataset_folder):
     """Check if any of the files exist, which `auv_nav parse` writes to disk"""
     mission_file = processed_dataset_folder / "mission.yaml"
     vehicle_file = processed_dataset_folder / "vehicle.yaml"
-    camera_file = processed_dataset_folder / ""
+    camera_file = processed_dataset_folder / "camera.yaml"
     nav_file = processed_dataset_folder / "nav" / "nav_standard.json"
     data_plot_file = processed_dataset_folder / "nav" / "json_data_info.html"
     history_plot_file = processed_dataset_folder / "nav" / "timestamp_history.html"
-- 
2.43.0


From f85cd4720ba01f0786ebb46c2ace661db7948f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:25 +0000
Subject: [PATCH 014/142] fix: merging dives copies the configuration of the
 first raw dive

---
 src/auv_nav/parse.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/auv_nav/parse.py b/src/auv_nav/parse.py
index 574f2f3..5352b7c 100644
--- a/src/auv_nav/parse.py
+++ b/src/auv_nav/parse.py
@@ -155,15 +155,15 @@ def parse(filepath, force_overwrite, merge):
 
         # copy mission.yaml and vehicle.yaml to processed folder for
         # process step
-        mission_processed = get_processed_folder(filepath[0]) / "mission.yaml"
-        vehicle_processed = get_processed_folder(filepath[0]) / "vehicle.yaml"
-        camera_processed = get_processed_folder(filepath[0]) / "camera.yaml"
+        mission_raw = get_raw_folder(filepath[0]) / "mission.yaml"
+        vehicle_raw = get_raw_folder(filepath[0]) / "vehicle.yaml"
+        camera_raw = get_raw_folder(filepath[0]) / "camera.yaml"
         mission_merged = processed_path / foldername / "mission.yaml"
         vehicle_merged = processed_path / foldername / "vehicle.yaml"
         camera_merged = processed_path / foldername / "camera.yaml"
-        mission_processed.copy(mission_merged)
-        vehicle_processed.copy(vehicle_merged)
-        camera_processed.copy(camera_merged)
+        mission_raw.copy(mission_merged)
+        vehicle_raw.copy(vehicle_merged)
+        camera_raw.copy(camera_merged)
 
         # interlace the data based on timestamps
         Console.info("Interlacing merged data...")
-- 
2.43.0


From 02d7c7c7989b97f2c2b7163366864b6596a6855e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:25 +0000
Subject: [PATCH 015/142] fix: auv_nav main uses the arguments it is given

---
 src/auv_nav/auv_nav.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/auv_nav/auv_nav.py b/src/auv_nav/auv_nav.py
index ba3d24b..5a12181 100644
--- a/src/auv_nav/auv_nav.py
+++ b/src/auv_nav/auv_nav.py
@@ -288,7 +288,7 @@ def main(args=None):
         sys.exit(1)
 
     argcomplete.autocomplete(parser)
-    args = parser.parse_args()
+    args = parser.parse_args(args)
     args.func(args)
 
 
-- 
2.43.0


From c6ddeded76485fc01aafaea3b335aad5bfb6ce0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:25 +0000
Subject: [PATCH 016/142] fix: merged dives, which have no raw folder, can be
 processed

---
 src/auv_nav/process.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/auv_nav/process.py b/src/auv_nav/process.py
index 632374e..e77c160 100644
--- a/src/auv_nav/process.py
+++ b/src/auv_nav/process.py
@@ -360,12 +360,16 @@ def process(
 
     Console.info("Loading vehicle.yaml")
     vehicle_file = filepath / "vehicle.yaml"
-    vehicle_file = get_raw_folder(vehicle_file)
+    if get_raw_folder(vehicle_file).exists() or not vehicle_file.exists():
+        # merged dives only have a copy in the processed folder
+        vehicle_file = get_raw_folder(vehicle_file)
     vehicle = Vehicle(vehicle_file)
 
     Console.info("Loading mission.yaml")
     mission_file = filepath / "mission.yaml"
-    mission_file = get_raw_folder(mission_file)
+    if get_raw_folder(mission_file).exists() or not mission_file.exists():
+        # merged dives only have a copy in the processed folder
+        mission_file = get_raw_folder(mission_file)
     mission = Mission(mission_file)
 
     time_str = time.strftime("%Y%m%d_%H%M%S", time.localtime())
-- 
2.43.0


From 1a1001608a136711efda50c7bf7b2d5425717772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:39 +0000
Subject: [PATCH 017/142] fix: latitude and longitude of the particle filter
 track at the DVL

---
 src/auv_nav/process.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/auv_nav/process.py b/src/auv_nav/process.py
index e77c160..3067c18 100644
--- a/src/auv_nav/process.py
+++ b/src/auv_nav/process.py
@@ -1190,8 +1190,10 @@ def process(
         )
         pf_fusion_centre_list = copy.deepcopy(pf_fusion_dvl_list)
         for i in range(len(pf_fusion_centre_list)):
-            pf_fusion_dvl_list[i].latitude,
-            pf_fusion_dvl_list[i].longitude = metres_to_latlon(
+            (
+                pf_fusion_dvl_list[i].latitude,
+                pf_fusion_dvl_list[i].longitude,
+            ) = metres_to_latlon(
                 mission.origin.latitude,
                 mission.origin.longitude,
                 pf_fusion_dvl_list[i].eastings,
-- 
2.43.0


From 74f640351c75144c8985efda2bab2e6847112a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:25 +0000
Subject: [PATCH 018/142] fix: usbl_offset handles single fixes, large gaps and
 fixes that do not overlap

---
 src/auv_nav/localisation/usbl_offset.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/auv_nav/localisation/usbl_offset.py b/src/auv_nav/localisation/usbl_offset.py
index 9e9ad1d..4cf2805 100644
--- a/src/auv_nav/localisation/usbl_offset.py
+++ b/src/auv_nav/localisation/usbl_offset.py
@@ -38,6 +38,8 @@ def usbl_offset(
         while exit_flag is False:
             if start_usbl + 1 >= len(time_usbl):
                 break
+            if start_dead_reckoning >= len(time_dead_reckoning):
+                break
             if (
                 time_dead_reckoning[start_dead_reckoning] - time_usbl[start_usbl + 1]
                 > 0
@@ -56,6 +58,10 @@ def usbl_offset(
     else:
         # print('usbl starts after dead_reckoning')
         while exit_flag is False:
+            if start_usbl + 1 >= len(time_usbl):
+                break
+            if start_dead_reckoning >= len(time_dead_reckoning):
+                break
             if time_dead_reckoning[start_dead_reckoning] - time_usbl[start_usbl] < 0:
                 start_dead_reckoning = start_dead_reckoning + 1
 
@@ -70,6 +76,16 @@ def usbl_offset(
                 else:  # if the jump is too big, ignore and try another fix
                     start_usbl = start_usbl + 1
 
+    if exit_flag is False:
+        # No two fixes close enough in time: use all that are available
+        start_dead_reckoning = 0
+        start_usbl = 0
+        while (
+            start_usbl + 1 < len(time_usbl)
+            and time_usbl[start_usbl] < time_dead_reckoning[0]
+        ):
+            start_usbl += 1
+
     northings_dead_reckoning_interpolated = []
     eastings_dead_reckoning_interpolated = []
 
@@ -100,6 +116,10 @@ def usbl_offset(
             )
         )
 
+    if len(northings_dead_reckoning_interpolated) == 0:
+        Console.warn("USBL does not overlap with dead reckoning, no offset applied")
+        return 0.0, 0.0
+
     northings_offset = sum(
         northings_usbl[
             start_usbl : start_usbl + len(northings_dead_reckoning_interpolated)  # noqa
-- 
2.43.0


From 8256b19371e1ce58bf74107ba8e43570ddfe4e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:54 +0000
Subject: [PATCH 019/142] fix: usbl_offset interpolates the dead reckoning in
 the interval that contains the fix

---
 src/auv_nav/localisation/usbl_offset.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/auv_nav/localisation/usbl_offset.py b/src/auv_nav/localisation/usbl_offset.py
index 4cf2805..15c40bd 100644
--- a/src/auv_nav/localisation/usbl_offset.py
+++ b/src/auv_nav/localisation/usbl_offset.py
@@ -86,6 +86,13 @@ def usbl_offset(
         ):
             start_usbl += 1
 
+    # Start from the dead reckoning interval that contains the first fix used
+    while (
+        start_dead_reckoning > 0
+        and time_dead_reckoning[start_dead_reckoning] > time_usbl[start_usbl]
+    ):
+        start_dead_reckoning -= 1
+
     northings_dead_reckoning_interpolated = []
     eastings_dead_reckoning_interpolated = []
 
-- 
2.43.0


From 89e453b05a5ed34bc94bddcbcfbbafde1665bec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:34 +0000
Subject: [PATCH 020/142] fix: do not stamp a PHINS depth with the clock of an
 earlier telegram

---
 src/auv_nav/sensors.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/auv_nav/sensors.py b/src/auv_nav/sensors.py
index d6ce9b2..e61ab9c 100644
--- a/src/auv_nav/sensors.py
+++ b/src/auv_nav/sensors.py
@@ -922,6 +922,8 @@ class Depth(OutputFormat):
         self.sensor_string = "phins"
         self.depth = float(line[2])
         self.depth_std = self.depth * self.depth_std_factor
+        # do not keep the time of an earlier telegram if this one has none
+        self.depth_timestamp = None
         time_string = str(line[3])
         hour = int(time_string[0:2])
         mins = int(time_string[2:4])
-- 
2.43.0


From 96dc367dc636872d7f065d2794689a574ff6a327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:12 +0000
Subject: [PATCH 021/142] fix: exporting a camera without image warns instead
 of crashing

---
 src/auv_nav/sensors.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/auv_nav/sensors.py b/src/auv_nav/sensors.py
index e61ab9c..5f4990d 100644
--- a/src/auv_nav/sensors.py
+++ b/src/auv_nav/sensors.py
@@ -1846,6 +1846,7 @@ class Camera(SyncedOrientationBodyVelocity):
     def __init__(self):
         super().__init__()
         self.filename = ""
+        self.category = Category.IMAGES
         self.information = None
         self.updated = False
 
-- 
2.43.0


From 9e2de549a6551d1485c5d417abfd3e0d6800419e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:12 +0000
Subject: [PATCH 022/142] fix: NMEA position fixes report their own uncertainty
 in degrees

---
 src/auv_nav/sensors.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/auv_nav/sensors.py b/src/auv_nav/sensors.py
index 5f4990d..5e004b7 100644
--- a/src/auv_nav/sensors.py
+++ b/src/auv_nav/sensors.py
@@ -1361,8 +1361,10 @@ class Usbl(OutputFormat):
         # that 111,111 meters (111.111 km) in the y direction is 1 degree (of
         # latitude) and 111,111 * cos(latitude) meters in the x direction is
         # 1 degree (of longitude).
-        self.latitude_std = self.depth / 111.111e3
-        self.longitude_std = self.latitude_std * cos(self.latitude * pi / 180.0)
+        self.latitude_std = self.northings_std / 111.111e3
+        self.longitude_std = self.eastings_std / (
+            111.111e3 * cos(self.latitude * pi / 180.0)
+        )
 
     def from_json(self, json, sensor_std):
         self.epoch_timestamp = json["epoch_timestamp"]
-- 
2.43.0


From 14381d753c6bbdb7b1f0975cb9482d624dc08855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:12 +0000
Subject: [PATCH 023/142] fix: usbl_dump positions in the southern and western
 hemispheres

---
 src/auv_nav/parsers/parse_usbl_dump.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/auv_nav/parsers/parse_usbl_dump.py b/src/auv_nav/parsers/parse_usbl_dump.py
index ba3293b..aab2072 100644
--- a/src/auv_nav/parsers/parse_usbl_dump.py
+++ b/src/auv_nav/parsers/parse_usbl_dump.py
@@ -86,22 +86,18 @@ def parse_usbl_dump(mission, vehicle, category, ftype, outpath):
                     latitude_degrees = int(latitude_list[0])
                     latitude_minutes = float(latitude_list[1])
 
-                    if latitude_full[1] != "N":
-                        latitude_degrees = latitude_degrees * -1  # southern hemisphere
-
                     latitude = latitude_degrees + latitude_minutes / 60
+                    if latitude_full[1] != "N":
+                        latitude = latitude * -1  # southern hemisphere
 
                     longitude_full = line_split[7].split(" ")
                     longitude_list = longitude_full[0].split("-")
                     longitude_degrees = int(longitude_list[0])
                     longitude_minutes = float(longitude_list[1])
 
-                    if longitude_full[1] != "E":
-                        longitude_degrees = (
-                            longitude_degrees * -1
-                        )  # southern hemisphere
-
                     longitude = longitude_degrees + longitude_minutes / 60
+                    if longitude_full[1] != "E":
+                        longitude = longitude * -1  # western hemisphere
 
                     depth_full = line_split[8].split("=")
                     depth = float(depth_full[1])
-- 
2.43.0


From e02f31e1d79c924b052b6c12df5bf4db7dc9c03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:12 +0000
Subject: [PATCH 024/142] fix: usbl_dump uncertainties are not negative

---
 src/auv_nav/parsers/parse_usbl_dump.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/auv_nav/parsers/parse_usbl_dump.py b/src/auv_nav/parsers/parse_usbl_dump.py
index aab2072..30f36ce 100644
--- a/src/auv_nav/parsers/parse_usbl_dump.py
+++ b/src/auv_nav/parsers/parse_usbl_dump.py
@@ -118,8 +118,8 @@ def parse_usbl_dump(mission, vehicle, category, ftype, outpath):
                         latitude, longitude, distance_std, distance_std
                     )
 
-                    latitude_std = latitude - latitude_offset
-                    longitude_std = longitude - longitude_offset
+                    latitude_std = abs(latitude - latitude_offset)
+                    longitude_std = abs(longitude - longitude_offset)
 
                     # calculate in metres from reference
                     eastings_ship = 0
-- 
2.43.0


From d05eb543fb9fa91cb3ea05db143386fe77adee05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:12 +0000
Subject: [PATCH 025/142] fix: GAPS ship heading is interpolated the short way
 round

---
 src/auv_nav/parsers/parse_gaps.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/auv_nav/parsers/parse_gaps.py b/src/auv_nav/parsers/parse_gaps.py
index 5f92c1a..26f423b 100644
--- a/src/auv_nav/parsers/parse_gaps.py
+++ b/src/auv_nav/parsers/parse_gaps.py
@@ -315,10 +315,11 @@ def parse_gaps(mission, vehicle, category, ftype, outpath):
                         inter_time * (latitude_posterior - latitude_prior)
                         + latitude_prior
                     )
-                    heading_ship = (
-                        inter_time * (heading_ship_posterior - heading_ship_prior)
-                        + heading_ship_prior
-                    )
+                    # turn the short way round through north
+                    heading_change = (
+                        heading_ship_posterior - heading_ship_prior + 180
+                    ) % 360 - 180
+                    heading_ship = inter_time * heading_change + heading_ship_prior
 
                     while heading_ship > 360:
                         heading_ship = heading_ship - 360
-- 
2.43.0


From f466113476052635690afe2a3c569c33fdc39465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:10:05 +0000
Subject: [PATCH 026/142] fix: RDI time stamps are converted from the mission's
 time zone to UTC

---
 src/auv_nav/parsers/parse_rdi.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/auv_nav/parsers/parse_rdi.py b/src/auv_nav/parsers/parse_rdi.py
index b4108b3..6e611a7 100644
--- a/src/auv_nav/parsers/parse_rdi.py
+++ b/src/auv_nav/parsers/parse_rdi.py
@@ -47,16 +47,22 @@ def parse_rdi(mission, vehicle, category, ftype, outpath):
         Console.info("... parsing RDI velocity")
         filename = mission.velocity.filename
         filepath = mission.velocity.filepath
-        timeoffset_s = mission.velocity.offset_s
+        timeoffset_s = (
+            mission.velocity.timeoffset_s - mission.velocity.timezone_s
+        )
     elif category == Category.ORIENTATION:
         Console.info("... parsing RDI orientation")
         filename = mission.orientation.filename
         filepath = mission.orientation.filepath
-        timeoffset_s = mission.orientation.offset_s
+        timeoffset_s = (
+            mission.orientation.timeoffset_s - mission.orientation.timezone_s
+        )
     elif category == Category.ALTITUDE:
         Console.info("... parsing RDI altitude")
         filename = mission.altitude.filename
-        timeoffset_s = mission.altitude.offset_s
+        timeoffset_s = (
+            mission.altitude.timeoffset_s - mission.altitude.timezone_s
+        )
         filepath = mission.altitude.filepath
 
     logfile = get_raw_folder(outpath / ".." / filepath / filename)
-- 
2.43.0


From 752917af818a5c8238fc72e878b63585d74b50dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:10:05 +0000
Subject: [PATCH 027/142] fix: RDI attitude is written in degrees like every
 other orientation

---
 src/auv_nav/parsers/parse_rdi.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/auv_nav/parsers/parse_rdi.py b/src/auv_nav/parsers/parse_rdi.py
index 6e611a7..33ae541 100644
--- a/src/auv_nav/parsers/parse_rdi.py
+++ b/src/auv_nav/parsers/parse_rdi.py
@@ -73,9 +73,9 @@ def parse_rdi(mission, vehicle, category, ftype, outpath):
             # Lines start with TS, BI, BS, BE, BD, SA
             parts = line.split(",")
             if parts[0] == ":SA" and len(parts) == 4:
-                ot.roll = math.radians(float(parts[2]))
-                ot.pitch = math.radians(float(parts[1]))
-                ot.yaw = math.radians(float(parts[3]))
+                ot.roll = float(parts[2])
+                ot.pitch = float(parts[1])
+                ot.yaw = float(parts[3])
             elif parts[0] == ":TS" and len(parts) == 7:
                 # Every time a new TimeStamp is received, send the previous
                 # data packet
-- 
2.43.0


From 4933e57662f2c8dd7dcde4e9e7c1d240fbd53995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:10:05 +0000
Subject: [PATCH 028/142] fix: RDI velocities are rotated by the DVL yaw in
 degrees

---
 src/auv_nav/parsers/parse_rdi.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/auv_nav/parsers/parse_rdi.py b/src/auv_nav/parsers/parse_rdi.py
index 33ae541..1d5172c 100644
--- a/src/auv_nav/parsers/parse_rdi.py
+++ b/src/auv_nav/parsers/parse_rdi.py
@@ -126,12 +126,9 @@ def parse_rdi(mission, vehicle, category, ftype, outpath):
                     altitude_valid = True
                     x = float(parts[1]) * 0.001
                     y = float(parts[2]) * 0.001
-                    bv.x_velocity = x * math.cos(headingoffset) - y * math.sin(
-                        headingoffset
-                    )
-                    bv.y_velocity = x * math.sin(headingoffset) + y * math.cos(
-                        headingoffset
-                    )
+                    yaw_rad = math.radians(headingoffset)
+                    bv.x_velocity = x * math.cos(yaw_rad) - y * math.sin(yaw_rad)
+                    bv.y_velocity = x * math.sin(yaw_rad) + y * math.cos(yaw_rad)
                     bv.z_velocity = float(parts[3]) * 0.001
                     bv.x_velocity_std = float(parts[4]) * 0.001
                     bv.y_velocity_std = float(parts[4]) * 0.001
-- 
2.43.0


From 791ba48faf09c3f2318987f4277a5d5f889f78d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:10:05 +0000
Subject: [PATCH 029/142] fix: the alr2 USBL format no longer fails to parse

---
 src/auv_nav/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/auv_nav/parse.py b/src/auv_nav/parse.py
index 5352b7c..9347476 100644
--- a/src/auv_nav/parse.py
+++ b/src/auv_nav/parse.py
@@ -363,7 +363,7 @@ def parse_single(filepath, force_overwrite):
             pool_list.append(
                 pool.apply_async(
                     parse_alr,
-                    [mission, vehicle, "usbl", ftype, outpath, True],
+                    [mission, vehicle, "usbl", ftype, outpath],
                 )
             )
         elif mission.usbl.format == "sonardyne_mrt":
-- 
2.43.0


From 3489973456c18b8803317d7e09fb7b64f3a96ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:31:31 +0000
Subject: [PATCH 030/142] fix: report a repeated image write with the existing
 Console method

write_output_image crashed with AttributeError after an image had been written
successfully on a second attempt: Console has no method 'warning'.
---
 src/correct_images/tools/file_handlers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/correct_images/tools/file_handlers.py b/src/correct_images/tools/file_handlers.py
index 8c443e6..10469ca 100644
--- a/src/correct_images/tools/file_handlers.py
+++ b/src/correct_images/tools/file_handlers.py
@@ -152,7 +152,7 @@ def write_output_image(image, filename, dest_path, dest_format):
             f"Failed to write image {file_path} after {max_tries} unsuccessful attempts"
         )
     elif i > 0:
-        Console.warning(
+        Console.warn(
             f"Image {file_path} was written successfully after {i} failed attempt(s)"
         )
 
-- 
2.43.0


From 20b69bd664e24edba6c0aa54a848341c841420ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:31:31 +0000
Subject: [PATCH 031/142] fix: discard invalid altitude/intensity samples in
 pairs in curve fitting

Altitudes and intensities were filtered separately, so one missing altitude
shifted all following samples against each other.
---
 src/correct_images/tools/curve_fitting.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/correct_images/tools/curve_fitting.py b/src/correct_images/tools/curve_fitting.py
index d557bbc..e46a815 100644
--- a/src/correct_images/tools/curve_fitting.py
+++ b/src/correct_images/tools/curve_fitting.py
@@ -90,8 +90,10 @@ def curve_fitting(
     numpy.ndarray
         parameters
     """
-    altitudes = altitudes[np.isfinite(altitudes)]
-    intensities = intensities[np.isfinite(intensities)]
+    # Discard pairs, so that every altitude keeps its own intensity
+    valid = np.isfinite(altitudes) & np.isfinite(intensities)
+    altitudes = altitudes[valid]
+    intensities = intensities[valid]
 
     if altitudes.size == 0:
         Console.warn(
-- 
2.43.0


From afe07d06d40ce91141efce6f0947cf4f0e3a3b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:31:31 +0000
Subject: [PATCH 032/142] fix: trim over the images in image_mean_std_trimmed

The nested index list made every pixel look like a single sample, which was
trimmed away completely (NaN), and single channel stacks, which create_memmap
stores without a channel axis, raised IndexError.
---
 src/correct_images/tools/numerical.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/correct_images/tools/numerical.py b/src/correct_images/tools/numerical.py
index 5b6062a..a5a3986 100644
--- a/src/correct_images/tools/numerical.py
+++ b/src/correct_images/tools/numerical.py
@@ -299,10 +299,12 @@ def image_mean_std_trimmed(data, ratio_trimming=0.2, calculate_std=True):
     c = 1
     if len(data.shape) == 4:
         c = data.shape[3]
+    else:
+        data = data.reshape((n, a, b, 1))
     ret_mean = np.zeros((a, b, c), np.float32)
     ret_std = np.zeros((a, b, c), np.float32)
 
-    effective_index = [list(range(0, n))]
+    effective_index = list(range(0, n))
 
     message = "calculating mean and std of images " + datetime.datetime.now().strftime(
         "%Y-%m-%d %H:%M:%S"
-- 
2.43.0


From 7e1366b0d3865848930259d4d6df4ced3a7c491a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:33:04 +0000
Subject: [PATCH 033/142] fix: use the images of all dives in a multi-dive
 colour correction

The image and altitude lists of the dives were only joined for manual balance,
so colour correction parameters came from the last dive alone.
---
 src/correct_images/corrector.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/correct_images/corrector.py b/src/correct_images/corrector.py
index c9dcde2..114ec99 100644
--- a/src/correct_images/corrector.py
+++ b/src/correct_images/corrector.py
@@ -666,17 +666,17 @@ class Corrector:
             )
         else:
             # Copy the images list from the camera
-            self.camera_image_list = self.camera.image_list
+            self.camera_image_list = list(self.camera.image_list)
 
-            # Join the current image list with the original image list (copy)
-            self.camera_image_list.extend(_original_image_list)
-            # Show size of the extended image list
-            # Informative for message for multidive
-            Console.info(
-                "The camera image list has", len(self.camera_image_list), "entries"
-            )
-            # Join the current image list with the original image list (copy)
-            self.altitude_list.extend(_original_altitude_list)
+        # Join the current image list with the original image list (copy)
+        self.camera_image_list.extend(_original_image_list)
+        # Show size of the extended image list
+        # Informative for message for multidive
+        Console.info(
+            "The camera image list has", len(self.camera_image_list), "entries"
+        )
+        # Join the current image list with the original image list (copy)
+        self.altitude_list.extend(_original_altitude_list)
 
     def get_altitude_and_depth_maps(self):
         """Generate distance matrix numpy files and save them"""
-- 
2.43.0


From 8a3ecaaf8b427d39c9681083837f7179394b4243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:33:04 +0000
Subject: [PATCH 034/142] fix: finish processing with manual balance, which
 reads no navigation

process_correction tried to read the navigation csv, whose path is only set
for colour correction, and crashed after developing the images.
---
 src/correct_images/corrector.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/correct_images/corrector.py b/src/correct_images/corrector.py
index 114ec99..a07114b 100644
--- a/src/correct_images/corrector.py
+++ b/src/correct_images/corrector.py
@@ -1270,6 +1270,11 @@ class Corrector:
                 for idx in range(0, len(self.camera_image_list))
             )
 
+        if self.altitude_csv_path is None:
+            # No navigation has been read (manual balance): no file list to write
+            Console.info("Processing of images is completed")
+            return
+
         # write a filelist.csv containing image filenames and navigation
         image_names = []
         for path in self.processed_image_list:
-- 
2.43.0


From 1a7ef2317d76758a2c1600d0212e23885377b90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:33:04 +0000
Subject: [PATCH 035/142] fix: accept monochrome cameras in manual balance

Single-channel images were reordered like RGB ones (IndexError), and the single
gain and subtractor given for monochrome cameras in the default yaml files could
not be used to name the output folder.
---
 src/correct_images/corrector.py | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/src/correct_images/corrector.py b/src/correct_images/corrector.py
index a07114b..3cf6b1b 100644
--- a/src/correct_images/corrector.py
+++ b/src/correct_images/corrector.py
@@ -431,17 +431,9 @@ class Corrector:
             developed_folder_str += "manual"
             developed_folder_str += (
                 "_gain_"
-                + str(self.color_gain_matrix_rgb[0, 0])
-                + "_"
-                + str(self.color_gain_matrix_rgb[1, 1])
-                + "_"
-                + str(self.color_gain_matrix_rgb[2, 2])
+                + "_".join(str(g) for g in np.diag(self.color_gain_matrix_rgb))
                 + "_sub_"
-                + str(self.subtractors_rgb[0])
-                + "_"
-                + str(self.subtractors_rgb[1])
-                + "_"
-                + str(self.subtractors_rgb[2])
+                + "_".join(str(s) for s in self.subtractors_rgb)
             )
         # Accept suffixes for the output directories
         if self.suffix:
@@ -1388,7 +1380,7 @@ class Corrector:
             ):
                 # debayer images
                 image_rgb = corrections.debayer(image, self._type)
-            elif self._type != "bgr":
+            elif self._type != "bgr" and self._type != "grayscale":
                 image_rgb = image.copy()
                 image_rgb[:, :, [0, 1, 2]] = image_rgb[:, :, [2, 1, 0]]
             else:
-- 
2.43.0


From 5e3022359ec875a47f7e13ada5c4c082f115604f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:34:18 +0000
Subject: [PATCH 036/142] fix: keep the colours of RGB cameras

Images are loaded, corrected and written in RGB order, but the channels of
cameras of type rgb were reversed, so red and blue were exchanged in the
developed images (and the red gain of manual balance was applied to blue).
It is the bgr type that has to be reordered.
---
 src/correct_images/corrector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/correct_images/corrector.py b/src/correct_images/corrector.py
index 3cf6b1b..7ff5982 100644
--- a/src/correct_images/corrector.py
+++ b/src/correct_images/corrector.py
@@ -1366,7 +1366,7 @@ class Corrector:
             ):
                 # debayer images
                 image_rgb = corrections.debayer(image, self._type)
-            elif self._type != "bgr" and self._type != "grayscale":
+            elif self._type == "bgr":
                 image_rgb = image.copy()
                 image_rgb[:, :, [0, 1, 2]] = image_rgb[:, :, [2, 1, 0]]
             else:
@@ -1380,7 +1380,7 @@ class Corrector:
             ):
                 # debayer images
                 image_rgb = corrections.debayer(image, self._type)
-            elif self._type != "bgr" and self._type != "grayscale":
+            elif self._type == "bgr":
                 image_rgb = image.copy()
                 image_rgb[:, :, [0, 1, 2]] = image_rgb[:, :, [2, 1, 0]]
             else:
-- 
2.43.0


From cdfe79b8cf613c1a9c642fa336a4d8266fbebf59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:34:18 +0000
Subject: [PATCH 037/142] fix: find the calibration file that auv_cal writes
 when undistorting

auv_cal (and rescale) name the file mono_<camera>.yaml; process looked for
mono<camera>.yaml and silently skipped the distortion correction.
---
 src/correct_images/corrector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/correct_images/corrector.py b/src/correct_images/corrector.py
index 7ff5982..20714d8 100644
--- a/src/correct_images/corrector.py
+++ b/src/correct_images/corrector.py
@@ -1234,7 +1234,7 @@ class Corrector:
         # check for calibration file if distortion correction needed
         if self.undistort:
             camera_params_folder = Path(self.path_processed).parents[0] / "calibration"
-            camera_params_filename = "mono" + self.camera_name + ".yaml"
+            camera_params_filename = "mono_" + self.camera_name + ".yaml"
             camera_params_file_path = camera_params_folder / camera_params_filename
 
             if not camera_params_file_path.exists():
-- 
2.43.0


From 7542dcad15798df941ab94b3fd546f6c3ba38013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:34:18 +0000
Subject: [PATCH 038/142] fix: make the correct command run

correct takes one path, which parse iterated over character by character, and
it did not define the memmap options that parse reads.
---
 src/correct_images/correct_images.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/correct_images/correct_images.py b/src/correct_images/correct_images.py
index 9de5230..163eecb 100644
--- a/src/correct_images/correct_images.py
+++ b/src/correct_images/correct_images.py
@@ -59,7 +59,9 @@ def main(args=None):
         default="",
         help="Expected suffix for correct_images configuration and output folders.",
     )
-    subparser_correct.set_defaults(func=call_correct)
+    subparser_correct.set_defaults(
+        func=call_correct, memmap_location=".", memmap_size_gb=50
+    )
 
     # subparser parse
     subparser_parse = subparsers.add_parser(
@@ -316,7 +318,9 @@ def call_correct(args):
     args : parse_args object
         User provided arguments for path of source images
     """
-    call_parse(args)
+    parse_args = argparse.Namespace(**vars(args))
+    parse_args.path = [args.path]  # parse takes a list of dives
+    call_parse(parse_args)
     call_process(args)
 
 
-- 
2.43.0


From e0d6e1ebf56d69fb3e7fff2a4aeef4c0e9852af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:44 +0000
Subject: [PATCH 039/142] fix: rescale each image with its own altitude

The navigation row was searched by substring, so that image 11 also matched
image 1 and the comparison of two altitudes failed.
---
 src/correct_images/corrections/rescale.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/correct_images/corrections/rescale.py b/src/correct_images/corrections/rescale.py
index 2c7a47e..849e8cd 100644
--- a/src/correct_images/corrections/rescale.py
+++ b/src/correct_images/corrections/rescale.py
@@ -116,13 +116,16 @@ def rescale_images(
         output_image_path = Path(output_directory) / image_name
         image_path_list = dataframe["relative_path"]
         trimmed_path_list = [
-            path for path in image_path_list if Path(path).stem in image_name
+            path
+            for path in image_path_list
+            if Path(path).stem == Path(image_name).stem
         ]
         trimmed_dataframe = dataframe.loc[
             dataframe["relative_path"].isin(trimmed_path_list)
         ]
-        altitude = trimmed_dataframe["altitude [m]"]
-        if len(altitude) > 0:
+        altitudes = trimmed_dataframe["altitude [m]"]
+        if len(altitudes) > 0:
+            altitude = altitudes.iloc[0]
             image = imread(source_image_path).astype("uint8")
             rescaled_image = rescale(
                 image,
-- 
2.43.0


From b6db804c2d6b9ba58c96c9c002c6c9785ecbc5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:44 +0000
Subject: [PATCH 040/142] fix: camera models no longer use np.float, which
 numpy removed

---
 src/oplab/camera_models.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/oplab/camera_models.py b/src/oplab/camera_models.py
index 4bedf10..9dfe252 100644
--- a/src/oplab/camera_models.py
+++ b/src/oplab/camera_models.py
@@ -183,14 +183,14 @@ class MonoCamera:
         px = p[0]
         py = p[1]
         ztemp = np.array([0, 0, 0], dtype="float32")
-        p_unif = np.array([[[(px - cx) / fx, (py - cy) / fy, 1]]], dtype=np.float)
+        p_unif = np.array([[[(px - cx) / fx, (py - cy) / fy, 1]]], dtype=float)
         out_p = []
         out_p = cv2.projectPoints(p_unif, ztemp, ztemp, self.K, self.d)[0][0][0]
         return self.return_valid(out_p)
 
     def undistort_point(self, p):
         # Undistorts points
-        p = np.array([p], dtype=np.float).reshape(1, 2)
+        p = np.array([p], dtype=float).reshape(1, 2)
         # If matrix P is identity or omitted, dst will contain
         # normalized point coordinates
         dst = cv2.undistortPoints(p, self.K, self.d)[0][0]
@@ -215,13 +215,13 @@ class MonoCamera:
         p_und = self.undistort_point(p)
         if p_und is None:
             return None
-        p_unif = np.array([p_und[0], p_und[1], 1], dtype=np.float).reshape(3, 1)
+        p_unif = np.array([p_und[0], p_und[1], 1], dtype=float).reshape(3, 1)
         p_und_rec = self.R @ p_unif
         p_und_rec = p_und_rec[0:2, 0]
         return self.return_valid(p_und_rec)
 
     def unrectify_and_distort_point(self, p):
-        p_unif = np.array([p[0], p[1], 1], dtype=np.float).reshape(3, 1)
+        p_unif = np.array([p[0], p[1], 1], dtype=float).reshape(3, 1)
         p_unrec = self.R.T @ p_unif
         return self.distort_point(p_unrec[0:2])
 
@@ -320,7 +320,7 @@ class StereoCamera:
         """Projects a 3D point into the rectified frame
         point3d a list of three elements [x, y, z]
         """
-        X = np.ones((4, 1), dtype=np.float)
+        X = np.ones((4, 1), dtype=float)
         X[:3, 0] = point3d
         left_uv = self.left.P @ X
         left_uv /= left_uv[2]
-- 
2.43.0


From f52f00896e59b3f7866196a2832cbdd64d069528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:44 +0000
Subject: [PATCH 041/142] fix: rectify points with the rectified camera matrix

The rectification rotation was applied to pixel coordinates.
---
 src/oplab/camera_models.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/oplab/camera_models.py b/src/oplab/camera_models.py
index 9dfe252..55d91a4 100644
--- a/src/oplab/camera_models.py
+++ b/src/oplab/camera_models.py
@@ -212,18 +212,16 @@ class MonoCamera:
         return self.return_valid(p)
 
     def undistort_and_rectify_point(self, p):
-        p_und = self.undistort_point(p)
-        if p_und is None:
-            return None
-        p_unif = np.array([p_und[0], p_und[1], 1], dtype=float).reshape(3, 1)
-        p_und_rec = self.R @ p_unif
-        p_und_rec = p_und_rec[0:2, 0]
+        # R rotates rays, not pixels, and P maps the rotated rays to pixels
+        p = np.array([p], dtype=float).reshape(1, 1, 2)
+        p_und_rec = cv2.undistortPoints(p, self.K, self.d, R=self.R, P=self.P)[0][0]
         return self.return_valid(p_und_rec)
 
     def unrectify_and_distort_point(self, p):
         p_unif = np.array([p[0], p[1], 1], dtype=float).reshape(3, 1)
-        p_unrec = self.R.T @ p_unif
-        return self.distort_point(p_unrec[0:2])
+        ray = self.R.T @ np.linalg.inv(self.P[:, 0:3]) @ p_unif
+        p_unrec = self.K @ (ray / ray[2, 0])
+        return self.distort_point(p_unrec[0:2, 0])
 
 
 class StereoCamera:
-- 
2.43.0


From ffc130d0ae888983a1ff7c45476b8d2294c3e2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:13 +0000
Subject: [PATCH 042/142] fix: projecting a point that only the left camera
 sees no longer fails

---
 src/oplab/camera_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oplab/camera_models.py b/src/oplab/camera_models.py
index 55d91a4..958b223 100644
--- a/src/oplab/camera_models.py
+++ b/src/oplab/camera_models.py
@@ -336,7 +336,7 @@ class StereoCamera:
         point3d a list of three elements [x, y, z]
         """
         p1, p2 = self.project_point(point3d)
-        if p1 is None:
+        if p1 is None or p2 is None:
             return None, None
         p1d = self.left.unrectify_and_distort_point(p1)
         p2d = self.right.unrectify_and_distort_point(p2)
-- 
2.43.0


From 32afb74ef243228e4f4233ab2a2097f8de8936cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:13 +0000
Subject: [PATCH 043/142] fix: camera models write calibration files that can
 be read back

Only the first distortion coefficient of a loaded camera was written, and the
extrinsics of a stereo camera were not valid YAML.
---
 src/oplab/camera_models.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/oplab/camera_models.py b/src/oplab/camera_models.py
index 958b223..42f4bbf 100644
--- a/src/oplab/camera_models.py
+++ b/src/oplab/camera_models.py
@@ -126,12 +126,14 @@ class MonoCamera:
             + t
             + "  rows: 1\n"
             + t
-            + "  cols: 5\n"
+            + "  cols: "
+            + str(self.d.size)
+            + "\n"
             + t
             + "  dt: d\n"
             + t
             + "  data: ["
-            + ", ".join(["%8f" % self.d[i, 0] for i in range(self.d.shape[0])])
+            + ", ".join(["%8f" % i for i in self.d.ravel()])
             + "]\n"
             + t
             + "rectification_matrix: !!opencv-matrix\n"
@@ -268,28 +270,32 @@ class StereoCamera:
         msg += "right:\n"
         msg += self.right.to_str(write_metadata=False, write_header=False, nest=True)
         msg += (
-            "extrinsics:"
-            + "  rotation_matrix:\n"
+            "extrinsics:\n"
+            + "  rotation_matrix: !!opencv-matrix\n"
             + "    rows: 3\n"
             + "    cols: 3\n"
+            + "    dt: d\n"
             + "    data: ["
             + ", ".join(["%8f" % i for i in self.R.reshape(1, 9)[0]])
             + "]\n"
-            + "  translation_vector:\n"
-            + "    rows: 1\n"
-            + "    cols: 3\n"
+            + "  translation_vector: !!opencv-matrix\n"
+            + "    rows: 3\n"
+            + "    cols: 1\n"
+            + "    dt: d\n"
             + "    data: ["
-            + ", ".join(["%8f" % self.t[i, 0] for i in range(self.t.shape[0])])
+            + ", ".join(["%8f" % i for i in self.t.reshape(1, 3)[0]])
             + "]\n"
-            + "  fundamental_matrix:\n"
+            + "  fundamental_matrix: !!opencv-matrix\n"
             + "    rows: 3\n"
             + "    cols: 3\n"
+            + "    dt: d\n"
             + "    data: ["
             + ", ".join(["%8f" % i for i in self.F.reshape(1, 9)[0]])
             + "]\n"
-            + "  essential_matrix:\n"
+            + "  essential_matrix: !!opencv-matrix\n"
             + "    rows: 3\n"
             + "    cols: 3\n"
+            + "    dt: d\n"
             + "    data: ["
             + ", ".join(["%8f" % i for i in self.E.reshape(1, 9)[0]])
             + "]\n"
-- 
2.43.0


From 074631e2d9a2c6888e661cff24fbfc5d8473cf6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:13 +0000
Subject: [PATCH 044/142] fix: downsizing a camera scales its projections

---
 src/oplab/camera_models.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/oplab/camera_models.py b/src/oplab/camera_models.py
index 42f4bbf..93bad53 100644
--- a/src/oplab/camera_models.py
+++ b/src/oplab/camera_models.py
@@ -38,9 +38,10 @@ class MonoCamera:
             self.from_node(fs)
 
             if self.downsize_ratio is not None:
-                # Scale camera matrix and projection matrix
-                self.K *= self.downsize_ratio
-                self.P *= self.downsize_ratio
+                # Scale camera matrix and projection matrix to the smaller image
+                # (the last row is homogeneous and must not be scaled)
+                self.K[0:2] *= self.downsize_ratio
+                self.P[0:2] *= self.downsize_ratio
                 self.image_width = math.floor(self.image_width*self.downsize_ratio)
                 self.image_height = math.floor(self.image_height*self.downsize_ratio)
     @property
-- 
2.43.0


From 90439a2beeb5cc90db056a9ebb1db15b31722127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:24 +0000
Subject: [PATCH 045/142] fix: normalise plane coefficients once

---
 src/auv_cal/plane_fitting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/auv_cal/plane_fitting.py b/src/auv_cal/plane_fitting.py
index a8b012b..e647764 100644
--- a/src/auv_cal/plane_fitting.py
+++ b/src/auv_cal/plane_fitting.py
@@ -25,7 +25,7 @@ class Plane:
 
     def from_coeffs(self, coeffs):
         self.coeffs = np.array(coeffs, dtype=np.float64)
-        self.normal = self.coeffs[0:3]
+        self.normal = self.coeffs[0:3].copy()
         norm_normal = norm(self.normal)
         self.normal /= norm_normal
         self.coeffs /= norm_normal
-- 
2.43.0


From 8aa35fd66d4f7d8c7505c5463dde587e5d6cf948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:24 +0000
Subject: [PATCH 046/142] fix: build_plane returns a plane through the point

---
 src/auv_cal/laser_calibrator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/auv_cal/laser_calibrator.py b/src/auv_cal/laser_calibrator.py
index 3a8f7ea..197f895 100644
--- a/src/auv_cal/laser_calibrator.py
+++ b/src/auv_cal/laser_calibrator.py
@@ -50,7 +50,7 @@ def build_plane(pitch, yaw, point):
     c = math.tan(math.radians(pitch))
     normal = np.array([a, b, c])
     normal = normal / np.linalg.norm(normal)
-    d = -np.dot(normal, point)
+    d = -np.dot([a, b, c], point)
     plane = np.array([a, b, c, d])
     offset = (-d - point[1] * b) / a
     return plane, normal, offset
-- 
2.43.0


From 13f17c21af2a0d98e7a73dc8f683e34a6997f12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:24 +0000
Subject: [PATCH 047/142] fix: detect the laser in synchronised image pairs

---
 src/auv_cal/laser_calibrator.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/auv_cal/laser_calibrator.py b/src/auv_cal/laser_calibrator.py
index 197f895..e121bd3 100644
--- a/src/auv_cal/laser_calibrator.py
+++ b/src/auv_cal/laser_calibrator.py
@@ -1026,17 +1026,17 @@ class LaserCalibrator:
         limages_rs = []
         rimages_rs = []
         rs_size = 500
-        if len(limages) > rs_size:
+        if len(limages_sync) > rs_size:
             f = lambda m, n: [  # noqa
                 i * n // m + n // (2 * m) for i in range(m)
             ]  # See https://stackoverflow.com/a/9873804/707946
-            selection = f(rs_size, len(limages))
+            selection = f(rs_size, len(limages_sync))
             for s in selection:
                 limages_rs.append(limages_sync[s])
                 rimages_rs.append(rimages_sync[s])
         else:
-            limages_rs = limages
-            rimages_rs = rimages
+            limages_rs = limages_sync
+            rimages_rs = rimages_sync
 
         Console.info("Processing", str(len(limages_sync)), "synchronised images...")
         result = joblib.Parallel(n_jobs=-1)(
-- 
2.43.0


From 1b65e1ea84c0e8228ef73bab9db4d6a2bac9f343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:24 +0000
Subject: [PATCH 048/142] fix: read back laser detections of an image without
 laser

---
 src/auv_cal/laser_calibrator.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/auv_cal/laser_calibrator.py b/src/auv_cal/laser_calibrator.py
index e121bd3..5789029 100644
--- a/src/auv_cal/laser_calibrator.py
+++ b/src/auv_cal/laser_calibrator.py
@@ -401,8 +401,8 @@ def get_laser_pixels_in_image_pair(
             start_row=start_row,
             end_row=end_row,
         )
-        write_str = "top: \n- " + "- ".join(
-            ["[" + str(p1[i][0]) + ", " + str(p1[i][1]) + "]\n" for i in range(len(p1))]
+        write_str = "top: \n" + "".join(
+            ["- [" + str(p1[i][0]) + ", " + str(p1[i][1]) + "]\n" for i in range(len(p1))]
         )
         if two_lasers:
             p1b = findLaserInImage(
@@ -413,9 +413,9 @@ def get_laser_pixels_in_image_pair(
                 start_row=start_row_b,
                 end_row=end_row_b,
             )
-            write_str += "bottom: \n- " + "- ".join(
+            write_str += "bottom: \n" + "".join(
                 [
-                    "[" + str(p1b[i][0]) + ", " + str(p1b[i][1]) + "]\n"
+                    "- [" + str(p1b[i][0]) + ", " + str(p1b[i][1]) + "]\n"
                     for i in range(len(p1b))
                 ]
             )
@@ -485,9 +485,9 @@ def get_laser_pixels_in_image_pair(
             with filename.open("r") as f:
                 r = yaml.safe_load(f)
             if r is not None:
-                a1 = r["top"]
+                a1 = r["top"] or []  # None if nothing was detected
                 if "bottom" in r:
-                    a1b = r["bottom"]
+                    a1b = r["bottom"] or []
                 else:
                     a1b = []
                 i = 0
-- 
2.43.0


From 66899c58a56d50fa340a8ce002d68c98466a1672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:24 +0000
Subject: [PATCH 049/142] fix: the second laser gets its own uncertainty planes

---
 src/auv_cal/laser_calibrator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/auv_cal/laser_calibrator.py b/src/auv_cal/laser_calibrator.py
index 5789029..4c339a0 100644
--- a/src/auv_cal/laser_calibrator.py
+++ b/src/auv_cal/laser_calibrator.py
@@ -782,6 +782,8 @@ class LaserCalibrator:
         """
 
         total_no_points = len(cloud)
+        self.triples = []
+        self.uncertainty_planes = []
 
         # Fit mean plane
         Console.info("Fitting a plane to", total_no_points, "points...")
-- 
2.43.0


From 741c84b375d8f981c65f9d082ac2d7e50302c02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:35 +0000
Subject: [PATCH 050/142] fix: RANSAC fits the final plane to all inliers of
 the best model

---
 src/auv_cal/ransac.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/auv_cal/ransac.py b/src/auv_cal/ransac.py
index 720e434..a0dd3bc 100644
--- a/src/auv_cal/ransac.py
+++ b/src/auv_cal/ransac.py
@@ -20,7 +20,7 @@ def augment(xyzs):
 
 
 def fit_plane(xyzs):
-    axyz = augment(xyzs[:3])
+    axyz = augment(xyzs)
     m = np.linalg.svd(axyz)[-1][-1, :]
     if m[0] < 0:
         m = m * (-1)
@@ -43,6 +43,7 @@ def run_ransac(
 ):
     best_ic = 0
     best_model = None
+    best_inliers = []
     random.seed(random_seed)
     # random.sample cannot deal with "data" being a numpy array
     data = list(data)
@@ -63,11 +64,12 @@ def run_ransac(
         if ic > best_ic:
             best_ic = ic
             best_model = m
+            best_inliers = inliers
             if ic > goal_inliers and stop_at_goal:
                 break
     # estimate final model using all inliers
-    best_model = fit_plane(inliers)
-    return best_model, inliers, i
+    best_model = fit_plane(best_inliers)
+    return best_model, best_inliers, i
 
 
 def bounding_box(iterable):
-- 
2.43.0


From 45e6853602d88a25d83d74d777c72871c09aabe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:17:40 +0000
Subject: [PATCH 051/142] fix: read max_points_per_bin as named in
 calibration.yaml

---
 src/auv_cal/laser_calibrator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/auv_cal/laser_calibrator.py b/src/auv_cal/laser_calibrator.py
index 4c339a0..0361705 100644
--- a/src/auv_cal/laser_calibrator.py
+++ b/src/auv_cal/laser_calibrator.py
@@ -629,7 +629,9 @@ class LaserCalibrator:
         self.min_z_m = stratify.get("min_z_m", 1)
         self.max_z_m = stratify.get("max_z_m", 20)
         self.number_of_bins = stratify.get("number_of_bins", 5)
-        self.max_points_per_bin = stratify.get("max_bin_elements", 300)
+        self.max_points_per_bin = stratify.get(
+            "max_points_per_bin", stratify.get("max_bin_elements", 300)
+        )
 
         self.max_point_cloud_size = ransac.get("max_cloud_size", 10000)
         self.mdt = ransac.get("min_distance_threshold", 0.002)
-- 
2.43.0


From 3b07806753fb9b0b3a97004b9ff8deedd80dff94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:17:40 +0000
Subject: [PATCH 052/142] fix: keep the digits of the fundamental matrix

---
 src/auv_cal/camera_calibrator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/auv_cal/camera_calibrator.py b/src/auv_cal/camera_calibrator.py
index ed209ed..5f5dfc1 100644
--- a/src/auv_cal/camera_calibrator.py
+++ b/src/auv_cal/camera_calibrator.py
@@ -1533,7 +1533,7 @@ class StereoCalibrator(Calibrator):
             "    cols: 3\n"
             "    dt: d\n"
             "    data: ["
-            + ", ".join(["%8f" % i for i in self.F.reshape(1, 9)[0]])
+            + ", ".join(["%.12e" % i for i in self.F.reshape(1, 9)[0]])
             + "]\n"  # troublemaker
             "  essential_matrix: !!opencv-matrix\n"
             "    rows: 3\n"
-- 
2.43.0


From 0d8cf6676d5d7bbfb4efb9ef688abb8c9e9e5d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:17:40 +0000
Subject: [PATCH 053/142] fix: reject stereo outliers consistently and rectify
 with the best calibration

---
 src/auv_cal/camera_calibrator.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/auv_cal/camera_calibrator.py b/src/auv_cal/camera_calibrator.py
index 5f5dfc1..d3e2c74 100644
--- a/src/auv_cal/camera_calibrator.py
+++ b/src/auv_cal/camera_calibrator.py
@@ -1314,11 +1314,11 @@ class StereoCalibrator(Calibrator):
         if iteration < self.max_iterations - 1 and self.avg_reprojection_error > 0.6:
             epi_error_mean = np.mean(np.array(epipolar_error))
             epi_error_std = np.std(np.array(epipolar_error))
-            self.good_corners = [
-                c
-                for c, e in zip(self.good_corners, epipolar_error)
-                if e < epi_error_mean + 2 * epi_error_std
+            inliers = [
+                e <= epi_error_mean + 2 * epi_error_std for e in epipolar_error
             ]
+            self.good_corners = [c for c, i in zip(self.good_corners, inliers) if i]
+            self.db = [d for d, i in zip(self.db, inliers) if i]
             Console.info(
                 "Using "
                 + str(len(self.good_corners))
@@ -1341,6 +1341,7 @@ class StereoCalibrator(Calibrator):
             self.T = self.calibrations[best_idx]["T"]
             self.E = self.calibrations[best_idx]["E"]
             self.F = self.calibrations[best_idx]["F"]
+            self.set_alpha(1.0)
             self.num_images = self.calibrations[best_idx]["num_images"]
             self.avg_reprojection_error = self.calibrations[best_idx][
                 "avg_reprojection_error"
-- 
2.43.0


From 521e2ea5fb9bca629d543fe2cfee9c3e26727ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:23:45 +0000
Subject: [PATCH 054/142] fix: resize_with_padding returns the requested size

---
 src/auv_cal/camera_calibrator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/auv_cal/camera_calibrator.py b/src/auv_cal/camera_calibrator.py
index d3e2c74..b6dd9e6 100644
--- a/src/auv_cal/camera_calibrator.py
+++ b/src/auv_cal/camera_calibrator.py
@@ -483,7 +483,7 @@ def resize_with_padding(img, size):
         img, top, bottom, left, right, cv2.BORDER_CONSTANT, value=0
     )
 
-    if img.shape[0] != height:
+    if img.shape[0] != height or img.shape[1] != width:
         # needs scaling
         img = cv2.resize(img, size)
 
-- 
2.43.0


From 68e529fbda32e79ac5e0dae11c57707a28685db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:07 +0000
Subject: [PATCH 055/142] fix: write the payloads of a mission

---
 src/oplab/mission.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/oplab/mission.py b/src/oplab/mission.py
index 508dc6f..ebc4914 100644
--- a/src/oplab/mission.py
+++ b/src/oplab/mission.py
@@ -495,12 +495,12 @@ class Mission:
                 if not self.image.empty():
                     mission_dict["image"] = OrderedDict()
                     self.image.write(mission_dict["image"])
-                if len(self.payloads) > 1:
-                    mission_dict["payloads"] = []
-                    for payload in self.payloads:
+                if len(self.payloads) > 0:
+                    mission_dict["payloads"] = OrderedDict()
+                    for name, payload in self.payloads.items():
                         payload_entry = OrderedDict()
                         payload.write(payload_entry)
-                        mission_dict["payloads"].append(payload_entry)
+                        mission_dict["payloads"][name] = payload_entry
                 yaml.dump(
                     mission_dict,
                     f,
-- 
2.43.0


From ed37a1e4f7c0bb1bd6354a1ca38449e9ca6623cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:07 +0000
Subject: [PATCH 056/142] fix: write origin, topic and filters of mission
 entries

---
 src/oplab/mission.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/oplab/mission.py b/src/oplab/mission.py
index ebc4914..0fcc98d 100644
--- a/src/oplab/mission.py
+++ b/src/oplab/mission.py
@@ -280,9 +280,9 @@ class DefaultEntry(TimeZoneEntry):
     def write(self, node):
         super().write(node)
         node["format"] = self.format
-        if "origin" in node:
+        if getattr(self, "origin", None) is not None:
             node["origin"] = self.origin
-        if "topic" in node:
+        if self.topic is not None:
             node["topic"] = self.topic
         node["filepath"] = self.filepath
         node["filename"] = self.filename
@@ -290,6 +290,9 @@ class DefaultEntry(TimeZoneEntry):
         node["id"] = self.label
         node["std_factor"] = self.std_factor
         node["std_offset"] = self.std_offset
+        node["field_id"] = self.field_id
+        node["apply_depth_filter"] = self.apply_depth_filter
+        node["apply_north_east_filter"] = self.apply_north_east_filter
 
 
 class Mission:
-- 
2.43.0


From 55aea5afd9443a673308038eabc2c09f1c5772d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:07 +0000
Subject: [PATCH 057/142] fix: write topic and time offset of mission cameras

---
 src/oplab/mission.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/oplab/mission.py b/src/oplab/mission.py
index 0fcc98d..79ed040 100644
--- a/src/oplab/mission.py
+++ b/src/oplab/mission.py
@@ -136,12 +136,18 @@ class CameraEntry:
 
     def write(self, node):
         node["name"] = self.name
-        node["origin"] = self.origin
-        node["type"] = self.type
+        if self.origin is not None:
+            node["origin"] = self.origin
+        if self.type is not None:
+            node["type"] = self.type
         node["path"] = self.path
         node["records_laser"] = self.records_laser
-        if hasattr(self, "timeoffset"):
+        if self.timeoffset is not None:
             node["timeoffset"] = self.timeoffset
+        if self.timeoffset_s is not None:
+            node["timeoffset_s"] = self.timeoffset_s
+        if getattr(self, "topic", None) is not None:
+            node["topic"] = self.topic
 
 
 
-- 
2.43.0


From 8a3cbba3b8b59acea321f60422ed01931cfe7419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:07 +0000
Subject: [PATCH 058/142] fix: report a payload that is not in vehicle.yaml

---
 src/oplab/mission.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oplab/mission.py b/src/oplab/mission.py
index 79ed040..7ccc274 100644
--- a/src/oplab/mission.py
+++ b/src/oplab/mission.py
@@ -440,7 +440,7 @@ class Mission:
                             Console.info("current payload:", payload_entry)
                             Console.error(
                                 "The payload mounted at "
-                                + payload.origin
+                                + payload_entry
                                 + " does not correspond to any frame in vehicle.yaml."  # noqa
                             )
                             error_and_exit()
-- 
2.43.0


From 02e40b61fdf607f174d9aa75caf3c6698531e032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:56 +0000
Subject: [PATCH 059/142] fix: read the four decimals of NTNU stereo file names
 as fraction of a second

---
 src/auv_nav/parsers/parse_ntnu_stereo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/auv_nav/parsers/parse_ntnu_stereo.py b/src/auv_nav/parsers/parse_ntnu_stereo.py
index ca1c72f..2528581 100644
--- a/src/auv_nav/parsers/parse_ntnu_stereo.py
+++ b/src/auv_nav/parsers/parse_ntnu_stereo.py
@@ -38,10 +38,10 @@ def timestamp_from_filename(filename, timezone_offset, timeoffset):
     hour = int(filename[7:9])
     mins = int(filename[9:11])
     secs = int(filename[11:13])
-    msec = int(filename[14:18])
+    fraction = int(filename[14:18])  # in units of 0.1 ms
 
     epoch_time = date_time_to_epoch(yyyy, mm, dd, hour, mins, secs, timezone_offset)
-    epoch_timestamp = float(epoch_time + msec / 1000 + timeoffset)
+    epoch_timestamp = float(epoch_time + fraction / 10000 + timeoffset)
     return epoch_timestamp
 
 
-- 
2.43.0


From 261abb6f6fbfd30d143a59fe50fa08e85ab30d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:56 +0000
Subject: [PATCH 060/142] fix: do not reuse the image time stamps of a dive
 parsed before

---
 src/auv_nav/parsers/parse_acfr_images.py   |  7 +++----
 src/auv_nav/parsers/parse_biocam_images.py | 11 +++++------
 src/auv_nav/parsers/parse_ntnu_stereo.py   |  7 +++----
 3 files changed, 11 insertions(+), 14 deletions(-)

diff --git a/src/auv_nav/parsers/parse_acfr_images.py b/src/auv_nav/parsers/parse_acfr_images.py
index 560e515..fd8829d 100644
--- a/src/auv_nav/parsers/parse_acfr_images.py
+++ b/src/auv_nav/parsers/parse_acfr_images.py
@@ -16,10 +16,6 @@ import os
 from auv_nav.tools.time_conversions import date_time_to_epoch
 from oplab import Console, get_raw_folder
 
-epoch_timestamp_camera1 = []
-epoch_timestamp_camera2 = []
-values = []
-data_list = []
 tolerance = 0.05  # 0.01 # stereo pair must be within 10ms of each other
 
 
@@ -109,6 +105,9 @@ def parse_acfr_images(mission, vehicle, category, ftype, outpath):
     if ftype == "acfr":
         data_list = ""
 
+    epoch_timestamp_camera1 = []
+    epoch_timestamp_camera2 = []
+
     for i in range(len(camera1_filename)):
         epoch_timestamp = acfr_timestamp_from_filename(
             camera1_filename[i], timezone_offset, timeoffset
diff --git a/src/auv_nav/parsers/parse_biocam_images.py b/src/auv_nav/parsers/parse_biocam_images.py
index 5ea0ad9..fa09ee7 100644
--- a/src/auv_nav/parsers/parse_biocam_images.py
+++ b/src/auv_nav/parsers/parse_biocam_images.py
@@ -20,12 +20,6 @@ from scipy.stats import linregress
 from auv_nav.tools.time_conversions import date_time_to_epoch
 from oplab import Console, get_raw_folder
 
-stamp_pc1 = []
-stamp_pc2 = []
-stamp_cam1 = []
-stamp_cam2 = []
-values = []
-data_list = []
 tolerance = 0.05  # 0.01 # stereo pair must be within 10ms of each other
 
 
@@ -172,6 +166,11 @@ def parse_biocam_images(mission, vehicle, category, ftype, outpath):
     if ftype == "acfr":
         data_list = ""
 
+    stamp_pc1 = []
+    stamp_pc2 = []
+    stamp_cam1 = []
+    stamp_cam2 = []
+
     for i in range(len(camera1_filename)):
         t1, tc1 = biocam_timestamp_from_filename(
             Path(camera1_filename[i]).name, timezone_offset, timeoffset
diff --git a/src/auv_nav/parsers/parse_ntnu_stereo.py b/src/auv_nav/parsers/parse_ntnu_stereo.py
index 2528581..20f7f26 100644
--- a/src/auv_nav/parsers/parse_ntnu_stereo.py
+++ b/src/auv_nav/parsers/parse_ntnu_stereo.py
@@ -14,10 +14,6 @@ See LICENSE.md file in the project root for full license information.
 from auv_nav.tools.time_conversions import date_time_to_epoch
 from oplab import Console, get_raw_folder
 
-epoch_timestamp_camera1 = []
-epoch_timestamp_camera2 = []
-values = []
-data_list = []
 tolerance = 0.05  # 0.01 # stereo pair must be within 10ms of each other
 
 
@@ -97,6 +93,9 @@ def parse_ntnu_stereo_images(mission, vehicle, category, ftype, outpath):
     if ftype == "acfr":
         data_list = ""
 
+    epoch_timestamp_camera1 = []
+    epoch_timestamp_camera2 = []
+
     for i in range(len(camera1_filename)):
         epoch_timestamp = timestamp_from_filename(
             camera1_filename[i], timezone_offset, timeoffset
-- 
2.43.0


From 125eee6f4b848542e15b9a583dd7b98a15909e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:56 +0000
Subject: [PATCH 061/142] fix: recognise Voyis images with system time stamps

---
 src/auv_nav/parsers/parse_voyis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/auv_nav/parsers/parse_voyis.py b/src/auv_nav/parsers/parse_voyis.py
index ea2ab6b..1b44dcd 100644
--- a/src/auv_nav/parsers/parse_voyis.py
+++ b/src/auv_nav/parsers/parse_voyis.py
@@ -68,7 +68,7 @@ def parse_voyis_images(mission, vehicle, category, ftype, outpath):
         for i, img in enumerate(stills_image_list):
             if str(Path(img).name)[15:18]=='PPS':
                 epoch = stills_filename_to_date_PPS(str(Path(img).name))
-            elif str(Path(img).name)[15:18]=='SYSTEM':
+            elif str(Path(img).name)[15:21]=='SYSTEM':
                 epoch = stills_filename_to_date_SYS(str(Path(img).name))
             data = {
                 "epoch_timestamp": float(epoch)+timeoffset_s,
@@ -96,7 +96,7 @@ def parse_voyis_images(mission, vehicle, category, ftype, outpath):
         for i, img in enumerate(laser_image_list):
             if str(Path(img).name[16:19])=='PPS':
                 epoch = laser_filename_to_date_PPS(str(Path(img).name))
-            elif str(Path(img).name[16:19])=='SYSTEM':
+            elif str(Path(img).name[16:22])=='SYSTEM':
                 epoch = laser_filename_to_date_SYS(str(Path(img).name))        
             data = {
                 "epoch_timestamp": float(epoch)+timeoffset_s,
-- 
2.43.0


From e3f523b9363a8507b090acdad6495d19f4ab0bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:56 +0000
Subject: [PATCH 062/142] fix: name the laser images of Voyis cameras

---
 src/auv_nav/parsers/parse_voyis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/auv_nav/parsers/parse_voyis.py b/src/auv_nav/parsers/parse_voyis.py
index 1b44dcd..c631c74 100644
--- a/src/auv_nav/parsers/parse_voyis.py
+++ b/src/auv_nav/parsers/parse_voyis.py
@@ -107,7 +107,7 @@ def parse_voyis_images(mission, vehicle, category, ftype, outpath):
                 "camera1": [
                     {
                         "epoch_timestamp": float(epoch)+timeoffset_s,
-                        "filename": str(stills_image_list_rel[i]),
+                        "filename": str(laser_image_list_rel[i]),
                     }
                 ],
             }
-- 
2.43.0


From 0b09072bcde708b22d1662bee9e6bde7d49a4759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:56 +0000
Subject: [PATCH 063/142] fix: parse SeaXerocks images of cameras without
 timeoffset_s

---
 src/auv_nav/parsers/parse_seaxerocks_images.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/auv_nav/parsers/parse_seaxerocks_images.py b/src/auv_nav/parsers/parse_seaxerocks_images.py
index f93d6b7..db3ab76 100644
--- a/src/auv_nav/parsers/parse_seaxerocks_images.py
+++ b/src/auv_nav/parsers/parse_seaxerocks_images.py
@@ -16,6 +16,12 @@ from auv_nav.tools.time_conversions import date_time_to_epoch, epoch_to_day
 from oplab import Console, get_raw_folder
 
 
+def get_camera_timeoffset(camera):
+    if camera.timeoffset_s is not None:
+        return camera.timeoffset_s
+    return camera.timeoffset
+
+
 def parse_seaxerocks_images(mission, vehicle, category, ftype, outpath):
     data_list = []
     if ftype == "acfr":
@@ -36,9 +42,9 @@ def parse_seaxerocks_images(mission, vehicle, category, ftype, outpath):
     camera1_label = mission.image.cameras[0].name
     camera2_label = mission.image.cameras[1].name
     camera3_label = mission.image.cameras[2].name
-    camera1_timeoffset = mission.image.cameras[0].timeoffset_s
-    camera2_timeoffset = mission.image.cameras[1].timeoffset_s
-    camera3_timeoffset = mission.image.cameras[2].timeoffset_s
+    camera1_timeoffset = get_camera_timeoffset(mission.image.cameras[0])
+    camera2_timeoffset = get_camera_timeoffset(mission.image.cameras[1])
+    camera3_timeoffset = get_camera_timeoffset(mission.image.cameras[2])
 
     epoch_timestamp_stereo = []
     epoch_timestamp_laser = []
-- 
2.43.0


From 58756b0d272a59c491f4f60398d77d8a838f6817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:56 +0000
Subject: [PATCH 064/142] fix: look for GoPro images in the folder of the dive

---
 src/auv_nav/parsers/parse_stereo_gopro.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/auv_nav/parsers/parse_stereo_gopro.py b/src/auv_nav/parsers/parse_stereo_gopro.py
index 8e72a78..f2eea48 100644
--- a/src/auv_nav/parsers/parse_stereo_gopro.py
+++ b/src/auv_nav/parsers/parse_stereo_gopro.py
@@ -27,7 +27,8 @@ def parse_stereo_gopro_images(mission, vehicle, category, ftype, outpath):
     Console.info("... parsing " + sensor_string + " images")
 
     # Read filelist.csv
-    df = pd.read_csv(get_raw_folder(camera1_filepath.parent / "filelist.csv"))
+    dive_folder = get_raw_folder(outpath / "..")
+    df = pd.read_csv(dive_folder / camera1_filepath.parent / "filelist.csv")
 
     data_list = []
 
@@ -36,10 +37,10 @@ def parse_stereo_gopro_images(mission, vehicle, category, ftype, outpath):
         file_left = row["file_left"]
         file_right = row["file_right"]
         # Check files exist
-        if not os.path.isfile(camera1_filepath / file_left):
+        if not os.path.isfile(dive_folder / camera1_filepath / file_left):
             Console.warn("File " + file_left + " does not exist")
             continue
-        if not os.path.isfile(camera2_filepath / file_right):
+        if not os.path.isfile(dive_folder / camera2_filepath / file_right):
             Console.warn("File " + file_right + " does not exist")
             continue
         data = {
-- 
2.43.0


From f82b086b33db5c3139efbb5cd14fc6194224fff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:04 +0000
Subject: [PATCH 065/142] fix: smooth the first EKF state with matrix products

---
 src/auv_nav/localisation/ekf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/auv_nav/localisation/ekf.py b/src/auv_nav/localisation/ekf.py
index 018464f..a564868 100644
--- a/src/auv_nav/localisation/ekf.py
+++ b/src/auv_nav/localisation/ekf.py
@@ -648,7 +648,7 @@ class EkfImpl(object):
                 A = self.compute_transfer_function_jacobian(delta, x_prior, f)
 
                 p_prior_pred = A @ p_prior @ A.T + self.process_noise_covariance * delta
-                J = p_prior * A.T * np.linalg.inv(p_prior_pred)
+                J = p_prior @ A.T @ np.linalg.inv(p_prior_pred)
 
                 innovation = x_smoothed - f @ x_prior
                 # Wrap angles of the innovation_subset
-- 
2.43.0


From 9c59ce21e1c63d8fa92eb03c53c8916d4332aece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:50 +0000
Subject: [PATCH 066/142] fix: give EKF poses to all images that share a time
 stamp

---
 src/auv_nav/localisation/ekf.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/auv_nav/localisation/ekf.py b/src/auv_nav/localisation/ekf.py
index a564868..11fe293 100644
--- a/src/auv_nav/localisation/ekf.py
+++ b/src/auv_nav/localisation/ekf.py
@@ -1167,5 +1167,4 @@ def update_camera_list(
             c.filename = camera_list[c_idx].filename
             valid_camera_list.append(c)
             c_idx += 1
-            ekf_idx += 1
     return valid_camera_list
-- 
2.43.0


From f6376256101ad04a8972d99e977e7b4c8ae06c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:34 +0000
Subject: [PATCH 067/142] fix: keep the past states of particles when they move
 on

---
 src/auv_nav/localisation/pf.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/auv_nav/localisation/pf.py b/src/auv_nav/localisation/pf.py
index 1e84b2b..f9a974e 100644
--- a/src/auv_nav/localisation/pf.py
+++ b/src/auv_nav/localisation/pf.py
@@ -176,6 +176,9 @@ class DeadReckoningMovementModel:
                 + randn() * (self.movement[idx, 0] * factor + offset) * gain
             )
 
+        # Do not modify the state already stored in the trajectory
+        p.state = p.state.copy()
+
         # Propagate all states except for X and Y
         p.state[Index.Z, 0] = linear_noise(Index.Z, depth_std_factor, depth_std_offset)
         p.state[Index.ROLL, 0] = linear_noise(
-- 
2.43.0


From 7c30a4103d15b2c148c9963eb6d8322547fa9e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:34 +0000
Subject: [PATCH 068/142] fix: update the altitude of particles

---
 src/auv_nav/localisation/pf.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/auv_nav/localisation/pf.py b/src/auv_nav/localisation/pf.py
index f9a974e..1ca1fef 100644
--- a/src/auv_nav/localisation/pf.py
+++ b/src/auv_nav/localisation/pf.py
@@ -199,6 +199,7 @@ class DeadReckoningMovementModel:
         p.state[Index.VZ, 0] = linear_noise(
             Index.VZ, velocity_std_factor_z, velocity_std_offset_z, k_dvl
         )
+        p.state[Index.ALT, 0] = self.movement[Index.ALT, 0]
 
         cr = math.cos(p.state[Index.ROLL, 0])
         sr = math.sin(p.state[Index.ROLL, 0])
-- 
2.43.0


From 5a976d80ac0dd6dceb06f37cdcf31c6d5aecc903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:34 +0000
Subject: [PATCH 069/142] fix: use the IMU noise of the particle filter in
 degrees

---
 src/auv_nav/localisation/pf.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/auv_nav/localisation/pf.py b/src/auv_nav/localisation/pf.py
index 1ca1fef..ef491fe 100644
--- a/src/auv_nav/localisation/pf.py
+++ b/src/auv_nav/localisation/pf.py
@@ -164,7 +164,10 @@ class DeadReckoningMovementModel:
             velocity_std_offset_y = self.sensors_std["speed"]["offset"]
             velocity_std_factor_z = self.sensors_std["speed"]["factor"]
             velocity_std_offset_z = self.sensors_std["speed"]["offset"]
-        imu_noise_std_offset = self.sensors_std["orientation"]["offset"]
+        # Offset is given in degrees, the state is in radians
+        imu_noise_std_offset = (
+            self.sensors_std["orientation"]["offset"] * math.pi / 180.0
+        )
         imu_noise_std_factor = self.sensors_std["orientation"]["factor"]
 
         k_dvl = self.dvl_noise_sigma_factor
-- 
2.43.0


From d3991b2510a3334b688916b4905ecf3061c43bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:34 +0000
Subject: [PATCH 070/142] fix: do not shrink the particle noise of negative
 readings

---
 src/auv_nav/localisation/pf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/auv_nav/localisation/pf.py b/src/auv_nav/localisation/pf.py
index ef491fe..db8e128 100644
--- a/src/auv_nav/localisation/pf.py
+++ b/src/auv_nav/localisation/pf.py
@@ -176,7 +176,7 @@ class DeadReckoningMovementModel:
         def linear_noise(idx, factor, offset, gain=1.0):
             return (
                 self.movement[idx, 0]
-                + randn() * (self.movement[idx, 0] * factor + offset) * gain
+                + randn() * (abs(self.movement[idx, 0]) * factor + offset) * gain
             )
 
         # Do not modify the state already stored in the trajectory
-- 
2.43.0


From e0fa382c6fe3fb0dfa17cc9db743caf24a87026f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:34 +0000
Subject: [PATCH 071/142] fix: reset the particle weights after resampling

---
 src/auv_nav/localisation/pf.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/auv_nav/localisation/pf.py b/src/auv_nav/localisation/pf.py
index db8e128..a346505 100644
--- a/src/auv_nav/localisation/pf.py
+++ b/src/auv_nav/localisation/pf.py
@@ -324,6 +324,7 @@ class ParticleFilter:
                 cumulative_weight += self.particles[source_index].weight
             # copy particle (via assignment operator)
             new_particles[dest_index] = copy.deepcopy(self.particles[source_index])
+            new_particles[dest_index].weight = inverse_num
         # Update the particle list
         self.particles = new_particles
 
-- 
2.43.0


From cad59ce7517bc3d3efc41348fd236ff8274dfe9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:34 +0000
Subject: [PATCH 072/142] fix: recover particle weights after an outlier

---
 src/auv_nav/localisation/pf.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/auv_nav/localisation/pf.py b/src/auv_nav/localisation/pf.py
index a346505..e2e9167 100644
--- a/src/auv_nav/localisation/pf.py
+++ b/src/auv_nav/localisation/pf.py
@@ -294,11 +294,12 @@ class ParticleFilter:
     def normalize(self):
         s = [p.weight for p in self.particles]
         norm = np.sum(s)
-        # Avoid division by zero
-        if norm < 1e-20:
-            norm += 1e-20
         for p in self.particles:
-            p.weight = p.weight / norm
+            if norm > 0:
+                p.weight = p.weight / norm
+            else:
+                # No particle explains the measurement, start over
+                p.weight = 1.0 / float(len(self.particles))
 
     def resample(self):
         """Importance resample"""
-- 
2.43.0


From bfe7262fe821e3837ef78daa94ac0e0f61973bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:34 +0000
Subject: [PATCH 073/142] fix: start the particle filter with the first USBL
 fix during dead reckoning

---
 src/auv_nav/localisation/pf.py | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/src/auv_nav/localisation/pf.py b/src/auv_nav/localisation/pf.py
index e2e9167..b2c9569 100644
--- a/src/auv_nav/localisation/pf.py
+++ b/src/auv_nav/localisation/pf.py
@@ -392,23 +392,17 @@ def get_prior(dr_list, usbl_list):
     eastings_mean = np.mean(eastings_error)
     northings_mean = np.mean(northings_error)
 
+    # Fix DR to index zero
     dr_index = 0
+
+    # Skip USBL measurements before DR starts
     usbl_index = 0
-    usbl_t = usbl_list[usbl_index].epoch_timestamp
-    dr_t = dr_list[usbl_index].epoch_timestamp
-
-    while dr_index < len(dr_list) and usbl_t > dr_t:
-        usbl_t = usbl_list[usbl_index].epoch_timestamp
-        dr_t = dr_list[usbl_index].epoch_timestamp
-        dr_index += 1
-    while usbl_index < len(usbl_list) and usbl_t < dr_t:
-        usbl_t = usbl_list[usbl_index].epoch_timestamp
-        dr_t = dr_list[usbl_index].epoch_timestamp
+    dr_t = dr_list[dr_index].epoch_timestamp
+    while (
+        usbl_index < len(usbl_list) and usbl_list[usbl_index].epoch_timestamp < dr_t
+    ):
         usbl_index += 1
 
-    # Fix DR to index zero
-    dr_index = 0
-
     # Build state from first known USBL and DR, and use that displacement
     # error at the start of DR.
     x = dr_list[dr_index].northings + northings_mean
-- 
2.43.0


From 22f27994403174a23ba7b4bfe82f08b8a75b1dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:34 +0000
Subject: [PATCH 074/142] fix: run the particle filter with DVL noise per axis

---
 src/auv_nav/localisation/pf.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/auv_nav/localisation/pf.py b/src/auv_nav/localisation/pf.py
index b2c9569..ebb2b9a 100644
--- a/src/auv_nav/localisation/pf.py
+++ b/src/auv_nav/localisation/pf.py
@@ -466,11 +466,15 @@ def run_particle_filter(
     """
     Console.info("Running Particle Filter with:")
     Console.info("\t* Number of particles: {}".format(num_particles))
-    Console.info(
-        "\t* DVL noise std: f(x)={}x+{} m/s".format(
-            sensors_std["speed"]["factor"], sensors_std["speed"]["offset"]
-        )
-    )
+    for axis in ["", "_x", "_y", "_z"]:
+        if "factor" + axis in sensors_std["speed"]:
+            Console.info(
+                "\t* DVL{} noise std: f(x)={}x+{} m/s".format(
+                    axis,
+                    sensors_std["speed"]["factor" + axis],
+                    sensors_std["speed"]["offset" + axis],
+                )
+            )
     Console.info(
         "\t* IMU noise std: f(x)={}x+{} deg".format(
             sensors_std["orientation"]["factor"],
-- 
2.43.0


From 8ec916156e1f291d0f07f1a9a4f09face844fab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:34 +0000
Subject: [PATCH 075/142] fix: use the first dead reckoning record for USBL
 fixes at the start

---
 src/auv_nav/localisation/pf.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/auv_nav/localisation/pf.py b/src/auv_nav/localisation/pf.py
index ebb2b9a..6bcc16c 100644
--- a/src/auv_nav/localisation/pf.py
+++ b/src/auv_nav/localisation/pf.py
@@ -504,6 +504,7 @@ def run_particle_filter(
 
     pf = ParticleFilter(num_particles, mm, om, expected_iterations=len(dr_list))
     pf.set_prior(prior)
+    pf.set_movement(dr_list[dr_idx])
 
     last_t = dr_list[dr_idx].epoch_timestamp
 
-- 
2.43.0


From 37670c1afeca4762ba76d5aa65ae03a88fc95b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:34 +0000
Subject: [PATCH 076/142] fix: move depth and altitude of the particle filter
 to the vehicle origin

---
 src/auv_nav/process.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/auv_nav/process.py b/src/auv_nav/process.py
index 3067c18..6c79b1d 100644
--- a/src/auv_nav/process.py
+++ b/src/auv_nav/process.py
@@ -1199,7 +1199,7 @@ def process(
                 pf_fusion_dvl_list[i].eastings,
                 pf_fusion_dvl_list[i].northings,
             )
-            [x_offset, y_offset, z_offset] = body_to_inertial(
+            [x_offset, y_offset, a_offset] = body_to_inertial(
                 pf_fusion_centre_list[i].roll,
                 pf_fusion_centre_list[i].pitch,
                 pf_fusion_centre_list[i].yaw,
@@ -1207,8 +1207,18 @@ def process(
                 vehicle.origin.sway - vehicle.dvl.sway,
                 vehicle.origin.heave - vehicle.dvl.heave,
             )
+            [_, _, z_offset] = body_to_inertial(
+                pf_fusion_centre_list[i].roll,
+                pf_fusion_centre_list[i].pitch,
+                pf_fusion_centre_list[i].yaw,
+                vehicle.origin.surge - vehicle.depth.surge,
+                vehicle.origin.sway - vehicle.depth.sway,
+                vehicle.origin.heave - vehicle.depth.heave,
+            )
             pf_fusion_centre_list[i].northings += x_offset
             pf_fusion_centre_list[i].eastings += y_offset
+            pf_fusion_centre_list[i].altitude -= a_offset
+            pf_fusion_centre_list[i].depth += z_offset
             lat, lon = metres_to_latlon(
                 mission.origin.latitude,
                 mission.origin.longitude,
-- 
2.43.0


From b714545935e1edb65e7ed82bbba261325f04c66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:54 +0000
Subject: [PATCH 077/142] fix: move the altitude of EKF poses to the vehicle
 origin

---
 src/auv_nav/localisation/ekf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/auv_nav/localisation/ekf.py b/src/auv_nav/localisation/ekf.py
index 11fe293..75524ea 100644
--- a/src/auv_nav/localisation/ekf.py
+++ b/src/auv_nav/localisation/ekf.py
@@ -1117,6 +1117,8 @@ def save_ekf_to_list(
             dead_reckoning_dvl_list[dr_idx - 1].altitude,
             dead_reckoning_dvl_list[dr_idx].altitude,
         )
+        if shift_to_origin:
+            b.altitude -= z_offset
         ekf_list.append(b)
     return ekf_list
 
-- 
2.43.0


From 19448a8835e693a402f118c916fb0e5309882278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:21 +0000
Subject: [PATCH 078/142] fix: write all inertial velocities while the list is
 being processed

---
 src/auv_nav/process.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/auv_nav/process.py b/src/auv_nav/process.py
index 6c79b1d..095d7a5 100644
--- a/src/auv_nav/process.py
+++ b/src/auv_nav/process.py
@@ -607,7 +607,8 @@ def process(
     threads.append(t)
     t = threading.Thread(
         target=write_csv,
-        args=[raw_sensor_path, velocity_inertial_list, "velocity_inertial"],
+        # copy, as elements are removed from the list below
+        args=[raw_sensor_path, list(velocity_inertial_list), "velocity_inertial"],
         kwargs={"mutex": mutex},
     )
     t.start()
-- 
2.43.0


From 196fc570003da2894d8d48bffec553734698d106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:15 +0000
Subject: [PATCH 079/142] fix: write ACFR pose angles in radians and in the
 stereo-rig axes

---
 src/auv_nav/parsers/acfr_stereo_pose.py  | 10 +++++++---
 src/auv_nav/parsers/acfr_vehicle_pose.py |  6 +++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/auv_nav/parsers/acfr_stereo_pose.py b/src/auv_nav/parsers/acfr_stereo_pose.py
index a2bb6f2..96d78cf 100644
--- a/src/auv_nav/parsers/acfr_stereo_pose.py
+++ b/src/auv_nav/parsers/acfr_stereo_pose.py
@@ -274,6 +274,10 @@ class AcfrStereoPoseWriter:
             for i, (c1, c2) in enumerate(zip(cam1_list, cam2_list)):
                 c1.filename = Path(c1.filename).name
                 c2.filename = Path(c2.filename).name
+                # Stereo-rig axes, see AcfrStereoPoseParser.get_cameras()
+                x_euler_angle = -c1.pitch
+                y_euler_angle = c1.roll
+                z_euler_angle = c1.yaw - 90
                 f.write(
                     str(i)
                     + " \t"
@@ -289,11 +293,11 @@ class AcfrStereoPoseWriter:
                     + " \t"
                     + str(c1.depth)
                     + " \t"
-                    + str(c1.roll)
+                    + str(math.radians(x_euler_angle))
                     + " \t"
-                    + str(c1.pitch)
+                    + str(math.radians(y_euler_angle))
                     + " \t"
-                    + str(c1.yaw)
+                    + str(math.radians(z_euler_angle))
                     + " \t"
                     + str(c1.filename)
                     + " \t"
diff --git a/src/auv_nav/parsers/acfr_vehicle_pose.py b/src/auv_nav/parsers/acfr_vehicle_pose.py
index 49938bd..1f53835 100644
--- a/src/auv_nav/parsers/acfr_vehicle_pose.py
+++ b/src/auv_nav/parsers/acfr_vehicle_pose.py
@@ -228,11 +228,11 @@ class AcfrVehiclePoseWriter:
                     + " \t"
                     + str(dr.depth)
                     + " \t"
-                    + str(dr.roll)
+                    + str(math.radians(dr.roll))
                     + " \t"
-                    + str(dr.pitch)
+                    + str(math.radians(dr.pitch))
                     + " \t"
-                    + str(dr.yaw)
+                    + str(math.radians(dr.yaw))
                     + " \t"
                     + str(dr.altitude)
                     + "\n"
-- 
2.43.0


From c2cc98c9ad843bd0f5a7fbdad80ef5ef0342c36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:15 +0000
Subject: [PATCH 080/142] fix: read roll and pitch of ACFR vehicle poses from
 their own columns

---
 src/auv_nav/parsers/acfr_vehicle_pose.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/auv_nav/parsers/acfr_vehicle_pose.py b/src/auv_nav/parsers/acfr_vehicle_pose.py
index 1f53835..203804b 100644
--- a/src/auv_nav/parsers/acfr_vehicle_pose.py
+++ b/src/auv_nav/parsers/acfr_vehicle_pose.py
@@ -185,8 +185,8 @@ class AcfrVehiclePoseParser:
             dr.depth = entry.z_depth
             dr.latitude = entry.latitude
             dr.longitude = entry.longitude
-            dr.roll = entry.y_euler_angle
-            dr.pitch = -entry.x_euler_angle
+            dr.roll = entry.x_euler_angle
+            dr.pitch = entry.y_euler_angle
             dr.yaw = entry.z_euler_angle
             dr.altitude = entry.altitude
 
-- 
2.43.0


From bbdef7d0a24fe255652caad8b36aa328e8a9ee94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:15 +0000
Subject: [PATCH 081/142] fix: write converted ACFR vehicle poses to
 auv_acfr_centre.csv

---
 src/auv_nav/convert.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/auv_nav/convert.py b/src/auv_nav/convert.py
index 86c507f..7ab18d7 100644
--- a/src/auv_nav/convert.py
+++ b/src/auv_nav/convert.py
@@ -132,14 +132,15 @@ def acfr_to_oplab(args):
 
         print("Found", len(dr), "dr entries")
 
-        csv_filename = "auv_acfr_centre.csv"
+        csv_filename = "auv_acfr_centre"
+        csv_file = csv_filepath / (csv_filename + ".csv")
 
-        if (csv_filepath / csv_filename).exists() and not force_overwite:
+        if csv_file.exists() and not force_overwite:
             Console.error("The DR file already exists. Use -F to force overwrite it")
             Console.quit("Default behaviour: not to overwrite results")
         else:
             write_csv(csv_filepath, dr, csv_filename, csv_flag=True)
-            Console.info("Output vehicle pose written to", csv_filepath / csv_filename)
+            Console.info("Output vehicle pose written to", csv_file)
     if args.stereo_pose:
         Console.info("Stereo pose provided! Converting it to camera CSVs...")
         spp = AcfrStereoPoseParser(args.stereo_pose)
-- 
2.43.0


From b9746dfbb7490f8042fa190725757db7262a8a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:15 +0000
Subject: [PATCH 082/142] fix: do not overwrite converted ACFR camera poses
 unless forced

---
 src/auv_nav/convert.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/auv_nav/convert.py b/src/auv_nav/convert.py
index 7ab18d7..a901cda 100644
--- a/src/auv_nav/convert.py
+++ b/src/auv_nav/convert.py
@@ -145,7 +145,10 @@ def acfr_to_oplab(args):
         Console.info("Stereo pose provided! Converting it to camera CSVs...")
         spp = AcfrStereoPoseParser(args.stereo_pose)
         cam1, cam2 = spp.get_cameras()
-        if (csv_filepath / "auv_dr_LC.csv").exists() and not force_overwite:
+        if (
+            (csv_filepath / "auv_acfr_LC.csv").exists()
+            or (csv_filepath / "auv_acfr_RC.csv").exists()
+        ) and not force_overwite:
             Console.error(
                 "The camera files already exists. Use -F to force overwrite it"
             )
-- 
2.43.0


From 1b94b2ff8928fb18842f7e52afe5149b0c71a4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:15 +0000
Subject: [PATCH 083/142] fix: interpolate HyBis poses between the records
 around the image

---
 src/auv_nav/parsers/hybis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/auv_nav/parsers/hybis.py b/src/auv_nav/parsers/hybis.py
index 11d769f..9fb73d5 100644
--- a/src/auv_nav/parsers/hybis.py
+++ b/src/auv_nav/parsers/hybis.py
@@ -167,7 +167,7 @@ class HybisParser:
             i = 0
             while (
                 i < len(hybis_vec) - 2
-                and hybis_vec[i].epoch_timestamp < modification_time
+                and hybis_vec[i + 1].epoch_timestamp < modification_time
             ):
                 i += 1
 
-- 
2.43.0


From 7ccb7ea83b45fb9664a9622af83108d3e46b2f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:39 +0000
Subject: [PATCH 084/142] fix: interpolate headings of HyBis and koyo20 ROV
 over the 0/360 wrap

---
 src/auv_nav/parsers/hybis.py     | 4 ++--
 src/auv_nav/parsers/koyo20rov.py | 4 ++--
 src/auv_nav/tools/interpolate.py | 7 +++++++
 3 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/auv_nav/parsers/hybis.py b/src/auv_nav/parsers/hybis.py
index 9fb73d5..542f24c 100644
--- a/src/auv_nav/parsers/hybis.py
+++ b/src/auv_nav/parsers/hybis.py
@@ -12,7 +12,7 @@ from pathlib import Path
 
 import pandas as pd
 
-from auv_nav.tools.interpolate import interpolate
+from auv_nav.tools.interpolate import interpolate, interpolate_heading
 from auv_nav.tools.latlon_wgs84 import latlon_to_metres
 from auv_nav.tools.time_conversions import date_time_to_epoch
 from oplab import Console, get_raw_folder
@@ -206,7 +206,7 @@ class HybisParser:
                 hybis_vec[i].pitch,
                 hybis_vec[i + 1].pitch,
             )
-            heading = interpolate(
+            heading = interpolate_heading(
                 modification_time,
                 hybis_vec[i].epoch_timestamp,
                 hybis_vec[i + 1].epoch_timestamp,
diff --git a/src/auv_nav/parsers/koyo20rov.py b/src/auv_nav/parsers/koyo20rov.py
index 00bd39f..b03ff32 100644
--- a/src/auv_nav/parsers/koyo20rov.py
+++ b/src/auv_nav/parsers/koyo20rov.py
@@ -16,7 +16,7 @@ import numpy as np
 import pandas as pd
 
 from auv_nav.tools.body_to_inertial import body_to_inertial
-from auv_nav.tools.interpolate import interpolate
+from auv_nav.tools.interpolate import interpolate, interpolate_heading
 from auv_nav.tools.latlon_wgs84 import latlon_to_metres, metres_to_latlon
 from auv_nav.tools.time_conversions import date_time_to_epoch
 from oplab import Console, Mission, Vehicle, get_raw_folder
@@ -789,7 +789,7 @@ class RovParser:
             while image_epoch > self.vector_rot[i].epoch_timestamp:
                 i += 1
             # Interpolate.
-            image_object.heading = interpolate(
+            image_object.heading = interpolate_heading(
                 image_epoch,
                 self.vector_rot[i - 1].epoch_timestamp,
                 self.vector_rot[i].epoch_timestamp,
diff --git a/src/auv_nav/tools/interpolate.py b/src/auv_nav/tools/interpolate.py
index 18f31d9..9c6fc50 100644
--- a/src/auv_nav/tools/interpolate.py
+++ b/src/auv_nav/tools/interpolate.py
@@ -27,6 +27,13 @@ def interpolate(x_query, x_lower, x_upper, y_lower, y_upper):
     return y_query
 
 
+def interpolate_heading(x_query, x_lower, x_upper, y_lower, y_upper):
+    """Interpolates headings (in degrees) over the 0/360 wrap"""
+    if abs(y_upper - y_lower) > 180:
+        y_upper += 360 if y_upper < y_lower else -360
+    return interpolate(x_query, x_lower, x_upper, y_lower, y_upper) % 360
+
+
 def interpolate_altitude(query_timestamp, data):
     i = 1
     while i < len(data) - 1 and data[i].epoch_timestamp < query_timestamp:
-- 
2.43.0


From db6ccd2b1f39383e58c326d8884f5dd62d54280e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:39 +0000
Subject: [PATCH 085/142] fix: read the reference position of hybis_to_oplab as
 numbers

---
 src/auv_nav/auv_nav.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/auv_nav/auv_nav.py b/src/auv_nav/auv_nav.py
index 5a12181..c668bc3 100644
--- a/src/auv_nav/auv_nav.py
+++ b/src/auv_nav/auv_nav.py
@@ -266,11 +266,13 @@ def main(args=None):
     subparser_hybis_to_oplab.add_argument(
         "--reference-lat",
         dest="reference_lat",
+        type=float,
         help="Reference latitude for northing/easting.",
     )
     subparser_hybis_to_oplab.add_argument(
         "--reference-lon",
         dest="reference_lon",
+        type=float,
         help="Reference longitude for northing/easting.",
     )
     subparser_hybis_to_oplab.add_argument(
-- 
2.43.0


From 9d77d39cd6341d2323f29cf04e0dfaa142944e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:39 +0000
Subject: [PATCH 086/142] fix: keep the first position of each koyo20 ROV ship
 log

---
 src/auv_nav/parsers/koyo20rov.py | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/src/auv_nav/parsers/koyo20rov.py b/src/auv_nav/parsers/koyo20rov.py
index b03ff32..956be13 100644
--- a/src/auv_nav/parsers/koyo20rov.py
+++ b/src/auv_nav/parsers/koyo20rov.py
@@ -394,14 +394,7 @@ class RovParser:
             lat = list(dataframe_pos[31])
             lon = list(dataframe_pos[32])
             vector_pos = []
-            current_epoch = RovPos(
-                depth[0],
-                altitude[0],
-                lon[0],
-                lat[0],
-                date[0],
-                timestr[0],
-            ).epoch_timestamp
+            current_epoch = -np.inf
             for i, this_date in enumerate(date):
                 if not isinstance(this_date, str):
                     continue
-- 
2.43.0


From b1f553ec8044f35fdca66d05bee843645aeebd18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:39 +0000
Subject: [PATCH 087/142] fix: name the output folder of koyo20rov_to_oplab
 after UTC times

---
 src/auv_nav/parsers/koyo20rov.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/auv_nav/parsers/koyo20rov.py b/src/auv_nav/parsers/koyo20rov.py
index 956be13..33a4b02 100644
--- a/src/auv_nav/parsers/koyo20rov.py
+++ b/src/auv_nav/parsers/koyo20rov.py
@@ -8,7 +8,7 @@ See LICENSE.md file in the project root for full license information.
 
 
 from copy import deepcopy
-from datetime import datetime
+from datetime import datetime, timezone
 from pathlib import Path
 from typing import Union
 
@@ -249,7 +249,7 @@ def epoch_to_timestr(epoch: Union[int, float]) -> str:
     Returns:
         str: date as YYYYMMDD_hhmmss
     """
-    time = datetime.fromtimestamp(epoch)
+    time = datetime.fromtimestamp(epoch, tz=timezone.utc)
     timestr = (
         f"{time.year:04}{time.month:02}{time.day:02}"
         f"_{time.hour:02}{time.minute:02}{time.second:02}"
-- 
2.43.0


From 5012db57bef6cc7307fd548147cff9e22fea1780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:39 +0000
Subject: [PATCH 088/142] fix: do not fill the first missing depth or altitude
 from the last record

---
 src/auv_nav/parsers/hybis.py     | 2 +-
 src/auv_nav/parsers/koyo20rov.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/auv_nav/parsers/hybis.py b/src/auv_nav/parsers/hybis.py
index 542f24c..133d512 100644
--- a/src/auv_nav/parsers/hybis.py
+++ b/src/auv_nav/parsers/hybis.py
@@ -114,7 +114,7 @@ class HybisParser:
             )
             hybis_vec.append(p)
 
-        for i in range(len(hybis_vec) - 1):
+        for i in range(1, len(hybis_vec) - 1):
             if hybis_vec[i].altitude == 0:
                 hybis_vec[i].altitude = interpolate(
                     hybis_vec[i].epoch_timestamp,
diff --git a/src/auv_nav/parsers/koyo20rov.py b/src/auv_nav/parsers/koyo20rov.py
index 33a4b02..74dcd22 100644
--- a/src/auv_nav/parsers/koyo20rov.py
+++ b/src/auv_nav/parsers/koyo20rov.py
@@ -435,7 +435,7 @@ class RovParser:
             key=return_epoch_timestamp,
         )
         # Deal with missing values
-        for i in range(len(self.vector_pos) - 1):
+        for i in range(1, len(self.vector_pos) - 1):
             if self.vector_pos[i].altitude == 0:
                 self.vector_pos[i].altitude = interpolate(
                     self.vector_pos[i].epoch_timestamp,
-- 
2.43.0


From 94f7dcac58c424bc7f85aebdb17d374577080478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:30 +0000
Subject: [PATCH 089/142] fix: read the first pose and the origin of ACFR
 vehicle pose files

---
 src/auv_nav/parsers/acfr_vehicle_pose.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/auv_nav/parsers/acfr_vehicle_pose.py b/src/auv_nav/parsers/acfr_vehicle_pose.py
index 203804b..1888c65 100644
--- a/src/auv_nav/parsers/acfr_vehicle_pose.py
+++ b/src/auv_nav/parsers/acfr_vehicle_pose.py
@@ -159,15 +159,18 @@ class AcfrVehiclePoseParser:
         f = Path(filename)
         stream = f.open("r")
 
-        for i, line in enumerate(stream):
+        for line in stream:
+            # Skip the header, whose length depends on the producer
+            if not line.strip() or line.startswith("%"):
+                continue
             # Read origins
-            # Line 56: ORIGIN_LATITUDE  59.8136000000000010
-            # Line 57: ORIGIN_LONGITUDE -7.3532999999999999
-            if i == 44:
+            # ORIGIN_LATITUDE  59.8136000000000010
+            # ORIGIN_LONGITUDE -7.3532999999999999
+            if line.startswith("ORIGIN_LATITUDE"):
                 self.origin_latitude = float(line.split()[1])
-            if i == 45:
+            elif line.startswith("ORIGIN_LONGITUDE"):
                 self.origin_longitude = float(line.split()[1])
-            if i > 45:
+            else:
                 self._entries.append(AcfrVehiclePose(line))
         print("Parsed", len(self._entries), "entries")
 
-- 
2.43.0


From c1bfa08dfac342e181998689dcbab7e7504ba0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:24 +0000
Subject: [PATCH 090/142] fix: keep the standard deviation of the INS down
 velocity positive

---
 src/auv_nav/sensors.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/auv_nav/sensors.py b/src/auv_nav/sensors.py
index 5e004b7..92d75ac 100644
--- a/src/auv_nav/sensors.py
+++ b/src/auv_nav/sensors.py
@@ -530,11 +530,9 @@ class InertialVelocity(OutputFormat):
             self.north_velocity = float(line[3])
             self.down_velocity = -1 * float(line[4])
         elif line[1] == PhinsHeaders.VEL_STD:
-            # phins convention is west +ve
-            # phins convention is up +ve
             self.east_velocity_std = float(line[2])
             self.north_velocity_std = float(line[3])
-            self.down_velocity_std = -1 * float(line[4])
+            self.down_velocity_std = float(line[4])
 
     def from_json(self, json):
         self.epoch_timestamp = json["epoch_timestamp"]
-- 
2.43.0


From ab844fbea62708a8b16e8409788ec6bb11973e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:51 +0000
Subject: [PATCH 091/142] fix: Sonardyne USBL times do not depend on the time
 zone of the computer

---
 src/auv_nav/parsers/parse_sonardyne_mrt.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/auv_nav/parsers/parse_sonardyne_mrt.py b/src/auv_nav/parsers/parse_sonardyne_mrt.py
index ed7bfaf..cb0b971 100644
--- a/src/auv_nav/parsers/parse_sonardyne_mrt.py
+++ b/src/auv_nav/parsers/parse_sonardyne_mrt.py
@@ -33,9 +33,11 @@ class MRTBase:  # 9
 
     def __post_init__(self):
         try:
-            self.epoch_timestamp = datetime.datetime.strptime(
-                self.time_stamp, "%Y-%m-%d %H:%M:%S.%f"
-            ).timestamp()
+            self.epoch_timestamp = (
+                datetime.datetime.strptime(self.time_stamp, "%Y-%m-%d %H:%M:%S.%f")
+                .replace(tzinfo=datetime.timezone.utc)
+                .timestamp()
+            )
         except ValueError:
             pass
 
@@ -821,8 +823,7 @@ def parse_sonardyne_gga(mission, vehicle, category, ftype, outpath):
         )
 
         data = {
-            "epoch_timestamp": datetime.datetime.strptime(auv_obs.time_stamp, "%Y-%m-%d %H:%M:%S.%f"
-        ).timestamp() + timeoffset_s,
+            "epoch_timestamp": auv_obs.epoch_timestamp + timeoffset_s,
             "class": class_string,
             "sensor": sensor_string,
             "frame": frame_string,
@@ -944,8 +945,7 @@ def parse_sonardyne_gga2(mission, vehicle, category, ftype, outpath):
         )
 
         data = {
-            "epoch_timestamp": datetime.datetime.strptime(auv_obs.time_stamp, "%Y-%m-%d %H:%M:%S.%f"
-        ).timestamp() + timeoffset_s,
+            "epoch_timestamp": auv_obs.epoch_timestamp + timeoffset_s,
             "class": class_string,
             "sensor": sensor_string,
             "frame": frame_string,
@@ -1067,8 +1067,7 @@ def parse_sonardyne_gga3(mission, vehicle, category, ftype, outpath):
         )
 
         data = {
-            "epoch_timestamp": datetime.datetime.strptime(auv_obs.time_stamp, "%Y-%m-%d %H:%M:%S.%f"
-        ).timestamp() + timeoffset_s,
+            "epoch_timestamp": auv_obs.epoch_timestamp + timeoffset_s,
             "class": class_string,
             "sensor": sensor_string,
             "frame": frame_string,
@@ -1190,8 +1189,7 @@ def parse_sonardyne_gga4(mission, vehicle, category, ftype, outpath):
         )
 
         data = {
-            "epoch_timestamp": datetime.datetime.strptime(auv_obs.time_stamp, "%Y-%m-%d %H:%M:%S.%f"
-        ).timestamp() + timeoffset_s,
+            "epoch_timestamp": auv_obs.epoch_timestamp + timeoffset_s,
             "class": class_string,
             "sensor": sensor_string,
             "frame": frame_string,
-- 
2.43.0


From dcc749a25b7ca12581a0461a1868f6e12b30fd65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:51 +0000
Subject: [PATCH 092/142] fix: JobData lines of Sonardyne MRT logs do not
 repeat the line before

---
 src/auv_nav/parsers/parse_sonardyne_mrt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/auv_nav/parsers/parse_sonardyne_mrt.py b/src/auv_nav/parsers/parse_sonardyne_mrt.py
index cb0b971..03dc4e2 100644
--- a/src/auv_nav/parsers/parse_sonardyne_mrt.py
+++ b/src/auv_nav/parsers/parse_sonardyne_mrt.py
@@ -548,7 +548,7 @@ def parse_mrt_csv(filename):
                 obs = AlarmStateChange(*values[1:])
             elif values[0] == "JobData":
                 # Ignore this
-                pass
+                continue
             else:
                 print(f"Unknown observation type: {values[0]}")
                 continue
-- 
2.43.0


From 1f35381453253f7cd82f0cb943b2ec8ea73db1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:51 +0000
Subject: [PATCH 093/142] fix: use the ship position and heading closest in
 time to a Sonardyne MRT fix

---
 src/auv_nav/parsers/parse_sonardyne_mrt.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/auv_nav/parsers/parse_sonardyne_mrt.py b/src/auv_nav/parsers/parse_sonardyne_mrt.py
index 03dc4e2..920a978 100644
--- a/src/auv_nav/parsers/parse_sonardyne_mrt.py
+++ b/src/auv_nav/parsers/parse_sonardyne_mrt.py
@@ -600,10 +600,14 @@ def find_closest_observations(observations):
             hdg_idx += 1
             hdg_stamp = heading_observations[hdg_idx].epoch_timestamp
 
-        if ship_idx < len(ship_observations):
-            auv_obs.closest_ship_obs = ship_observations[ship_idx]
-        if hdg_idx < len(heading_observations):
-            auv_obs.closest_heading_obs = heading_observations[hdg_idx]
+        auv_obs.closest_ship_obs = min(
+            ship_observations[max(ship_idx - 1, 0) : ship_idx + 1],
+            key=lambda x: abs(x.epoch_timestamp - stamp),
+        )
+        auv_obs.closest_heading_obs = min(
+            heading_observations[max(hdg_idx - 1, 0) : hdg_idx + 1],
+            key=lambda x: abs(x.epoch_timestamp - stamp),
+        )
     return auv_observations
 
 
-- 
2.43.0


From bc2a482936ce20829243dc108c0ec0a48662ed9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:06 +0000
Subject: [PATCH 094/142] fix: KOYO21 ROV times use the mission's time zone,
 not that of the computer

---
 src/auv_nav/parsers/parse_koyo21rov.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/auv_nav/parsers/parse_koyo21rov.py b/src/auv_nav/parsers/parse_koyo21rov.py
index 6acefac..d111a16 100644
--- a/src/auv_nav/parsers/parse_koyo21rov.py
+++ b/src/auv_nav/parsers/parse_koyo21rov.py
@@ -5,12 +5,14 @@ All rights reserved.
 Licensed under the BSD 3-Clause License.
 See LICENSE.md file in the project root for full license information.
 """
+import calendar
 import time
 from math import isnan
 
 import pandas as pd
 
 from auv_nav.sensors import Altitude, BodyVelocity, Category, Depth, Orientation, Usbl
+from auv_nav.tools.time_conversions import read_timezone
 from oplab import Console, get_raw_folder
 
 
@@ -23,12 +25,15 @@ def parse_koyo21rov(mission, vehicle, category, ftype, outpath):
     # There are two data sources: raw data (nav/hypack) and processed data (nav/posfilter)
     # If the category is USBL then we used the processed data, otherwise we use the raw data
     if category == Category.USBL:
+        node = mission.usbl
         filename = mission.usbl.filename
         filepath = mission.usbl.filepath
     elif category == Category.VELOCITY:
+        node = mission.velocity
         filename = mission.velocity.filename
         filepath = mission.velocity.filepath
     else:
+        node = mission.orientation
         filename = mission.orientation.filename
         filepath = mission.orientation.filepath
 
@@ -83,7 +88,7 @@ def parse_koyo21rov(mission, vehicle, category, ftype, outpath):
     if "timestamp" in mission_data.columns:
         # filtered position. Convert on the fly using a lambda function
         mission_data["epoch_timestamp"] = mission_data.apply(
-            lambda row: time.mktime(
+            lambda row: calendar.timegm(
                 time.strptime(row["timestamp"], "%Y-%m-%d %H:%M:%S")
             ),
             axis=1,
@@ -91,13 +96,16 @@ def parse_koyo21rov(mission, vehicle, category, ftype, outpath):
     else:
         # raw data
         mission_data["epoch_timestamp"] = mission_data.apply(
-            lambda row: time.mktime(
+            lambda row: calendar.timegm(
                 time.strptime(
                     str(row["Date"]) + " " + str(row["Time"]), "%Y/%m/%d %H:%M:%S"
                 )
             ),
             axis=1,
         )
+    mission_data["epoch_timestamp"] += (
+        -read_timezone(node.timezone) * 3600.0 + node.timeoffset_s
+    )
 
     data_list = []
     if category == Category.ORIENTATION:
-- 
2.43.0


From a85b243161b5984cec07cfcd8bd0e330a5439713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:44 +0000
Subject: [PATCH 095/142] fix: EIVA and NTNU DVL times use the mission's time
 zone, not that of the computer

---
 src/auv_nav/parsers/parse_eiva_navipac.py | 12 ++++++--
 src/auv_nav/parsers/parse_ntnu_dvl.py     |  9 ++++--
 src/auv_nav/sensors.py                    | 35 ++++++++++++++++-------
 3 files changed, 40 insertions(+), 16 deletions(-)

diff --git a/src/auv_nav/parsers/parse_eiva_navipac.py b/src/auv_nav/parsers/parse_eiva_navipac.py
index 7e2bd78..fe8a606 100644
--- a/src/auv_nav/parsers/parse_eiva_navipac.py
+++ b/src/auv_nav/parsers/parse_eiva_navipac.py
@@ -7,6 +7,7 @@ See LICENSE.md file in the project root for full license information.
 """
 
 from auv_nav.sensors import Category, Depth, Orientation, Usbl
+from auv_nav.tools.time_conversions import read_timezone
 from oplab import Console, get_raw_folder
 
 
@@ -18,12 +19,17 @@ def parse_eiva_navipac(mission, vehicle, category, output_format, outpath):
     if category == Category.ORIENTATION:
         category_str = "orientation"
         filepath = mission.orientation.filepath
+        node = mission.orientation
     elif category == Category.DEPTH:
         category_str = "depth"
         filepath = mission.depth.filepath
+        node = mission.depth
     elif category == Category.USBL:
         category_str = "usbl"
         filepath = mission.usbl.filepath
+        node = mission.usbl
+
+    timeoffset_s = -read_timezone(node.timezone) * 60 * 60 + node.timeoffset_s
 
     log_file_path = get_raw_folder(outpath / ".." / filepath)
 
@@ -58,7 +64,7 @@ def parse_eiva_navipac(mission, vehicle, category, output_format, outpath):
                 # For each line in the file
                 for line in filein.readlines():
                     if line.startswith("R132  4") and "$PRDID" in line:
-                        orientation.from_eiva_navipac(line)
+                        orientation.from_eiva_navipac(line, timeoffset_s)
                         num_entries += 1
                         if orientation.roll is None:
                             continue
@@ -70,7 +76,7 @@ def parse_eiva_navipac(mission, vehicle, category, output_format, outpath):
                 Console.info("... parsing depth")
                 for line in filein.readlines():
                     if line[0:14] == "D     " + str(usbl_id) + "  19  1":
-                        depth.from_eiva_navipac(line)
+                        depth.from_eiva_navipac(line, timeoffset_s)
                         num_entries += 1
                         if depth.valid():
                             num_valid_entries += 1
@@ -81,7 +87,7 @@ def parse_eiva_navipac(mission, vehicle, category, output_format, outpath):
                 for line in filein.readlines():
                     if line.startswith("P  D") and int(line[6:10]) == usbl_id:
                         num_entries += 1
-                        usbl.from_eiva_navipac(line)
+                        usbl.from_eiva_navipac(line, timeoffset_s)
                         if usbl.valid():
                             num_valid_entries += 1
                             data = usbl.export(output_format)
diff --git a/src/auv_nav/parsers/parse_ntnu_dvl.py b/src/auv_nav/parsers/parse_ntnu_dvl.py
index a3d5e98..53d7b0d 100644
--- a/src/auv_nav/parsers/parse_ntnu_dvl.py
+++ b/src/auv_nav/parsers/parse_ntnu_dvl.py
@@ -9,6 +9,7 @@ See LICENSE.md file in the project root for full license information.
 import pandas as pd
 
 from auv_nav.sensors import Altitude, BodyVelocity, Category
+from auv_nav.tools.time_conversions import read_timezone
 from oplab import Console, get_raw_folder
 
 header_list = [
@@ -88,12 +89,14 @@ def parse_ntnu_dvl(mission, vehicle, category, output_format, outpath):
     log_file_path = get_raw_folder(outpath / ".." / filepath)
 
     category_str = None
+    node = mission.velocity
     if category == Category.VELOCITY:
         category_str = "velocity"
     elif category == Category.ALTITUDE:
         category_str = "altitude"
+        node = mission.altitude
 
-    # TODO handle timezone and timeoffsets
+    timeoffset_s = -read_timezone(node.timezone) * 60 * 60 + node.timeoffset_s
 
     velocity_std_factor = mission.velocity.std_factor
     velocity_std_offset = mission.velocity.std_offset
@@ -119,7 +122,7 @@ def parse_ntnu_dvl(mission, vehicle, category, output_format, outpath):
             Console.info("... parsing velocity")
             # For each row in the file
             for index, row in df.iterrows():
-                body_velocity.from_ntnu_dvl(str(log_file.name), row)
+                body_velocity.from_ntnu_dvl(str(log_file.name), row, timeoffset_s)
                 num_entries += 1
                 if body_velocity.valid():
                     # DVL provides -32 when no bottom lock
@@ -131,7 +134,7 @@ def parse_ntnu_dvl(mission, vehicle, category, output_format, outpath):
             # For each row in the file
             for index, row in df.iterrows():
                 num_entries += 1
-                altitude.from_ntnu_dvl(str(log_file.name), row)
+                altitude.from_ntnu_dvl(str(log_file.name), row, timeoffset_s)
                 if altitude.valid():
                     num_valid_entries += 1
                     data = altitude.export(output_format)
diff --git a/src/auv_nav/sensors.py b/src/auv_nav/sensors.py
index 92d75ac..6c892c9 100644
--- a/src/auv_nav/sensors.py
+++ b/src/auv_nav/sensors.py
@@ -222,12 +222,15 @@ class BodyVelocity(OutputFormat):
         self.z_velocity_std = self.get_std(vz)
         self.epoch_timestamp_dvl = self.parse_dvl_time(line)
 
-    def from_ntnu_dvl(self, filename, line):
+    def from_ntnu_dvl(self, filename, line, timeoffset_s=0.0):
         self.sensor_string = "ntnu_dvl"
         date_obj = datetime.datetime.strptime(filename[0:8], "%Y%m%d")
         time_obj = datetime.datetime.strptime(line["time"], "%H:%M:%S.%f")
         date_time_obj = datetime.datetime.combine(date_obj, time_obj.time())
-        self.epoch_timestamp = date_time_obj.timestamp()
+        self.epoch_timestamp = (
+            date_time_obj.replace(tzinfo=datetime.timezone.utc).timestamp()
+            + timeoffset_s
+        )
         self.epoch_timestamp_dvl = self.epoch_timestamp
         vx = float(line["u_dvl"])
         vy = float(line["v_dvl"])
@@ -649,11 +652,14 @@ class Orientation(OutputFormat):
             self.yaw_std,
         )
 
-    def from_eiva_navipac(self, line):
+    def from_eiva_navipac(self, line, timeoffset_s=0.0):
         self.sensor_string = "eiva_navipac"
         parts = line.split()
         date_time_obj = datetime.datetime.strptime(parts[2], "%Y:%m:%d:%H:%M:%S.%f")
-        self.epoch_timestamp = date_time_obj.timestamp()
+        self.epoch_timestamp = (
+            date_time_obj.replace(tzinfo=datetime.timezone.utc).timestamp()
+            + timeoffset_s
+        )
         if self.epoch_timestamp == 0:
             # Invalid timestamp
             self.epoch_timestamp = None
@@ -885,11 +891,14 @@ class Depth(OutputFormat):
         if self.depth_std == 0:
             self.depth_std = self.depth * self.depth_std_factor
 
-    def from_eiva_navipac(self, line):
+    def from_eiva_navipac(self, line, timeoffset_s=0.0):
         self.sensor_string = "eiva_navipac"
         parts = line.split()
         date_time_obj = datetime.datetime.strptime(parts[4], "%Y:%m:%d:%H:%M:%S.%f")
-        self.epoch_timestamp = date_time_obj.timestamp()
+        self.epoch_timestamp = (
+            date_time_obj.replace(tzinfo=datetime.timezone.utc).timestamp()
+            + timeoffset_s
+        )
         self.depth_timestamp = self.epoch_timestamp
         if self.epoch_timestamp == 0:
             # Invalid timestamp
@@ -1040,12 +1049,15 @@ class Altitude(OutputFormat):
         self.altitude_timestamp = self.epoch_timestamp
         self.altitude_std = self.altitude * self.altitude_std_factor
 
-    def from_ntnu_dvl(self, filename, row):
+    def from_ntnu_dvl(self, filename, row, timeoffset_s=0.0):
         self.sensor_string = "ntnu_dvl"
         date_obj = datetime.datetime.strptime(filename[0:8], "%Y%m%d")
         time_obj = datetime.datetime.strptime(row["time"], "%H:%M:%S.%f")
         date_time_obj = datetime.datetime.combine(date_obj, time_obj.time())
-        self.epoch_timestamp = date_time_obj.timestamp()
+        self.epoch_timestamp = (
+            date_time_obj.replace(tzinfo=datetime.timezone.utc).timestamp()
+            + timeoffset_s
+        )
         self.altitude_timestamp = self.epoch_timestamp
         # alt0 = float(row["dvl_alt0"])  # fore
         alt1 = float(row["dvl_alt1"])  # left
@@ -1274,11 +1286,14 @@ class Usbl(OutputFormat):
             Console.quit("USBL ROS parser for", msg_type, "not supported.")
         self.epoch_timestamp = ros_stamp_to_epoch(msg.header.stamp) - self.tz_offset_s
 
-    def from_eiva_navipac(self, line):
+    def from_eiva_navipac(self, line, timeoffset_s=0.0):
         self.sensor_string = "eiva_navipac"
         parts = line.split()
         date_time_obj = datetime.datetime.strptime(parts[3], "%Y:%m:%d:%H:%M:%S.%f")
-        self.epoch_timestamp = date_time_obj.timestamp()
+        self.epoch_timestamp = (
+            date_time_obj.replace(tzinfo=datetime.timezone.utc).timestamp()
+            + timeoffset_s
+        )
         if self.epoch_timestamp == 0:
             # Invalid timestamp
             self.epoch_timestamp = None
-- 
2.43.0


From afd7a67aab69e121393a340d22623d366711fc8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:44 +0000
Subject: [PATCH 096/142] fix: read each AE2000 log from its own path and with
 its own time offset

---
 src/auv_nav/parsers/parse_ae2000.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/auv_nav/parsers/parse_ae2000.py b/src/auv_nav/parsers/parse_ae2000.py
index beee8d9..021225d 100644
--- a/src/auv_nav/parsers/parse_ae2000.py
+++ b/src/auv_nav/parsers/parse_ae2000.py
@@ -28,9 +28,10 @@ def parse_ae2000(mission: Mission, vehicle: Vehicle, category, ftype, outpath):
     sensor_string = "ae2000"
 
     # read in date from filename
-    timezone = mission.velocity.timezone
-    timeoffset = mission.velocity.timeoffset_s
-    filepath = mission.velocity.filepath
+    node = getattr(mission, category, mission.velocity)
+    timezone = node.timezone
+    timeoffset = node.timeoffset_s
+    filepath = node.filepath
 
     if category == "velocity" or category == "altitude":
         if category == "velocity":
-- 
2.43.0


From 079c13825cbb5ee5986ebda4f95975b22af7d3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:44 +0000
Subject: [PATCH 097/142] fix: skip corrupt attitude sentences in EIVA logs

---
 src/auv_nav/sensors.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/auv_nav/sensors.py b/src/auv_nav/sensors.py
index 6c892c9..19aecd1 100644
--- a/src/auv_nav/sensors.py
+++ b/src/auv_nav/sensors.py
@@ -666,7 +666,11 @@ class Orientation(OutputFormat):
             return
 
         nmea_string = parts[3].replace("\n", "")
-        msg = pynmea2.parse(nmea_string)
+        try:
+            msg = pynmea2.parse(nmea_string)
+        except pynmea2.ParseError:
+            Console.warn("Invalid NMEA sentence from EIVA Navipac", nmea_string)
+            return
 
         if msg.roll is None or msg.pitch is None or msg.heading is None:
             Console.warn("Dropping EIVA Navipac message", nmea_string)
-- 
2.43.0


From d9e31af53e94111ecebcbc3cab1b565b1bc05ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:00 +0000
Subject: [PATCH 098/142] fix: keep the last ensemble of an RDI log

---
 src/auv_nav/parsers/parse_rdi.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/auv_nav/parsers/parse_rdi.py b/src/auv_nav/parsers/parse_rdi.py
index 1d5172c..88b6ffb 100644
--- a/src/auv_nav/parsers/parse_rdi.py
+++ b/src/auv_nav/parsers/parse_rdi.py
@@ -136,5 +136,15 @@ def parse_rdi(mission, vehicle, category, ftype, outpath):
             elif parts[0] == ":BD" and len(parts) == 6 and altitude_valid:
                 al.altitude = float(parts[4])
                 al.altitude_std = altitude_std_factor * al.altitude
+    # the last data packet has no TimeStamp after it
+    data = None
+    if category == Category.VELOCITY:
+        data = bv.export(output_format)
+    elif category == Category.ORIENTATION:
+        data = ot.export(output_format)
+    elif category == Category.ALTITUDE:
+        data = al.export(output_format)
+    if data is not None:
+        data_list.append(data)
     # print(data_list)
     return data_list
-- 
2.43.0


From 9d51c3ef5cd2b70f205fc7c633d7b35e48b55c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:16 +0000
Subject: [PATCH 099/142] fix: skip corrupt sentences in NMEA USBL logs

---
 src/auv_nav/parsers/parse_NOC_nmea.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/auv_nav/parsers/parse_NOC_nmea.py b/src/auv_nav/parsers/parse_NOC_nmea.py
index 4717b17..273890d 100644
--- a/src/auv_nav/parsers/parse_NOC_nmea.py
+++ b/src/auv_nav/parsers/parse_NOC_nmea.py
@@ -10,7 +10,7 @@ import pynmea2
 
 from auv_nav.sensors import Category, Usbl
 from auv_nav.tools.time_conversions import date_time_to_epoch, read_timezone
-from oplab import get_file_list, get_raw_folder
+from oplab import Console, get_file_list, get_raw_folder
 
 
 def parse_NOC_nmea(mission, vehicle, category, ftype, outpath):
@@ -47,7 +47,11 @@ def parse_NOC_nmea(mission, vehicle, category, ftype, outpath):
                     parts = line.split("\t")
                     if len(parts) < 2:
                         continue
-                    msg = pynmea2.parse(parts[1])
+                    try:
+                        msg = pynmea2.parse(parts[1])
+                    except pynmea2.ParseError:
+                        Console.warn("Invalid NMEA sentence:", parts[1])
+                        continue
 
                     if int(msg.ref_station_id) != beacon_id:
                         continue
-- 
2.43.0


From 3a3177dc90d6fb9706cf778bb0a590182efdee5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:34 +0000
Subject: [PATCH 100/142] fix: skip koyo21rov fixes without latitude or
 longitude

---
 src/auv_nav/parsers/parse_koyo21rov.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/auv_nav/parsers/parse_koyo21rov.py b/src/auv_nav/parsers/parse_koyo21rov.py
index d111a16..909d664 100644
--- a/src/auv_nav/parsers/parse_koyo21rov.py
+++ b/src/auv_nav/parsers/parse_koyo21rov.py
@@ -183,7 +183,9 @@ def parse_koyo21rov(mission, vehicle, category, ftype, outpath):
             lon = mission_data["Lon_flt"][i]
             # read depth information, which is required to calculate the std from depth for northings/eastings
             d = mission_data["Depth(ROV)"][i]
-            if not isnan(d):  # double check in case of invalid rows
+            if (
+                not isnan(lat) and not isnan(lon) and not isnan(d)
+            ):  # double check in case of invalid rows
                 t = mission_data["epoch_timestamp"][i]
                 usbl.from_koyo21rov(t, lat, lon, d)
                 data = usbl.export(
-- 
2.43.0


From 2298601e9989d374ff024b783d2f29c6cc5729c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:34 +0000
Subject: [PATCH 101/142] fix: skip ALR GPS fixes without a depth

---
 src/auv_nav/parsers/parse_alr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/auv_nav/parsers/parse_alr.py b/src/auv_nav/parsers/parse_alr.py
index 0018a04..0595006 100644
--- a/src/auv_nav/parsers/parse_alr.py
+++ b/src/auv_nav/parsers/parse_alr.py
@@ -157,7 +157,7 @@ def parse_alr(mission, vehicle, category, ftype, outpath):
             lat = mission_data["GPS_latitude"][i]
             lon = mission_data["GPS_longitude"][i]
             depth = mission_data["AUV_depth"][i]
-            if not isnan(lat) and not isnan(lon):
+            if not isnan(lat) and not isnan(lon) and not isnan(depth):
                 t = mission_data["epoch_timestamp"][i]  # current entry timestamp
                 usbl.from_alr(
                     t, lat, lon, depth
-- 
2.43.0


From cc4ca9dcd93635a17d1a7c9926bece1a3cb6f517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:00 +0000
Subject: [PATCH 102/142] fix: use the frame given for a camera even if the
 first camera has none

---
 src/oplab/mission.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/oplab/mission.py b/src/oplab/mission.py
index 7ccc274..c11d3d3 100644
--- a/src/oplab/mission.py
+++ b/src/oplab/mission.py
@@ -192,10 +192,10 @@ class ImageEntry(TimeZoneEntry):
         if mission_yaml_version >= 1:
             for camera in node["cameras"]:
                 self.cameras.append(CameraEntry(camera))
-            if "origin" not in node["cameras"][0]:
-                # Assuming that the camera names in mission.yaml corresponds
-                # to the frame names in vehicle.yaml
-                for i, camera in enumerate(self.cameras):
+            for camera in self.cameras:
+                if camera.origin is None:
+                    # Assuming that the camera names in mission.yaml corresponds
+                    # to the frame names in vehicle.yaml
                     camera.origin = camera.name
         else:
             self.cameras.append(CameraEntry())
-- 
2.43.0


From abbef6a83009519f20676e8a3eda30091f60723c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:24 +0000
Subject: [PATCH 103/142] fix: do not rotate the std of ROS DVL velocities

---
 src/auv_nav/sensors.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/auv_nav/sensors.py b/src/auv_nav/sensors.py
index 19aecd1..90965ea 100644
--- a/src/auv_nav/sensors.py
+++ b/src/auv_nav/sensors.py
@@ -263,6 +263,8 @@ class BodyVelocity(OutputFormat):
             self.y_velocity,
             self.z_velocity,
         )
+        if not with_std:
+            return
         [
             self.x_velocity_std,
             self.y_velocity_std,
-- 
2.43.0


From 4ac58a5709d22d43d438624bef72ff1fc6fc9a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:24 +0000
Subject: [PATCH 104/142] fix: std of the depth of a ROS pressure message

---
 src/auv_nav/sensors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/auv_nav/sensors.py b/src/auv_nav/sensors.py
index 90965ea..3c375a4 100644
--- a/src/auv_nav/sensors.py
+++ b/src/auv_nav/sensors.py
@@ -883,7 +883,7 @@ class Depth(OutputFormat):
         if msg_type == "sensor_msgs/FluidPressure":
             # TODO: is this an expected density value?
             self.depth = msg.fluid_pressure / (1030 * 9.80665)
-            self.depth_std = np.sqrt(msg.variance / (1030 * 9.80665))
+            self.depth_std = np.sqrt(msg.variance) / (1030 * 9.80665)
         elif msg_type == "geometry_msgs/PoseWithCovarianceStamped":
             self.depth = msg.pose.pose.position.z
             self.depth_std = np.sqrt(msg.pose.covariance[14])
-- 
2.43.0


From 250b8e6c795a076af959cbb6c36fd99c2ad19d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:24 +0000
Subject: [PATCH 105/142] fix: use the root of the variances of a ROS NavSatFix
 as std

---
 src/auv_nav/sensors.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/auv_nav/sensors.py b/src/auv_nav/sensors.py
index 3c375a4..1fdf7c8 100644
--- a/src/auv_nav/sensors.py
+++ b/src/auv_nav/sensors.py
@@ -1272,9 +1272,9 @@ class Usbl(OutputFormat):
 
                 self.fill_from_lat_lon_depth()
 
-                self.eastings_std = msg.position_covariance[0]
-                self.northings_std = msg.position_covariance[4]
-                self.depth_std = msg.position_covariance[8]
+                self.eastings_std = np.sqrt(msg.position_covariance[0])
+                self.northings_std = np.sqrt(msg.position_covariance[4])
+                self.depth_std = np.sqrt(msg.position_covariance[8])
         elif msg_type == "evologics_ros_sync/EvologicsUsbllong":
             self.northings = msg.N
             self.eastings = msg.E
-- 
2.43.0


From 3ece771d5c04858a31780a7caed8bfdaf2de5b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:24 +0000
Subject: [PATCH 106/142] fix: std in degrees of the position of a ROS pose

---
 src/auv_nav/sensors.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/auv_nav/sensors.py b/src/auv_nav/sensors.py
index 1fdf7c8..012abe7 100644
--- a/src/auv_nav/sensors.py
+++ b/src/auv_nav/sensors.py
@@ -1250,11 +1250,9 @@ class Usbl(OutputFormat):
                 self.northings,
             )
             # Transform STD in meters to degrees
-            self.latitude_std, self.longitude_std = metres_to_latlon(
-                self.latitude_reference,
-                self.longitude_reference,
-                self.eastings_std,
-                self.northings_std,
+            self.latitude_std = self.northings_std / 111.111e3
+            self.longitude_std = self.eastings_std / (
+                111.111e3 * cos(self.latitude * pi / 180.0)
             )
 
             if msg.header.frame_id == "sparus2/modem":
-- 
2.43.0


From 61b26dce37a6cbce63143d12aed4ac2ad2fdbce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:24 +0000
Subject: [PATCH 107/142] fix: time zone of ROS bags is off by a minute per
 hour

---
 src/auv_nav/parsers/parse_rosbag.py | 25 +++++++------------------
 1 file changed, 7 insertions(+), 18 deletions(-)

diff --git a/src/auv_nav/parsers/parse_rosbag.py b/src/auv_nav/parsers/parse_rosbag.py
index 741a6c3..acc184f 100644
--- a/src/auv_nav/parsers/parse_rosbag.py
+++ b/src/auv_nav/parsers/parse_rosbag.py
@@ -18,7 +18,6 @@ from auv_nav.sensors import (
     Orientation,
     Usbl,
 )
-from auv_nav.tools.time_conversions import read_timezone
 from oplab import Console
 from oplab.folder_structure import get_raw_folder
 
@@ -146,27 +145,17 @@ def parse_rosbag(mission, vehicle, category, output_format, outpath):
     altitude.sensor_string = "rosbag"
     usbl.sensor_string = "rosbag"
 
-    # Adjust timezone offsets,
-    body_velocity.tz_offset_s = (
-        read_timezone(mission.velocity.timezone) *60 + mission.velocity.offset_s
-    )
-    orientation.tz_offset_s = (
-        read_timezone(mission.orientation.timezone) *60 + mission.orientation.offset_s
-    )
-    depth.tz_offset_s = (
-        read_timezone(mission.depth.timezone) *60 + mission.depth.offset_s
-    )
-    altitude.tz_offset_s = (
-        read_timezone(mission.altitude.timezone) *60 + mission.altitude.offset_s
-    )
-    usbl.tz_offset_s = read_timezone(mission.usbl.timezone) *60+ mission.usbl.offset_s
+    # Adjust timezone offsets (offset_s includes the timezone)
+    body_velocity.tz_offset_s = mission.velocity.offset_s
+    orientation.tz_offset_s = mission.orientation.offset_s
+    depth.tz_offset_s = mission.depth.offset_s
+    altitude.tz_offset_s = mission.altitude.offset_s
+    usbl.tz_offset_s = mission.usbl.offset_s
 
     if len(mission.image.cameras) > 0:
         camera = Camera()
         camera.sensor_string = mission.image.cameras[0].name
-        camera.tz_offset_s = (
-            read_timezone(mission.image.timezone) *60 + mission.image.offset_s
-        )
+        camera.tz_offset_s = mission.image.offset_s
 
     data_list = []
 
-- 
2.43.0


From db5890930fb24b77817eafaff2dd59ab63c41e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:24 +0000
Subject: [PATCH 108/142] fix: crash when correcting images of ROS bags

---
 src/correct_images/corrector.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/correct_images/corrector.py b/src/correct_images/corrector.py
index 20714d8..5ede9f3 100644
--- a/src/correct_images/corrector.py
+++ b/src/correct_images/corrector.py
@@ -19,7 +19,6 @@ from matplotlib import pyplot as plt
 from tqdm import tqdm, trange
 
 # fmt: off
-from auv_nav.tools.time_conversions import read_timezone
 from correct_images import corrections
 from correct_images.loaders import depth_map, loader
 from correct_images.tools.file_handlers import trim_csv_files, write_output_image
@@ -268,11 +267,7 @@ class Corrector:
             self.loader.set_loader("xviii")
         elif self.camera.extension == "bag":
             self.loader.set_loader("rosbag")
-            tz_offset_s = (
-                read_timezone(self.mission.image.timezone) * 60
-                + self.mission.image.timeoffset
-            )
-            self.loader.tz_offset_s = tz_offset_s
+            self.loader.tz_offset_s = self.mission.image.offset_s
         else:
             self.loader.set_loader("default")
 
-- 
2.43.0


From ce2a9634fc5355ce72236b812037911d8cb8a6a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:41 +0000
Subject: [PATCH 109/142] fix: tidal correction of logs that are split into
 several files

---
 src/auv_nav/parse.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/auv_nav/parse.py b/src/auv_nav/parse.py
index 9347476..8c87811 100644
--- a/src/auv_nav/parse.py
+++ b/src/auv_nav/parse.py
@@ -707,6 +707,9 @@ def parse_single(filepath, force_overwrite):
                 elif results[0]["category"] == Category.USBL:
                     sensor = "USBL"
                 Console.info(f"Tidal correction of {sensor} data...")
+                # Logs split into several files are not read in order of time
+                tide_list.sort(key=lambda x: x["epoch_timestamp"])
+                results.sort(key=lambda x: x["epoch_timestamp"])
                 # Offset depth to acknowledge for tides
                 missing_tide_data_before = False
                 missing_tide_data_after = False
-- 
2.43.0


From f8923a0ce3ef26fb893f85c70c8fe91b0977b812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:18 +0000
Subject: [PATCH 110/142] fix: example missions of Tuna-Sand do not load (no
 date of the origin)

---
 src/auv_nav/default_yaml/ts1/SSK17-01/mission.yaml | 1 +
 src/auv_nav/default_yaml/ts2/SSK16-01/mission.yaml | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/auv_nav/default_yaml/ts1/SSK17-01/mission.yaml b/src/auv_nav/default_yaml/ts1/SSK17-01/mission.yaml
index 90f8f12..5a0bd69 100644
--- a/src/auv_nav/default_yaml/ts1/SSK17-01/mission.yaml
+++ b/src/auv_nav/default_yaml/ts1/SSK17-01/mission.yaml
@@ -5,6 +5,7 @@ origin:
   latitude: 26.674083
   longitude: 127.868054
   coordinate_reference_system: wgs84
+  date: 2017/08/17
 
 velocity:
   format: phins
diff --git a/src/auv_nav/default_yaml/ts2/SSK16-01/mission.yaml b/src/auv_nav/default_yaml/ts2/SSK16-01/mission.yaml
index 810b7af..6f091e7 100644
--- a/src/auv_nav/default_yaml/ts2/SSK16-01/mission.yaml
+++ b/src/auv_nav/default_yaml/ts2/SSK16-01/mission.yaml
@@ -5,6 +5,7 @@ origin:
   latitude: 26.674083
   longitude: 127.868054
   coordinate_reference_system: wgs84
+  date: 2016/07/18
 
 velocity:
   format: phins
-- 
2.43.0


From 06ad4f6ce3b74086290adf8b5b11bb3f07b3b16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:18 +0000
Subject: [PATCH 111/142] fix: example mission of the NTNU ROV lists the left
 camera twice

---
 src/auv_nav/default_yaml/ntnu_rov/mission.yaml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/auv_nav/default_yaml/ntnu_rov/mission.yaml b/src/auv_nav/default_yaml/ntnu_rov/mission.yaml
index 1d9a7e5..15483a9 100644
--- a/src/auv_nav/default_yaml/ntnu_rov/mission.yaml
+++ b/src/auv_nav/default_yaml/ntnu_rov/mission.yaml
@@ -62,7 +62,7 @@ image:
   cameras:
     - name: ntnu_stereo_left
       path: image
-    - name: ntnu_stereo_left
+    - name: ntnu_stereo_right
       path: image
   timezone: cet
   timeoffset: 0.0
\ No newline at end of file
-- 
2.43.0


From 93d8d0fe9448b4ca8f5d52ad124918059986e3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:18 +0000
Subject: [PATCH 112/142] fix: default pixel size of rescaled images is a
 hundred times too small

The value is in centimetres.
---
 src/correct_images/default_yaml/acfr/correct_images.yaml        | 2 +-
 src/correct_images/default_yaml/biocam/correct_images.yaml      | 2 +-
 .../default_yaml/biocam4000_15c/correct_images.yaml             | 2 +-
 src/correct_images/default_yaml/hybis/correct_images.yaml       | 2 +-
 src/correct_images/default_yaml/ntnu_stereo/correct_images.yaml | 2 +-
 src/correct_images/default_yaml/rosbag/correct_images.yaml      | 2 +-
 .../default_yaml/stereo_gopro/correct_images.yaml               | 2 +-
 src/correct_images/default_yaml/sx3/correct_images.yaml         | 2 +-
 src/correct_images/default_yaml/voyis/correct_images.yaml       | 2 +-
 9 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/correct_images/default_yaml/acfr/correct_images.yaml b/src/correct_images/default_yaml/acfr/correct_images.yaml
index 589b332..bac5a21 100644
--- a/src/correct_images/default_yaml/acfr/correct_images.yaml
+++ b/src/correct_images/default_yaml/acfr/correct_images.yaml
@@ -54,6 +54,6 @@ rescale :
     path : # path to images relative to processed folder
     distance_path : # path to json_renav* folder for auv_ekf_<cameraname>.csv file
     interpolate_method : 'bicubic' # bicubic, nearest_neighbour, bilinear, lanczos
-    target_pixel_size : 0.01 # in meters
+    target_pixel_size : 1 # in centimeters
     maintain_pixels : True
     output_folder : # output path relative to processed images
diff --git a/src/correct_images/default_yaml/biocam/correct_images.yaml b/src/correct_images/default_yaml/biocam/correct_images.yaml
index 689776b..6c0bb34 100644
--- a/src/correct_images/default_yaml/biocam/correct_images.yaml
+++ b/src/correct_images/default_yaml/biocam/correct_images.yaml
@@ -54,6 +54,6 @@ rescale :
     path : # path to images relative to processed folder
     distance_path : # path to json_renav* folder for auv_ekf_<cameraname>.csv file
     interpolate_method : 'bicubic' # bicubic, nearest_neighbour, bilinear, lanczos
-    target_pixel_size : 0.01 # in meters
+    target_pixel_size : 1 # in centimeters
     maintain_pixels : True
     output_folder : # output path relative to processed images
diff --git a/src/correct_images/default_yaml/biocam4000_15c/correct_images.yaml b/src/correct_images/default_yaml/biocam4000_15c/correct_images.yaml
index 8aa218b..3f969d9 100644
--- a/src/correct_images/default_yaml/biocam4000_15c/correct_images.yaml
+++ b/src/correct_images/default_yaml/biocam4000_15c/correct_images.yaml
@@ -53,6 +53,6 @@ rescale :
     path : # path to images relative to processed folder
     distance_path : # path to json_renav* folder for auv_ekf_<cameraname>.csv file
     interpolate_method : 'bicubic' # bicubic, nearest_neighbour, bilinear, lanczos
-    target_pixel_size : 0.01 # in meters
+    target_pixel_size : 1 # in centimeters
     maintain_pixels : True
     output_folder : # output path relative to processed images
diff --git a/src/correct_images/default_yaml/hybis/correct_images.yaml b/src/correct_images/default_yaml/hybis/correct_images.yaml
index 07e46a6..8d4bc8a 100644
--- a/src/correct_images/default_yaml/hybis/correct_images.yaml
+++ b/src/correct_images/default_yaml/hybis/correct_images.yaml
@@ -43,6 +43,6 @@ rescale :
     path : # path to images relative to processed folder
     distance_path : # path to json_renav* folder for auv_ekf_<cameraname>.csv file
     interpolate_method : 'bicubic' # bicubic, nearest_neighbour, bilinear, lanczos
-    target_pixel_size : 0.01 # in meters
+    target_pixel_size : 1 # in centimeters
     maintain_pixels : True
     output_folder : # output path relative to processed images
diff --git a/src/correct_images/default_yaml/ntnu_stereo/correct_images.yaml b/src/correct_images/default_yaml/ntnu_stereo/correct_images.yaml
index 3aab19d..c794c89 100644
--- a/src/correct_images/default_yaml/ntnu_stereo/correct_images.yaml
+++ b/src/correct_images/default_yaml/ntnu_stereo/correct_images.yaml
@@ -55,6 +55,6 @@ rescale :
     path : # path to images relative to processed folder
     distance_path : # path to json_renav* folder for auv_ekf_<cameraname>.csv file
     interpolate_method : 'bicubic' # bicubic, nearest_neighbour, bilinear, lanczos
-    target_pixel_size : 0.01 # in meters
+    target_pixel_size : 1 # in centimeters
     maintain_pixels : True
     output_folder : # output path relative to processed images
diff --git a/src/correct_images/default_yaml/rosbag/correct_images.yaml b/src/correct_images/default_yaml/rosbag/correct_images.yaml
index 4790603..d958771 100644
--- a/src/correct_images/default_yaml/rosbag/correct_images.yaml
+++ b/src/correct_images/default_yaml/rosbag/correct_images.yaml
@@ -43,6 +43,6 @@ rescale :
     path : # path to images relative to processed folder
     distance_path : # path to json_renav* folder for auv_ekf_<cameraname>.csv file
     interpolate_method : 'bicubic' # bicubic, nearest_neighbour, bilinear, lanczos
-    target_pixel_size : 0.01 # in meters
+    target_pixel_size : 1 # in centimeters
     maintain_pixels : True
     output_folder : # output path relative to processed images
diff --git a/src/correct_images/default_yaml/stereo_gopro/correct_images.yaml b/src/correct_images/default_yaml/stereo_gopro/correct_images.yaml
index 65db8ae..c272cb9 100644
--- a/src/correct_images/default_yaml/stereo_gopro/correct_images.yaml
+++ b/src/correct_images/default_yaml/stereo_gopro/correct_images.yaml
@@ -53,6 +53,6 @@ rescale :
     path : # path to images relative to processed folder
     distance_path : # path to json_renav* folder for auv_ekf_<cameraname>.csv file
     interpolate_method : 'bicubic' # bicubic, nearest_neighbour, bilinear, lanczos
-    target_pixel_size : 0.01 # in meters
+    target_pixel_size : 1 # in centimeters
     maintain_pixels : True
     output_folder : # output path relative to processed images
diff --git a/src/correct_images/default_yaml/sx3/correct_images.yaml b/src/correct_images/default_yaml/sx3/correct_images.yaml
index be13d54..44e24d8 100644
--- a/src/correct_images/default_yaml/sx3/correct_images.yaml
+++ b/src/correct_images/default_yaml/sx3/correct_images.yaml
@@ -66,6 +66,6 @@ rescale:
     path: # path to images relative to processed folder
     distance_path: # path to json_renav* folder for auv_ekf_<cameraname>.csv file
     interpolate_method: 'bicubic' # bicubic, nearest_neighbour, bilinear, lanczos
-    target_pixel_size: 0.01 # in meters
+    target_pixel_size: 1 # in centimeters
     maintain_pixels: True
     output_folder: # output path relative to processed images
diff --git a/src/correct_images/default_yaml/voyis/correct_images.yaml b/src/correct_images/default_yaml/voyis/correct_images.yaml
index 744bdea..b865691 100644
--- a/src/correct_images/default_yaml/voyis/correct_images.yaml
+++ b/src/correct_images/default_yaml/voyis/correct_images.yaml
@@ -43,6 +43,6 @@ rescale :
     path : # path to images relative to processed folder
     distance_path : # path to json_renav* folder for auv_ekf_<cameraname>.csv file
     interpolate_method : 'bicubic' # bicubic, nearest_neighbour, bilinear, lanczos
-    target_pixel_size : 0.01 # in meters
+    target_pixel_size : 1 # in centimeters
     maintain_pixels : True
     output_folder : # output path relative to processed images
-- 
2.43.0


From 32f0ae4676cab01cb61dbc3293e49abcc0cd8da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:18 +0000
Subject: [PATCH 113/142] fix: correct_images ignores arguments given to main()

---
 src/correct_images/correct_images.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/correct_images/correct_images.py b/src/correct_images/correct_images.py
index 163eecb..2e0da02 100644
--- a/src/correct_images/correct_images.py
+++ b/src/correct_images/correct_images.py
@@ -139,16 +139,18 @@ def main(args=None):
     )
     subparser_rescale.set_defaults(func=call_rescale)
 
-    if len(sys.argv) == 1 and args is None:
+    if args is None:
+        args = sys.argv[1:]
+    if len(args) == 0:
         # Show help if no args provided
         parser.print_help(sys.stderr)
-    elif len(sys.argv) == 2 and not sys.argv[1] == "-h":
-        args = parser.parse_args(["correct", sys.argv[1]])
+    elif len(args) == 1 and not args[0] == "-h":
+        args = parser.parse_args(["correct", args[0]])
         print(args)
         if hasattr(args, "func"):
             args.func(args)
     else:
-        args = parser.parse_args()
+        args = parser.parse_args(args)
 
         # Check suffix is only text, digits, dash and underscores
         allowed_chars = string.ascii_letters + "-" + "_" + string.digits
-- 
2.43.0


From b6b92602a71188f1beafb32b6c74d292ae286a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:59 +0000
Subject: [PATCH 114/142] fix: crash of manual_balance when there is no
 colour_correction section

---
 src/correct_images/corrector.py | 34 ++++++++++++++++-----------------
 src/correct_images/parser.py    |  9 +++++++++
 2 files changed, 26 insertions(+), 17 deletions(-)

diff --git a/src/correct_images/corrector.py b/src/correct_images/corrector.py
index 5ede9f3..abfd4f3 100644
--- a/src/correct_images/corrector.py
+++ b/src/correct_images/corrector.py
@@ -192,23 +192,23 @@ class Corrector:
 
         """Load general configuration parameters"""
         self.correction_method = self.correct_config.method
-        # if self.correction_method == "colour_correction":
-        self.distance_metric = self.correct_config.color_correction.distance_metric
-        self.distance_path = self.correct_config.color_correction.metric_path
-        self.parse_altitude_min = (
-            self.correct_config.color_correction.parse_altitude_min
-        )
-        self.parse_altitude_max = (
-            self.correct_config.color_correction.parse_altitude_max
-        )
-        self.process_altitude_min = (
-            self.correct_config.color_correction.process_altitude_min
-        )
-        self.process_altitude_max = (
-            self.correct_config.color_correction.process_altitude_max
-        )
-        self.smoothing = self.correct_config.color_correction.smoothing
-        self.window_size = self.correct_config.color_correction.window_size
+        if self.correct_config.color_correction is not None:
+            self.distance_metric = self.correct_config.color_correction.distance_metric
+            self.distance_path = self.correct_config.color_correction.metric_path
+            self.parse_altitude_min = (
+                self.correct_config.color_correction.parse_altitude_min
+            )
+            self.parse_altitude_max = (
+                self.correct_config.color_correction.parse_altitude_max
+            )
+            self.process_altitude_min = (
+                self.correct_config.color_correction.process_altitude_min
+            )
+            self.process_altitude_max = (
+                self.correct_config.color_correction.process_altitude_max
+            )
+            self.smoothing = self.correct_config.color_correction.smoothing
+            self.window_size = self.correct_config.color_correction.window_size
         self.cameraconfigs = self.correct_config.configs.camera_configs
         self.undistort = self.correct_config.output_settings.undistort_flag
         self.output_format = self.correct_config.output_settings.compression_parameter
diff --git a/src/correct_images/parser.py b/src/correct_images/parser.py
index f356553..11dfcfa 100644
--- a/src/correct_images/parser.py
+++ b/src/correct_images/parser.py
@@ -349,6 +349,12 @@ class CorrectConfig:
             Console.warn("Method does not match:", self.method, " / ", other.method)
             return False
 
+        if self.color_correction is None or other.color_correction is None:
+            if self.color_correction is not other.color_correction:
+                Console.warn("Only one configuration contains colour_correction")
+                return False
+            return self._has_same_cameras(other)
+
         if (
             self.color_correction.distance_metric
             != other.color_correction.distance_metric
@@ -379,6 +385,9 @@ class CorrectConfig:
             )
             return False
 
+        return self._has_same_cameras(other)
+
+    def _has_same_cameras(self, other):
         # Check if the number of cameras match
         if self.configs.num_cameras != other.configs.num_cameras:
             Console.warn(
-- 
2.43.0


From 789c255afa42612a90a0c07a93765df9a218318c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:04 +0000
Subject: [PATCH 115/142] fix: crash of process when a section of auv_nav.yaml
 is missing

---
 src/auv_nav/process.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/auv_nav/process.py b/src/auv_nav/process.py
index 095d7a5..8989aeb 100644
--- a/src/auv_nav/process.py
+++ b/src/auv_nav/process.py
@@ -189,7 +189,9 @@ def process(
             localisation_file.parent.mkdir(parents=True)
         default_localisation.copy(localisation_file)
 
-    # Default to no EKF and PF and SPP
+    # Default to no EKF and PF and SPP, no USBL filter and no plots
+    usbl_filter_activate = False
+    plot_output_activate = False
     particle_filter_activate = False
     ekf_activate = False
     activate_smoother = True  # Apply smoothing. Only has appliles of ekf is enabled
@@ -219,11 +221,11 @@ def process(
             ]
         if "std" in load_localisation:
             sensors_std = load_localisation["std"]
-            if "position_xy" not in sensors_std:
+            if "position_xy" not in sensors_std and "usbl" in sensors_std:
                 sensors_std["position_xy"] = sensors_std["usbl"]
-            if "position_z" not in sensors_std:
+            if "position_z" not in sensors_std and "depth" in sensors_std:
                 sensors_std["position_z"] = sensors_std["depth"]
-            if "speed" not in sensors_std:
+            if "speed" not in sensors_std and "dvl" in sensors_std:
                 sensors_std["speed"] = sensors_std["dvl"]
         else:
             sensors_std = {}
-- 
2.43.0


From dce09ad19cc2a7d1e5eb438fc6e38a9f75740e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:04 +0000
Subject: [PATCH 116/142] fix: crash of process when plots are drawn without
 the USBL filter

---
 src/auv_nav/process.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/auv_nav/process.py b/src/auv_nav/process.py
index 8989aeb..4989600 100644
--- a/src/auv_nav/process.py
+++ b/src/auv_nav/process.py
@@ -756,6 +756,7 @@ def process(
         )
 
     # perform usbl_filter
+    usbl_list_no_dist_filter = usbl_list
     if usbl_filter_activate:
         usbl_list_no_dist_filter, usbl_list = usbl_filter(
             usbl_list, depth_list, sigma_factor, max_auv_speed,
-- 
2.43.0


From 3f1ef745e17ed53f46eab149316a201a411a8ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:15 +0000
Subject: [PATCH 117/142] fix: times of images dated by their modification time
 are not found

---
 src/oplab/camera_system.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/oplab/camera_system.py b/src/oplab/camera_system.py
index 28f9941..a9d6114 100644
--- a/src/oplab/camera_system.py
+++ b/src/oplab/camera_system.py
@@ -214,8 +214,7 @@ class CameraEntry:
             return self._stamp_list
         self._stamp_list = []
         for p in self.image_list:
-            n = Path(p).name
-            self._stamp_list.append(self.convert_filename(n))
+            self._stamp_list.append(self.convert_filename(p))
         return self._stamp_list
 
     @property
-- 
2.43.0


From 6be6c80c212df235bfc743569a5431d5d3905d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:37 +0000
Subject: [PATCH 118/142] fix: years of two digits in image names are refused
 (NTNU stereo camera)

---
 src/oplab/filename_to_date.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/oplab/filename_to_date.py b/src/oplab/filename_to_date.py
index d65f976..8edd3ad 100644
--- a/src/oplab/filename_to_date.py
+++ b/src/oplab/filename_to_date.py
@@ -86,6 +86,8 @@ class FilenameToDate:
             if f == "e":
                 epoch += n
         if not index and epoch == "":
+            if len(year) == 2:
+                year = "20" + year
             assert len(year) == 4, "Year in filename should have a length of 4"
             assert (
                 len(month) == 2
-- 
2.43.0


From c97f9c34266dc22ffea9306ab0a1f8a6fee7f39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:49 +0000
Subject: [PATCH 119/142] fix: column of epochs in a timestamp file is misread
 (stereo GoPro camera)

---
 src/oplab/filename_to_date.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/oplab/filename_to_date.py b/src/oplab/filename_to_date.py
index 8edd3ad..3afbd5c 100644
--- a/src/oplab/filename_to_date.py
+++ b/src/oplab/filename_to_date.py
@@ -171,9 +171,13 @@ class FilenameToDate:
         df["epoch_timestamp"] = ""
 
         df_index_name = None
+        df_epoch_name = None
         for c in columns:
             name = c["name"]
             content = c["content"]
+            if content == "epoch_timestamp":
+                df_epoch_name = name
+                continue
             # If it is not index columns, concatenate all columns into one
             if "iii" not in content and content != "filename":
                 df["combined"] += df[name].astype(str)
@@ -188,10 +192,15 @@ class FilenameToDate:
         last_idx = int(df.shape[0])
         Console.info("Found", last_idx, "timestamp records in", filename)
 
-        df["epoch_timestamp"] = [
-            self.string_to_epoch(combined, combined_format)
-            for combined, combined_format in zip(df["combined"], df["combined_format"])
-        ]
+        if df_epoch_name is not None:
+            df["epoch_timestamp"] = df[df_epoch_name].astype(float)
+        else:
+            df["epoch_timestamp"] = [
+                self.string_to_epoch(combined, combined_format)
+                for combined, combined_format in zip(
+                    df["combined"], df["combined_format"]
+                )
+            ]
 
         df = df.drop("combined", axis=1)
         df = df.drop("combined_format", axis=1)
-- 
2.43.0


From fbc62424c31822a02cc835d352d0e330e1c0e5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:01 +0000
Subject: [PATCH 120/142] fix: mean and standard deviation of
 pixel_stats_folder are transposed

---
 src/scripts/pixel_stats_folder.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/scripts/pixel_stats_folder.py b/src/scripts/pixel_stats_folder.py
index f6e7ab8..4dcddd9 100644
--- a/src/scripts/pixel_stats_folder.py
+++ b/src/scripts/pixel_stats_folder.py
@@ -249,14 +249,14 @@ for i in range(image_channels):
 
     image_raw_mean = cv2.resize(
         image_raw_mean_scaled_t,
-        (orig_image_height, orig_image_width),
+        (orig_image_width, orig_image_height),
         cv2.INTER_CUBIC,
-    ).transpose(2, 1, 0)
+    ).transpose(2, 0, 1)
     image_raw_std = cv2.resize(
         image_raw_std_scaled_t,
-        (orig_image_height, orig_image_width),
+        (orig_image_width, orig_image_height),
         cv2.INTER_CUBIC,
-    ).transpose(2, 1, 0)
+    ).transpose(2, 0, 1)
 
     """
     image_raw_mean_fig = image_raw_mean.transpose(1, 2, 0)
-- 
2.43.0


From 75586805058b87ef9c6e38d83501cb91c0149620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:01 +0000
Subject: [PATCH 121/142] fix: saturated pixels wrap to black in
 pixel_stats_folder

---
 src/scripts/pixel_stats_folder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scripts/pixel_stats_folder.py b/src/scripts/pixel_stats_folder.py
index 4dcddd9..a9511fa 100644
--- a/src/scripts/pixel_stats_folder.py
+++ b/src/scripts/pixel_stats_folder.py
@@ -122,7 +122,7 @@ def correct_image(
     # apply scaling to 8 bit and format image to unit8
     filename = Path(output_folder) / image_name.name
     output_image *= 2 ** (src_bit)
-    output_image = output_image.astype(np.uint8)
+    output_image = np.clip(output_image, 0, 255).astype(np.uint8)
     imageio.imwrite(filename, output_image)
 
 
-- 
2.43.0


From 633957f5f3e8952818e0644a51bbd99fbc851be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:01 +0000
Subject: [PATCH 122/142] fix: only the first ALR file given after -a is
 corrected

---
 src/scripts/adjust_alr_to_biocam_time.py | 508 ++++++++++++-----------
 1 file changed, 256 insertions(+), 252 deletions(-)

diff --git a/src/scripts/adjust_alr_to_biocam_time.py b/src/scripts/adjust_alr_to_biocam_time.py
index 504d7ba..cfdb034 100644
--- a/src/scripts/adjust_alr_to_biocam_time.py
+++ b/src/scripts/adjust_alr_to_biocam_time.py
@@ -1,252 +1,256 @@
-"""
-Copyright (c) 2023, University of Southampton
-All rights reserved.
-Licensed under the BSD 3-Clause License.
-See LICENSE.md file in the project root for full license information.
-"""
-
-import argparse
-import pandas as pd
-import numpy as np
-from pathlib import Path
-import matplotlib.pyplot as plt
-
-
-class TimeCorrector:
-    def __init__(
-            self,
-            biocam_serial_log,
-            alr_timesamped_file,
-            timestamp_col,
-            divisions_per_second,
-            plot,
-            force
-        ):
-        self.biocam_serial_log = biocam_serial_log
-        self.alr_timesamped_file = alr_timesamped_file
-        self.timestamp_col = timestamp_col
-        self.divisions_per_second = divisions_per_second
-        self.plot = plot
-        self.force = force
-        self.output_files = []
-
-
-    def populate_output_file_path(self):
-        if self.alr_timesamped_file is None:
-            return
-
-        for atf in self.alr_timesamped_file:
-            if atf[0][-4:] != ".csv":
-                print(f"{atf[0]} does not end in .csv. Only .csv files are supported.")
-                print("Aborting.")
-                quit()
-            self.output_files.append(atf[0].replace(".csv", "_corrected.csv"))
-        
-        output_file_exists = [Path(of).exists() for of in self.output_files]
-        if not self.force and any(output_file_exists):
-            existing_paths = np.array(self.output_files)[np.array(output_file_exists)]
-            print(f"The output file(s) {existing_paths.tolist()} already exist(s).")
-            print("Use -f to force overwrite.")
-            print("Aborting.")
-            quit()
-
-            
-    def analyse_time_differences(self):
-        timestamps_bc_0_ms = []
-        timestamps_alr_ms = []
-        timestamps_bc_1_ms = []
-
-        for bsl in self.biocam_serial_log:
-            print(f"Reading BioCam and ALR time differences from serial log at {bsl}")
-
-            if not Path(bsl).exists():
-                print(f"{bsl} does not exist. Aborting.")
-                quit()
-
-            # Open serial log text file
-            with open(bsl, "r") as f:
-                lines = f.readlines()
-
-            # Extract timestamps
-            for line in lines:
-                if "poll_time:" in line:
-                    timestamps_bc_0_ms.append(int(line.split(",")[1]))
-                    timestamps_alr_ms.append(int(line.split(",")[5]))
-                    timestamps_bc_1_ms.append(int(line.split(",")[7]))
-        
-        if len(timestamps_bc_0_ms) == 0:
-            print("No time poll lines found in the serial log. Aborting.")
-            quit()
-
-        if timestamps_bc_0_ms != sorted(timestamps_bc_0_ms):
-            print(
-                "Timestamps are not sorted. Please indicate BioCam serial losg in "
-                "temporal order. Aborting."
-            )
-            quit()
-
-        if timestamps_alr_ms != sorted(timestamps_alr_ms):
-            print(
-                "ALR timestamps are not sorted while BioCam timestamps are. This "
-                "shoudld normally not happen. Aborting."
-            )
-            quit()
-
-        timestamps_bc_mean_ms = [
-            (float(a)+float(b))/2 for a,b in zip(timestamps_bc_0_ms, timestamps_bc_1_ms)
-        ]
-        
-        b01 = []
-        b0a = []
-        ab1 = []
-        bma = []
-        for i in range(len(timestamps_bc_0_ms)):
-            b01.append(timestamps_bc_1_ms[i] - timestamps_bc_0_ms[i])
-            b0a.append(timestamps_alr_ms[i] - timestamps_bc_0_ms[i])
-            ab1.append(timestamps_bc_1_ms[i] - timestamps_alr_ms[i])
-            bma.append(timestamps_alr_ms[i] - timestamps_bc_mean_ms[i])
-
-        if self.plot:
-            fig, axs = plt.subplots(2, 1, sharex=True)
-            axs[0].plot(bma, label="Time difference ALR-BioCam")
-            axs[0].legend()
-            axs[0].set_ylabel("Time difference (ms)") 
-            axs[1].plot(b01, label="Poll time from ALR to reply received")
-            axs[1].legend()
-            axs[1].set_ylabel("Duration (ms)")
-            plt.xlabel("Sample number")
-            plt.show()
-        
-        # Parametrise conversion from ALR to BioCam time
-        # BioCam time = slope * ALR time + offset
-        self.offsets_s = [offset/1000. for offset in timestamps_bc_mean_ms]
-        self.timestamps_alr_s = [t_alr_ms/1000. for t_alr_ms in timestamps_alr_ms]
-        self.slopes = []
-        for i in range(len(timestamps_alr_ms)-1):
-            delta_t_bc_mean_ms = timestamps_bc_mean_ms[i+1] - timestamps_bc_mean_ms[i]
-            delta_t_alr_ms = timestamps_alr_ms[i+1] - timestamps_alr_ms[i]
-            self.slopes.append(delta_t_bc_mean_ms/delta_t_alr_ms)
-    
-
-    def check_if_inside_modelled_timespan(self, alr_timestamp_start, alr_timestamp_end):
-        alr_timestamp_start_s = alr_timestamp_start / self.divisions_per_second
-        alr_timestamp_end_s = alr_timestamp_end / self.divisions_per_second
-        if alr_timestamp_start_s < self.timestamps_alr_s[0]:
-            print(
-                "Warning: The first timestamp in the current file is "
-                f"{self.timestamps_alr_s[0] - alr_timestamp_start_s:.1f}s before the "
-                "range of timestamps used to model the time difference. Extraploating "
-                "the model based on the first two points."
-            )
-        if alr_timestamp_end_s > self.timestamps_alr_s[-1]:
-            print(
-                "Warning: The last timestamp in the current file is "
-                f"{alr_timestamp_end_s - self.timestamps_alr_s[-1]:.1f}s after the "
-                "range of timestamps used to model the time difference. Extraploating "
-                "the model based on the last two points."
-            )
-
-
-    def correct_timestamp(self, alr_timestamp):
-        alr_timestamp_s = alr_timestamp / self.divisions_per_second
-        # Find the two closest ALR timestamps
-        j = 0
-        for i in range(len(self.timestamps_alr_s)-1):
-            if alr_timestamp_s >= self.timestamps_alr_s[i]:
-                j = i
-
-        t = (alr_timestamp_s-self.timestamps_alr_s[j])*self.slopes[j]+self.offsets_s[j]
-        return t
-
-    def correct_timestamps(self):
-        if self.alr_timesamped_file is None:
-            print("No ALR timestamped file(s) provided.")
-            return
-
-        for atf_in, out in zip(self.alr_timesamped_file, self.output_files):
-            print(f"Reading ALR timestamped file from {atf_in[0]}")
-            df = pd.read_csv(atf_in[0])
-            if self.timestamp_col not in df.columns:
-                print(
-                    f"{atf_in[0]} has no column named {self.timestamp_col}. Aborting."
-                )
-                quit()
-            print(f"Correcting timestamps")
-            self.check_if_inside_modelled_timespan(
-                df[self.timestamp_col][0], df[self.timestamp_col].iat[-1]
-            )
-            df.insert(0, "corrected_timestamp", np.nan)
-            df["corrected_timestamp"] = df[self.timestamp_col].apply(
-                self.correct_timestamp
-            )
-            print(f"Saving corrected timestamps to {out}")
-            df.to_csv(out, index=False)
-
-
-def main():
-    parser = argparse.ArgumentParser(
-        description=(
-            "This script determines the time difference between BioCam and ALR, and "
-            "corrects ALR timestamped files, and/or plots the time difference. "
-            "The ALR timestamped file(s) (if provided) must be csv files containing a "
-            "column named 'timestamp' containing epoch timestamps. The corrected "
-            "timestamps are written to a new column named 'corrected_timestamp' and "
-            "the files are saved with the same names as the original files, with "
-            "'_corrected' appended before the filename extension."	
-        ),
-        formatter_class=argparse.ArgumentDefaultsHelpFormatter
-    )
-    parser.add_argument(
-        "biocam_serial_log",
-        nargs="+", action="append",
-        help=(
-            "BioCam serial log file(s). If there is more than one serial log file for "
-            "an ALR mission, indicate all of them to obtain the best time correction "
-            "across the entire dive. Must be indicated in temporal order."
-        )
-    )
-    parser.add_argument(
-        "-a", "--alr_timesamped_file",
-        nargs="+", action="append",
-        help="File(s) timestamped by ALR"
-    )
-    parser.add_argument(
-        "-t", "--timestamp_col", default="timestamp",
-        help=(
-            "Name of the column containing the timestamps. The same is assumed for all "
-            "ALR timestamped files provided."
-        )
-    )
-    parser.add_argument(
-        "-d", "--divisions_per_second", type=float, default=1,
-        help=(
-            "Number of divisions per second in the ALR timestamped file(s), "
-            "e.g. 1 for seconds, 1000 for milliseconds, 1000000 for microseconds. "
-            "The same is assumed for all ALR timestamped files provided."
-        )
-    )
-    parser.add_argument(
-        "-p", "--plot", action="store_true",
-        help="Plot the time difference between BioCam and ALR"
-    )
-    parser.add_argument(
-        "-f", "--force", action="store_true", help="Force overwrite of existing files"
-    )
-    args = parser.parse_args()
-
-    tc = TimeCorrector(
-        args.biocam_serial_log[0],
-        args.alr_timesamped_file,
-        args.timestamp_col,
-        args.divisions_per_second,
-        args.plot,
-        args.force
-    )
-    tc.populate_output_file_path()
-    tc.analyse_time_differences()
-    tc.correct_timestamps()
-    print("Done.")
-
-
-if __name__ == "__main__":
-    main()
+"""
+Copyright (c) 2023, University of Southampton
+All rights reserved.
+Licensed under the BSD 3-Clause License.
+See LICENSE.md file in the project root for full license information.
+"""
+
+import argparse
+import pandas as pd
+import numpy as np
+from pathlib import Path
+import matplotlib.pyplot as plt
+
+
+class TimeCorrector:
+    def __init__(
+            self,
+            biocam_serial_log,
+            alr_timesamped_file,
+            timestamp_col,
+            divisions_per_second,
+            plot,
+            force
+        ):
+        self.biocam_serial_log = biocam_serial_log
+        self.alr_timesamped_file = alr_timesamped_file
+        self.timestamp_col = timestamp_col
+        self.divisions_per_second = divisions_per_second
+        self.plot = plot
+        self.force = force
+        self.output_files = []
+
+
+    def populate_output_file_path(self):
+        if self.alr_timesamped_file is None:
+            return
+
+        for atf in self.alr_timesamped_file:
+            if atf[0][-4:] != ".csv":
+                print(f"{atf[0]} does not end in .csv. Only .csv files are supported.")
+                print("Aborting.")
+                quit()
+            self.output_files.append(atf[0].replace(".csv", "_corrected.csv"))
+        
+        output_file_exists = [Path(of).exists() for of in self.output_files]
+        if not self.force and any(output_file_exists):
+            existing_paths = np.array(self.output_files)[np.array(output_file_exists)]
+            print(f"The output file(s) {existing_paths.tolist()} already exist(s).")
+            print("Use -f to force overwrite.")
+            print("Aborting.")
+            quit()
+
+            
+    def analyse_time_differences(self):
+        timestamps_bc_0_ms = []
+        timestamps_alr_ms = []
+        timestamps_bc_1_ms = []
+
+        for bsl in self.biocam_serial_log:
+            print(f"Reading BioCam and ALR time differences from serial log at {bsl}")
+
+            if not Path(bsl).exists():
+                print(f"{bsl} does not exist. Aborting.")
+                quit()
+
+            # Open serial log text file
+            with open(bsl, "r") as f:
+                lines = f.readlines()
+
+            # Extract timestamps
+            for line in lines:
+                if "poll_time:" in line:
+                    timestamps_bc_0_ms.append(int(line.split(",")[1]))
+                    timestamps_alr_ms.append(int(line.split(",")[5]))
+                    timestamps_bc_1_ms.append(int(line.split(",")[7]))
+        
+        if len(timestamps_bc_0_ms) == 0:
+            print("No time poll lines found in the serial log. Aborting.")
+            quit()
+
+        if timestamps_bc_0_ms != sorted(timestamps_bc_0_ms):
+            print(
+                "Timestamps are not sorted. Please indicate BioCam serial losg in "
+                "temporal order. Aborting."
+            )
+            quit()
+
+        if timestamps_alr_ms != sorted(timestamps_alr_ms):
+            print(
+                "ALR timestamps are not sorted while BioCam timestamps are. This "
+                "shoudld normally not happen. Aborting."
+            )
+            quit()
+
+        timestamps_bc_mean_ms = [
+            (float(a)+float(b))/2 for a,b in zip(timestamps_bc_0_ms, timestamps_bc_1_ms)
+        ]
+        
+        b01 = []
+        b0a = []
+        ab1 = []
+        bma = []
+        for i in range(len(timestamps_bc_0_ms)):
+            b01.append(timestamps_bc_1_ms[i] - timestamps_bc_0_ms[i])
+            b0a.append(timestamps_alr_ms[i] - timestamps_bc_0_ms[i])
+            ab1.append(timestamps_bc_1_ms[i] - timestamps_alr_ms[i])
+            bma.append(timestamps_alr_ms[i] - timestamps_bc_mean_ms[i])
+
+        if self.plot:
+            fig, axs = plt.subplots(2, 1, sharex=True)
+            axs[0].plot(bma, label="Time difference ALR-BioCam")
+            axs[0].legend()
+            axs[0].set_ylabel("Time difference (ms)") 
+            axs[1].plot(b01, label="Poll time from ALR to reply received")
+            axs[1].legend()
+            axs[1].set_ylabel("Duration (ms)")
+            plt.xlabel("Sample number")
+            plt.show()
+        
+        # Parametrise conversion from ALR to BioCam time
+        # BioCam time = slope * ALR time + offset
+        self.offsets_s = [offset/1000. for offset in timestamps_bc_mean_ms]
+        self.timestamps_alr_s = [t_alr_ms/1000. for t_alr_ms in timestamps_alr_ms]
+        self.slopes = []
+        for i in range(len(timestamps_alr_ms)-1):
+            delta_t_bc_mean_ms = timestamps_bc_mean_ms[i+1] - timestamps_bc_mean_ms[i]
+            delta_t_alr_ms = timestamps_alr_ms[i+1] - timestamps_alr_ms[i]
+            self.slopes.append(delta_t_bc_mean_ms/delta_t_alr_ms)
+    
+
+    def check_if_inside_modelled_timespan(self, alr_timestamp_start, alr_timestamp_end):
+        alr_timestamp_start_s = alr_timestamp_start / self.divisions_per_second
+        alr_timestamp_end_s = alr_timestamp_end / self.divisions_per_second
+        if alr_timestamp_start_s < self.timestamps_alr_s[0]:
+            print(
+                "Warning: The first timestamp in the current file is "
+                f"{self.timestamps_alr_s[0] - alr_timestamp_start_s:.1f}s before the "
+                "range of timestamps used to model the time difference. Extraploating "
+                "the model based on the first two points."
+            )
+        if alr_timestamp_end_s > self.timestamps_alr_s[-1]:
+            print(
+                "Warning: The last timestamp in the current file is "
+                f"{alr_timestamp_end_s - self.timestamps_alr_s[-1]:.1f}s after the "
+                "range of timestamps used to model the time difference. Extraploating "
+                "the model based on the last two points."
+            )
+
+
+    def correct_timestamp(self, alr_timestamp):
+        alr_timestamp_s = alr_timestamp / self.divisions_per_second
+        # Find the two closest ALR timestamps
+        j = 0
+        for i in range(len(self.timestamps_alr_s)-1):
+            if alr_timestamp_s >= self.timestamps_alr_s[i]:
+                j = i
+
+        t = (alr_timestamp_s-self.timestamps_alr_s[j])*self.slopes[j]+self.offsets_s[j]
+        return t
+
+    def correct_timestamps(self):
+        if self.alr_timesamped_file is None:
+            print("No ALR timestamped file(s) provided.")
+            return
+
+        for atf_in, out in zip(self.alr_timesamped_file, self.output_files):
+            print(f"Reading ALR timestamped file from {atf_in[0]}")
+            df = pd.read_csv(atf_in[0])
+            if self.timestamp_col not in df.columns:
+                print(
+                    f"{atf_in[0]} has no column named {self.timestamp_col}. Aborting."
+                )
+                quit()
+            print(f"Correcting timestamps")
+            self.check_if_inside_modelled_timespan(
+                df[self.timestamp_col][0], df[self.timestamp_col].iat[-1]
+            )
+            df.insert(0, "corrected_timestamp", np.nan)
+            df["corrected_timestamp"] = df[self.timestamp_col].apply(
+                self.correct_timestamp
+            )
+            print(f"Saving corrected timestamps to {out}")
+            df.to_csv(out, index=False)
+
+
+def main():
+    parser = argparse.ArgumentParser(
+        description=(
+            "This script determines the time difference between BioCam and ALR, and "
+            "corrects ALR timestamped files, and/or plots the time difference. "
+            "The ALR timestamped file(s) (if provided) must be csv files containing a "
+            "column named 'timestamp' containing epoch timestamps. The corrected "
+            "timestamps are written to a new column named 'corrected_timestamp' and "
+            "the files are saved with the same names as the original files, with "
+            "'_corrected' appended before the filename extension."	
+        ),
+        formatter_class=argparse.ArgumentDefaultsHelpFormatter
+    )
+    parser.add_argument(
+        "biocam_serial_log",
+        nargs="+", action="append",
+        help=(
+            "BioCam serial log file(s). If there is more than one serial log file for "
+            "an ALR mission, indicate all of them to obtain the best time correction "
+            "across the entire dive. Must be indicated in temporal order."
+        )
+    )
+    parser.add_argument(
+        "-a", "--alr_timesamped_file",
+        nargs="+", action="append",
+        help="File(s) timestamped by ALR"
+    )
+    parser.add_argument(
+        "-t", "--timestamp_col", default="timestamp",
+        help=(
+            "Name of the column containing the timestamps. The same is assumed for all "
+            "ALR timestamped files provided."
+        )
+    )
+    parser.add_argument(
+        "-d", "--divisions_per_second", type=float, default=1,
+        help=(
+            "Number of divisions per second in the ALR timestamped file(s), "
+            "e.g. 1 for seconds, 1000 for milliseconds, 1000000 for microseconds. "
+            "The same is assumed for all ALR timestamped files provided."
+        )
+    )
+    parser.add_argument(
+        "-p", "--plot", action="store_true",
+        help="Plot the time difference between BioCam and ALR"
+    )
+    parser.add_argument(
+        "-f", "--force", action="store_true", help="Force overwrite of existing files"
+    )
+    args = parser.parse_args()
+
+    tc = TimeCorrector(
+        [bsl for group in args.biocam_serial_log for bsl in group],
+        (
+            None
+            if args.alr_timesamped_file is None
+            else [[atf] for group in args.alr_timesamped_file for atf in group]
+        ),
+        args.timestamp_col,
+        args.divisions_per_second,
+        args.plot,
+        args.force
+    )
+    tc.populate_output_file_path()
+    tc.analyse_time_differences()
+    tc.correct_timestamps()
+    print("Done.")
+
+
+if __name__ == "__main__":
+    main()
-- 
2.43.0


From 3ef01de6fa2466d6074610a38d26c8f9706f6cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:01 +0000
Subject: [PATCH 123/142] fix: folder names containing .csv change in the name
 of the corrected file

---
 src/scripts/adjust_alr_to_biocam_time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scripts/adjust_alr_to_biocam_time.py b/src/scripts/adjust_alr_to_biocam_time.py
index cfdb034..629c721 100644
--- a/src/scripts/adjust_alr_to_biocam_time.py
+++ b/src/scripts/adjust_alr_to_biocam_time.py
@@ -40,7 +40,7 @@ class TimeCorrector:
                 print(f"{atf[0]} does not end in .csv. Only .csv files are supported.")
                 print("Aborting.")
                 quit()
-            self.output_files.append(atf[0].replace(".csv", "_corrected.csv"))
+            self.output_files.append(atf[0][:-4] + "_corrected.csv")
         
         output_file_exists = [Path(of).exists() for of in self.output_files]
         if not self.force and any(output_file_exists):
-- 
2.43.0


From c2e9ff0b2bfb982e8d4510c7ba15fe625f446efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:01 +0000
Subject: [PATCH 124/142] fix: compute_max_brightness fails on greyscale images

---
 src/scripts/compute_max_brightness.py | 121 +++++++++++++-------------
 1 file changed, 61 insertions(+), 60 deletions(-)

diff --git a/src/scripts/compute_max_brightness.py b/src/scripts/compute_max_brightness.py
index 5fb7743..84c0c36 100644
--- a/src/scripts/compute_max_brightness.py
+++ b/src/scripts/compute_max_brightness.py
@@ -1,60 +1,61 @@
-"""Compute max brightness for each image in a folder
-
-Usage:
-compute_max_brightness.py [-h] image_folder [output]
-
-positional arguments:
-  image_folder  Folder with images to be analysed
-  output        Path of CSV file with max brightness for each image to be written
-                (default: image_brightness.csv)
-
-optional arguments:
-  -h, --help    show this help message and exit
-
-Copyright (c) 2024, University of Southampton
-All rights reserved.
-Licensed under the BSD 3-Clause License.
-See LICENSE.md file in the project root for full license information.
-"""
-
-import argparse
-from pathlib import Path
-
-import imageio
-import pandas as pd
-import tqdm
-
-parser = argparse.ArgumentParser(
-    formatter_class=argparse.ArgumentDefaultsHelpFormatter,
-    description=(
-        "Compute max brightness for each image in a folder. This can be used to find "
-        "images with very bright spots, e.g. fish that were close to the strobes and "
-        "cameras. These can then be excluded from the training of attenuation "
-        "parameters, to avoid introducing artefacts. Use this in combination with "
-        "find_images_with_artefacts.py. To avoid getting many false positives, apply "
-        "this on images that have been corrected with a low mean value (e.g. 5)."
-    ),
-)
-parser.add_argument("image_folder", type=str, help="Folder with images to be analysed")
-parser.add_argument(
-    "output",
-    type=str,
-    nargs="?",
-    default="image_brightness.csv",
-    help="Path of CSV file with max brightness for each image to be written",
-)
-args = parser.parse_args()
-
-image_files = [f for f in Path(args.image_folder).glob("*.jpg")]
-image_files.extend([f for f in Path(args.image_folder).glob("*.png")])
-
-max_brightnesses = []
-print(f"Computing max brightness for {len(image_files)} images")
-for image_file in tqdm.tqdm(image_files, desc="Compute max brightness for each image"):
-    img = imageio.v2.imread(image_file)
-    # Convert to grayscale
-    img = img.mean(axis=2)
-    max_brightnesses.append(img.max())
-
-df = pd.DataFrame({"path": image_files, "max_brightness": max_brightnesses})
-df.to_csv(args.output, index=False)
+"""Compute max brightness for each image in a folder
+
+Usage:
+compute_max_brightness.py [-h] image_folder [output]
+
+positional arguments:
+  image_folder  Folder with images to be analysed
+  output        Path of CSV file with max brightness for each image to be written
+                (default: image_brightness.csv)
+
+optional arguments:
+  -h, --help    show this help message and exit
+
+Copyright (c) 2024, University of Southampton
+All rights reserved.
+Licensed under the BSD 3-Clause License.
+See LICENSE.md file in the project root for full license information.
+"""
+
+import argparse
+from pathlib import Path
+
+import imageio
+import pandas as pd
+import tqdm
+
+parser = argparse.ArgumentParser(
+    formatter_class=argparse.ArgumentDefaultsHelpFormatter,
+    description=(
+        "Compute max brightness for each image in a folder. This can be used to find "
+        "images with very bright spots, e.g. fish that were close to the strobes and "
+        "cameras. These can then be excluded from the training of attenuation "
+        "parameters, to avoid introducing artefacts. Use this in combination with "
+        "find_images_with_artefacts.py. To avoid getting many false positives, apply "
+        "this on images that have been corrected with a low mean value (e.g. 5)."
+    ),
+)
+parser.add_argument("image_folder", type=str, help="Folder with images to be analysed")
+parser.add_argument(
+    "output",
+    type=str,
+    nargs="?",
+    default="image_brightness.csv",
+    help="Path of CSV file with max brightness for each image to be written",
+)
+args = parser.parse_args()
+
+image_files = [f for f in Path(args.image_folder).glob("*.jpg")]
+image_files.extend([f for f in Path(args.image_folder).glob("*.png")])
+
+max_brightnesses = []
+print(f"Computing max brightness for {len(image_files)} images")
+for image_file in tqdm.tqdm(image_files, desc="Compute max brightness for each image"):
+    img = imageio.v2.imread(image_file)
+    # Convert to grayscale
+    if img.ndim == 3:
+        img = img.mean(axis=2)
+    max_brightnesses.append(img.max())
+
+df = pd.DataFrame({"path": image_files, "max_brightness": max_brightnesses})
+df.to_csv(args.output, index=False)
-- 
2.43.0


From 965ea8cae43159c23f7ee8406be314209e4849eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:01 +0000
Subject: [PATCH 125/142] fix: debayer_folder writes no images for the pattern
 MONO

---
 src/scripts/debayer_folder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scripts/debayer_folder.py b/src/scripts/debayer_folder.py
index 90ecf60..4e12cce 100644
--- a/src/scripts/debayer_folder.py
+++ b/src/scripts/debayer_folder.py
@@ -61,7 +61,7 @@ def debayer(image_fn, pattern: str, output_folder: Path) -> np.ndarray:
     elif pattern == "gbrg" or pattern == "GBRG":
         corrected_rgb_img = cv2.cvtColor(image, cv2.COLOR_BAYER_GR2BGR_EA)
     elif pattern == "mono" or pattern == "MONO":
-        return image
+        corrected_rgb_img = image
     else:
         print("Bayer pattern not supported (", pattern, ")")
     fname = output_folder / (fname_stem + ".png")
-- 
2.43.0


From 2b8bb5cb9558ade5e90fd324460adb0e8bb8899c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:01 +0000
Subject: [PATCH 126/142] fix: extract_rosbag_images does nothing when run

---
 src/scripts/extract_rosbag_images.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/scripts/extract_rosbag_images.py b/src/scripts/extract_rosbag_images.py
index 0e0afa4..0d8cb39 100644
--- a/src/scripts/extract_rosbag_images.py
+++ b/src/scripts/extract_rosbag_images.py
@@ -36,3 +36,7 @@ def main():
             count += 1
         bag.close()
     return
+
+
+if __name__ == "__main__":
+    main()
-- 
2.43.0


From 9fe959e7e7921fc8766d8a5ca377505318c18fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:31 +0000
Subject: [PATCH 127/142] fix: depth maps of all dives but the last are ignored

---
 src/correct_images/corrector.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/correct_images/corrector.py b/src/correct_images/corrector.py
index abfd4f3..2924171 100644
--- a/src/correct_images/corrector.py
+++ b/src/correct_images/corrector.py
@@ -110,6 +110,7 @@ class Corrector:
         self.processed_image_list = []
         self.altitude_list = []
         self.depth_map_list = []
+        self.dive_folders = {}  # processed folder of each dive, by its raw folder
 
         # Members for folder paths
         self.output_dir_path = None
@@ -161,6 +162,7 @@ class Corrector:
         self.path_raw = get_raw_folder(path)
         self.path_processed = get_processed_folder(path)
         self.path_config = get_config_folder(path)
+        self.dive_folders[self.path_raw] = self.path_processed
 
         self.mission = Mission(self.path_raw / "mission.yaml")
 
@@ -685,7 +687,15 @@ class Corrector:
                 Console.quit("Depth maps folder", path_depth, "does not exist.")
             images_to_drop = []
             for img_idx, image_path in enumerate(self.camera_image_list):
-                p = path_depth / os.path.relpath(image_path, self.path_raw)
+                # The images can be from several dives
+                path_raw = self.path_raw
+                for dive_folder in self.dive_folders:
+                    if dive_folder in Path(image_path).parents:
+                        path_raw = dive_folder
+                p = self.dive_folders[path_raw] / path_depth.relative_to(
+                    self.path_processed
+                )
+                p = p / os.path.relpath(image_path, path_raw)
                 p = p.with_name(p.stem + "_depthmap.npy")
                 if p.exists():
                     self.depth_map_list.append(p)
-- 
2.43.0


From 9a38927b3a10a57df3e3d205e824bcb573ab3283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:51 +0000
Subject: [PATCH 128/142] fix: zeroes bias the statistics that should ignore
 them

---
 src/correct_images/tools/numerical.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/correct_images/tools/numerical.py b/src/correct_images/tools/numerical.py
index a5a3986..32887a5 100644
--- a/src/correct_images/tools/numerical.py
+++ b/src/correct_images/tools/numerical.py
@@ -82,7 +82,6 @@ def running_mean_std(
     (np.ndarray, np.ndarray)
         Mean and std arrays
     """
-    count = 0
     tmp = None
     if width is not None and height is not None:
         tmp = loader(file_list[0], width, height)
@@ -90,6 +89,8 @@ def running_mean_std(
         tmp = loader(file_list[0])
     dimensions = tmp.shape
 
+    # Number of values so far, for each pixel if zeroes are ignored
+    count = np.zeros(dimensions, dtype=np.float32) if ignore_zeroes else 0
     mean = np.zeros(dimensions, dtype=np.float32)
     mean2 = np.zeros(dimensions, dtype=np.float32)
     std = np.zeros(dimensions, dtype=np.float32)
@@ -100,14 +101,15 @@ def running_mean_std(
         else:
             value = loader(item).astype(np.float32)
         if ignore_zeroes:
+            count += value != 0
             value[value == 0] = mean[value == 0]
-        count += 1
+        else:
+            count += 1
         delta = value - mean
-        mean += delta / count
+        mean += delta / np.maximum(count, 1)
         delta2 = value - mean
         mean2 += delta * delta2
-    if count > 1:
-        std = np.sqrt(mean2 / count)
+    std = np.sqrt(mean2 / np.maximum(count, 1))
     return mean, std
 
 
-- 
2.43.0


From 51d0151504edb796648e89d0dadbab6f3b948794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:02 +0000
Subject: [PATCH 129/142] fix: SLAM++ edges of images without a 7-digit number
 make the writer fail

---
 src/auv_nav/tools/csv_tools.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/auv_nav/tools/csv_tools.py b/src/auv_nav/tools/csv_tools.py
index 35d0207..ac51572 100644
--- a/src/auv_nav/tools/csv_tools.py
+++ b/src/auv_nav/tools/csv_tools.py
@@ -286,14 +286,11 @@ def spp_csv(camera_list, camera_name, csv_filepath, csv_flag):
                             offset = int(imagenumber)
                         image_filename = int(imagenumber) - offset
                     else:
-                        image_filename = camera_list[i].filename
+                        image_filename = i
                         Console.warn(
-                            "image_filename for csv output has been"
-                            + " set = camera_list[i].filename. If"
-                            + " a failure has occurred, may be"
-                            + " because this is not a number and"
-                            + ' cannot be turned into an "int", as'
-                            + " needed for SLAM++ txt file output."
+                            "There is no image number in "
+                            + str(camera_list[i].filename)
+                            + ", its position in the list is used instead."
                         )
                     str_to_write += (
                         "EDGE3"
-- 
2.43.0


From 4d7b34e89487e027fe5e4b9d1a3ba0c4bb8b0e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:58 +0000
Subject: [PATCH 130/142] fix: relative poses for SLAM++ change the poses that
 are being written, and are made for one camera only

---
 src/auv_nav/process.py | 57 +++++++++++++++++++++++++-----------------
 1 file changed, 34 insertions(+), 23 deletions(-)

diff --git a/src/auv_nav/process.py b/src/auv_nav/process.py
index 4989600..aa7ab8d 100644
--- a/src/auv_nav/process.py
+++ b/src/auv_nav/process.py
@@ -82,6 +82,20 @@ csv files and, if plot is True, save plots
 """
 
 
+def sequential_relative_poses(camera_list):
+    """Copies of the poses (but the last), relative to the pose that follows"""
+    relative_list = [copy.copy(camera) for camera in camera_list[:-1]]
+    for camera, following in zip(relative_list, camera_list[1:]):
+        camera.northings -= following.northings
+        camera.eastings -= following.eastings
+        camera.depth -= following.depth
+        camera.roll -= following.roll
+        camera.pitch -= following.pitch
+        camera.yaw -= following.yaw
+        camera.information = following.information
+    return relative_list
+
+
 def process(
     filepath,
     force_overwite,
@@ -2058,20 +2072,16 @@ def process(
             for i in range(len(camera3_ekf_list)):
                 camera3_ekf_list[i].get_info()
         Console.info("Converting poses into sequential-relative poses...")
-        for i in range(len(camera1_ekf_list) - 1):
-            camera1_ekf_list[i].northings -= camera1_ekf_list[i + 1].northings
-            camera1_ekf_list[i].eastings -= camera1_ekf_list[i + 1].eastings
-            camera1_ekf_list[i].depth -= camera1_ekf_list[i + 1].depth
-            camera1_ekf_list[i].roll -= camera1_ekf_list[i + 1].roll
-            camera1_ekf_list[i].pitch -= camera1_ekf_list[i + 1].pitch
-            camera1_ekf_list[i].yaw -= camera1_ekf_list[i + 1].yaw
-            camera1_ekf_list[i].information = camera1_ekf_list[i + 1].information
-        camera1_ekf_list = camera1_ekf_list[:-1]
+        # The poses themselves are still being written and plotted by other threads
+        camera1_spp_list, camera2_spp_list, camera3_spp_list = [
+            sequential_relative_poses(camera_list)
+            for camera_list in (camera1_ekf_list, camera2_ekf_list, camera3_ekf_list)
+        ]
 
         t = threading.Thread(
             target=spp_csv,
             args=[
-                camera1_ekf_list,
+                camera1_spp_list,
                 "auv_ekf_" + mission.image.cameras[0].name,
                 ekfcsvpath,
                 spp_ekf_camera_1,
@@ -2079,23 +2089,24 @@ def process(
         )
         t.start()
         threads.append(t)
-        t = threading.Thread(
-            target=spp_csv,
-            args=[
-                camera2_ekf_list,
-                "auv_ekf_" + mission.image.cameras[1].name,
-                ekfcsvpath,
-                spp_ekf_camera_2,
-            ],
-        )
-        t.start()
-        threads.append(t)
+        if len(camera2_ekf_list) > 1:
+            t = threading.Thread(
+                target=spp_csv,
+                args=[
+                    camera2_spp_list,
+                    "auv_ekf_" + mission.image.cameras[1].name,
+                    ekfcsvpath,
+                    spp_ekf_camera_2,
+                ],
+            )
+            t.start()
+            threads.append(t)
         if len(camera3_ekf_list) > 1:
             if len(mission.image.cameras) > 2:
                 t = threading.Thread(
                     target=spp_csv,
                     args=[
-                        camera3_ekf_list,
+                        camera3_spp_list,
                         "auv_ekf_" + mission.image.cameras[2].name + "_laser",
                         ekfcsvpath,
                         spp_ekf_camera_3,
@@ -2107,7 +2118,7 @@ def process(
                 t = threading.Thread(
                     target=spp_csv,
                     args=[
-                        camera3_ekf_list,
+                        camera3_spp_list,
                         "auv_ekf_" + mission.image.cameras[1].name + "_laser",
                         ekfcsvpath,
                         spp_ekf_camera_3,
-- 
2.43.0


From ecabe6318f1f9f29059000c13ac07f410a2e4137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:01 +0000
Subject: [PATCH 131/142] fix: relative uncertainties of dives with two cameras
 cannot be computed

---
 src/auv_nav/process.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/auv_nav/process.py b/src/auv_nav/process.py
index aa7ab8d..e3d6f61 100644
--- a/src/auv_nav/process.py
+++ b/src/auv_nav/process.py
@@ -1358,11 +1358,15 @@ def process(
         ekf_activate = True
 
         # Load previously computed states and covariances
+        # With two cameras (BioCam) the second one sees the laser
+        laser_camera_name = mission.image.cameras[
+            2 if len(mission.image.cameras) > 2 else 1
+        ].name
         ekf_state_file_path = (
             renavpath
             / "csv"
             / "ekf"
-            / ("auv_ekf_" + mission.image.cameras[2].name + "_laser_at_dvl.csv")
+            / ("auv_ekf_" + laser_camera_name + "_laser_at_dvl.csv")
         )
         laser_camera_at_dvl_states = load_states(
             ekf_state_file_path, start_image_identifier, end_image_identifier
-- 
2.43.0


From cb0cf76d22d41415701b28546356f6e03797121c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:15 +0000
Subject: [PATCH 132/142] fix: poses of relative uncertainties at the DVL are
 those of the vehicle origin

---
 src/auv_nav/process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/auv_nav/process.py b/src/auv_nav/process.py
index e3d6f61..3fff756 100644
--- a/src/auv_nav/process.py
+++ b/src/auv_nav/process.py
@@ -1473,7 +1473,7 @@ def process(
     if compute_relative_pose_uncertainty:
         camera3_ekf_list_cropped = update_camera_list(
             camera3_ekf_list_cropped,
-            ekf_list,
+            ekf_list_dvl,
             [0, 0, 0],
             [0, 0, 0],
             latlon_reference,
-- 
2.43.0


From 19be79c6b99503380b15a8c23b61afb312dd4d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:02 +0000
Subject: [PATCH 133/142] fix: there is no slider plot of dives that are
 shorter than 40 seconds or have no images

---
 src/auv_nav/plot/plot_process_data.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/auv_nav/plot/plot_process_data.py b/src/auv_nav/plot/plot_process_data.py
index d1f1ed4..56e779d 100644
--- a/src/auv_nav/plot/plot_process_data.py
+++ b/src/auv_nav/plot/plot_process_data.py
@@ -1475,6 +1475,9 @@ def plot_2d_deadreckoning(
     }
 
     # slider plot
+    if len(plotly_list_slider) == 0:
+        Console.warn("No images or USBL measurements to plot in auv_path_slider.html.")
+        return
     # might not be robust in the future
     min_timestamp = float("inf")
     max_timestamp = float("-inf")
@@ -1485,7 +1488,7 @@ def plot_2d_deadreckoning(
         if max(timestamp_list) > max_timestamp:
             max_timestamp = max(timestamp_list)
     # time_gap = 240
-    time_gap = int((max_timestamp - min_timestamp) / 40)
+    time_gap = max(1, int((max_timestamp - min_timestamp) / 40))
     epoch_timestamps_slider = list(
         range(int(min_timestamp), int(max_timestamp), int(time_gap))
     )
-- 
2.43.0


From 66953b1bf7b88cc39943bc7475693c997000f821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:02 +0000
Subject: [PATCH 134/142] fix: the slider plot moves USBL fixes and particle
 filter poses in place of other tracks

---
 src/auv_nav/plot/plot_process_data.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/auv_nav/plot/plot_process_data.py b/src/auv_nav/plot/plot_process_data.py
index 56e779d..4ad1af7 100644
--- a/src/auv_nav/plot/plot_process_data.py
+++ b/src/auv_nav/plot/plot_process_data.py
@@ -1520,6 +1520,9 @@ def plot_2d_deadreckoning(
                 i,
             )
 
+        # Without this, frames are applied to the first traces of the figure
+        trace_names = [trace["name"] for trace in figure["data"]]
+        frame["traces"] = [trace_names.index(trace["name"]) for trace in frame["data"]]
         figure["frames"].append(frame)
         slider_step = {
             "args": [
-- 
2.43.0


From 65ebcbaf1c08f4ce86deb80c42771707e43e1191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:02 +0000
Subject: [PATCH 135/142] fix: parsing ends at the first dive with quickly
 following measurements

---
 src/auv_nav/plot/plot_parse_data.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/auv_nav/plot/plot_parse_data.py b/src/auv_nav/plot/plot_parse_data.py
index f490c5a..f413d26 100644
--- a/src/auv_nav/plot/plot_parse_data.py
+++ b/src/auv_nav/plot/plot_parse_data.py
@@ -7,7 +7,6 @@ See LICENSE.md file in the project root for full license information.
 """
 
 import json
-import sys
 import time
 
 import plotly.graph_objs as go
@@ -93,7 +92,7 @@ def data2trace(i, j, t, plotlytable_info_list):
         # print (time_difference, n, len(j))
         n += 1
         if n > 10:
-            sys.exit(0)
+            break
     line = print_lines(j[0], time_difference)
     t.add_row([j[0]["category"], len(j), line[0], line[1]])
 
-- 
2.43.0


From 3a82bc1f589d80984563ae9d7b94a85a732cb315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:50 +0000
Subject: [PATCH 136/142] fix: there are no track plots when the particle
 filter is used

---
 src/auv_nav/plot/plot_process_data.py | 27 +++++++--------------------
 1 file changed, 7 insertions(+), 20 deletions(-)

diff --git a/src/auv_nav/plot/plot_process_data.py b/src/auv_nav/plot/plot_process_data.py
index 4ad1af7..5fc8d06 100644
--- a/src/auv_nav/plot/plot_process_data.py
+++ b/src/auv_nav/plot/plot_process_data.py
@@ -1400,29 +1400,16 @@ def plot_2d_deadreckoning(
                 for i in pf_fusion_dvl_list
             ],
         )
-        pf_timestamps_interval = []
         pf_eastings_interval = []
         pf_northings_interval = []
         if particles_time_interval is not False:
-            for i in pf_particles_list[0]:
-                pf_timestamps_interval.append(
-                    float(pf_particles_list[0][0].timestamps[0])
-                )
-                pf_eastings_interval.append(float(i.eastings[0]))
-                pf_northings_interval.append(float(i.northings[0]))
-            timestamp_value_tracker = pf_particles_list[0][0].timestamps[0]
-
-            for i in range(len(pf_particles_list)):
-                # timestamp_index_tracker = 0
-                for j in range(len(pf_particles_list[i][0].timestamps)):
-                    if (
-                        pf_particles_list[i][0].timestamps[j] - timestamp_value_tracker
-                    ) > particles_time_interval:
-                        for k in pf_particles_list[i]:
-                            pf_timestamps_interval.append(float(k.timestamps[j]))
-                            pf_eastings_interval.append(float(k.eastings[j]))
-                            pf_northings_interval.append(float(k.northings[j]))
-                        timestamp_value_tracker = pf_particles_list[i][0].timestamps[j]
+            timestamp_value_tracker = float("-inf")
+            for i in sorted(pf_particles_list, key=lambda j: j[0].time):
+                if (i[0].time - timestamp_value_tracker) > particles_time_interval:
+                    for k in i:
+                        pf_eastings_interval.append(float(k.eastings))
+                        pf_northings_interval.append(float(k.northings))
+                    timestamp_value_tracker = i[0].time
             make_data(
                 figure,
                 "pf_dvl_distribution",
-- 
2.43.0


From 467df4bb2de874a28bc698cb9b2579bcb368ed5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:54 +0000
Subject: [PATCH 137/142] fix: without USBL fixes the particle filter writes
 poses that were not computed

---
 src/auv_nav/process.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/auv_nav/process.py b/src/auv_nav/process.py
index 3fff756..a74a9a6 100644
--- a/src/auv_nav/process.py
+++ b/src/auv_nav/process.py
@@ -1177,8 +1177,17 @@ def process(
     else:
         Console.warn("There are no USBL measurements. Starting DR at origin...")
 
+    if particle_filter_activate and len(usbl_list) == 0:
+        Console.warn("The particle filter needs USBL measurements. It is not run.")
+        particle_filter_activate = False
+        camera1_pf_list = []
+        camera2_pf_list = []
+        camera3_pf_list = []
+        for key in pf_payload_dict:
+            del payload_dict[key]
+
     # particle filter data fusion of usbl_data and dvl_imu_data
-    if particle_filter_activate and len(usbl_list) > 0:
+    if particle_filter_activate:
         Console.info("Running PF...")
         pf_start_time = time.time()
         [
-- 
2.43.0


From 755c431a75c2358288e1698dbaf77ef632704838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:09 +0000
Subject: [PATCH 138/142] fix: find developed images of the third camera in
 auv_cal stereo

---
 src/auv_cal/calibration.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/auv_cal/calibration.py b/src/auv_cal/calibration.py
index d1b04c2..33de1fd 100644
--- a/src/auv_cal/calibration.py
+++ b/src/auv_cal/calibration.py
@@ -481,7 +481,8 @@ class Calibrator:
             left_extension = str(c0["camera_calibration"]["glob_pattern"])
             right_name = c2["name"]
             right_filepaths = build_filepath(
-                self.filepath, c2["camera_calibration"]["path"]
+                get_processed_folder(self.filepath),
+                c2["camera_calibration"]["path"],
             )
             right_extension = str(c2["camera_calibration"]["glob_pattern"])
             left_calibration_file = self.output_path / str(
-- 
2.43.0


From 9bfd5e8ea688a99c2a980fe9d5c1812e2e18d0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:37 +0000
Subject: [PATCH 139/142] fix: auv_cal mono stops at a camera whose images do
 not show the board

---
 src/auv_cal/camera_calibrator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/auv_cal/camera_calibrator.py b/src/auv_cal/camera_calibrator.py
index b6dd9e6..281fe0f 100644
--- a/src/auv_cal/camera_calibrator.py
+++ b/src/auv_cal/camera_calibrator.py
@@ -662,6 +662,8 @@ class MonoCalibrator(Calibrator):
 
                         if name == "":
                             name = i[2].stem
+        if not self.good_corners:
+            raise CalibrationException("No corners found in images!")
         filename = Path("/tmp/" + self.name + "_corners.png")
         if self.resize:
             filename = Path("/tmp/resized_" + self.name + "_corners.png")
@@ -670,8 +672,6 @@ class MonoCalibrator(Calibrator):
         print("Writing corners image to " + str(filename))
         cv2.imwrite(str(filename), all_detections)
 
-        if not self.good_corners:
-            raise CalibrationException("No corners found in images!")
         print("Using " + str(len(self.good_corners)) + " inlier files!")
         filename = Path("/tmp/" + self.name + "/" + name + "_inliers.txt")
         if self.resize:
-- 
2.43.0


From 54d287a872608c35213f9b519fc8b20abe40a431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:53 +0000
Subject: [PATCH 140/142] fix: NOC CTI tide parser skips the first record of
 files with the documented header

---
 src/auv_nav/parsers/parse_tide_CTI.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/auv_nav/parsers/parse_tide_CTI.py b/src/auv_nav/parsers/parse_tide_CTI.py
index 38aa1c5..73e8210 100644
--- a/src/auv_nav/parsers/parse_tide_CTI.py
+++ b/src/auv_nav/parsers/parse_tide_CTI.py
@@ -50,9 +50,10 @@ def parse_tide_CTI(mission, vehicle, category, ftype, outpath):
         # 2022-07-09T01:00:00Z,1.09346,0.11924,94
         for file in file_list:
             with file.open("r", errors="ignore") as tide_file:
-                for line in tide_file.readlines()[
-                    6:
-                ]:  # Skip first 5 lines of header information
+                for line in tide_file.readlines():
+                    # Skip the header: records start with the date
+                    if not line[0:4].isdigit():
+                        continue
                     # YYYY-MM-DD
                     yyyy = int(line[0:4])
                     mm = int(line[5:7])
-- 
2.43.0


From 648cce0cedf0a26bfd7ac0d507ce3490e7fe7b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:48 +0000
Subject: [PATCH 141/142] fix: process crashed when a writing thread made the
 csv folder between the test for it and its creation

---
 src/auv_nav/process.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/auv_nav/process.py b/src/auv_nav/process.py
index a74a9a6..9c03e2d 100644
--- a/src/auv_nav/process.py
+++ b/src/auv_nav/process.py
@@ -1759,8 +1759,7 @@ def process(
         Console.info("Writing csv outputs to {}".format(csvpath))
         if csv_usbl:
             if len(usbl_list) > 1:
-                if not csvpath.exists():
-                    csvpath.mkdir()
+                csvpath.mkdir(exist_ok=True)
                 auv_usbl_file = csvpath / "auv_usbl.csv"
                 with auv_usbl_file.open("w") as fileout:
                     fileout.write(
-- 
2.43.0


From c7f918a54f7f39db46d0f01ec2450667822823ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:22 +0000
Subject: [PATCH 142/142] fix: PHINS attitude, velocity and altitude telegrams
 without a readable clock were stamped with the next one

---
 src/auv_nav/parsers/parse_phins.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/auv_nav/parsers/parse_phins.py b/src/auv_nav/parsers/parse_phins.py
index 2965641..b2fd555 100644
--- a/src/auv_nav/parsers/parse_phins.py
+++ b/src/auv_nav/parsers/parse_phins.py
@@ -97,6 +97,9 @@ class PhinsParser:
         self.depth = Depth(depth_std_factor, self.timestamp)
         self.altitude = Altitude(altitude_std_factor)
 
+        # The last clock could not be read
+        self.clock_lost = False
+
     def set_timestamp(self, epoch_timestamp):
         self.body_velocity.epoch_timestamp = epoch_timestamp
         self.inertial_velocity.epoch_timestamp = epoch_timestamp
@@ -185,6 +188,11 @@ class PhinsParser:
         if header == PhinsHeaders.TIME:
             epoch_timestamp = self.timestamp.epoch_timestamp_from_phins(line)
             self.set_timestamp(epoch_timestamp)
+            self.clock_lost = epoch_timestamp is None
+
+        if self.clock_lost:
+            # What follows has no time, and must not get that of the next clock
+            return data
 
         if self.category == Category.VELOCITY:
             if header == PhinsHeaders.DVL:
-- 
2.43.0

