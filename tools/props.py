"""The property list; tools/mkmeta.py turns it into properties.jsonl and MANIFEST.json."""
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                  files=files, mech=mech, technique=technique, note=note))


prop("C01", "Attitude rotations follow the yaw-pitch-roll convention and invert",
     "Rotating a body-frame vector into the north-east-down frame applies roll, then pitch, then "
     "heading, for any attitude and vector, and preserves its length; rotating it back returns the "
     "original vector, and Euler angles recovered from a rotation matrix reproduce that matrix. "
     "Angular rates estimated from consecutive orientations equal the true constant rate at every "
     "position of the list, also when the heading passes north, and the lever-arm term of a "
     "rotating vehicle is the cross product of angular rate and lever arm.",
     ["inputs"], "all roll, pitch, heading angles, vectors, rotation matrices, lever arms and "
     "orientation lists",
     "The tests rotate a few hand-picked vectors about single axes; errors in one matrix term, in "
     "mixed-axis attitudes or at the 360 degree wrap are not reached.",
     ["src/auv_nav/tools/body_to_inertial.py", "src/auv_nav/tools/inertial_to_body.py",
      "src/auv_nav/tools/dvl_level_arm.py", "src/auv_cal/euler_angles_from_rotation_matrix.py"],
     [("body_to_inertial", "src/auv_nav/tools/body_to_inertial.py"),
      ("inertial_to_body", "src/auv_nav/tools/inertial_to_body.py"),
      ("compute_angular_speeds, correct_lever_arm", "src/auv_nav/tools/dvl_level_arm.py"),
      ("euler_angles_from_rotation_matrix", "src/auv_cal/euler_angles_from_rotation_matrix.py")],
     "property-based testing: reference rotation matrix, inverse round trip, norm invariant",
     "Generated attitudes, vectors and orientation lists against matrices built from the three "
     "elementary rotations; floating-point tolerance 1e-9. The sign of the lever-arm term is a "
     "known finding and is accepted either way.")

prop("C02", "Local metric coordinates and latitude/longitude agree on WGS84",
     "Converting a metric offset from a reference point to latitude/longitude and back returns the "
     "same offset, anywhere on the globe (both hemispheres, across the antimeridian), and distances "
     "and bearings are those of the WGS84 ellipsoid. A position fix is stored with eastings and "
     "northings relative to the origin of the dive, keeps its own latitude, longitude, depth and "
     "time, has non-negative uncertainties that follow the configured depth-dependent model, and a "
     "magnetic declination turns it about the origin without changing its range.",
     ["inputs"], "all reference points, offsets, fixes and declinations",
     "The existing tests convert one or two points; sign errors for other hemispheres, at the "
     "antimeridian or for negative offsets stay invisible.",
     ["src/auv_nav/tools/latlon_wgs84.py", "src/auv_nav/sensors.py"],
     [("metres_to_latlon, latlon_to_metres", "src/auv_nav/tools/latlon_wgs84.py"),
      ("Usbl", "src/auv_nav/sensors.py")],
     "property-based testing: round trip and differential against GeographicLib",
     "Generated positions against geographiclib's WGS84 geodesics (an independent library).")

prop("C03", "Every time stamp becomes the right UTC epoch, whatever zone, format or host",
     "A calendar instant given with a zone offset, a zone name, an INS time telegram, the digits of "
     "a file name or a row of a time-stamp table is mapped to the same UTC epoch as its definition, "
     "with sub-second digits kept, and independently of the time zone of the computer. The text "
     "form used to name output folders and its inverse agree for every instant, and telegram times "
     "that do not exist are rejected instead of being moved to another time.",
     ["inputs", "configurations"], "all instants, zone offsets, file-name patterns, time-stamp "
     "tables and host time zones",
     "Tests run in one host zone on a handful of instants; zone, month-end, leap-day and pattern "
     "combinations are unbounded.",
     ["src/auv_nav/tools/time_conversions.py", "src/auv_nav/parsers/parse_phins.py",
      "src/oplab/filename_to_date.py"],
     [("date_time_to_epoch, string_to_epoch, epoch_to_datetime, read_timezone",
       "src/auv_nav/tools/time_conversions.py"),
      ("PhinsTimestamp", "src/auv_nav/parsers/parse_phins.py"),
      ("FilenameToDate", "src/oplab/filename_to_date.py")],
     "property-based testing: calendar reference model, round trip, host-zone metamorphic",
     "Generated instants, patterns, zones against calendar arithmetic from 1970-01-01; the host "
     "zone is varied with tzset.")

prop("C04", "Interpolation is linear, exact at samples and takes headings the short way round",
     "A quantity interpolated between two samples is the time-weighted mean of them, equals the "
     "sample at the sample times and uses the two samples that enclose the query time; headings are "
     "interpolated the short way round and stay within 0..360 degrees. Interpolated covariance "
     "matrices stay symmetric and positive semi-definite.",
     ["inputs"], "all sample series and query times inside them",
     "Tests interpolate one query in one two-sample list; the first and last intervals, the samples "
     "themselves and wrap-arounds are not covered.",
     ["src/auv_nav/tools/interpolate.py"],
     [("interpolate, interpolate_dvl, interpolate_usbl, interpolate_altitude, interpolate_camera, "
       "interpolate_covariance", "src/auv_nav/tools/interpolate.py")],
     "property-based testing: reference interpolation, exactness and wrap invariants",
     "Generated series; queries inside the sampled interval only (no extrapolation is asserted).")

prop("C05", "Each image or sensor sample sits at the vehicle pose plus its mounting offset",
     "Every image or payload sample taken while navigation is available is kept, in order, with the "
     "vehicle pose interpolated to its own time stamp, displaced by the rotated mounting offset of "
     "the sensor (altitude reduced by what depth gains), and with a latitude/longitude that matches "
     "that displaced position; samples outside the navigation are dropped, never placed. "
     "Uncertainties and covariances are interpolated between the same two states, and samples placed "
     "from a filtered state keep the pose and uncertainties of that state.",
     ["inputs"], "all vehicle tracks, sample times (before, inside, exactly on and after states), "
     "mounting offsets and origins",
     "The one existing test has a single straight track; misplacements that need a turn, an offset, a "
     "sample in the last interval or an off-origin vehicle frame are not reached.",
     ["src/auv_nav/tools/interpolate.py", "src/auv_nav/sensors.py"],
     [("interpolate_sensor_list", "src/auv_nav/tools/interpolate.py"),
      ("Camera.fromSyncedBodyVelocity", "src/auv_nav/sensors.py")],
     "property-based testing: reference pose model over generated tracks",
     "Generated tracks with turning vehicles against an independent pose model.")

prop("C10", "The dead-reckoned track is the integral of the measured velocities",
     "From parsed navigation data, processing produces a track that starts at the first moment with "
     "velocity and orientation, moves by the trapezoidal integral of the DVL velocity (moved to the "
     "rotating vehicle by the lever arm, turned into north/east by the measured attitude), carries the "
     "interpolated depth and altitude, and is reported for the DVL and for the vehicle origin with the "
     "mounting offsets rotated. Only measurements inside the requested time window count, DVL samples "
     "whose own clock disagrees with the vehicle clock are ignored, and uncertainties come from the "
     "sensor or from the configured model. Images, laser images and payload rows are written with the "
     "pose of the track at their own time, with their own file name or data and with matching "
     "latitude and longitude.",
     ["inputs", "configurations"], "all dives (sampling times, velocities, attitudes, mounting "
     "offsets, cameras, payloads, time windows, uncertainty models)",
     "No test runs the processing step at all; its result depends on how asynchronous sensor streams "
     "interleave, on the window and on the vehicle geometry.",
     ["src/auv_nav/process.py", "src/auv_nav/localisation/dead_reckoning.py",
      "src/auv_nav/tools/csv_tools.py"],
     [("process", "src/auv_nav/process.py"),
      ("dead_reckoning", "src/auv_nav/localisation/dead_reckoning.py")],
     "property-based testing: generated dives through the real process(), reference integration model",
     "Complete generated dives are run through auv_nav.process.process and all written csv files are "
     "compared with an independent integration model. Depth/altitude before their first sample are "
     "not asserted; the sign of the lever-arm term is C01's known finding and accepted either way.")

prop("C11", "USBL fixes are kept or rejected by stated rules and shift the track without bias",
     "The USBL filter keeps exactly the fixes whose time is covered by the depth record, whose depth "
     "agrees with the interpolated vehicle depth within the configured multiple of the combined "
     "uncertainties, and whose distance to the two fixes before and the two after it (of those that agree "
     "in depth) is reachable at the maximum vehicle speed within that multiple; it never alters a fix and "
     "keeps the order. The offset between USBL and "
     "dead reckoning is an average of the differences at the times of the fixes, so that fixes that are "
     "the track plus a constant vector give that vector, a shift of the fixes shifts the offset by the same "
     "amount, and fixes without overlapping track are ignored.",
     ["inputs"], "all depth records, fix series, uncertainties, tracks and filter parameters",
     "The repository has no test of either; rejection depends on neighbours, uncertainties and edges.",
     ["src/auv_nav/localisation/usbl_filter.py", "src/auv_nav/localisation/usbl_offset.py"],
     [("usbl_filter", "src/auv_nav/localisation/usbl_filter.py"),
      ("usbl_offset", "src/auv_nav/localisation/usbl_offset.py")],
     "property-based testing: reference filter, metamorphic shift of the offset",
     "Generated fix and depth series; cases within 1e-6 of a decision boundary are not judged.")

prop("C06", "Parsed packets end up in time order, none lost, altered or invented",
     "After parsing, nav_standard.json holds exactly the packets of all sensors, each unchanged, sorted "
     "by time stamp, with the origin first; packets with equal times are all kept. Merging several "
     "dives gives the time-ordered union of their packets.",
     ["inputs"], "all packet sequences, with any duplication and disorder of time stamps",
     "Tests do not run the interlacer; losing or reordering packets needs ties or late packets.",
     ["src/auv_nav/parsers/parse_interlacer.py", "src/auv_nav/parse.py"],
     [("parse_interlacer", "src/auv_nav/parsers/parse_interlacer.py"), ("merge", "src/auv_nav/parse.py")],
     "property-based testing: multiset and order invariants, merge union model",
     "Generated packet lists with ties through the real interlacer and the real merge.")

prop("C07", "Tide heights are removed from depths, and nothing else is changed",
     "Parsing a dive with a tide table subtracts the tide height, interpolated to the time of each "
     "depth or USBL sample, from its depth. Samples outside the table stay as measured, and every other "
     "packet and field is the same as without tide data, whatever time zone and offset the table uses.",
     ["inputs", "configurations"], "all logs, tide tables (step, zone, offset, coverage) and both table "
     "formats",
     "No test parses a dive with tide data; errors show only for samples in particular intervals.",
     ["src/auv_nav/parse.py", "src/auv_nav/parsers/parse_NOC_polpred.py",
      "src/auv_nav/parsers/parse_tide_CTI.py"],
     [("parse_single (tidal correction)", "src/auv_nav/parse.py"),
      ("parse_NOC_polpred", "src/auv_nav/parsers/parse_NOC_polpred.py"),
      ("parse_tide_CTI", "src/auv_nav/parsers/parse_tide_CTI.py")],
     "property-based testing: metamorphic (same dive with and without tide) and interpolation model",
     "Raw PHINS, NMEA and tide files are generated and parsed by parse_single twice.")

prop("C08", "Sensor measurements survive the standard JSON format",
     "A measurement written to the standard navigation format and read back has the same time stamp, "
     "values and (with the sensor model) uncertainties; with the linear model the uncertainties are the "
     "configured offset plus factor times the magnitude. A measurement that is not complete is never "
     "written, and writing one empties the record so that it cannot be written twice.",
     ["inputs"], "all measurements of every sensor class and all uncertainty models",
     "Tests round-trip one sample of a few classes and never an incomplete or repeated one.",
     ["src/auv_nav/sensors.py"],
     [("_to_json, from_json, export, valid, clear", "src/auv_nav/sensors.py")],
     "property-based testing: round trip, uncertainty model, export/clear state check",
     "Every sensor class of sensors.py, with generated values including None and numpy scalars.")

prop("C09", "Navigation CSV files hold each value under its column and reload unchanged",
     "Each record of a navigation solution is one row of the csv file, in order, with every quantity "
     "under its own heading and full precision, and its covariance in the matching row of the covariance "
     "file; an old file is replaced and a disabled output is not written. Reading the files back gives "
     "the same states, restricted to the requested range of images. The simplified navigation "
     "file keeps exactly the rows whose image exists, in time order, and never overwrites without force.",
     ["inputs"], "all lists of states, images and payload rows, ranges and image folders",
     "No test reads a written csv; a swapped, truncated or shifted column passes them.",
     ["src/auv_nav/tools/csv_tools.py", "src/auv_nav/sensors.py", "src/scripts/simplify_nav_file.py"],
     [("write_csv, load_states, write_sidescan_csv", "src/auv_nav/tools/csv_tools.py"),
      ("to_csv_row, from_df, to_csv_cov_row", "src/auv_nav/sensors.py"),
      ("simplify_nav_file", "src/scripts/simplify_nav_file.py")],
     "property-based testing: round trip through the written files, column oracle",
     "Records with distinct values per attribute are written, parsed independently and reloaded.")

prop("C12", "A PHINS log becomes exactly its intact telegrams",
     "Each telegram with a correct checksum and a readable clock gives one packet of its kind with the "
     "time of the log's clock converted to UTC (and its own sensor time), converted to the common "
     "conventions (forward/starboard/down velocities, signs of roll and pitch) and with the configured "
     "uncertainty. Telegrams that are corrupted, truncated, unknown or stamped with second 60 give no "
     "packet and disturb no other.",
     ["inputs", "faults"], "all logs, with any mixture of intact and damaged telegrams, time zones and "
     "time offsets",
     "The only test converts one time stamp; telegram order and corruption are not covered.",
     ["src/auv_nav/parsers/parse_phins.py", "src/auv_nav/sensors.py"],
     [("parse_phins", "src/auv_nav/parsers/parse_phins.py"), ("from_phins", "src/auv_nav/sensors.py")],
     "property-based testing: generated logs with injected corruption, reference decoder",
     "Generated logs against a reference decoder, and corrupting digits must equal removing the "
     "telegrams. Attitudes without a clock and the sense of the DVL yaw are not asserted.")

prop("C13", "USBL logs become one fix per valid report, in metres from the origin and UTC",
     "Each valid report of the configured beacon in a GAPS, USBL-dump, NMEA or Sonardyne (MRT, GGA) log gives "
     "one fix with its time in UTC whatever the zone of the log or of the computer, its latitude and longitude in the right hemisphere, the matching northing and easting "
     "from the mission origin, and (except Sonardyne GGA, which has neither) its depth and the uncertainty of "
     "the configured linear model in metres and in degrees; other beacons, invalid reports and noise give "
     "none. GAPS ship position and heading are interpolated to the time of the fix, heading the short way "
     "round; a Sonardyne MRT fix gets those closest in time.",
     ["inputs", "faults"], "all logs, hemispheres, zones, beacons and orders of reports",
     "No test parses a USBL log.",
     ["src/auv_nav/parsers/parse_gaps.py", "src/auv_nav/parsers/parse_usbl_dump.py",
      "src/auv_nav/parsers/parse_NOC_nmea.py", "src/auv_nav/parsers/parse_sonardyne_mrt.py",
      "src/auv_nav/sensors.py"],
     [("parse_gaps", "src/auv_nav/parsers/parse_gaps.py"),
      ("parse_usbl_dump", "src/auv_nav/parsers/parse_usbl_dump.py"),
      ("parse_NOC_nmea", "src/auv_nav/parsers/parse_NOC_nmea.py"),
      ("parse_sonardyne_mrt, parse_sonardyne_gga..gga4", "src/auv_nav/parsers/parse_sonardyne_mrt.py")],
     "property-based testing: generated logs, reference decoder",
     "Generated log files; a fix directly after another without two ship positions between them is not "
     "generated.")

prop("C14", "ALR, Autosub, AE2000, RDI, NTNU/EIVA and ROV logs give one packet per usable row",
     "For each supported vehicle log, every row that is usable for a sensor (no missing value, bottom "
     "lock for DVL data) gives one packet with its UTC time (whatever the zone of the "
     "mission or of the computer), its values in the common units and conventions and the configured "
     "uncertainty; unusable rows, other beacons and corrupt sentences give none. In ALR, Autosub and ROV logs "
     "a repeated time stamp replaces the earlier packet.",
     ["inputs", "faults"], "all logs of the seven formats, with missing values, lost bottom lock, repeated "
     "times, zones and rotated DVLs",
     "No test parses any of these formats.",
     ["src/auv_nav/parsers/parse_alr.py", "src/auv_nav/parsers/parse_autosub.py",
      "src/auv_nav/parsers/parse_ae2000.py", "src/auv_nav/parsers/parse_eiva_navipac.py",
      "src/auv_nav/parsers/parse_ntnu_dvl.py",
      "src/auv_nav/parsers/parse_rdi.py", "src/auv_nav/parsers/parse_koyo21rov.py"],
     [("parse_alr", "src/auv_nav/parsers/parse_alr.py"),
      ("parse_ae2000", "src/auv_nav/parsers/parse_ae2000.py"),
      ("parse_eiva_navipac", "src/auv_nav/parsers/parse_eiva_navipac.py"),
      ("parse_ntnu_dvl", "src/auv_nav/parsers/parse_ntnu_dvl.py"),
      ("parse_autosub", "src/auv_nav/parsers/parse_autosub.py"),
      ("parse_rdi", "src/auv_nav/parsers/parse_rdi.py"),
      ("parse_koyo21rov", "src/auv_nav/parsers/parse_koyo21rov.py")],
     "property-based testing: generated logs (csv, mat, PD6), reference decoder",
     "Generated files in each format against a reference decoder.")

prop("C23", "Images are loaded, demosaiced, balanced and written with the right values",
     "Every supported raw format and bit depth is loaded to its value divided by full scale, with rows "
     "and columns where they were; demosaicing puts each measured colour in its own channel for all four "
     "Bayer patterns and keeps a uniform scene uniform. Manual balance applies the configured gain matrix "
     "and offset to each pixel, gamma correction is monotone and follows its curve, and the written file holds the 8-bit image even "
     "when the first writes fail.",
     ["inputs", "faults"], "all images, formats, bit depths, patterns, gains and failing writes",
     "Tests use one constant image per function; channel or axis swaps are invisible on it.",
     ["src/correct_images/loaders/default.py", "src/correct_images/loaders/xviii.py",
      "src/correct_images/loaders/depth_map.py", "src/correct_images/corrections/debayer.py",
      "src/correct_images/corrections/manual_balance.py", "src/correct_images/corrections/gamma.py",
      "src/correct_images/tools/file_handlers.py"],
     [("loader", "src/correct_images/loaders/default.py"), ("loader", "src/correct_images/loaders/xviii.py"),
      ("debayer", "src/correct_images/corrections/debayer.py"),
      ("manual_balance", "src/correct_images/corrections/manual_balance.py"),
      ("write_output_image", "src/correct_images/tools/file_handlers.py")],
     "property-based testing: reference implementation, injected write faults",
     "Random images against an independent implementation; borders of demosaiced images are only "
     "compared for uniform scenes.")

prop("C24", "Image statistics are the true per-pixel mean and standard deviation",
     "The running mean and standard deviation of any sequence of images, from memory or from files, equal "
     "the direct per-pixel statistics; a saturated sample counts as the mean so far and a missing depth not at all. "
     "Trimmed and median images are taken over the images, not over neighbouring pixels, and normalising "
     "a set of images with its own statistics gives the requested brightness and contrast.",
     ["inputs"], "all stacks of images, grey and colour, with saturated and missing pixels",
     "Tests use one stack.",
     ["src/correct_images/tools/numerical.py", "src/correct_images/corrections/pixel_stat.py"],
     [("RunningMeanStd, running_mean_std, image_mean_std_trimmed, median_array",
       "src/correct_images/tools/numerical.py"),
      ("pixel_stat", "src/correct_images/corrections/pixel_stat.py")],
     "property-based testing: differential against direct numpy statistics",
     "Random stacks; running_mean_std's zero handling of the first image is not asserted.")

prop("C25", "The attenuation model is fitted per pixel and removes the dependence on altitude",
     "Exact samples of the exponential model are recovered for every pixel and channel, in any order of "
     "the samples and regardless of unusable samples mixed in, within the physical bounds of the model; "
     "without a usable sample the neutral model is used. Correcting an image with the fitted model gives "
     "the intensity of the target altitude in every pixel, and parameters and gains belong to the pixel "
     "they were fitted for.",
     ["inputs"], "all models, sample orders, unusable samples, image shapes and depth maps",
     "Tests fit no curve with known parameters and correct one constant image.",
     ["src/correct_images/tools/curve_fitting.py", "src/correct_images/corrections/attenuation.py"],
     [("curve_fitting", "src/correct_images/tools/curve_fitting.py"),
      ("calculate_attenuation_parameters, calculate_correction_gains, attenuation_correct",
       "src/correct_images/corrections/attenuation.py")],
     "property-based testing: parameter recovery, metamorphic relations",
     "Models with attenuation between 0.05 and 0.8 per metre; noisy samples have a loose bound only.")

prop("C26", "correct_images develops exactly the images it should, and never overwrites",
     "Parsing and processing one or several dives develops exactly the images that are in the navigation "
     "solution, pass the altitude range and are in the image list, each with the brightness and contrast "
     "of the configuration computed from the images selected for parsing in all dives. A second run "
     "without force changes no file, and a run with force replaces the results; raw images and "
     "navigation are never changed.",
     ["inputs", "histories", "configurations"], "all dives, altitudes, image lists, camera types, "
     "suffixes and orders of commands",
     "No test runs the command on more than one fixed dive.",
     ["src/correct_images/correct_images.py", "src/correct_images/corrector.py",
      "src/correct_images/parser.py"],
     [("call_parse, call_process", "src/correct_images/correct_images.py"),
      ("Corrector.parse, Corrector.process, get_imagelist", "src/correct_images/corrector.py"),
      ("CorrectConfig", "src/correct_images/parser.py")],
     "property-based testing: generated dives end to end, reference developer, before/after file trees",
     "Small synthetic dives with grey-world and manual-balance corrections, compared to a reference.")

prop("C27", "Attenuation correction of a dive follows its altitude model from raw to output",
     "For a dive corrected by altitude or depth map, the samples of the model are the mean, median or "
     "trimmed image of each altitude bin with enough images at the mean distance of that bin, and the "
     "gains refer to the mean distance of the dive. Each output image is its raw image corrected with "
     "its own altitude and normalised with the statistics of the corrected images; images without a "
     "depth map give none, temporary files are removed and filelist.csv lists the outputs.",
     ["inputs", "configurations"], "all dives, altitude distributions, smoothing methods and camera types",
     "No test runs attenuation correction end to end.",
     ["src/correct_images/corrector.py", "src/correct_images/corrections/attenuation.py",
      "src/correct_images/tools/memmap.py"],
     [("Corrector.generate_attenuation_correction_parameters, process_correction",
       "src/correct_images/corrector.py")],
     "property-based testing: generated dives end to end, reference developer",
     "Synthetic dives of 30-50 small images; the reference recomputes every intermediate product.")

prop("C28", "Undistorted and rescaled images keep their content where geometry puts it",
     "Rescaling gives each image the requested metres per pixel at its own altitude, from the focal "
     "length of its camera, keeping its content in place, and with maintain_pixels also its size. "
     "Undistortion moves every pixel to where the pinhole model of the camera's calibration puts it, for "
     "colour and monochrome images. Run over a dive, both produce one image per input image that has "
     "navigation, leave the others alone and do not change their inputs.",
     ["inputs", "configurations"], "all image sizes, altitudes, calibrations, interpolation methods and dives",
     "No test rescales an image or undistorts one with a known distortion.",
     ["src/correct_images/corrections/undistort.py", "src/correct_images/corrections/rescale.py",
      "src/correct_images/corrector.py", "src/correct_images/correct_images.py"],
     [("rescale, rescale_images", "src/correct_images/corrections/rescale.py"),
      ("distortion_correct", "src/correct_images/corrections/undistort.py")],
     "property-based testing: analytic images, reference distortion model, generated dives",
     "Images with linear ramps; a distortion is applied analytically and must be undone within a pixel.")

prop("C18", "Camera models project, undistort, rectify and triangulate consistently",
     "For any calibrated camera, undistorting a distorted point returns the point, and for any rectified "
     "stereo rig the projections of a 3D point in both images lie on one epipolar line, triangulate to the "
     "point again and have the disparity of its depth. Calibration files that the camera models write "
     "read back as the same camera, and a downsized camera projects to the downsized pixel.",
     ["inputs"], "all camera matrices, distortions, stereo geometries, points and downsize ratios",
     "Tests construct cameras without projecting points through them.",
     ["src/oplab/camera_models.py"],
     [("MonoCamera, StereoCamera", "src/oplab/camera_models.py")],
     "property-based testing: analytic pinhole model, file round trip",
     "Cameras with moderate distortion and points in front of both cameras.")

prop("C29", "Camera calibration recovers the cameras that took the pictures",
     "From views of a calibration board the monocular calibration finds the camera matrix and distortion of "
     "the camera that saw it, rejecting a wrong view, and the stereo calibration finds the rotation and "
     "translation between two cameras, so that board corners triangulate to their true positions. Image "
     "pairs are matched by name or time and images without partner are ignored. The calibration files read "
     "back as the calibrated cameras and existing calibrations are not overwritten unless forced.",
     ["inputs", "configurations"], "all lenses, rigs, board types, views and file-name formats",
     "No test calibrates a camera; the known cameras of generated views give the truth.",
     ["src/auv_cal/camera_calibrator.py", "src/auv_cal/calibration.py"],
     [("MonoCalibrator, StereoCalibrator, find_common_filenames, resize_with_padding",
       "src/auv_cal/camera_calibrator.py"), ("Calibrator", "src/auv_cal/calibration.py")],
     "property-based testing: analytic projection of boards, rendered boards, file round trip",
     "Corners projected analytically by known cameras; few cases with rendered chessboard images.")

prop("C30", "Laser calibration finds the laser plane in stereo images",
     "The laser line is detected with sub-pixel accuracy in every searched column that shows it and in no "
     "other, and peaks of one column in both images triangulate to the 3D point. The fitted plane passes "
     "through the points within their noise, its inliers are the points within the threshold, each laser "
     "gets its own uncertainty planes through three of its inliers, and detections stored by a "
     "previous run give the same plane. Plane distances, angles and ray intersections are those of the "
     "plane, however its coefficients are scaled.",
     ["inputs", "histories", "configurations"], "all planes, point clouds, laser images, stereo rigs and file names",
     "Tests check build_plane and get_angles on a few normals.",
     ["src/auv_cal/laser_calibrator.py", "src/auv_cal/plane_fitting.py", "src/auv_cal/ransac.py"],
     [("LaserCalibrator, findLaserInImage, triangulate_lst, build_plane", "src/auv_cal/laser_calibrator.py"),
      ("Plane", "src/auv_cal/plane_fitting.py"), ("run_ransac", "src/auv_cal/ransac.py")],
     "property-based testing: analytic planes and rendered laser lines, reference geometry",
     "Rendered laser lines on tilted sea floors; small images.")

prop("C31", "ROS bags give the right navigation packets and developed images",
     "Every usable message of the configured topic, in all readable bags, gives one packet with its UTC time, its "
     "values in the units and conventions of the other sources (velocities turned by the mounting angle of the "
     "DVL) and a standard deviation that is the one of the message, or the configured one if the message has "
     "none; unusable messages and other topics give none and an unreadable bag does not affect the others. "
     "Images parsed from a bag are found again by their time and developed as that very image.",
     ["inputs", "faults", "configurations"], "all bags of the supported message types, zones and mounting angles",
     "No test reads a bag: ROS is not installed.",
     ["src/auv_nav/parsers/parse_rosbag.py", "src/auv_nav/sensors.py", "src/correct_images/loaders/rosbag.py",
      "src/correct_images/corrector.py", "src/oplab/camera_system.py"],
     [("parse_rosbag", "src/auv_nav/parsers/parse_rosbag.py"),
      ("from_ros of BodyVelocity, Orientation, Depth, Altitude, Usbl, Camera", "src/auv_nav/sensors.py"),
      ("loader", "src/correct_images/loaders/rosbag.py")],
     "property-based testing: generated bags behind a stand-in for the ROS packages, reference packets and images",
     "The ROS packages are replaced by a stand-in with their interface; up to ten messages and five images.")

prop("C16", "mission.yaml and vehicle.yaml are read and written without loss",
     "Every sensor frame, data source, camera, payload, time zone and option in mission.yaml and "
     "vehicle.yaml is read as given, in the current and the older file format, with the documented "
     "default where it is missing. Writing the configuration and reading it again gives the same "
     "configuration. A mission that refers to a frame which the vehicle does not have is reported instead "
     "of being processed.",
     ["inputs", "configurations"], "all mission and vehicle descriptions, in both file versions",
     "Tests load a few fixed files.",
     ["src/oplab/mission.py", "src/oplab/vehicle.py"],
     [("Mission, DefaultEntry, TimeZoneEntry, CameraEntry, Payload", "src/oplab/mission.py"),
      ("Vehicle, SensorOffset", "src/oplab/vehicle.py")],
     "property-based testing: generated configurations against a reference reader, write/read round trip",
     "Generated YAML with every optional key present or absent.")

prop("C17", "The dataset layout and camera.yaml lead to the right folders and images",
     "For any path inside a dataset the raw, processed and configuration folders mirror each other, asking "
     "for them changes nothing on disk, and a path in no dataset is refused. A camera described in "
     "camera.yaml lists all of its images and no others, in order, with the time in each file name and the "
     "size of the images; an incomplete description is refused.",
     ["inputs", "configurations"], "all dataset paths, folder trees, path patterns and file-name formats",
     "Tests look at a few fixed paths and never list images.",
     ["src/oplab/folder_structure.py", "src/oplab/camera_system.py"],
     [("get_folder, get_raw_folder, get_processed_folder, get_config_folder", "src/oplab/folder_structure.py"),
      ("CameraEntry.image_list, stamp_list, image_properties", "src/oplab/camera_system.py")],
     "property-based testing: generated folder trees against a reference listing",
     "One folder matches each wildcard of a pattern; which of several is used is not specified.")

prop("C22", "Image files become image entries with the right times, names and partners",
     "For every supported camera system each image is listed with the UTC time of its file name or time "
     "table, its mission's time zone and offset and its own file, independent of dives parsed before. Stereo "
     "images are paired with the image of the other camera nearest in time, if it is within 50 ms, and only "
     "then. BioCam camera clocks are converted to computer time along one line per camera that no image "
     "was recorded before.",
     ["inputs", "histories"], "all image times, partners, time zones, offsets, folder layouts and sequences of dives",
     "No test parses images.",
     ["src/auv_nav/parsers/parse_acfr_images.py", "src/auv_nav/parsers/parse_biocam_images.py",
      "src/auv_nav/parsers/parse_seaxerocks_images.py", "src/auv_nav/parsers/parse_ntnu_stereo.py",
      "src/auv_nav/parsers/parse_stereo_gopro.py", "src/auv_nav/parsers/parse_voyis.py"],
     [("parse_acfr_images", "src/auv_nav/parsers/parse_acfr_images.py"),
      ("parse_biocam_images, correct_timestamps", "src/auv_nav/parsers/parse_biocam_images.py"),
      ("parse_seaxerocks_images", "src/auv_nav/parsers/parse_seaxerocks_images.py")],
     "property-based testing: generated image folders against a reference pairing",
     "Empty files with generated names; pairs at exactly the tolerance are not judged.")

prop("C19", "The EKF smooths navigation into a consistent track near the truth",
     "Filter and smoother follow the Kalman equations for their motion model: each prediction, update, "
     "outlier gate and backward smoothing step gives the mean and covariance of the reference equations, "
     "covariances stay symmetric and non-negative, and angles are compared across the +-180 degree "
     "wrap. Measurements are used in time order whatever sensors they come from, the smoothed track "
     "follows the true motion within its noise, and every camera image gets the pose of its time stamp.",
     ["inputs", "histories"], "all sensor histories, rates, noise levels, outliers, headings and start states",
     "Tests run no EKF.",
     ["src/auv_nav/localisation/ekf.py"],
     [("EkfImpl, ExtendedKalmanFilter", "src/auv_nav/localisation/ekf.py"),
      ("update_camera_list, save_ekf_to_list", "src/auv_nav/localisation/ekf.py")],
     "property-based testing: reference Kalman filter and smoother, simulated vehicle tracks",
     "Tracking bounds allow for the lag of a constant-rate model in turns.")

prop("C20", "The particle filter follows dead reckoning and is held to the truth by USBL",
     "Particles move with the velocity, attitude, depth and altitude of the dead reckoning record of their "
     "time, spread by the configured sensor noise, and past states never change. Weights follow the "
     "distance to each USBL fix, stay normalised even after fixes that no particle explains, and "
     "resampling draws independent, equally weighted copies in proportion to the weights. The output has a "
     "state for each record and fix of the dive in time order and stays near the truth when dead "
     "reckoning drifts.",
     ["inputs", "histories"], "all tracks, noise models, fix times, outliers, particle numbers and random seeds",
     "Tests run no particle filter.",
     ["src/auv_nav/localisation/pf.py"],
     [("DeadReckoningMovementModel, UsblObservationModel, ParticleFilter, run_particle_filter",
       "src/auv_nav/localisation/pf.py")],
     "property-based testing: reference motion and weights, sampling statistics, simulated drift",
     "Statistics with 6 sigma bounds and fixed seeds; tracking with 100 particles.")

prop("C21", "auv_nav convert carries poses and measurements between formats unchanged",
     "Poses written to ACFR vehicle and stereo pose files have the units and columns their header "
     "states and read back, or convert to OPLAB CSVs, as the same poses, images and origin; "
     "oplab_to_acfr also writes each orientation, depth, position fix, image and DVL record of a "
     "dive in order. Images of HyBis and of the koyo20 ROV get the pose interpolated between the "
     "records just before and after them (heading across north included), at their camera, in "
     "folders named by UTC. No conversion replaces existing results unless forced.",
     ["inputs", "histories"], "all poses, attitudes, origins, record and image times, lever arms, time zones and repeated runs",
     "Tests read one ACFR stereo file; no conversion is run.",
     ["src/auv_nav/convert.py", "src/auv_nav/parsers/acfr_vehicle_pose.py", "src/auv_nav/parsers/acfr_stereo_pose.py",
      "src/auv_nav/parsers/acfr_combined_raw.py", "src/auv_nav/parsers/hybis.py", "src/auv_nav/parsers/koyo20rov.py"],
     [("acfr_to_oplab, oplab_to_acfr, hybis_to_oplab, koyo20rov_to_oplab", "src/auv_nav/convert.py"),
      ("AcfrVehiclePoseWriter, AcfrStereoPoseWriter, AcfrCombinedRawWriter", "src/auv_nav/parsers"),
      ("HybisParser", "src/auv_nav/parsers/hybis.py"), ("RovParser", "src/auv_nav/parsers/koyo20rov.py")],
     "property-based testing: write-read round trips, reference interpolation, repeated command runs",
     "Pose lists of at least two; HyBis images inside the recorded span; no duplicate record times.")

prop("C15", "auv_nav runs repeat, protect outputs, and give one rigid vehicle",
     "Parsing or processing again without force leaves every existing output as it is, with force it gives "
     "exactly what a run on fresh folders gives, and raw data and configuration never change. In the "
     "outputs of a run the tracks of the DVL, the vehicle's origin, each camera and each payload "
     "belong to one rigid vehicle with the lever arms of vehicle.yaml (position, depth and altitude), for "
     "particle filter and EKF alike, and every image inside the dive has its pose. Parts of a dive that are "
     "parsed and merged give the navigation of the dive in one part.",
     ["inputs", "histories", "configurations"], "all dives, sensor offsets, filter settings, time windows and sequences of parse, "
     "process, edits and forced runs",
     "Tests process no generated dive and never run twice.",
     ["src/auv_nav/process.py", "src/auv_nav/parse.py", "src/auv_nav/auv_nav.py", "src/auv_nav/localisation/ekf.py"],
     [("process", "src/auv_nav/process.py"), ("parse, parse_single", "src/auv_nav/parse.py"),
      ("save_ekf_to_list, update_camera_list", "src/auv_nav/localisation/ekf.py")],
     "stateful property-based testing: run histories against a model, output files against each other",
     "Small dives; dead reckoning itself is C10's subject.")

prop("C32", "Commands use the configuration given, or the defaults that ship for the dive",
     "The configuration of the suffix asked for counts, and camera.yaml of the configuration folder goes before "
     "that of the raw folder; a camera system other than the mission's, or a suffix with other characters, is refused. "
     "Without camera.yaml, correct_images.yaml or auv_nav.yaml the shipped ones of the image format find, date and "
     "develop the dive's images and give the outputs they state, and a file the user has edited is never "
     "replaced. A switch in auv_nav.yaml removes its own outputs only, and older or shorter forms of the "
     "file give the same outputs as the current one; every example mission that ships loads and fits its vehicle and cameras.",
     ["inputs", "configurations"], "all image formats, file combinations, suffixes, switches, configuration forms and image times",
     "Tests load two example missions and never run a command without or with a partial configuration.",
     ["src/correct_images/correct_images.py", "src/auv_nav/process.py", "src/oplab/camera_system.py",
      "src/oplab/filename_to_date.py", "src/auv_nav/default_yaml", "src/correct_images/default_yaml"],
     [("load_configuration_and_camera_system, main", "src/correct_images/correct_images.py"),
      ("process", "src/auv_nav/process.py"), ("CameraSystem, CameraEntry", "src/oplab/camera_system.py"),
      ("FilenameToDate", "src/oplab/filename_to_date.py")],
     "property-based testing: differential runs with equivalent configurations, reference table of the shipped defaults",
     "Filters need the factors and offsets of std; the type of a camera in mission.yaml is deprecated and ignored.")

prop("C33", "Helper scripts correct times, thin navigation lists and even out image folders",
     "ALR times become BioCam times on the line between the polls around them, for every file given; simplified and "
     "Squidle navigation lists hold the images of the folder, once, in time order, with their own poses, and acquisition "
     "statistics are those of the images below the altitude limit in the time window. Every image of a folder is measured for "
     "brightness, debayered, extracted from its bag under its own time, or evened to the mean and contrast of the folder at each pixel, "
     "and existing results stay unless forced.",
     ["inputs", "configurations"], "all logs, polls, navigation files, image folders, bag contents and command line options",
     "No test runs a script.",
     ["src/scripts"],
     [("TimeCorrector", "src/scripts/adjust_alr_to_biocam_time.py"), ("simplify_nav_file", "src/scripts/simplify_nav_file.py"),
      ("generate_nav_file_for_squidle", "src/scripts/generate_nav_file_for_squidle.py"),
      ("image_acquisition_stats", "src/scripts/image_acquisition_stats.py"),
      ("compute_max_brightness, find_images_with_artefacts", "src/scripts"), ("debayer", "src/scripts/debayer_folder.py"),
      ("pixel_stats_folder", "src/scripts/pixel_stats_folder.py"), ("main", "src/scripts/extract_rosbag_images.py")],
     "property-based testing: scripts run on generated files against reference results",
     "ROS bags are stand-ins; merge_dataset_csv and the virtual laser image generator are not run.")
prop("C34", "Relative poses and uncertainties follow from the poses of the dive",
     "For every camera, the edges written for SLAM++ join images in order of time, and each measurement is the difference "
     "of the poses written for both images, as seen from the first one, with an information matrix that is the inverse of the "
     "covariance of the pair; writing them changes no other output. The uncertainty of the images of a dive relative to its first image is zero for that image, is "
     "that of the written covariances for the method of subtraction, and that of the filter started with an exact pose for the method "
     "of propagation, for the images named and in their order, with one row per image in each file.",
     ["inputs", "configurations"], "all dives, cameras, image names, covariances and choices of first and last image",
     "No test runs either output.",
     ["src/auv_nav/tools/csv_tools.py", "src/auv_nav/process.py", "src/auv_nav/localisation/ekf.py"],
     [("spp_csv", "src/auv_nav/tools/csv_tools.py"), ("load_states", "src/auv_nav/tools/csv_tools.py"),
      ("process", "src/auv_nav/process.py"), ("save_ekf_to_list", "src/auv_nav/localisation/ekf.py")],
     "property-based testing: generated poses and dives against reference edges and differences",
     "Information matrices are compared where the covariance is well conditioned.")
prop("C35", "The interactive plots show what was measured and computed",
     "Every plot of a dive is written, for each combination of filters, cameras, USBL fixes and plot options. The traces of orientations, velocities, depths, "
     "altitudes, USBL fixes and uncertainties are the measurements used, at their times; the traces of the tracks, filters and "
     "their bounds agree with the files written by the same run; the frames of the slider show each track up to the time of the "
     "frame. The table and the history of parsed data list each measurement once, under its category and frame, at its time.",
     ["inputs", "configurations"], "all dives, filter settings and parsed measurements",
     "No test reads a plot.",
     ["src/auv_nav/plot/plot_process_data.py", "src/auv_nav/plot/plot_parse_data.py", "src/auv_nav/process.py"],
     [("plot_2d_deadreckoning, plot_deadreckoning_vs_time, plot_ekf_states_and_std_vs_time", "src/auv_nav/plot/plot_process_data.py"),
      ("plot_parse_data", "src/auv_nav/plot/plot_parse_data.py"), ("process", "src/auv_nav/process.py")],
     "property-based testing: figures read back from the pages, differential with the written files and a reference of the dive",
     "The uncertainty of the particle filter is not plotted by the code (its lists are empty) and not asserted.")
