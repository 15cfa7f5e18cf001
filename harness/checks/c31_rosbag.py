"""C31: data recorded in ROS bags becomes the right packets and images."""
import math

import fakeros

fakeros.install()  # before the repository looks for the ROS packages

import cv2  # noqa: E402
import numpy as np  # noqa: E402
import yaml  # noqa: E402
from hypothesis import strategies as st  # noqa: E402

import cigen  # noqa: E402
import rawgen  # noqa: E402
from gen import nice  # noqa: E402
from pbt import angdiff, require, require_close, sub  # noqa: E402

from auv_nav.parsers.parse_rosbag import parse_rosbag  # noqa: E402
from auv_nav.sensors import Category  # noqa: E402
from auv_nav.tools.latlon_wgs84 import latlon_to_metres  # noqa: E402
from oplab import Mission, Vehicle  # noqa: E402

STD = {"velocity": (0.02, 0.3), "orientation": (0.0, 0.7), "depth": (0.005, 0.0),
       "altitude": (0.04, 0.0), "usbl": (0.01, 2.5)}
TYPES = {
    Category.VELOCITY: ["cola2_msgs/DVL", "teledyne_explorer_dvl/TeledyneExplorerDVLData",
                        "sonardyne_sprintnav_ins/HNav"],
    Category.ORIENTATION: ["sensor_msgs/Imu", "sonardyne_sprintnav_ins/HNav"],
    Category.DEPTH: ["sensor_msgs/FluidPressure", "geometry_msgs/PoseWithCovarianceStamped",
                     "sonardyne_sprintnav_ins/HNav"],
    Category.ALTITUDE: ["cola2_msgs/DVL", "sensor_msgs/Range", "teledyne_explorer_dvl/TeledyneExplorerDVLData",
                        "sonardyne_sprintnav_ins/HNav"],
    Category.USBL: ["geometry_msgs/PoseWithCovarianceStamped", "sparus2/modem", "sensor_msgs/NavSatFix",
                    "evologics_ros_sync/EvologicsUsbllong"],
}
NODE = {Category.VELOCITY: "velocity", Category.ORIENTATION: "orientation", Category.DEPTH: "depth",
        Category.ALTITUDE: "altitude", Category.USBL: "usbl"}


@st.composite
def nav_case(draw):
    cat = draw(st.sampled_from(list(TYPES)))
    kind = draw(st.sampled_from(TYPES[cat]))
    t = draw(st.integers(1200000000, 1700000000)) * 10 ** 9
    rows = []
    v = nice(-1.5, 1.5, 3)
    for _ in range(draw(st.integers(1, 10))):
        t += draw(st.sampled_from([10 ** 6, 5 * 10 ** 7, 10 ** 9, 10 ** 9, 123456789, 3600 * 10 ** 9]))
        rows.append({"t": t, "v": draw(st.tuples(v, v, v)), "w": draw(st.tuples(v, v, v)),
                     "var": draw(st.tuples(*[nice(0.0001, 4, 4)] * 3)), "err": draw(nice(-0.2, 0.2, 3)),
                     "att": draw(st.tuples(nice(-30, 30, 2), nice(-30, 30, 2), nice(0, 359.9, 1))),
                     "depth": draw(nice(0.1, 6000, 2)), "alt": draw(nice(0.5, 200, 2)),
                     "q": draw(nice(0.01, 3, 2)), "novar": draw(st.integers(0, 4)) == 0,
                     "north": draw(nice(-2000, 2000, 2)), "east": draw(nice(-2000, 2000, 2)),
                     "bad": draw(st.integers(0, 4)) == 0, "bad_how": draw(st.integers(0, 2)),
                     "water": draw(st.booleans()), "topic": draw(st.integers(0, 4)) > 0,
                     "bag": draw(st.integers(0, 2)), "delay": draw(nice(0, 0.3, 3))})
    return {"cat": cat, "kind": kind, "rows": rows, "origin": (draw(nice(-70, 70, 4)), draw(nice(-179, 179, 4))),
            "zone": draw(st.sampled_from(rawgen.ZONES)), "offset": draw(st.sampled_from([0.0, 0.0, 0.0, 1.5])),
            "yaw": draw(st.sampled_from([0.0, 0.0, 45.0, -135.0, 30.0])), "broken": draw(st.integers(0, 3)) == 0}


def quaternion(roll, pitch, yaw):
    """of the rotation yaw about z, then pitch about y, then roll about x"""
    a, b, c = (math.radians(x) / 2 for x in (roll, pitch, yaw))
    cr, sr, cp, sp, cy, sy = math.cos(a), math.sin(a), math.cos(b), math.sin(b), math.cos(c), math.sin(c)
    return {"w": cr * cp * cy + sr * sp * sy, "x": sr * cp * cy - cr * sp * sy,
            "y": cr * sp * cy + sr * cp * sy, "z": cr * cp * sy - sr * sp * cy}


def cov(n, diag):
    m = [0.0] * (n * n)
    for i, x in diag.items():
        m[i * n + i] = x
    return m


def record(c, r):
    """(type, frame, fields, expected values or None)"""
    cat, kind, bad = c["cat"], c["kind"], r["bad"]
    vx, vy, vz = r["v"]
    var = (0.0, 0.0, 0.0) if r["novar"] else r["var"]
    sd = [math.sqrt(x) for x in r["var"]]
    y = math.radians(c["yaw"])

    def vel(v, s):
        x = (v[0] * math.cos(y) - v[1] * math.sin(y), v[0] * math.sin(y) + v[1] * math.cos(y), v[2])
        return {k: a for i, n in enumerate("xyz") for k, a in ((n + "_velocity", x[i]),
                                                               (n + "_velocity_std", s[i]))}

    if kind == "cola2_msgs/DVL":
        f = {"velocity": {"x": vx, "y": vy, "z": vz}, "altitude": r["alt"],
             "velocity_covariance": cov(3, dict(enumerate(r["var"])))}
        if bad and (cat == Category.ALTITUDE or r["bad_how"] == 0):
            f["altitude"] = -1.0
        elif bad and r["bad_how"] == 1:
            f["velocity_covariance"] = [0.0] * 9
        elif bad:
            f["velocity"] = {"x": 2.4, "y": -1.9, "z": 0.0}
        want = vel(r["v"], sd)
    elif kind.startswith("teledyne"):
        mm = [round(1000 * a) for a in r["v"]]
        ww = [round(1000 * a) for a in r["w"]]
        e = round(1000 * r["err"])
        use_water = r["water"] and cat == Category.VELOCITY
        f = {"bi_status": "A", "bd_range": r["alt"], "wi_status": "A"}
        f.update({"bi_%s_axis_mms" % n: a for n, a in zip("xyz", mm)}, bi_error_mms=e)
        f.update({"wi_%s_axis_mms" % n: a for n, a in zip("xyz", ww)}, wi_error_mms=2 * e)
        if use_water or bad:
            f.update({"bi_%s_axis_mms" % n: -32768 for n in "xyz"}, bi_status="V", bi_error_mms=-32768)
        if bad:
            f.update({"wi_%s_axis_mms" % n: -32768 for n in "xyz"}, wi_status="V", wi_error_mms=-32768)
        want = vel(r["w"], [2 * abs(r["err"])] * 3) if use_water else vel(r["v"], [abs(r["err"])] * 3)
    elif kind.startswith("sonardyne"):
        f = {"forward_velocity": vx, "starboard_velocity": vy, "down_velocity": vz, "velocity_quality": r["q"],
             "roll": r["att"][0], "pitch": r["att"][1], "heading": r["att"][2], "heading_quality": r["q"],
             "depth": r["depth"], "position_quality_cep50": r["q"], "altitude": r["alt"]}
        if bad and cat == Category.ALTITUDE:
            f["altitude"] = 0
        else:
            bad = False
        want = vel(r["v"], [r["q"]] * 3)
    elif kind == "sensor_msgs/Range":
        f = {"range": -1.0 if bad else r["alt"]}
    elif kind == "sensor_msgs/Imu":
        f = {"orientation": quaternion(*r["att"]),
             "orientation_covariance": cov(3, dict(enumerate(r["var"])))}
        bad = False
    elif kind == "sensor_msgs/FluidPressure":
        f = {"fluid_pressure": r["depth"] * 1030 * 9.80665, "variance": (r["q"] * 1030 * 9.80665) ** 2}
        if r["novar"]:
            f["variance"] = 0.0
        bad = False
    elif kind in ("geometry_msgs/PoseWithCovarianceStamped", "sparus2/modem"):
        pos = {"x": r["north"], "y": r["east"], "z": r["depth"]}
        if kind == "sparus2/modem":
            pos = {"x": r["north"] / 50, "y": r["east"] / 20, "z": -r["depth"]}
        f = {"pose": {"pose": {"position": pos}, "covariance": cov(6, dict(enumerate(var)))}}
        bad = False
    elif kind == "sensor_msgs/NavSatFix":
        f = {"status": {"status": -1 if bad else 0}, "latitude": r["north"] / 50, "longitude": r["east"] / 20,
             "altitude": 12.0, "position_covariance": cov(3, dict(enumerate(r["var"])))}
    else:
        f = {"N": r["north"], "E": r["east"], "D": r["depth"]}
        bad = False

    if cat == Category.ALTITUDE:
        want = {"altitude": r["alt"], "altitude_std": r["alt"] * STD["altitude"][0]}
    elif cat == Category.ORIENTATION:
        s = [math.degrees(a) for a in sd] if kind == "sensor_msgs/Imu" else [r["q"]] * 3
        want = {"roll": r["att"][0], "pitch": r["att"][1], "heading": r["att"][2], "roll_std": s[0],
                "pitch_std": s[1], "heading_std": s[2]}
    elif cat == Category.DEPTH:
        s = {"sensor_msgs/FluidPressure": r["q"], "sonardyne_sprintnav_ins/HNav": 1.2 * r["q"]}.get(kind, sd[2])
        if r["novar"] and not kind.startswith("sonardyne"):
            s = STD["depth"][0] * r["depth"]
        want = {"depth": r["depth"], "depth_std": s}
    elif cat == Category.USBL:
        model = STD["usbl"][0] * r["depth"] + STD["usbl"][1]
        if kind in ("sparus2/modem", "sensor_msgs/NavSatFix"):
            want = {"latitude": r["north"] / 50, "longitude": r["east"] / 20}
            if kind == "sparus2/modem":
                want.update(depth=r["depth"], depth_std=model, northings_std=model, eastings_std=model)
            else:  # the covariance of a NavSatFix is in ENU order
                want.update(depth=0.0, eastings_std=sd[0], northings_std=sd[1], depth_std=sd[2])
        else:
            want = {"northings": r["north"], "eastings": r["east"], "depth": r["depth"]}
            if kind.startswith("geometry"):
                s = [model] * 3 if r["novar"] else sd
                want.update(northings_std=s[0], eastings_std=s[1], depth_std=s[2])
    return ("geometry_msgs/PoseWithCovarianceStamped" if kind == "sparus2/modem" else kind,
            kind if kind == "sparus2/modem" else "base_link", f, None if bad else want)


def zone_node(c):
    return {"timezone": c["zone"][0], "timeoffset": c["offset"]}


def prepare(root, c, extra):
    raw = root / "raw" / "y" / "dive"
    (raw / "nav" / "bags").mkdir(parents=True)
    m = {"version": 1, "origin": {"latitude": c["origin"][0], "longitude": c["origin"][1],
                                  "coordinate_reference_system": "wgs84", "date": "2020/03/02"}}
    for k, (f, o) in STD.items():
        m[k] = {"format": "rosbag", "filepath": "nav/bags/", "filename": "x.bag", "topic": "/veh/" + k,
                "std_factor": f, "std_offset": o, "timezone": 0, "timeoffset": 0.0}
    m.update(extra(m))
    (raw / "mission.yaml").write_text(yaml.safe_dump(m))
    v = {k: rawgen.frame() for k in rawgen.FRAMES}
    v["dvl"] = rawgen.frame(yaw=c["yaw"])
    (raw / "vehicle.yaml").write_text(yaml.safe_dump(v))
    out = root / "processed" / "y" / "dive" / "nav"
    out.mkdir(parents=True)
    return raw, out


def check_time(c, got, stamp, what):
    """a zone moves the clock back to UTC; the sign of the extra time offset is not judged"""
    utc = stamp / 1e9 - 3600.0 * c["zone"][1]
    require(min(abs(got - utc - s * c["offset"]) for s in (1, -1)) < 2e-6,
            lambda: "%s: time %r, expected %r (zone %r, offset %r)" % (what, got, utc, c["zone"][0], c["offset"]))


@sub("C31", "nav", nav_case(), quick=700, thorough=20000, shards=4,
     rule="at least two messages on the topic, at least one of them usable; an unusable message, foreign topic, "
          "unreadable bag, zone or rotated DVL among them")
def nav(c, t):
    cat, node = c["cat"], NODE[c["cat"]]
    raw, out = prepare(t.scratch(), c, lambda m: {node: dict(m[node], **zone_node(c))})
    bags = {0: [], 1: [], 2: []}
    want = []
    for r in c["rows"]:
        kind, frame, fields, w = record(c, r)
        topic = "/veh/" + node + ("" if r["topic"] else "_raw")
        bags[r["bag"]].append((topic, kind, r["t"], r["t"] / 1e9 + r["delay"], frame, fields))
        if r["topic"] and w is not None:
            want.append((r, w))
    for i, rows in bags.items():
        if rows:
            fakeros.write(raw / "nav" / "bags" / ("x_%d.bag" % i), rows)
    if c["broken"]:
        (raw / "nav" / "bags" / "w_bad.bag").write_bytes(b"#ROSBAG V2.0 cut off")
    (raw / "nav" / "bags" / "x_0.bag.active").write_bytes(b"not a bag")
    got = parse_rosbag(Mission(raw / "mission.yaml"), Vehicle(raw / "vehicle.yaml"), cat, "oplab", out)
    what = "%s from %s" % (cat, c["kind"])
    require(len(got) == len(want), lambda: "%s: %d packets for %d usable messages" % (what, len(got), len(want)))
    got = sorted(got, key=lambda p: p["epoch_timestamp"])
    for p, (r, w) in zip(got, want):
        check_time(c, p["epoch_timestamp"], r["t"], what)
        require(p["category"] == cat, "%s: category %r" % (what, p["category"]))
        require(p["sensor"] == "rosbag", "%s: sensor %r" % (what, p["sensor"]))
        d = {}
        for x in p.get("data", p.get("data_target")):
            d.update(x)
        for k, x in w.items():
            if k == "heading":
                require(abs(angdiff(d[k], x)) < 1e-6 and -1e-9 <= d[k] <= 360, "%s: heading %r, expected %r" % (
                    what, d[k], x))
            else:
                require_close(d[k], x, "%s: %s" % (what, k), 1e-6, 1e-6)
        if cat == Category.USBL:
            dist, b = latlon_to_metres(d["latitude"], d["longitude"], *c["origin"])
            # the packet's position and its metres from the mission's origin are one point
            far = math.hypot(d["northings"], d["eastings"])
            require(math.hypot(dist * math.cos(math.radians(b)) - d["northings"],
                               dist * math.sin(math.radians(b)) - d["eastings"]) < 0.05 + 1e-3 * far,
                    lambda: "%s: %r is not %r" % (what, (d["northings"], d["eastings"]), (dist, b)))
            if c["kind"].startswith("geometry"):
                # a standard deviation in degrees that matches the one in metres (either axis' one is accepted)
                s = max(d["northings_std"], d["eastings_std"]) / 111e3
                require(0 < d["latitude_std"] < 1.1 * s and 0 < d["longitude_std"] < 1.1 * s / math.cos(
                    math.radians(d["latitude"])), lambda: "%s: std of the position (%r, %r) deg for (%r, %r) m" % (
                    what, d["latitude_std"], d["longitude_std"], d["northings_std"], d["eastings_std"]))
    n = sum(r["topic"] for r in c["rows"])
    t.label(c["kind"] + " " + cat)
    t.label("unreadable bag", c["broken"])
    t.nontrivial(n > 1 and want and (n > len(want) or n < len(c["rows"]) or c["broken"] or c["zone"][1] != 0
                                     or (c["yaw"] != 0 and cat == Category.VELOCITY)))


# ------------------------------------------------------------------------------------------ images
CAM = "/veh/cam/image_raw"


@st.composite
def image_case(draw):
    t = draw(st.integers(1200000000, 1700000000)) * 10 ** 9
    ctype = draw(st.sampled_from(["grayscale", "rgb", "rggb", "bggr"]))
    rows = []
    for _ in range(draw(st.integers(1, 5))):
        t += draw(st.sampled_from([5 * 10 ** 7, 2 * 10 ** 8, 10 ** 9, 123456789, 60 * 10 ** 9]))
        rows.append({"t": t, "delay": draw(nice(0, 0.3, 3)), "bag": draw(st.integers(0, 1)),
                     "topic": draw(st.integers(0, 4)) > 0, "alt": draw(st.sampled_from([2.5, 5.0, 11.5, 1.0, 14.0]))})
    return {"rows": rows, "ctype": ctype, "h": 2 * draw(st.integers(2, 5)), "w": 2 * draw(st.integers(2, 5)),
            "seed": draw(st.integers(0, 10 ** 6)), "zone": draw(st.sampled_from(rawgen.ZONES)),
            "offset": draw(st.sampled_from([0.0, 0.0, 1.5])), "origin": (1.0, 2.0), "yaw": 0.0,
            "path": draw(st.sampled_from(["image/bags", "image/bags/x_"])),
            "compressed": ctype == "rgb" and draw(st.booleans())}


@sub("C31", "images", image_case(), quick=100, thorough=3000, shards=4, max_s=40,
     rule="at least two images of the camera, a zone other than UTC or an image of another topic or altitude")
def images(c, t):
    root = t.scratch()
    rng = np.random.default_rng(c["seed"])
    grey = c["ctype"] == "grayscale"
    conf = cigen.config("manual_balance", cams=["lc"], gain=[[1]] if grey else None, sub=[0] if grey else None)
    raw, pro, cfg = cigen.write_dive(root, [], cam="lc", ctype=c["ctype"], bits=8, conf=conf, ext="bag")
    m = cigen.mission()
    m["image"] = {"format": "rosbag", **zone_node(c),
                  "cameras": [{"name": "lc", "path": "image/bags", "topic": CAM}]}
    (raw / "mission.yaml").write_text(yaml.safe_dump(m))
    (raw / "image" / "bags").mkdir()
    (raw / "camera.yaml").write_text(yaml.safe_dump({"camera_system": "rosbag", "cameras": [
        {"name": "lc", "topic": CAM, "type": c["ctype"], "bit_depth": 8, "path": c["path"], "extension": "bag",
         "filename_to_date": "xxxxxeeeeeeeeeeeeeeeeeeee.xxx"}]}))
    v = {k: rawgen.frame() for k in rawgen.FRAMES + ("lc",)}
    (raw / "vehicle.yaml").write_text(yaml.safe_dump(v))
    bags = {0: [], 1: []}
    px = []
    shape = (c["h"], c["w"], 3) if c["ctype"] == "rgb" else (c["h"], c["w"])
    for r in c["rows"]:
        a = rng.integers(0, 256, shape, dtype=np.uint8)
        if c["compressed"]:
            a[:, :, 1] = a[:, :, 2] = a[:, :, 0]  # the order of the channels is not judged
        px.append(a)
        f = {"data": a.tobytes(), "height": c["h"], "width": c["w"], "encoding": "x"}
        if c["compressed"]:
            f = {"data": cv2.imencode(".png", a)[1].tobytes(), "format": "png"}
        bags[r["bag"]].append((CAM if r["topic"] else CAM + "_2",
                               "sensor_msgs/CompressedImage" if c["compressed"] else "sensor_msgs/Image",
                               r["t"], r["t"] / 1e9 + r["delay"], "cam", f))
    for i, rows in bags.items():
        if rows:
            fakeros.write(raw / "image" / "bags" / ("x_%d.bag" % i), rows)
    mine = [i for i, r in enumerate(c["rows"]) if r["topic"]]
    out = pro / "nav"
    out.mkdir(parents=True)
    got = parse_rosbag(Mission(raw / "mission.yaml"), Vehicle(raw / "vehicle.yaml"), Category.IMAGES, "oplab", out)
    require(len(got) == len(mine), "%d image packets for %d images" % (len(got), len(mine)))
    got = sorted(got, key=lambda p: p["epoch_timestamp"])
    for p, i in zip(got, mine):
        check_time(c, p["epoch_timestamp"], c["rows"][i]["t"], "image")
        require(p["category"] == "image" and p["camera1"][0]["epoch_timestamp"] == p["epoch_timestamp"],
                "image packet %r" % (p,))
        name = p["camera1"][0]["filename"].rsplit("/", 1)[1]
        require(abs(float(name[:-4]) - p["epoch_timestamp"]) < 1e-5, "image called %s" % name)
    if not mine:
        return t.label("no image")
    # the navigation solution lists the images of these packets
    csv = ["relative_path,northing [m],altitude [m],timestamp [s]"]
    for p, i in zip(got, mine):
        csv.append("%s,%r,%r,%r" % (p["camera1"][0]["filename"], 1.0 * i, c["rows"][i]["alt"], p["epoch_timestamp"]))
    (pro / "json_renav_a" / "csv" / "ekf" / "auv_ekf_lc.csv").write_text("\n".join(csv) + "\n")
    chosen = [(p, i) for p, i in zip(got, mine) if 2 < c["rows"][i]["alt"] < 12]
    with cigen.quiet(root):
        if not chosen:
            return t.label("no image in the altitude window")
        cigen.process(raw)
        dev, = [p for p in (pro / "image" / "lc").iterdir() if p.name.startswith("corrected_manual")]
        pics = {float(p.stem.rsplit("_", 1)[1]): p for p in dev.iterdir() if p.suffix == ".png"}
        require(len(pics) == len(chosen), lambda: "%d developed images for %d" % (len(pics), len(chosen)))
        for p, i in chosen:
            f = min(pics, key=lambda x: abs(x - p["epoch_timestamp"]))
            require(abs(f - p["epoch_timestamp"]) < 1e-3, "no developed image at %r" % p["epoch_timestamp"])
            z = cigen.demosaic(px[i] / 256.0, c["ctype"])
            cigen.same_image(pics[f], np.clip(255 * z, 0, 255), "image %d (%s)" % (i, c["ctype"]))
    t.label(c["ctype"])
    t.nontrivial(len(mine) > 1 and (c["zone"][1] != 0 or len(mine) < len(c["rows"]) or len(chosen) < len(mine)))
