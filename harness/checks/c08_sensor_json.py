"""C08: measurements survive the standard navigation file, and get the configured uncertainty."""
import json
import math

from geographiclib.geodesic import Geodesic
from hypothesis import strategies as st

from gen import fl, nice
from pbt import fail, require, require_close, sub

from auv_nav.sensors import (Altitude, BodyVelocity, Camera, Depth, InertialVelocity, Orientation,
                             StereoCamera, Tide, Usbl)

KINDS = {
    "velocity": (BodyVelocity, ["x_velocity", "y_velocity", "z_velocity"]),
    "inertial": (InertialVelocity, ["north_velocity", "east_velocity", "down_velocity"]),
    "orientation": (Orientation, ["roll", "pitch", "yaw"]),
    "depth": (Depth, ["depth"]),
    "altitude": (Altitude, ["altitude"]),
    "usbl": (Usbl, ["latitude", "longitude", "northings", "eastings", "depth"]),
    "tide": (Tide, ["height"]),
}
TIME2 = {"velocity": "epoch_timestamp_dvl", "depth": "depth_timestamp", "altitude": "altitude_timestamp"}
SHIP = ["latitude_ship", "longitude_ship", "northings_ship", "eastings_ship", "heading_ship"]
num = st.one_of(fl(-1e4, 1e4), st.integers(-9, 9).map(float), st.just(0.0))
pos = st.one_of(fl(0, 1e3), st.integers(0, 9).map(float))


@st.composite
def case(draw, kinds=tuple(KINDS)):
    k = draw(st.sampled_from(kinds))
    c = {"kind": k, "t": draw(fl(1e9, 2e9)), "t2": draw(fl(1e9, 2e9))}
    names = KINDS[k][1]
    c["v"] = [draw(num) for _ in names]
    if k == "usbl":
        c["v"][0], c["v"][1] = draw(fl(-80, 80)), draw(fl(-179, 179))
    c["s"] = [draw(pos) for _ in names]
    c["ship"] = [draw(num) for _ in SHIP]
    c["distance"] = draw(fl(0, 5000))
    c["offset"] = [draw(pos) for _ in range(3)]
    c["factor"] = [draw(fl(0, 2)) for _ in range(3)]
    c["axes"] = draw(st.booleans())
    c["sensor"] = draw(st.sampled_from(["phins", "gaps", "x"]))
    return c


def build(c):
    cls, names = KINDS[c["kind"]]
    o = cls()
    o.sensor_string = c["sensor"]
    o.epoch_timestamp = c["t"]
    if c["kind"] in TIME2:
        setattr(o, TIME2[c["kind"]], c["t2"])
    for n, v, s in zip(names, c["v"], c["s"]):
        setattr(o, n, v)
        setattr(o, n + "_std", s)
    if c["kind"] == "usbl":
        for n, v in zip(SHIP, c["ship"]):
            setattr(o, n, v)
        o.distance_to_ship = c["distance"]
    if c["kind"] == "altitude":
        o.sound_velocity, o.sound_velocity_correction = 1500.0, 1.0
    return o


def load(kind, j, model):
    o = KINDS[kind][0]()
    if kind in ("inertial", "altitude"):
        o.from_json(j)
    else:
        o.from_json(j, model)
    return o


def check_values(c, o):
    for n, v in zip(KINDS[c["kind"]][1], c["v"]):
        require(getattr(o, n) == v, lambda: "%s of %s: %r, written %r" % (n, c["kind"], getattr(o, n), v))
    want = c["t2"] if c["kind"] == "velocity" else c["t"]
    require(o.epoch_timestamp == want, lambda: "time stamp %r, expected %r" % (o.epoch_timestamp, want))
    if c["kind"] == "depth":
        require(o.depth_timestamp == c["t2"], "time of the depth sensor")
    if c["kind"] == "usbl":
        require([getattr(o, n) for n in SHIP] == c["ship"], "position of the ship")
        require(o.distance_to_ship == c["distance"], "distance to the ship")


@sub("C08", "round_trip", case(), quick=3000, thorough=60000,
     rule="the values are not all equal and no value equals its uncertainty")
def round_trip(c, t):
    o = build(c)
    p = o.export("oplab")
    require(p is not None, "a complete %s measurement was not exported" % c["kind"])
    require(p["epoch_timestamp"] == c["t"], "time stamp of the packet")
    want = {"inertial": "velocity"}.get(c["kind"], c["kind"])
    require(p["category"] == want, "category %r of %s" % (p["category"], c["kind"]))
    require(p["sensor"] == c["sensor"], "sensor name")
    frame = "inertial" if c["kind"] in ("inertial", "depth", "usbl", "tide") else "body"
    require(p["frame"] == frame, "frame %r of %s" % (p["frame"], c["kind"]))
    # exporting consumes the measurement: it is never written twice
    require(o.export("oplab") is None, "a measurement was exported twice")
    j = json.loads(json.dumps(p))
    r = load(c["kind"], j, {"model": "sensor"})
    check_values(c, r)
    for n, s in zip(KINDS[c["kind"]][1], c["s"]):
        require(getattr(r, n + "_std") == s, lambda: "uncertainty of %s: %r, written %r" % (
            n, getattr(r, n + "_std"), s))
    t.nontrivial(len(set(c["v"])) == len(c["v"]) and all(a != b for a, b in zip(c["v"], c["s"])))
    t.label(c["kind"])


@sub("C08", "linear_model", case(("velocity", "orientation", "depth", "tide", "usbl")), quick=2000,
     thorough=40000, rule="factor and offset are not zero and some value is negative")
def linear(c, t):
    k = c["kind"]
    j = json.loads(json.dumps(build(c).export("oplab")))
    if k == "velocity" and c["axes"]:
        m = {"model": "linear"}
        for i, a in enumerate("xyz"):
            m["offset_" + a], m["factor_" + a] = c["offset"][i], c["factor"][i]
        off, fac = c["offset"], c["factor"]
    else:
        m = {"model": "linear", "offset": c["offset"][0], "factor": c["factor"][0]}
        off, fac = [c["offset"][0]] * 3, [c["factor"][0]] * 3
    o = load(k, j, m)
    check_values(c, o)
    if k == "usbl":
        want = off[0] + fac[0] * c["distance"]
        require_close([o.northings_std, o.eastings_std], [want, want], "USBL model", 1e-9, 1e-9)
        require(o.depth_std == c["s"][4], "depth uncertainty of the fix")
        # latitude and longitude uncertainties are those of the slant range
        r = fac[0] * math.hypot(c["distance"], c["v"][4]) + off[0]
        if r < 2e4:
            g = Geodesic.WGS84.Direct(abs(c["v"][0]), abs(c["v"][1]), 45.0, r * math.sqrt(2))
            require_close(o.latitude_std, abs(g["lat2"] - abs(c["v"][0])), "latitude model", 1e-3, 1e-8)
            require_close(o.longitude_std, abs(g["lon2"] - abs(c["v"][1])) if abs(
                g["lon2"] - abs(c["v"][1])) < 180 else o.longitude_std, "longitude model", 1e-3, 1e-8)
    else:
        for i, n in enumerate(KINDS[k][1]):
            require_close(getattr(o, n + "_std"), off[i] + fac[i] * abs(c["v"][i]),
                          "linear uncertainty of " + n, 1e-9, 1e-9)
            require(getattr(o, n + "_std") >= 0, "negative uncertainty")
    t.nontrivial(all(off) and all(fac) and any(v < 0 for v in c["v"]))
    t.label(k)
    t.label("per-axis model", k == "velocity" and c["axes"])
    # unknown models are refused, not ignored
    try:
        load(k, j, dict(m, model="quadratic"))
    except SystemExit:
        return
    fail("an unknown uncertainty model was accepted")


@st.composite
def partial(draw):
    c = draw(case(("velocity", "inertial", "orientation", "depth", "altitude", "usbl", "tide")))
    need = {"velocity": ["epoch_timestamp", "epoch_timestamp_dvl", "x_velocity", "y_velocity"],
            "inertial": ["epoch_timestamp", "north_velocity"],
            "orientation": ["epoch_timestamp", "roll", "yaw", "roll_std"],
            "depth": ["epoch_timestamp", "depth", "depth_timestamp"],
            "altitude": ["epoch_timestamp", "altitude", "altitude_timestamp"],
            "usbl": ["epoch_timestamp", "latitude", "longitude", "northings", "eastings"],
            "tide": ["epoch_timestamp", "height"]}[c["kind"]]
    c["missing"] = draw(st.lists(st.sampled_from(need), min_size=0, max_size=2, unique=True))
    return c


@sub("C08", "incomplete", partial(), quick=1200, thorough=20000, rule="a required field is missing")
def incomplete(c, t):
    o = build(c)
    for n in c["missing"]:
        setattr(o, n, None)
    p = o.export("oplab")
    require((p is None) == bool(c["missing"]), lambda: "%s without %s: exported %r" % (
        c["kind"], c["missing"], p))
    t.nontrivial(bool(c["missing"]))


names = st.sampled_from(["image/LC/0001.png", "a b/é.tif", "x.raw", "image/RC/20200101_000000_000.jpg"])


@sub("C08", "images", st.fixed_dictionaries({
    "t": st.tuples(fl(1e9, 2e9), fl(1e9, 2e9)), "f": st.tuples(names, names),
    "cam": st.sampled_from(["camera1", "camera2"]), "laser": st.booleans()}),
    quick=600, thorough=10000, rule="left and right image differ in name and time")
def images(c, t):
    s = StereoCamera()
    s.sensor_string = "x"
    s.left.epoch_timestamp, s.right.epoch_timestamp = c["t"]
    s.left.filename, s.right.filename = c["f"]
    j = json.loads(json.dumps(s._to_json()))
    require(j["epoch_timestamp"] == c["t"][0] and j["category"] == "image", "stereo packet")
    for i, k in enumerate(("camera1", "camera2")):
        r = Camera()
        r.from_json(j, k)
        require((r.epoch_timestamp, r.filename) == (c["t"][i], c["f"][i]), "image of " + k)
    if c["laser"]:
        r = Camera()
        r.from_json({"epoch_timestamp": c["t"][1], "category": "laser", "filename": c["f"][1]}, "camera1")
        require((r.epoch_timestamp, r.filename) == (c["t"][1], c["f"][1]), "laser image")
    m = Camera()
    m.sensor_string = "x"
    require(m.export("oplab") is None, "a camera without image was exported")
    m.epoch_timestamp, m.filename = c["t"][0], c["f"][0]
    r = Camera()
    r.from_json(json.loads(json.dumps(m.export("oplab"))), "camera1")
    require((r.epoch_timestamp, r.filename) == (c["t"][0], c["f"][0]), "mono image")
    t.nontrivial(c["t"][0] != c["t"][1] and c["f"][0] != c["f"][1])
