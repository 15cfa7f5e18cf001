"""C05: every camera/sensor position is the interpolated vehicle pose plus its mounting offset."""
import math

import numpy as np
from geographiclib.geodesic import Geodesic
from hypothesis import strategies as st

from gen import angle360, fl, lat, lon, nice, times
from pbt import angdiff, fail, require, require_close, sub

from auv_nav.sensors import Camera, Payload, SyncedOrientationBodyVelocity
from auv_nav.tools.interpolate import interpolate_sensor_list

G = Geodesic.WGS84
F = ["roll", "pitch", "x_velocity", "y_velocity", "z_velocity", "altitude", "northings", "eastings",
     "depth"]
STD = ["northings_std", "eastings_std", "depth_std", "roll_std", "pitch_std", "yaw_std",
       "x_velocity_std", "y_velocity_std", "z_velocity_std", "vroll_std", "vpitch_std", "vyaw_std"]


def rot(roll, pitch, yaw):
    r, p, y = (math.radians(a) for a in (roll, pitch, yaw))
    cr, sr, cp, sp, cy, sy = (math.cos(r), math.sin(r), math.cos(p), math.sin(p), math.cos(y),
                              math.sin(y))
    return np.array([[cy * cp, cy * sp * sr - sy * cr, cy * sp * cr + sy * sr],
                     [sy * cp, sy * sp * sr + cy * cr, sy * sp * cr - cy * sr],
                     [-sp, cp * sr, cp * cr]])


@st.composite
def track(draw):
    ts = draw(times(2, 9))
    rows = [draw(st.tuples(nice(-30, 30), nice(-30, 30), nice(-2, 2), nice(-2, 2), nice(-1, 1),
                           nice(1, 15), nice(-2000, 2000), nice(-2000, 2000), nice(0, 4000)))
            for _ in ts]
    yaw0 = draw(angle360)
    turn = draw(st.lists(nice(-60, 60), min_size=len(ts), max_size=len(ts)))
    yaws = []
    y = yaw0
    for d in turn:
        y = (y + d) % 360
        yaws.append(round(y, 4))
    has_std = draw(st.booleans())
    has_cov = draw(st.booleans())
    n = draw(st.integers(1, 8))
    span = ts[-1] - ts[0]
    # query times: before the start, inside, exactly on samples, after the end
    qs = draw(st.lists(st.one_of(
        fl(0, 1).map(lambda x: round(ts[0] + x * span, 3)), st.sampled_from(ts),
        fl(0.01, 30).map(lambda x: round(ts[0] - x, 3)),
        fl(0.01, 30).map(lambda x: round(ts[-1] + x, 3)),
        fl(0, 1).map(lambda x: round(ts[-2] + x * (ts[-1] - ts[-2]), 3)),
    ), min_size=n, max_size=n))
    return {"t": ts, "rows": rows, "yaws": yaws, "std": has_std, "cov": has_cov, "q": sorted(qs),
            "sensor": draw(st.tuples(nice(-3, 3), nice(-3, 3), nice(-3, 3))),
            "origin": draw(st.one_of(st.just((0.0, 0.0, 0.0)),
                                     st.tuples(nice(-3, 3), nice(-3, 3), nice(-3, 3)))),
            "ref": (draw(lat), draw(lon)), "payload": draw(st.booleans())}


def centre_list(c):
    out = []
    for i, (tt, r, y) in enumerate(zip(c["t"], c["rows"], c["yaws"])):
        s = SyncedOrientationBodyVelocity()
        s.epoch_timestamp, s.yaw = tt, y
        for f, v in zip(F, r):
            setattr(s, f, v)
        if c["std"]:
            for k, f in enumerate(STD):
                setattr(s, f, 0.1 * (k + 1) * (1 + (i * 7 + k) % 5))
        if c["cov"]:
            g = np.random.default_rng(i)
            a = g.normal(size=(12, 12))
            s.covariance = a @ a.T
        out.append(s)
    return out


def expected(c, centre, q):
    ts = c["t"]
    i = max(1, next(k for k in range(len(ts)) if q <= ts[k]))
    x = (q - ts[i - 1]) / (ts[i] - ts[i - 1])
    a, b = centre[i - 1], centre[i]
    e = {f: getattr(a, f) + x * (getattr(b, f) - getattr(a, f)) for f in F}
    e["yaw"] = a.yaw + x * angdiff(b.yaw, a.yaw)
    if c["std"]:
        for f in STD:
            e[f] = getattr(a, f) + x * (getattr(b, f) - getattr(a, f))
    if c["cov"]:
        e["cov"] = (1 - x) * a.covariance + x * b.covariance
    lever = rot(e["roll"], e["pitch"], e["yaw"]) @ (np.array(c["sensor"]) - np.array(c["origin"]))
    e["northings"] += lever[0]
    e["eastings"] += lever[1]
    e["depth"] += lever[2]
    e["altitude"] -= lever[2]
    return e, x


def check_pose(s, e, c, tol=2e-4):
    for f in F:
        require_close(getattr(s, f), e[f], "%s at %r" % (f, s.epoch_timestamp), 1e-6, tol)
    require(abs(angdiff(s.yaw, e["yaw"])) < tol, "heading %r, expected %r" % (s.yaw, e["yaw"] % 360))
    require(-1e-6 <= s.yaw <= 360 + 1e-6, "heading %r out of range" % s.yaw)
    g = G.Direct(c["ref"][0], c["ref"][1], math.degrees(math.atan2(s.eastings, s.northings)),
                 math.hypot(s.eastings, s.northings))
    require_close(s.latitude, g["lat2"], "latitude matches the position of the sensor", 0, 1e-9)
    require(abs(angdiff(s.longitude, g["lon2"])) < 1e-8, "longitude matches the position of the sensor")


@sub("C05", "dead_reckoned", track(), quick=2500, thorough=60000,
     rule="at least one sensor sample strictly between two states, with a lever arm and a turning "
          "vehicle")
def dead_reckoned(c, t):
    centre = centre_list(c)
    ref = centre_list(c)
    cams = []
    for k, q in enumerate(c["q"]):
        cam = Payload() if c["payload"] else Camera()
        cam.epoch_timestamp = q
        if not c["payload"]:
            cam.filename = "cam/%05d.png" % k
        else:
            cam.data = {"k": k}
        cams.append(cam)
    all_ = list(cams)
    inside = [m for m in all_ if c["t"][0] <= m.epoch_timestamp <= c["t"][-1]]
    overlap = c["q"][0] <= c["t"][-1] and c["q"][-1] >= c["t"][0]
    names = [getattr(m, "filename", None) for m in all_]
    interpolate_sensor_list(cams, "cam", list(c["sensor"]), list(c["origin"]), list(c["ref"]), centre)
    if not overlap:
        # nothing is invented for a sensor that was on at another time
        require(all(m.northings is None for m in cams), "positions outside the navigation")
        t.label("no overlap")
        return
    require(len(cams) == len(inside) and all(a is b for a, b in zip(cams, inside)),
            lambda: "kept samples at %r, expected %r (navigation %r..%r)" % (
                [m.epoch_timestamp for m in cams], [m.epoch_timestamp for m in inside], c["t"][0],
                c["t"][-1]))
    for s in cams:
        e, x = expected(c, ref, s.epoch_timestamp)
        check_pose(s, e, c)
        for f in STD:
            if c["std"]:
                require_close(getattr(s, f), e[f], f, 1e-5, 1e-5)
            else:
                require(getattr(s, f) is None, "%s appeared from nowhere" % f)
        if c["cov"]:
            require_close(s.covariance, e["cov"], "covariance", 1e-4, 1e-4)
        if 0 < x < 1 and any(c["sensor"]) and len(set(c["yaws"])) > 1:
            t.nontrivial()
    for m, n in zip(all_, names):
        if n is not None:
            require(m.filename == n, "file names were changed")
    t.label("samples before the start", c["q"][0] < c["t"][0])
    t.label("samples after the end", c["q"][-1] > c["t"][-1])
    t.label("crosses north", any(abs(a - b) > 180 for a, b in zip(c["yaws"], c["yaws"][1:])))


@sub("C05", "filtered", track(), quick=1500, thorough=30000, rule="lever arm is not zero")
def filtered(c, t):
    """the EKF route: a camera is placed from the state estimated at its own time stamp"""
    for s in centre_list(c):
        cam = Camera()
        cam.filename = "x.png"
        for f in ("vroll", "vpitch", "vyaw", "north_velocity", "east_velocity", "down_velocity",
                  "north_velocity_std", "east_velocity_std", "down_velocity_std"):
            setattr(s, f, 0.25)
        cam.fromSyncedBodyVelocity(s, list(c["origin"]), list(c["sensor"]), list(c["ref"]))
        lever = rot(s.roll, s.pitch, s.yaw) @ (np.array(c["sensor"]) - np.array(c["origin"]))
        e = {f: getattr(s, f) for f in F}
        e["yaw"] = s.yaw
        e["northings"] += lever[0]
        e["eastings"] += lever[1]
        e["depth"] += lever[2]
        e["altitude"] -= lever[2]
        check_pose(cam, e, c, 1e-6)
        require(cam.epoch_timestamp == s.epoch_timestamp and cam.filename == "x.png", "time or name")
        for f in STD + ["x_velocity", "y_velocity", "z_velocity", "vroll", "vpitch", "vyaw"]:
            require(getattr(cam, f) == getattr(s, f), "%s is not that of the vehicle" % f)
        t.nontrivial(any(a != b for a, b in zip(c["sensor"], c["origin"])))
