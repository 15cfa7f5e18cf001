"""C01: attitude rotations follow the yaw-pitch-roll NED convention and invert."""
import math

import numpy as np
from hypothesis import strategies as st

from gen import angle_any, fl
from pbt import fail, probe, require, require_close, sub

from auv_cal.euler_angles_from_rotation_matrix import euler_angles_from_rotation_matrix
from auv_nav.sensors import Orientation
from auv_nav.tools.body_to_inertial import body_to_inertial
from auv_nav.tools.dvl_level_arm import compute_angular_speeds, correct_lever_arm
from auv_nav.tools.inertial_to_body import inertial_to_body


def rot(roll, pitch, yaw):
    """body -> NED matrix, written from the three elementary rotations (degrees)"""
    r, p, y = (math.radians(a) for a in (roll, pitch, yaw))
    rx = np.array([[1, 0, 0], [0, math.cos(r), -math.sin(r)], [0, math.sin(r), math.cos(r)]])
    ry = np.array([[math.cos(p), 0, math.sin(p)], [0, 1, 0], [-math.sin(p), 0, math.cos(p)]])
    rz = np.array([[math.cos(y), -math.sin(y), 0], [math.sin(y), math.cos(y), 0], [0, 0, 1]])
    return rz @ ry @ rx


vec = st.tuples(*[st.one_of(fl(-1e4, 1e4), st.sampled_from([0.0, 1.0, -1.0]))] * 3)


@sub("C01", "rotate", st.fixed_dictionaries(
    {"roll": angle_any, "pitch": angle_any, "yaw": angle_any, "v": vec}),
    quick=6000, thorough=200000,
    rule="at least two of roll/pitch/yaw are not multiples of 90 deg and the vector has "
         "at least two non-zero components")
def rotate(c, t):
    a = (c["roll"], c["pitch"], c["yaw"])
    v = np.array(c["v"])
    scale = 1e-9 * (1 + np.abs(v).max())
    got = body_to_inertial(*a, *c["v"])
    require(len(got) == 3, "three components expected")
    want = rot(*a) @ v
    require_close(got, want, "body_to_inertial", 0, scale)
    require_close(np.linalg.norm(got), np.linalg.norm(v), "length is preserved", 1e-9, scale)
    back = inertial_to_body(*a, *got)
    require_close(back, v, "inertial_to_body(body_to_inertial(v))", 0, scale)
    inv = inertial_to_body(*a, *c["v"])
    require_close(inv, rot(*a).T @ v, "inertial_to_body", 0, scale)
    require_close(body_to_inertial(*a, *inv), v, "body_to_inertial(inertial_to_body(v))", 0, scale)
    t.nontrivial(sum(abs(math.sin(math.radians(2 * x))) > 1e-6 for x in a) >= 2
                 and sum(abs(x) > 1e-9 for x in c["v"]) >= 2)


@sub("C01", "euler", st.fixed_dictionaries(
    {"roll": fl(-180, 180), "pitch": st.one_of(fl(-89, 89), st.sampled_from([90.0, -90.0])),
     "yaw": fl(-180, 180)}), quick=3000, thorough=80000,
    rule="pitch is not zero")
def euler(c, t):
    R = rot(c["roll"], c["pitch"], c["yaw"])
    if abs(c["pitch"]) == 90.0:
        R = np.where(np.abs(R) < 1e-12, 0, R)
    psi, theta, phi = euler_angles_from_rotation_matrix(R)
    R2 = rot(math.degrees(psi), math.degrees(theta), math.degrees(phi))
    require_close(R2, R, "rotation rebuilt from the recovered Euler angles", 0, 1e-6)
    require(-math.pi / 2 - 1e-9 <= theta <= math.pi / 2 + 1e-9, "pitch out of range")
    t.nontrivial(abs(c["pitch"]) > 1e-3)
    t.label("gimbal lock", abs(c["pitch"]) == 90)


@sub("C01", "rates", st.fixed_dictionaries({
    "n": st.integers(2, 7), "i": st.integers(0, 6),
    "rate": st.tuples(fl(-5, 5), fl(-5, 5), st.one_of(fl(-1, 1), st.sampled_from([0.9, -0.9]))),
    "start": st.tuples(fl(-20, 20), fl(-20, 20), fl(0, 359.9)),
    "dts": st.lists(fl(0.01, 4), min_size=6, max_size=6)}), quick=2000, thorough=50000,
    rule="the heading crosses north within the list")
def rates(c, t):
    """constant angular rate: the estimate is that rate at every index, also when the
    heading wraps at north"""
    os_, now = [], 1000.0
    wrapped = False
    n, i = c["n"], c["i"] % c["n"]
    # up to 175 deg between the samples used (more than half a turn is ambiguous)
    dts = c["dts"]
    span = sum(dts[max(0, i - 1):min(n - 1, i + 1)])
    rate = (c["rate"][0], c["rate"][1], c["rate"][2] * 175.0 / span)
    for k in range(c["n"]):
        o = Orientation()
        o.epoch_timestamp = now
        o.roll = c["start"][0] + rate[0] * (now - 1000)
        o.pitch = c["start"][1] + rate[1] * (now - 1000)
        y = c["start"][2] + rate[2] * (now - 1000)
        o.yaw = y % 360.0
        wrapped = wrapped or y != o.yaw
        os_.append(o)
        now += c["dts"][min(k, 5)]
    got = compute_angular_speeds(os_, i)
    require_close(got, rate, "angular rates", 1e-6, 1e-6)
    t.nontrivial(wrapped)


@sub("C01", "lever_arm", st.fixed_dictionaries({
    "v": vec, "w": st.tuples(fl(-30, 30), fl(-30, 30), fl(-30, 30)),
    "r": st.tuples(fl(-3, 3), fl(-3, 3), fl(-3, 3))}), quick=1500, thorough=30000,
    rule="angular rate and lever arm are not parallel")
def lever(c, t):
    """the lever-arm term is w x r (its sign is the subject of a known finding)"""
    wxr = np.cross(np.radians(c["w"]), c["r"])
    d = np.array(correct_lever_arm(list(c["v"]), c["w"], c["r"])) - np.array(c["v"])
    tol = 1e-9 * (1 + np.abs(np.array(c["v"])).max())
    require(np.allclose(d, wxr, rtol=1e-9, atol=tol) or np.allclose(d, -wxr, rtol=1e-9, atol=tol),
            lambda: "lever arm term %s is not +-(w x r) = %s" % (d, wxr))
    # no rotation or no lever arm: the measurement is untouched
    require_close(correct_lever_arm(list(c["v"]), (0, 0, 0), c["r"]), c["v"], "no rotation")
    require_close(correct_lever_arm(list(c["v"]), c["w"], (0, 0, 0)), c["v"], "no lever arm")
    t.nontrivial(np.linalg.norm(wxr) > 1e-3)


@probe("C01", "lever-arm-sign")
def lever_sign():
    # turning on the spot at 10 deg/s with the DVL 1 m ahead: the DVL itself moves
    # sideways at w*r; removing the lever arm must give a centre at rest
    w = math.radians(10)
    out = correct_lever_arm([0, w, 0], (0, 0, 10), (1, 0, 0))
    if abs(out[1]) > 1e-9:
        return ("correct_lever_arm([0,w,0],(0,0,10deg/s),(1,0,0)) = %s: the rotation-induced "
                "DVL velocity is doubled instead of removed" % (tuple(round(x, 4) for x in out),))
