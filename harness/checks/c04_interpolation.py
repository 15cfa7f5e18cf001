"""C04: interpolation is piecewise linear in time, exact at samples, wrap-aware in heading."""
from hypothesis import strategies as st

from gen import angle360, fl, nice, times
from pbt import angdiff, fail, require, require_close, sub

from auv_nav.sensors import Altitude, Camera, SyncedOrientationBodyVelocity, Usbl
from auv_nav.tools.interpolate import (
    interpolate,
    interpolate_altitude,
    interpolate_camera,
    interpolate_covariance,
    interpolate_dvl,
    interpolate_usbl,
)

val = st.one_of(fl(-1e4, 1e4), st.sampled_from([0.0, 1.0, -1.0]))
frac = st.one_of(fl(0, 1), st.sampled_from([0.0, 1.0, 0.5]))


def lin(a, b, x):
    return a + (b - a) * x


@sub("C04", "scalar", st.fixed_dictionaries(
    {"t0": fl(-1e9, 2e9), "dt": fl(0.01, 1e4), "a": val, "b": val, "x": fl(-1, 2)}),
    quick=4000, thorough=80000, rule="the two values differ")
def scalar(c, t):
    t0, t1 = c["t0"], c["t0"] + c["dt"]
    if t1 <= t0:
        return
    q = t0 + c["x"] * c["dt"]
    x = (q - t0) / (t1 - t0)
    tol = 1e-9 * (1 + abs(c["a"]) + abs(c["b"]))
    got = interpolate(q, t0, t1, c["a"], c["b"])
    require_close(got, lin(c["a"], c["b"], x), "interpolate", 0, tol)
    require_close(interpolate(t0, t0, t1, c["a"], c["b"]), c["a"], "value at the lower sample", 0, tol)
    require_close(interpolate(t1, t0, t1, c["a"], c["b"]), c["b"], "value at the upper sample", 0, tol)
    require_close(interpolate(q, t1, t0, c["b"], c["a"]), got, "samples given in reverse", 0, 4 * tol)
    require_close(interpolate(t0, t0, t0, c["a"], c["b"]), c["a"], "coincident samples", 0, 0)
    t.nontrivial(c["a"] != c["b"])


FIELDS = ["x_velocity", "y_velocity", "z_velocity", "roll", "pitch"]


def state(t, vals, yaw):
    s = SyncedOrientationBodyVelocity()
    s.epoch_timestamp = t
    for f, v in zip(FIELDS, vals):
        setattr(s, f, v)
    s.yaw = yaw
    return s


def check_heading(got, y0, y1, x, what):
    """the short way round, and a heading in [0, 360]"""
    d = angdiff(y1, y0)
    if abs(abs(d) - 180) < 1e-6:
        return
    want = y0 + d * x
    require(abs(angdiff(got, want)) < 1e-6,
            "%s: heading %r between %r and %r at %r, expected %r" % (what, got, y0, y1, x, want % 360))
    require(-1e-9 <= got <= 360 + 1e-9, "%s: heading %r out of range" % (what, got))


@sub("C04", "dvl", st.fixed_dictionaries(
    {"t0": fl(1e9, 2e9), "dt": fl(0.05, 100), "x": frac,
     "a": st.tuples(*[val] * 5), "b": st.tuples(*[val] * 5), "y0": angle360, "y1": angle360}),
    quick=3000, thorough=60000, rule="the heading crosses north")
def dvl(c, t):
    t1 = c["t0"] + c["dt"]
    q = min(max(c["t0"] + c["x"] * c["dt"], c["t0"]), t1)
    x = (q - c["t0"]) / (t1 - c["t0"])
    s = interpolate_dvl(q, state(c["t0"], c["a"], c["y0"]), state(t1, c["b"], c["y1"]))
    require(s.epoch_timestamp == q, "time stamp")
    for i, f in enumerate(FIELDS):
        require_close(getattr(s, f), lin(c["a"][i], c["b"][i], x), f, 0, 1e-7)
    check_heading(s.yaw, c["y0"], c["y1"], x, "interpolate_dvl")
    t.nontrivial(abs(c["y0"] - c["y1"]) > 180)


@sub("C04", "usbl", st.fixed_dictionaries(
    {"t0": fl(1e9, 2e9), "dt": fl(0.05, 100), "x": frac, "a": st.tuples(*[val] * 5),
     "b": st.tuples(*[val] * 5)}), quick=1500, thorough=30000, rule="the fixes differ")
def usbl(c, t):
    names = ["northings", "eastings", "northings_std", "eastings_std", "depth"]
    us = []
    t1 = c["t0"] + c["dt"]
    for tt, v in ((c["t0"], c["a"]), (t1, c["b"])):
        u = Usbl()
        u.epoch_timestamp = tt
        for n, x in zip(names, v):
            setattr(u, n, x)
        us.append(u)
    q = min(c["t0"] + c["x"] * c["dt"], t1)
    x = (q - c["t0"]) / (t1 - c["t0"])
    r = interpolate_usbl(q, *us)
    require(r.epoch_timestamp == q, "time stamp")
    for i, n in enumerate(names):
        require_close(getattr(r, n), lin(c["a"][i], c["b"][i], x), n, 0, 1e-7)
    t.nontrivial(c["a"] != c["b"])


@st.composite
def series(draw, nval, min_size=2):
    ts = draw(times(min_size, 10))
    rows = [draw(st.tuples(*[nice(-100, 100)] * nval)) for _ in ts]
    yaws = [draw(angle360) for _ in ts]
    k = draw(st.integers(0, len(ts) - 2))
    x = draw(frac)
    return {"t": ts, "rows": rows, "yaws": yaws, "k": k, "x": x}


def bracket(ts, q):
    for i in range(1, len(ts)):
        if q <= ts[i]:
            return i - 1, (q - ts[i - 1]) / (ts[i] - ts[i - 1])


@sub("C04", "altitude_series", series(1), quick=2000, thorough=40000,
     rule="three samples or more and the query falls strictly inside an interval")
def altitude(c, t):
    data = []
    for tt, r in zip(c["t"], c["rows"]):
        a = Altitude()
        a.epoch_timestamp, a.altitude = tt, r[0]
        data.append(a)
    q = c["t"][c["k"]] + c["x"] * (c["t"][c["k"] + 1] - c["t"][c["k"]])
    q = min(q, c["t"][c["k"] + 1])
    i, x = bracket(c["t"], q)
    require_close(interpolate_altitude(q, data), lin(c["rows"][i][0], c["rows"][i + 1][0], x),
                  "altitude at %r" % q, 0, 1e-5)
    t.nontrivial(len(data) > 2 and 0 < x < 1)


CF = ["northings", "eastings", "depth", "latitude", "longitude", "roll", "pitch", "x_velocity",
      "y_velocity", "z_velocity", "altitude"]


@sub("C04", "camera_series", series(11), quick=2500, thorough=40000,
     rule="the query falls strictly inside an interval (counted apart: the heading crosses north)")
def camera(c, t):
    cams = []
    for tt, r, y in zip(c["t"], c["rows"], c["yaws"]):
        cam = Camera()
        cam.epoch_timestamp, cam.yaw = tt, y
        for f, v in zip(CF, r):
            setattr(cam, f, v)
        cams.append(cam)
    q = c["t"][c["k"]] + c["x"] * (c["t"][c["k"] + 1] - c["t"][c["k"]])
    q = min(q, c["t"][c["k"] + 1])
    i, x = bracket(c["t"], q)
    r = interpolate_camera(q, cams, "some/file.tif")
    require(r.filename == "some/file.tif" and r.epoch_timestamp == q, "name or time stamp")
    for j, f in enumerate(CF):
        require_close(getattr(r, f), lin(c["rows"][i][j], c["rows"][i + 1][j], x), "%s at %r" % (f, q),
                      0, 1e-5)
    y0, y1 = c["yaws"][i], c["yaws"][i + 1]
    d = angdiff(y1, y0)
    if abs(abs(d) - 180) > 1e-6:
        require(abs(angdiff(r.yaw, y0 + d * x)) < 1e-4,
                "heading %r between %r and %r at %r" % (r.yaw, y0, y1, x))
    t.nontrivial(0 < x < 1)
    t.label("crosses north", abs(y0 - y1) > 180)


@sub("C04", "covariance", st.fixed_dictionaries(
    {"seed": st.integers(0, 2**31), "x": frac, "dt": fl(0.01, 50)}), quick=600, thorough=10000,
    rule="strictly inside the interval")
def covariance(c, t):
    import numpy as np

    g = np.random.default_rng(c["seed"])
    ms = []
    for _ in range(2):
        a = g.normal(size=(6, 6))
        ms.append(a @ a.T)
    t0, t1 = 1000.0, 1000.0 + c["dt"]
    q = t0 + c["x"] * (t1 - t0)
    x = (q - t0) / (t1 - t0)
    m = interpolate_covariance(q, t0, t1, ms[0].copy(), ms[1].copy())
    require_close(m, (1 - x) * ms[0] + x * ms[1], "covariance", 1e-9, 1e-9)
    require_close(m, m.T, "covariance is symmetric", 1e-9, 1e-9)
    require(np.linalg.eigvalsh(m).min() > -1e-9, "covariance is positive")
    t.nontrivial(0 < c["x"] < 1)
