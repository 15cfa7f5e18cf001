"""C11: USBL outlier rejection and the USBL shift of the dead-reckoned track."""
import json
import math

import numpy as np
import yaml
from hypothesis import strategies as st

import cli
import navgen
from checks.c10_dead_reckoning import at, num, table
from gen import fl, nice, times
from pbt import fail, require, require_close, sub

from auv_nav.localisation.usbl_filter import usbl_filter
from auv_nav.localisation.usbl_offset import usbl_offset
from auv_nav.sensors import Depth, Usbl


@st.composite
def filter_case(draw):
    n = draw(st.sampled_from([0, 1, 3, 5, 6, 7, 8, 9, 10, 12, 14, 16]))
    gaps = draw(st.lists(nice(0.5, 12, 1), min_size=n + 1, max_size=n + 1))
    t0 = float(draw(st.integers(1200000000, 1600000000)))
    ts = [round(t0 + sum(gaps[:i + 1]), 3) for i in range(n)]
    end = t0 + sum(gaps)
    dts = [t0 + draw(nice(-3, 6, 2))]
    steps = draw(st.lists(nice(0.5, 12, 1), min_size=3, max_size=6))
    stop = end + draw(nice(-6, 3, 2))
    while len(dts) < 2 or dts[-1] < stop:
        dts.append(round(dts[-1] + steps[len(dts) % len(steps)], 3))
    depth = [(t, draw(nice(10, 60, 1)), draw(nice(0, 2, 2))) for t in dts]
    usbl, pos = [], [0.0, 0.0]
    for t in ts:
        pos = [pos[0] + draw(nice(-4, 4, 1)), pos[1] + draw(nice(-4, 4, 1))]
        kind = draw(st.sampled_from(["ok"] * 9 + ["edge", "edge", "deep", "far"]))
        d = float(np.interp(t, dts, [x[1] for x in depth]))
        if kind == "edge":
            d += draw(nice(-6, 6, 1))
        if kind == "deep":
            d += draw(nice(-40, 40, 1))
        p = list(pos)
        if kind == "far":
            p = [p[0] + draw(nice(-200, 200, 1)), p[1] + draw(nice(-200, 200, 1))]
        usbl.append((t, p[0], p[1], d, draw(nice(0, 5, 2)), draw(nice(0, 5, 2)), draw(nice(0, 3, 2))))
    return {"depth": depth, "usbl": usbl, "sigma": draw(nice(0.5, 4, 1)),
            "speed": draw(nice(0, 3, 1)), "ne": draw(st.sampled_from([True, True, True, False])),
            "d": draw(st.sampled_from([True, True, True, False]))}


def mk(c):
    ds, us = [], []
    for t, d, s in c["depth"]:
        x = Depth()
        x.epoch_timestamp, x.depth, x.depth_std = t, d, s
        ds.append(x)
    for t, n, e, d, sn, se, sd in c["usbl"]:
        u = Usbl()
        u.epoch_timestamp, u.northings, u.eastings, u.depth = t, n, e, d
        u.northings_std, u.eastings_std, u.depth_std = sn, se, sd
        u.latitude = u.longitude = 0.0
        us.append(u)
    return ds, us


class Ambiguous(Exception):
    pass


def le(a, b):
    if abs(a - b) < 1e-6:
        raise Ambiguous()
    return a < b


def keep_time(c, u):
    return le(c["depth"][0][0] + 1, u[0]) and le(u[0], c["depth"][-1][0] - 1)


def keep_depth(c, u):
    ts = [x[0] for x in c["depth"]]
    d = np.interp(u[0], ts, [x[1] for x in c["depth"]])
    s = np.interp(u[0], ts, [x[2] for x in c["depth"]])
    return le(abs(u[3] - d), c["sigma"] * (u[6] + s))


def near(c, a, b):
    return le(math.hypot(a[1] - b[1], a[2] - b[2]),
              c["sigma"] * (math.hypot(a[4], a[5]) + math.hypot(b[4], b[5])
                            + abs(a[0] - b[0]) * c["speed"]))


@sub("C11", "filter", filter_case(), quick=2500, thorough=60000,
     rule="at least five fixes pass the depth test, and at least one fix is rejected by depth or "
          "by distance")
def filter_(c, t):
    ds, us = mk(c)
    try:
        timed = [u for u in c["usbl"] if keep_time(c, u)]
        deep = [u for u in timed if keep_depth(c, u)] if c["d"] else timed
        want = deep
        if c["ne"]:
            want = [deep[i] for i in range(2, len(deep) - 2)
                    if all(near(c, deep[i], deep[i + k]) for k in (-2, -1, 1, 2))]
    except Ambiguous:
        return
    a, b = usbl_filter(list(us), ds, c["sigma"], c["speed"], apply_north_east_filter=c["ne"],
                       apply_depth_filter=c["d"])
    index = {id(u): i for i, u in enumerate(us)}
    require(all(id(u) in index for u in b), "the filter invented a fix")
    got = [index[id(u)] for u in b]
    exp = [c["usbl"].index(w) for w in want]
    require(got == exp or [c["usbl"][i] for i in got] == want,
            lambda: "kept fixes %s, expected %s" % (got, exp))
    if c["ne"]:
        require([c["usbl"][index[id(u)]] for u in a] == deep, "fixes before the distance test")
    for u, raw in zip(us, c["usbl"]):
        require((u.epoch_timestamp, u.northings, u.eastings, u.depth, u.northings_std, u.eastings_std,
                 u.depth_std) == raw, "a fix was changed")
    t.nontrivial(len(deep) >= 5 and (len(deep) < len(timed) or len(want) < len(deep) - 4))
    t.label("rejected by depth", len(deep) < len(timed))
    t.label("rejected by distance", c["ne"] and len(want) < len(deep) - 4)
    t.label("something kept", len(want) > 0)


@st.composite
def offset_case(draw):
    dr = draw(times(2, 25, min_dt=0.3, max_dt=8))
    n = [draw(nice(-50, 50, 2)) for _ in dr]
    e = [draw(nice(-50, 50, 2)) for _ in dr]
    k = draw(st.integers(1, 12))
    kind = draw(st.sampled_from(["dense", "dense", "any"]))
    if kind == "dense":
        t = dr[0] + draw(nice(-15, max(0.1, dr[-1] - dr[0] - 0.1), 2))
        gaps = draw(st.lists(nice(0.2, 9, 2), min_size=k, max_size=k))
    else:
        t = dr[0] + draw(nice(-60, dr[-1] - dr[0] + 30, 2))
        gaps = draw(st.lists(nice(0.2, 45, 2), min_size=k, max_size=k))
    us = []
    for g in gaps:
        us.append(round(t, 3))
        t += g
    exact = draw(st.booleans())
    noise = [(0.0, 0.0) if exact else (draw(nice(-5, 5, 2)), draw(nice(-5, 5, 2))) for _ in us]
    return {"dr": dr, "n": n, "e": e, "us": us, "off": draw(st.tuples(nice(-900, 900), nice(-900, 900))),
            "noise": noise, "kind": kind, "move": draw(st.tuples(nice(-100, 100), nice(-100, 100)))}


@sub("C11", "shift", offset_case(), quick=2500, thorough=60000,
     rule="at least three fixes overlap the track, and their residuals differ or the offset is not "
          "zero")
def shift(c, t):
    dr, us = c["dr"], c["us"]
    base_n = np.interp(us, dr, c["n"])
    base_e = np.interp(us, dr, c["e"])
    un = [float(b + c["off"][0] + z[0]) for b, z in zip(base_n, c["noise"])]
    ue = [float(b + c["off"][1] + z[1]) for b, z in zip(base_e, c["noise"])]
    inside = [i for i, x in enumerate(us) if dr[0] <= x <= dr[-1]]
    got = usbl_offset(list(dr), list(c["n"]), list(c["e"]), list(us), list(un), list(ue))
    require(len(got) == 2 and all(math.isfinite(x) for x in got), "no offset: %r" % (got,))
    # moving the track or the fixes moves the offset by as much
    m = c["move"]
    # A track is only matched to two or more fixes of the same stretch (gaps of 20 s and more may
    # leave none: then there is no shift).
    if len(inside) > 1 and (c["kind"] == "dense" or tuple(got) != (0.0, 0.0)):
        g2 = usbl_offset(list(dr), [x - m[0] for x in c["n"]], [x - m[1] for x in c["e"]], list(us),
                         list(un), list(ue))
        require_close(np.array(g2) - np.array(got), m, "shift after moving the track", 0, 1e-6)
        g3 = usbl_offset(list(dr), list(c["n"]), list(c["e"]), list(us), [x + m[0] for x in un],
                         [x + m[1] for x in ue])
        require_close(np.array(g3) - np.array(got), m, "shift after moving the fixes", 0, 1e-6)
        res = np.array([(un[i] - base_n[i], ue[i] - base_e[i]) for i in inside])
        ok = [np.allclose(got, res[k:].mean(axis=0), rtol=0, atol=1e-6) for k in range(len(res))]
        if c["kind"] == "dense":
            ok = ok[:2]
        require(any(ok), lambda: "offset %s is not the mean difference between the fixes and the "
                "track at the fix times: residuals %s" % (got, res.tolist()))
    t.nontrivial(len(inside) >= 3)
    t.label("USBL starts first", us[0] < dr[0])
    t.label("single fix", len(us) == 1)
    t.label("no overlap", not inside)
    t.label("gaps", any(b - a > 20 for a, b in zip(us, us[1:])))


@sub("C11", "process", filter_case(), quick=120, thorough=3000, max_s=60, shards=8,
     rule="the distance test is on or off by configuration, and some fixes are kept and some are rejected")
def process(c, t):
    """`auv_nav process` filters the fixes as mission.yaml and auv_nav.yaml say, and shifts the track by the kept ones"""
    if len(c["usbl"]) < 3:
        return
    try:
        timed = [u for u in c["usbl"] if keep_time(c, u)]
        deep = [u for u in timed if keep_depth(c, u)] if c["d"] else timed
        want = deep
        if c["ne"]:
            want = [deep[i] for i in range(2, len(deep) - 2)
                    if all(near(c, deep[i], deep[i + k]) for k in (-2, -1, 1, 2))]
    except Ambiguous:
        return
    a, b = c["usbl"][0][0] - 8, c["usbl"][-1][0] + 8
    q = [round(a + 0.4 * k, 3) for k in range(int((b - a) / 0.4) + 1)]
    d = {"t0": a, "t1": b, "ref": (10.0, 20.0), "const": True, "dvl_lag": 0.0, "bad_dvl": 0, "cams": 1, "images": [],
         "laser": [], "payload": False, "ptimes": [], "std": "sensor", "filter": True, "usbl": [],
         "frames": {k: (0.0, 0.0, 0.0) for k in navgen.FRAMES},
         "orientation": [(x, (1.0, 2.0, 40.0)) for x in q], "velocity": [(x + 0.1, (0.5, 0.1, 0.0)) for x in q],
         "altitude": [(x + 0.15, 5.0) for x in [q[0] - 2] + q], "depth": [(x[0], x[1]) for x in c["depth"]]}
    loc = navgen.localisation(d)
    loc["usbl_filter"] = {"activate": True, "max_auv_speed": c["speed"], "sigma_factor": c["sigma"]}
    raw, pro, cfg = navgen.write_dive(t.scratch(), d, loc)
    m = yaml.safe_load((raw / "mission.yaml").read_text())
    for k, v in (("apply_depth_filter", c["d"]), ("apply_north_east_filter", c["ne"])):
        if not v or int(c["usbl"][0][0]) % 2:   # on unless it is said otherwise
            m["usbl"][k] = v
    (raw / "mission.yaml").write_text(yaml.safe_dump(m))
    f = pro / "nav" / "nav_standard.json"
    ps = json.loads(f.read_text())
    stds = {x[0]: x[2] for x in c["depth"]}
    for p in ps:
        if p["category"] == "depth":
            p["data"][0]["depth_std"] = stds[p["epoch_timestamp"]]
    for tt, n, e, dd, sn, se, sd in c["usbl"]:
        ps.append({"epoch_timestamp": tt, "class": "measurement", "sensor": "gaps", "frame": "inertial", "category": "usbl",
                   "data_ship": [{"latitude": 0.0, "longitude": 0.0}, {"northings": 0.0, "eastings": 0.0}, {"heading": 0.0}],
                   "data_target": [{"latitude": 1.5, "latitude_std": 1e-5}, {"longitude": 2.5, "longitude_std": 1e-5},
                                   {"northings": n, "northings_std": sn}, {"eastings": e, "eastings_std": se},
                                   {"depth": dd, "depth_std": sd}, {"distance_to_ship": 100.0}]})
    ps.sort(key=lambda p: p["epoch_timestamp"])
    f.write_text(json.dumps(ps))
    cli.nav_process(raw)
    out, = [p for p in pro.iterdir() if p.name.startswith("json_renav")]
    f = out / "csv" / "auv_usbl.csv"
    rows = table(f, "kept fixes") if f.exists() else []
    got = [tuple(num(r[k]) for k in ("Timestamp", "Northing [m]", "Easting [m]", "Depth [m]")) for r in rows]
    if len(want) > 1 or got:
        require(got == [w[:4] for w in want], lambda: "kept fixes at %s, expected %s (depth test %s, distance test %s)" % (
            [g[0] for g in got], [w[0] for w in want], c["d"], c["ne"]))
        require(all(num(r["Latitude [deg]"]) == 1.5 and num(r["Longitude [deg]"]) == 2.5 for r in rows), "fixes moved")
    # the track is shifted by the kept fixes alone
    centre = table(out / "csv" / "dead_reckoning" / "auv_dr_centre.csv", "track")
    pos = [(num(r["timestamp"]), num(r["northing [m]"]), num(r["easting [m]"])) for r in centre]
    ref = navgen.reference(d, ps[1]["epoch_timestamp"], ps[-1]["epoch_timestamp"], 1)
    shift = np.array(pos[0][1:]) - ref[0]["centre"]
    if not want:
        require_close(shift.tolist(), [0.0, 0.0], "shift of the track without fixes", 0, 1e-6)
    overlap = [u for u in want if ref[0]["t"] <= u[0] <= ref[-1]["t"]]
    if len(overlap) > 1 and max(y[0] - x[0] for x, y in zip(overlap, overlap[1:])) < 20 and len(overlap) == len(want):
        res = np.array([np.array(u[1:3]) - at(ref, u[0], "centre") for u in overlap])
        require(bool(np.all(shift >= res.min(0) - 1e-6) and np.all(shift <= res.max(0) + 1e-6)),
                lambda: "the track is shifted by %s, the kept fixes are off by %s" % (shift, res.tolist()))
    t.label("depth %s distance %s" % (c["d"], c["ne"]))
    t.nontrivial(0 < len(want) < len(c["usbl"]) and (len(deep) < len(timed) or not c["d"] or not c["ne"]))
