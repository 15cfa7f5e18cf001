"""C21: auv_nav convert carries poses between the formats of ACFR, HyBis, the koyo20 ROV and OPLAB."""
import math
import os
import time
from datetime import datetime, timezone
from pathlib import Path

import numpy as np
import yaml
from geographiclib.geodesic import Geodesic
from hypothesis import strategies as st

import navgen
from checks.c10_dead_reckoning import latlon_ok, num
from checks.c30_laser import quiet
from gen import fl, lat, nice
from navgen import rot
from pbt import angdiff, require, require_close, sub

from auv_nav.auv_nav import main as auv_nav
from auv_nav.parsers.acfr_stereo_pose import AcfrStereoPoseParser, AcfrStereoPoseWriter
from auv_nav.parsers.acfr_vehicle_pose import AcfrVehiclePoseParser, AcfrVehiclePoseWriter
from auv_nav.sensors import Camera, SyncedOrientationBodyVelocity
from auv_nav.tools.csv_tools import write_csv

G = Geodesic.WGS84
STDS = ["northings_std", "eastings_std", "depth_std", "roll_std", "pitch_std", "yaw_std",
        "x_velocity_std", "y_velocity_std", "z_velocity_std", "vroll_std", "vpitch_std", "vyaw_std"]
KEYS = ["northings", "eastings", "depth", "roll", "pitch", "yaw", "altitude", "latitude", "longitude"]
COL = ["northing [m]", "easting [m]", "depth [m]", "roll [deg]", "pitch [deg]", "heading [deg]",
       "altitude [m]", "latitude [deg]", "longitude [deg]"]


def cli(*args):
    """run the command; False if it refused"""
    with quiet():
        try:
            auv_nav(["convert"] + [str(a) for a in args])
        except (SystemExit, AssertionError):
            return False
    return True


def snapshot(root):
    return {str(p.relative_to(root)): p.read_bytes() for p in sorted(Path(root).rglob("*")) if p.is_file()}


@st.composite
def poses(draw, n=None):
    n = draw(st.integers(2, 8)) if n is None else n
    t = draw(st.integers(1200000000, 1700000000)) + draw(nice(0, 0.999))
    out = []
    for i in range(n):
        out.append({"t": t, "northings": draw(fl(-5000, 5000)), "eastings": draw(fl(-5000, 5000)),
                    "depth": draw(fl(0, 6000)), "roll": draw(fl(-60, 60)), "pitch": draw(fl(-60, 60)),
                    "yaw": draw(st.one_of(fl(0, 359.99), st.sampled_from([0.0, 89.0, 90.5, 359.9]))),
                    "altitude": draw(fl(0.5, 50)), "latitude": draw(fl(-80, 80)),
                    "longitude": draw(fl(-179, 179))})
        # time stamps have microseconds
        t = round(t + draw(nice(0.2, 5, 2)) + draw(st.integers(0, 999)) * 1e-6, 6)
    return out


def obj(p, cls, name=None):
    o = cls()
    o.epoch_timestamp = p["t"]
    for k in KEYS:
        setattr(o, k, p[k])
    for i, k in enumerate(STDS):
        setattr(o, k, 0.01 * (i + 1))
    o.x_velocity = o.y_velocity = o.z_velocity = 0.0
    if name is not None:
        o.filename = name
    return o


def acfr_lines(path):
    """(origin, rows of tokens) of a pose file, by its own definition: comments, two origin lines, data"""
    origin, rows = {}, []
    for line in Path(path).read_text().splitlines():
        w = line.split()
        if not w or w[0].startswith("%"):
            continue
        if w[0].startswith("ORIGIN_"):
            origin[w[0]] = float(w[1])
        else:
            rows.append(w)
    return origin, rows


def same_pose(o, p, what):
    require_close(o.epoch_timestamp, p["t"], what + ": time stamp", 0, 1e-6)
    for k in KEYS:
        if k in ("yaw", "roll", "pitch"):
            require(abs(angdiff(getattr(o, k), p[k])) < 1e-7, "%s: %s is %r, expected %r" % (
                what, k, getattr(o, k), p[k]))
        else:
            require_close(getattr(o, k), p[k], what + ": " + k, 1e-12, 1e-9)


def same_row(r, p, what, tkey):
    require_close(num(r[tkey]), p["t"], what + ": time stamp", 0, 1e-6)
    for k, c in zip(KEYS, COL):
        if k in ("yaw", "roll", "pitch"):
            require(abs(angdiff(num(r[c]), p[k])) < 1e-7, "%s: %s is %s, expected %r" % (
                what, c, r[c], p[k]))
        else:
            require_close(num(r[c]), p[k], what + ": " + c, 1e-12, 1e-9)


def check_file(path, ps, origin, stereo, names=None):
    org, rows = acfr_lines(path)
    require_close([org.get("ORIGIN_LATITUDE"), org.get("ORIGIN_LONGITUDE")], list(origin), "origin", 0, 1e-9)
    require(len(rows) == len(ps), "%d poses written for %d" % (len(rows), len(ps)))
    for i, (w, p) in enumerate(zip(rows, ps)):
        v = [float(x) for x in w[:10]]
        require(len(w) == (15 if stereo else 11), "%d items in a row" % len(w))
        require_close(v[1:7], [p["t"], p["latitude"], p["longitude"], p["northings"], p["eastings"],
                               p["depth"]], "row %d" % i, 1e-12, 1e-6)
        if not stereo:
            for k, a in zip(("roll", "pitch", "yaw"), v[7:]):
                require(abs(angdiff(math.degrees(a), p[k])) < 1e-7,
                        "row %d: %s of %r deg written as %r rad" % (i, k, p[k], a))
            require_close(float(w[10]), p["altitude"], "altitude", 1e-12, 1e-9)
        else:
            require(all(abs(a) <= 2 * math.pi + 1e-9 for a in v[7:]), "row %d: angles %r not in radians" % (
                i, v[7:]))
            require(w[10:12] == [Path(n).name for n in names[i]], "image names %r" % (w[10:12],))
            require_close(float(w[12]), p["altitude"], "altitude", 1e-12, 1e-9)


@st.composite
def acfr_case(draw):
    ps = draw(poses())
    lo, hi = ps[0]["t"], ps[-1]["t"]
    las = draw(st.lists(st.one_of(nice(0, 1), st.sampled_from([0.0, 1.0])), max_size=5))
    return {"poses": ps, "keep": draw(st.lists(st.booleans(), min_size=4, max_size=4)), "other": draw(poses()), "origin": (draw(lat), draw(fl(-179, 179))),
            "what": draw(st.sampled_from(["vehicle", "stereo", "both", "stereo"])),
            "laser": [round(lo + (hi - lo) * x, 3) for x in sorted(las)], "dive": draw(st.booleans())}


def stereo_names(n):
    # the second camera counts its images backwards
    return [("image/LC/%06d_LC.png" % i, "image/RC/%06d_RC.png" % (900 - i)) for i in range(n)]


def write_acfr(root, tag, ps, origin):
    v, s = root / (tag + "_vehicle.data"), root / (tag + "_stereo.data")
    AcfrVehiclePoseWriter(v, *origin).write([obj(p, SyncedOrientationBodyVelocity) for p in ps])
    names = stereo_names(len(ps))
    AcfrStereoPoseWriter(s, *origin).write([obj(p, Camera, n[0]) for p, n in zip(ps, names)],
                                           [obj(p, Camera, n[1]) for p, n in zip(ps, names)])
    return v, s


@sub("C21", "acfr", acfr_case(), quick=250, thorough=8000, max_s=60,
     rule="at least 2 poses with distinct roll, pitch and heading, written and read back")
def acfr(c, t):
    """pose files say what they were given, read back as the same poses, and convert to the same CSVs"""
    root, ps, origin = Path(t.scratch()), c["poses"], c["origin"]
    t.nontrivial(any(abs(p["roll"] - p["pitch"]) > 1 and abs(p["roll"] + p["pitch"]) > 1 for p in ps))
    t.label(c["what"])
    with quiet():
        v, s = write_acfr(root, "a", ps, origin)
        check_file(v, ps, origin, False)
        check_file(s, ps, origin, True, stereo_names(len(ps)))
        vp, sp = AcfrVehiclePoseParser(v), AcfrStereoPoseParser(s)
        dr = vp.get_dead_reckoning()
        c1, c2 = sp.get_cameras()
    for q in (vp, sp):
        require_close([q.origin_latitude, q.origin_longitude], list(origin), "origin read", 0, 1e-9)
    require(len(dr) == len(c1) == len(c2) == len(ps), "poses lost: %d %d %d of %d" % (
        len(dr), len(c1), len(c2), len(ps)))
    for i, p in enumerate(ps):
        same_pose(dr[i], p, "vehicle pose read back")
        same_pose(c1[i], p, "left camera read back")
        same_pose(c2[i], p, "right camera read back")
        require([c1[i].filename, c2[i].filename] == [Path(n).name for n in stereo_names(len(ps))[i]],
                "image names read back")
    out = root / "out"
    args = ["acfr_to_oplab", "-o", out]
    if c["what"] != "stereo":
        args += ["--vehicle-pose", v]
    if c["what"] != "vehicle":
        args += ["--stereo-pose", s]
    if c["dive"]:
        pro = root / "processed" / "y" / "d"
        (pro / "nav").mkdir(parents=True)
        pk = [{"epoch_timestamp": 0.0, "category": "origin"},
              {"epoch_timestamp": ps[0]["t"] - 10.0, "category": "depth"}]
        pk += [{"epoch_timestamp": x, "category": "laser", "filename": "image/LM/%d.png" % i}
               for i, x in enumerate(c["laser"])]
        pk += [{"epoch_timestamp": ps[-1]["t"] + 10.0, "category": "depth"}]
        # before the start: outside what is converted
        pk.insert(1, {"epoch_timestamp": ps[0]["t"] - 20.0, "category": "laser", "filename": "image/LM/early.png"})
        pk[1], pk[2] = pk[2], pk[1]
        import json
        (pro / "nav" / "nav_standard.json").write_text(json.dumps(pk))
        args += ["-d", pro]
    require(cli(*args), "conversion refused")
    want = {}
    if c["what"] != "stereo":
        want["auv_acfr_centre.csv"] = "timestamp"
    if c["what"] != "vehicle":
        want["auv_acfr_LC.csv"] = want["auv_acfr_RC.csv"] = "timestamp [s]"
        if c["dive"]:
            want["auv_acfr_laser.csv"] = None
    require(sorted(snapshot(out)) == sorted(want), "files %r, expected %r" % (sorted(snapshot(out)),
                                                                              sorted(want)))
    for f, key in want.items():
        rows, _, _ = navgen.read_csv(out / f)
        if key is not None:
            require(len(rows) == len(ps), "%s has %d rows for %d poses" % (f, len(rows), len(ps)))
            for r, p in zip(rows, ps):
                same_row(r, p, f, key)
            continue
        require([r["relative_path"] for r in rows] == ["image/LM/%d.png" % i for i in range(len(c["laser"]))],
                "laser images")
        ts = [p["t"] for p in ps]
        for r, q in zip(rows, c["laser"]):
            i = min(max(1, int(np.searchsorted(ts, q))), len(ts) - 1)
            a, b = ps[i - 1], ps[i]
            w = (q - a["t"]) / (b["t"] - a["t"])
            e = {"t": q}
            for k in KEYS:
                d = angdiff(b[k], a[k]) if k == "yaw" else b[k] - a[k]
                if k == "yaw" and abs(abs(d) - 180) < 1e-6:
                    break
                e[k] = a[k] + w * d
            else:
                for k, col in zip(KEYS, COL):
                    if k == "yaw":
                        require(abs(angdiff(num(r[col]), e[k])) < 1e-5, "laser heading %s, expected %r "
                                "between %r and %r" % (r[col], e[k], a[k], b[k]))
                    else:
                        require_close(num(r[col]), e[k], "laser " + col, 1e-8, 1e-5)
    before = snapshot(out)
    with quiet():
        v2, s2 = write_acfr(root, "a", c["other"], origin)
    require(not cli(*args), "existing CSVs: conversion without -F went ahead")
    require(snapshot(out) == before, "existing CSVs overwritten without -F")
    require(cli(*(args + ["-F"])), "conversion with -F refused")
    for f, key in want.items():
        if key is not None:
            rows, _, _ = navgen.read_csv(out / f)
            require(len(rows) == len(c["other"]), "%s not rewritten with -F" % f)
    # some of the CSVs are left: none of them is lost unasked
    for f, k in zip(sorted(want), c["keep"]):
        if not k:
            (out / f).unlink()
    before = snapshot(out)
    if before:
        with quiet():
            write_acfr(root, "a", c["poses"], origin)
        require(not cli(*args), "existing %s: conversion without -F went ahead" % sorted(before))
        after = snapshot(out)
        require(all(after.get(f) == before[f] for f in before), "existing %s overwritten without -F" % sorted(before))
        t.label("partly converted", len(before) < len(want))


# ------------------------------------------------------------ oplab_to_acfr
@st.composite
def to_acfr_case(draw):
    c = draw(navgen.dive(cams=draw(st.sampled_from([2, 3]))))
    c["payload"] = False
    c["sr"] = draw(st.lists(nice(50, 400), min_size=2, max_size=4))
    c["poses"] = draw(poses())
    c["cposes"] = draw(poses())
    return c


def fields(line):
    """the values after the 'key: value' / 'key:value' items of a RAW line"""
    w = line.replace(":", ": ").split()
    out, i = {}, 1
    while i < len(w) - 1:
        if w[i].endswith(":"):
            out[w[i][:-1]] = w[i + 1]
            i += 2
        else:
            i += 1
    return out


@sub("C21", "to_acfr", to_acfr_case(), quick=120, thorough=4000, max_s=60,
     rule="a dive with a DVL line, images and a position fix")
def to_acfr(c, t):
    """oplab_to_acfr writes the EKF poses and every measurement of the dive once, in order"""
    root = Path(t.scratch())
    raw, pro, cfg = navgen.write_dive(root, c)
    pk = navgen.packets(c)
    us = [p for p in pk if p["category"] == "usbl"]
    for i, p in enumerate(us):
        p["data_target"][5]["distance_to_ship"] = c["sr"][i % len(c["sr"])]
        p["data_ship"][1] = {"northings": 1.5 * i, "eastings": -2.5 * i}
    import json
    (pro / "nav" / "nav_standard.json").write_text(json.dumps(pk))
    ekf = pro / "json_renav_20200302_101112_20200302_111112" / "csv" / "ekf"
    names = stereo_names(len(c["cposes"]))
    with quiet():
        write_csv(ekf, [obj(p, SyncedOrientationBodyVelocity) for p in c["poses"]], "auv_ekf_centre")
        for k, n in enumerate(("LC", "RC")):
            write_csv(ekf, [obj(p, Camera, x[k]) for p, x in zip(c["cposes"], names)], "auv_ekf_" + n)
    out = pro / "acfr"
    before = snapshot(root)
    require(cli("oplab_to_acfr", raw, out), "conversion refused")
    check_file(out / "vehicle_pose_est.data", c["poses"], c["ref"], False)
    check_file(out / "stereo_pose_est.data", c["cposes"], c["ref"], True, names)
    cfgt = (out / "mission.cfg").read_text().split()
    cf = dict(zip(cfgt[::2], cfgt[1::2]))
    require_close([float(cf["MAG_VAR_LAT"]), float(cf["MAG_VAR_LNG"])], list(c["ref"]), "mission.cfg", 0, 1e-9)
    require(cf["MAG_VAR_DATE"].strip('"') == "2020/03/02", "date in mission.cfg")
    lines = (out / "dRAWLOGS_cv" / "combined.RAW.auv").read_text().splitlines()
    want, alt, ori = [], None, None
    for p in pk[1:]:
        k, ts = p["category"], p["epoch_timestamp"]
        if k == "velocity":
            if abs(p["epoch_timestamp_dvl"] - ts) < 1.0 and alt is not None and ori is not None:
                d = p["data"]
                want.append(("RDI", [p["epoch_timestamp_dvl"] if False else None, alt] + list(ori) + [
                    d[0]["x_velocity"], d[1]["y_velocity"], d[2]["z_velocity"]], p))
                alt = ori = None
        elif k == "altitude":
            alt = p["data"][0]["altitude"]
        elif k == "orientation":
            d = p["data"]
            ori = (d[0]["heading"], d[2]["pitch"], d[1]["roll"])
            want.append(("PHINS_COMPASS", [ts] + [d[1]["roll"], d[2]["pitch"], d[0]["heading"],
                                                  d[1]["roll_std"], d[2]["pitch_std"], d[0]["heading_std"]], p))
        elif k == "depth":
            want.append(("PAROSCI", [p["epoch_timestamp_depth"], p["data"][0]["depth"]], p))
        elif k == "usbl":
            want.append(("SSBL_FIX", None, p))
        elif k == "image":
            for n in ("camera1", "camera2"):
                want.append(("VIS", p[n][0], p))
    kinds = [x.split(":")[0] for x in lines]
    require(kinds == [w[0] for w in want], "measurements written: %r, expected %r" % (
        kinds[:12], [w[0] for w in want][:12]))
    for line, (k, v, p) in zip(lines, want):
        w, f = line.split(), fields(line)
        if k == "RDI":
            # stamped with the time of the velocity: of its packet or of the DVL
            require(min(abs(float(w[1]) - p["epoch_timestamp"]),
                        abs(float(w[1]) - p["epoch_timestamp_dvl"])) < 1e-6, "time of " + line)
            require_close([float(f[x]) for x in ("alt", "h", "p", "r", "vx", "vy", "vz")], v[1:], line, 0, 1e-9)
        elif k == "PHINS_COMPASS":
            require_close([float(w[1])] + [float(f[x]) for x in ("r", "p", "h", "std_r", "std_p", "std_h")], v,
                          line, 0, 1e-7)
        elif k == "PAROSCI":
            require_close([float(w[1]), float(w[2])], v, line, 0, 1e-7)
        elif k == "SSBL_FIX":
            d = p["data_target"]
            n, e, z, sr = d[2]["northings"], d[3]["eastings"], d[4]["depth"], d[5]["distance_to_ship"]
            require_close([float(w[1])] + [float(f["target_" + x]) for x in ("x", "y", "z", "sr")],
                          [p["epoch_timestamp"], n, e, z, sr], line, 0, 1e-7)
            require_close([float(f["ship_x"]), float(f["ship_y"])],
                          [p["data_ship"][1]["northings"], p["data_ship"][1]["eastings"]], line, 0, 1e-7)
            require_close(float(f["target_hr"]), math.sqrt(sr * sr - z * z) if sr > z else -1.0,
                          "horizontal range: " + line, 1e-9, 1e-7)
            if math.hypot(n, e) > 1e-6:
                require(abs(angdiff(float(f["target_bearing"]), math.degrees(math.atan2(e, n)))) < 1e-7,
                        "bearing: " + line)
        else:
            require_close(float(w[1]), v["epoch_timestamp"], line, 0, 1e-6)
            require(v["filename"] in line, "%s does not name %s" % (line, v["filename"]))
    t.nontrivial("RDI" in kinds and "VIS" in kinds and "SSBL_FIX" in kinds)
    after = snapshot(root)
    require(all(after[k] == before[k] for k in before), "the dive was changed by the conversion")
    if len(c["poses"]) != len(c["cposes"]):
        with quiet():
            write_csv(ekf, [obj(p, SyncedOrientationBodyVelocity) for p in c["cposes"]], "auv_ekf_centre")
        before = snapshot(out)
        require(not cli("oplab_to_acfr", raw, out), "existing output: conversion without -F went ahead")
        require(snapshot(out) == before, "existing output overwritten without -F")
        require(cli("oplab_to_acfr", raw, out, "-F"), "conversion with -F refused")
        check_file(out / "vehicle_pose_est.data", c["cposes"], c["ref"], False)
        (out / ("stereo_pose_est.data", "vehicle_pose_est.data")[len(c["poses"]) % 2]).unlink()
        before = snapshot(out)
        require(not cli("oplab_to_acfr", raw, out), "one pose file is left: conversion without -F went ahead")
        require(snapshot(out) == before, "the pose file left was overwritten without -F")


# ------------------------------------------------------------------- hybis
def dm(x, width, pos, neg):
    """ddmm.mmmmmX"""
    a = abs(x)
    d = int(a)
    m = min(round((a - d) * 60, 5), 59.99999)
    return "%0*d%08.5f%s" % (width, d, m, neg if x < 0 else pos), math.copysign(d + m / 60, x)


def track(draw, n, t0):
    la, lo = draw(fl(-70, 70)), draw(fl(-170, 170))
    # a latitude of zero means "no fix" in these files
    la += 0.5 if abs(la) < 0.1 else 0.0
    out, t, y = [], t0, draw(nice(0, 359.9, 1))
    for i in range(n):
        out.append({"t": t, "lat": la, "lon": lo, "roll": draw(nice(-20, 20, 1)),
                    "pitch": draw(nice(-20, 20, 1)), "heading": y, "depth": draw(nice(1, 900, 1)),
                    "alt": draw(nice(1, 20, 1))})
        t += draw(st.integers(1, 20))
        la += draw(nice(-20, 20)) * 1e-5
        lo += draw(nice(-20, 20)) * 1e-5
        y = round((y + draw(nice(-100, 100, 1))) % 360, 1) % 360
    return out


def gaps(draw, tr):
    """missing (zero) values with records on both sides, or in the first record"""
    for k in ("alt", "depth"):
        for i in range(len(tr) - 1):
            if draw(st.integers(0, 9)) == 0 and (i == 0 or tr[i - 1][k] != 0):
                tr[i][k] = 0.0
    if draw(st.integers(0, 3)) == 0:        # both sensors silent at once
        i = draw(st.integers(0, len(tr) - 2))
        for j in (i - 1, i + 1):
            if j >= 0:
                for k in ("alt", "depth"):
                    tr[j][k] = tr[j][k] or 5.0
        tr[i]["alt"] = tr[i]["depth"] = 0.0


@st.composite
def hybis_case(draw):
    t0 = draw(st.integers(1200000000, 1700000000))
    n = draw(st.integers(2, 8))
    tr = track(draw, n, t0)
    gaps(draw, tr)
    fr = draw(st.lists(st.one_of(nice(0, 1), st.sampled_from([0.0, 1.0])), min_size=1, max_size=6))
    span = tr[-1]["t"] - t0
    return {"track": tr, "images": [round(t0 + span * x, 2) for x in fr],
            "ref": draw(st.sampled_from([None, (50.25, -1.5), (-33.5, 151.25), (0.25, 0.75), (-0.5, -12.5),
                                         (-8.75, 0.125)])),
            "noise": draw(st.booleans()), "names": draw(st.booleans())}


def filled(tr, key):
    """isolated missing (zero) values between two records are interpolated"""
    v = [x[key] for x in tr]
    for i in range(1, len(tr) - 1):
        if v[i] == 0:
            v[i] = float(np.interp(tr[i]["t"], [tr[i - 1]["t"], tr[i + 1]["t"]], [v[i - 1], v[i + 1]]))
    return v


def expected(tr, q, keys, head):
    ts = [x["t"] for x in tr]
    i = min(max(1, int(np.searchsorted(ts, q))), len(ts) - 1)
    w = (q - ts[i - 1]) / (ts[i] - ts[i - 1])
    e = {}
    for k in keys:
        v = filled(tr, k)[i - 1:i + 1] if k in ("depth", "alt") else [tr[i - 1][k], tr[i][k]]
        d = angdiff(v[1], v[0]) if k == head else v[1] - v[0]
        e[k] = v[0] + w * d
        if k in ("depth", "alt") and v[0] == 0:
            # nothing before it: not more than the next record has
            e[k] = ("upto", v[1])
    return e


def between(got, want, what, tol, shift=0.0):
    if isinstance(want, tuple):
        require(-tol <= got - shift <= want[1] + tol, "%s: got %r, expected between 0 and %r" % (
            what, got - shift, want[1]))
    else:
        require_close(got, want + shift, what, 0, tol)


def metres(la, lo, ref):
    g = G.Inverse(ref[0], ref[1], la, lo)
    b = math.radians(g["azi1"])
    return np.array([g["s12"] * math.cos(b), g["s12"] * math.sin(b)])


@sub("C21", "hybis", hybis_case(), quick=200, thorough=6000, max_s=60,
     rule="at least 3 records and an image strictly between two of them")
def hybis(c, t):
    """an image of HyBis gets the pose between the records before and after it"""
    root = Path(t.scratch())
    raw = root / "raw" / "y" / "hybis"
    img = raw / "image"
    img.mkdir(parents=True)
    out = root / "processed" / "y" / "hybis"
    out.mkdir(parents=True)
    tr = [dict(x) for x in c["track"]]
    lines = ["Date , Time, Roll, Pitch, Heading, Pressure, Altitude, Hybis Long, Hybis Lat"]
    for x in tr:
        (slo, x["lon"]), (sla, x["lat"]) = dm(x["lon"], 3, "E", "W"), dm(x["lat"], 2, "N", "S")
        d = datetime.fromtimestamp(x["t"], timezone.utc)
        lines.append("%s, %s, %s, %s, %s, %s, %s, %s, %s" % (
            d.strftime("%d/%m/%Y"), d.strftime("%H:%M:%S"), x["roll"], x["pitch"], x["heading"],
            x["depth"], x["alt"], slo, sla))
        if c["noise"]:
            lines.append("%s, %s, 0, 0, 0, 0, 0, none, none" % (d.strftime("%d/%m/%Y"), d.strftime("%H:%M:%S")))
    (raw / "nav.csv").write_text("\n".join(lines) + "\n")
    n = len(c["images"])
    for i, q in enumerate(c["images"]):
        p = img / ("%04d.jpg" % (n - i if c["names"] else i))
        p.write_bytes(b"x")
        os.utime(p, (q, q))
    args = ["hybis_to_oplab", "-i", raw / "nav.csv", "-d", img, "-o", out]
    ref = c["ref"] or (0, 0)
    args += ["--reference-lat=%r" % ref[0], "--reference-lon=%r" % ref[1]]
    if c["ref"] is None:
        ref = (tr[0]["lat"], tr[0]["lon"])
    require(cli(*args), "conversion refused")
    fold = "json_renav_%s_%s" % tuple(datetime.fromtimestamp(x["t"], timezone.utc).strftime("%Y%m%d_%H%M%S")
                                      for x in (tr[0], tr[-1]))
    f = out / fold / "csv" / "dead_reckoning" / "auv_dr_hybis_camera.csv"
    require(f.exists(), "no %s in %r" % (f.relative_to(out), sorted(snapshot(out))))
    rows, _, _ = navgen.read_csv(f)
    order = sorted(range(n), key=lambda i: (n - i if c["names"] else i))
    require([Path(r["relative_path"]).name for r in rows] == sorted(p.name for p in img.iterdir()), "images")
    ts = [x["t"] for x in tr]
    for r, i in zip(rows, order):
        q = c["images"][i]
        require_close(num(r.get("timestamp", r.get("timestamp [s]"))), q, "time", 0, 1e-3)
        e = expected(tr, q, ["lat", "lon", "depth", "roll", "pitch", "heading", "alt"], "heading")
        t.nontrivial(len(tr) > 2 and q not in ts)
        for k, col, tol in (("lat", "latitude [deg]", 1e-9), ("lon", "longitude [deg]", 1e-9),
                            ("depth", "depth [m]", 1e-6), ("roll", "roll [deg]", 1e-6),
                            ("pitch", "pitch [deg]", 1e-6), ("alt", "altitude [m]", 1e-6)):
            between(num(r[col]), e[k], "image at %r: %s" % (q, col), tol)
        require(abs(angdiff(num(r["heading [deg]"]), e["heading"])) < 1e-6,
                "image at %r: heading %s, expected %r" % (q, r["heading [deg]"], e["heading"]))
        require_close([num(r["northing [m]"]), num(r["easting [m]"])], list(metres(e["lat"], e["lon"], ref)),
                      "position of the image at %r" % q, 1e-8, 1e-3)
    before = snapshot(out)
    require(not cli(*args), "existing output: conversion without -F went ahead")
    require(snapshot(out) == before, "existing output overwritten without -F")
    require(cli(*(args + ["-F"])), "conversion with -F refused")
    require(snapshot(out) == before, "a second conversion with -F differs")


# ----------------------------------------------------------------- koyo20
@st.composite
def koyo_case(draw):
    t0 = draw(st.integers(1200000000, 1700000000))
    files = []
    for k in range(draw(st.integers(1, 3))):
        tr = track(draw, draw(st.integers(2, 5)), t0)
        gaps(draw, tr)
        files.append(tr)
        t0 = tr[-1]["t"] + draw(st.integers(1, 20))
    a, b = files[0][0]["t"], files[-1][-1]["t"]
    rt, y, rots = a + draw(nice(-8, 3)), draw(nice(0, 359.9, 1)), []
    while rt <= b + 5 and len(rots) < 40:
        rots.append({"t": round(rt, 3), "heading": y, "pitch": draw(nice(-20, 20, 1)),
                     "roll": draw(nice(-20, 20, 1))})
        rt += draw(nice(0.5, 15, 3))
        y = round((y + draw(nice(-100, 100, 1))) % 360, 1) % 360
    q = st.one_of(nice(-0.2, 1.2), st.sampled_from([0.0, 1.0, 0.5]))
    im = [[round(a + (b - a) * x, 3) for x in draw(st.lists(q, min_size=1, max_size=6))] for _ in "ab"]
    f = {k: draw(st.tuples(nice(-2, 2), nice(-2, 2), nice(-2, 2))) for k in navgen.FRAMES}
    return {"files": files, "rots": rots, "xviii": im[0], "lm": im[1], "frames": f,
            "ref_off": draw(st.tuples(nice(-0.05, 0.05), nice(-0.05, 0.05))),
            "stale": draw(st.booleans()), "fix": draw(st.booleans()), "blank": draw(st.booleans()),
            "shuffle": draw(st.booleans()), "tz": draw(st.sampled_from(["UTC", "Asia/Tokyo", "EST5EDT"]))}


def dmy(t, f):
    return datetime.fromtimestamp(math.floor(t), timezone.utc).strftime(f)


def filetime(path, ts, blank, names):
    out = ["index,date,time,ms,elapsetime,gpio (0xXX)"]
    for i, q in zip(names, ts):
        out.append("%07d,%s,%s,%d,0,12" % (i, dmy(q, "%Y%m%d"), dmy(q, "%H%M%S"),
                                           round((q - math.floor(q)) * 1000)))
    if blank:
        out.append(",,,,,")
    path.parent.mkdir(parents=True, exist_ok=True)
    path.write_text("\n".join(out) + "\n")


@sub("C21", "koyo", koyo_case(), quick=130, thorough=4000, max_s=60,
     rule="an image strictly between two positions and two attitudes, sensors apart")
def koyo(c, t):
    """an image of the koyo20 ROV gets the pose of its camera at its time, or no row outside the data"""
    pos = [x for f in c["files"] for x in f]
    rots = c["rots"]
    if len(rots) < 2:
        return
    lo, hi = max(pos[0]["t"], rots[0]["t"]), min(pos[-1]["t"], rots[-1]["t"])
    # the index grows with time
    keep = {}
    for k in ("xviii", "lm"):
        ims = [(31 + 1017 * i, q) for i, q in enumerate(sorted(c[k]))]
        keep[k] = (ims, [x for x in ims if lo <= x[1] <= hi])
        if not keep[k][1]:
            return
    root = Path(t.scratch())
    raw, pro = root / "raw" / "y" / "koyo", root / "processed" / "y" / "koyo"
    (raw / "nav" / "ship_log").mkdir(parents=True)
    (raw / "nav" / "TCM").mkdir()
    pro.mkdir(parents=True)
    ref = (pos[0]["lat"] + c["ref_off"][0], pos[0]["lon"] + c["ref_off"][1])
    m = {"cams": 3, "payload": False, "ref": ref}
    (raw / "mission.yaml").write_text(yaml.safe_dump(navgen.mission(m)))
    (raw / "vehicle.yaml").write_text(yaml.safe_dump({k: navgen.frame(c["frames"][k]) for k in navgen.FRAMES}))
    for k, tr in enumerate(c["files"]):
        out = []
        for j, x in enumerate(tr):
            w = ["0"] * 34
            w[2], w[3] = dmy(x["t"], "%y/%m/%d"), dmy(x["t"], "%H:%M:%S")
            w[23], w[24], w[31], w[32] = (repr(x[q]) for q in ("depth", "alt", "lat", "lon"))
            out.append(",".join(w))
            if c["stale"] and j == len(tr) - 1:
                # a record stamped a day early at the end of the file
                w[2] = dmy(x["t"] - 86400, "%y/%m/%d")
                w[23] = "5000.0"
                out.append(",".join(w))
        (raw / "nav" / "ship_log" / ("2020030%d.csv" % (k if not c["shuffle"] else 9 - k))).write_text(
            "\n".join(out) + "\n")
    if c["fix"]:
        w = ["1"] * 34
        w[2], w[3] = dmy(pos[0]["t"] + 1, "%y/%m/%d"), dmy(pos[0]["t"] + 1, "%H:%M:%S")
        (raw / "nav" / "ship_log" / "20200300_FIX.csv").write_text(",".join(w) + "\n")
    out = ["index,date(YYYYMMDD),time(hhmmss),time_ms(iiii),heading(degrees),pitch(degrees),roll(degrees)"]
    for i, x in enumerate(rots):
        out.append("%d,%s,%s,%d,%r,%r,%r" % (i, dmy(x["t"], "%Y%m%d"), dmy(x["t"], "%H%M%S"),
                                             round((x["t"] - math.floor(x["t"])) * 1000), x["heading"],
                                             x["pitch"], x["roll"]))
    if c["blank"]:
        out.append(",,,,,,")
    (raw / "nav" / "TCM" / "TCM.csv").write_text("\n".join(out) + "\n")
    filetime(raw / "image" / "Xviii" / "FileTime.csv", [q for _, q in keep["xviii"][0]], c["blank"],
             [i for i, _ in keep["xviii"][0]])
    filetime(raw / "image" / "LM165" / "FileTime.csv", [q for _, q in keep["lm"][0]], c["blank"],
             [i for i, _ in keep["lm"][0]])
    args = ["koyo20rov_to_oplab", "-i", raw]
    old = os.environ.get("TZ")
    try:
        os.environ["TZ"] = c["tz"]
        time.tzset()
        require(cli(*args), "conversion refused")
        before = snapshot(pro)
        fold = "json_renav_%s_%s" % (dmy(min(pos[0]["t"], rots[0]["t"]), "%Y%m%d_%H%M%S"),
                                     dmy(max(pos[-1]["t"], rots[-1]["t"]), "%Y%m%d_%H%M%S"))
        d = "%s/csv/dead_reckoning/auv_dr_" % fold
        require(sorted(before) == sorted(d + n + ".csv" for n in ("LC", "RC", "LM165_at_dvl")),
                "files %r, expected in %s" % (sorted(before), fold))
        F = {k: np.array(v) for k, v in c["frames"].items()}
        for name, frame, key in (("LC", "LC", "xviii"), ("RC", "RC", "xviii"), ("LM165_at_dvl", "dvl", "lm")):
            rows, _, _ = navgen.read_csv(pro / (d + name + ".csv"))
            want = keep[key][1]
            require(len(rows) == len(want), "%s: %d rows for %d images with navigation (times %r)" % (
                name, len(rows), len(want), [x[1] for x in want]))
            for r, (i, q) in zip(rows, want):
                what = "%s, image at %r" % (name, q)
                p = "image/LM/%s/image%07d.tif" % (("%07d" % i)[1:4], i) if key == "lm" else (
                    "image/%s/%07d.raw" % (name, i))
                require(r["relative_path"].strip() == p, "%s: path %r, expected %r" % (what, r["relative_path"], p))
                require_close(num(r["timestamp [s]"]), q, what + ": time", 0, 1e-5)
                e = expected(pos, q, ["lat", "lon", "depth", "alt"], None)
                e.update(expected(rots, q, ["heading", "pitch", "roll"], "heading"))
                R = rot((e["roll"], e["pitch"], e["heading"]))
                arm = R @ (F[frame] - F["dvl"])
                tol = 1e-3
                require(abs(angdiff(num(r["heading [deg]"]), e["heading"])) < tol,
                        "%s: heading %s, expected %r" % (what, r["heading [deg]"], e["heading"]))
                require_close([num(r["roll [deg]"]), num(r["pitch [deg]"])], [e["roll"], e["pitch"]], what, 0, tol)
                between(num(r["depth [m]"]), e["depth"], what + ": depth", tol,
                        (R @ (F[frame] - F["depth"]))[2])
                between(num(r["altitude [m]"]), e["alt"], what + ": altitude", tol, -arm[2])
                require_close([num(r["northing [m]"]), num(r["easting [m]"])],
                              list(metres(e["lat"], e["lon"], ref) + arm[:2]), what + ": position", 0, 1e-2)
                t.nontrivial(np.linalg.norm(F[frame] - F["dvl"]) > 0.1)
            latlon_ok(rows, ref, name)
        require(not cli(*args), "existing output: conversion without -F went ahead")
        require(snapshot(pro) == before, "existing output changed without -F")
        require(cli(*(args + ["-F"])), "conversion with -F refused")
        require(snapshot(pro) == before, "a second conversion with -F differs")
    finally:
        if old is None:
            os.environ.pop("TZ", None)
        else:
            os.environ["TZ"] = old
        time.tzset()
