"""Generated dives: a nav_standard.json with its configuration, and the files
`auv_nav process` writes for it."""
import csv
import json
import math
from datetime import datetime, timezone
from pathlib import Path

import numpy as np
import yaml
from hypothesis import strategies as st

from gen import fl, lat, lon, nice

DIVE = "20200302_101112_pbt_dive"
FRAMES = ["origin", "ins", "dvl", "depth", "usbl", "LC", "RC", "LM"]


def frame(v):
    return {"surge_m": v[0], "sway_m": v[1], "heave_m": v[2], "roll_deg": 0.0, "pitch_deg": 0.0,
            "yaw_deg": 0.0}


def series(draw, t0, t1, lo_dt, hi_dt, lead=3.0):
    """irregular time stamps that start and end up to `lead` seconds around [t0, t1]"""
    t = t0 + draw(nice(-lead, lead, 2))
    end = t1 + draw(nice(-lead, lead, 2))
    dts = draw(st.lists(nice(lo_dt, hi_dt, 2), min_size=3, max_size=8))
    out, i = [], 0
    while t <= end and len(out) < 60:
        out.append(round(t, 3))
        t += dts[i % len(dts)]
        i += 1
    return out


@st.composite
def dive(draw, usbl=None, images=True, span=(8, 40), attitude=None, cams=None, std_model=None, extra=False):
    """extra: also BioCam dives (a camera records the laser), clock offsets of payloads and inertial velocities"""
    t0 = draw(st.integers(1200000000, 1700000000)) + 0.5
    t1 = t0 + draw(st.integers(*span))
    c = {"t0": t0, "t1": t1, "ref": (draw(lat), draw(lon))}
    const = draw(st.booleans()) if attitude is None else attitude == "constant"
    ot = series(draw, t0, t1, 0.3, 1.6)
    att = []
    r, p, y = draw(nice(-10, 10)), draw(nice(-10, 10)), draw(nice(0, 359.9, 1))
    w = draw(st.lists(st.tuples(nice(-2, 2), nice(-2, 2), nice(-15, 15)), min_size=4, max_size=4))
    for i in range(len(ot)):
        att.append((round(r, 3), round(p, 3), round(y % 360, 3) % 360))
        if not const:
            r += w[i % 4][0]
            p += w[i % 4][1]
            y += w[i % 4][2]
            r, p = max(-30, min(30, r)), max(-30, min(30, p))
    c["orientation"] = list(zip(ot, att))
    vt = series(draw, t0, t1, 0.3, 2.0)
    vs = draw(st.lists(st.tuples(nice(-2, 2), nice(-1, 1), nice(-0.5, 0.5)), min_size=4, max_size=4))
    c["velocity"] = [(t, vs[(i * 3 + i // 4) % 4]) for i, t in enumerate(vt)]
    c["dvl_lag"] = draw(st.sampled_from([0.0, 0.0, 0.07, -0.06]))
    c["bad_dvl"] = draw(st.sampled_from([0, 0, 3]))  # every 3rd sample has a bad DVL clock
    if c["bad_dvl"]:
        c["dvl_off"] = draw(st.sampled_from([30.0, 4.0, 1.25, -1.5, -20.0]))
    dt_ = series(draw, t0 - 4, t1 + 4, 0.4, 2.5, 0.0)
    ds = draw(st.lists(nice(1, 60), min_size=4, max_size=4))
    c["depth"] = [(t, round(100 + ds[i % 4] / 20 + 0.05 * i, 4)) for i, t in enumerate(dt_)]
    at = series(draw, t0 - 4, t1 + 4, 0.4, 2.5, 0.0)
    al = draw(st.lists(nice(1, 12), min_size=4, max_size=4))
    c["altitude"] = [(t, al[(i * 3) % 4]) for i, t in enumerate(at)]
    c["const"] = const
    f = {k: draw(st.tuples(nice(-2, 2), nice(-2, 2), nice(-2, 2))) for k in FRAMES}
    if draw(st.booleans()):
        f["origin"] = (0.0, 0.0, 0.0)
    if draw(st.booleans()):
        f["dvl"] = (0.0, 0.0, 0.0)
    c["frames"] = f
    use = draw(st.booleans()) if usbl is None else usbl
    c["usbl"] = []
    if use:
        ut = series(draw, t0, t1, 1.0, 4.0)
        off = draw(st.tuples(nice(-300, 300), nice(-300, 300)))
        noise = draw(st.lists(st.tuples(nice(-2, 2), nice(-2, 2), nice(-1, 1)), min_size=4,
                              max_size=4))
        c["usbl"] = [(t, off[0] + noise[i % 4][0], off[1] + noise[i % 4][1], 103 + noise[i % 4][2])
                     for i, t in enumerate(ut)]
    c["filter"] = draw(st.booleans())
    c["cams"] = draw(st.sampled_from([1, 2, 3])) if cams is None else cams
    c["images"], c["laser"] = [], []
    if images:
        it = series(draw, t0, t1, 0.5, 3.0, 5.0)
        lag = draw(st.sampled_from([0.0, 0.0, 0.004]))
        c["images"] = [(t, round(t + lag, 3)) for t in it]
        if c["cams"] == 3 and draw(st.booleans()):
            c["laser"] = series(draw, t0, t1, 0.5, 3.0, 4.0)
    c["payload"] = draw(st.booleans())
    c["ptimes"] = series(draw, t0, t1, 0.7, 3.0, 2.0) if c["payload"] else []
    c["std"] = draw(st.sampled_from(["sensor", "linear"])) if std_model is None else std_model
    if extra:
        if images and c["cams"] > 1 and draw(st.booleans()):
            c["biocam"] = draw(st.sampled_from([0, 1]))
            if c["cams"] == 2:
                c["laser"] = series(draw, t0, t1, 0.5, 3.0, 4.0)
        c["poffset"] = draw(st.sampled_from([0.0, 0.0, 1.25, -0.75]))
        if draw(st.booleans()):
            it = series(draw, t0, t1, 0.4, 2.5)
            iv = draw(st.lists(st.tuples(nice(-2, 2), nice(-2, 2), nice(-0.5, 0.5)), min_size=4, max_size=4))
            c["inertial"] = [(t, iv[(i * 3 + i // 4) % 4]) for i, t in enumerate(it)]
    return c


def laser(c):
    """(name of the laser tracks, frame of the camera that sees the laser) or None"""
    if not c["laser"]:
        return None
    name = "LM_laser" if c["cams"] == 3 else "RC_laser"
    return name, "LM" if c.get("biocam") is None else ("LC", "RC")[c["biocam"]]


# -------------------------------------------------------------------------
def packets(c):
    """the content of nav_standard.json (chronological, origin first)"""
    out = []
    for i, (t, (r, p, y)) in enumerate(c["orientation"]):
        out.append({"epoch_timestamp": t, "class": "measurement", "sensor": "phins",
                    "frame": "body", "category": "orientation", "data": [
                        {"heading": y, "heading_std": 0.1 + 0.01 * (i % 5)},
                        {"roll": r, "roll_std": 0.02}, {"pitch": p, "pitch_std": 0.03}]})
    for i, (t, v) in enumerate(c["velocity"]):
        bad = c["bad_dvl"] and i % c["bad_dvl"] == 1
        out.append({"epoch_timestamp": t, "epoch_timestamp_dvl": t + (c.get("dvl_off", 30.0) if bad else c["dvl_lag"]),
                    "class": "measurement", "sensor": "phins", "frame": "body",
                    "category": "velocity", "data": [
                        {"x_velocity": v[0] + (50 if bad else 0), "x_velocity_std": 0.05},
                        {"y_velocity": v[1], "y_velocity_std": 0.06},
                        {"z_velocity": v[2], "z_velocity_std": 0.07}]})
    for i, (t, v) in enumerate(c.get("inertial", ())):
        out.append({"epoch_timestamp": t, "class": "measurement", "sensor": "phins", "frame": "inertial",
                    "category": "velocity", "data": [
                        {"north_velocity": v[0], "north_velocity_std": 0.05 + 0.001 * i},
                        {"east_velocity": v[1], "east_velocity_std": 0.06},
                        {"down_velocity": v[2], "down_velocity_std": 0.07}]})
    for t, d in c["depth"]:
        out.append({"epoch_timestamp": t, "epoch_timestamp_depth": t, "class": "measurement",
                    "sensor": "phins", "frame": "inertial", "category": "depth",
                    "data": [{"depth": d, "depth_std": 0.01 * d}]})
    for t, a in c["altitude"]:
        out.append({"epoch_timestamp": t, "epoch_timestamp_dvl": t, "class": "measurement",
                    "sensor": "phins", "frame": "body", "category": "altitude",
                    "data": [{"altitude": a, "altitude_std": 0.01 * a},
                             {"sound_velocity": 1500.0, "sound_velocity_correction": 0.0}]})
    for t, n, e, d in c["usbl"]:
        out.append({"epoch_timestamp": t, "class": "measurement", "sensor": "gaps",
                    "frame": "inertial", "category": "usbl",
                    "data_ship": [{"latitude": 0.0, "longitude": 0.0},
                                  {"northings": 0.0, "eastings": 0.0}, {"heading": 0.0}],
                    "data_target": [
                        {"latitude": 0.0, "latitude_std": 1e-5},
                        {"longitude": 0.0, "longitude_std": 1e-5},
                        {"northings": n, "northings_std": 3.0},
                        {"eastings": e, "eastings_std": 3.0}, {"depth": d, "depth_std": 2.0},
                        {"distance_to_ship": 100.0}]})
    for i, (t, t2) in enumerate(c["images"]):
        p = {"epoch_timestamp": t, "class": "measurement", "sensor": "x", "frame": "body",
             "category": "image",
             "camera1": [{"epoch_timestamp": t, "filename": "image/LC/%0*d.png" % (c.get("digits", 6), i + c.get("first", 0))}]}
        if c["cams"] > 1:
            p["camera2"] = [{"epoch_timestamp": t2, "filename": "image/RC/%0*d.png" % (c.get("digits", 6), i + c.get("first", 0))}]
        out.append(p)
    for i, t in enumerate(c["laser"]):
        out.append({"epoch_timestamp": t, "class": "measurement", "sensor": "x", "frame": "body",
                    "category": "laser", "filename": "image/LM/%0*d.png" % (c.get("digits", 6), i + c.get("first", 0))})
    out.sort(key=lambda q: q["epoch_timestamp"])
    return [{"epoch_timestamp": 0.0, "class": "origin", "category": "origin", "data": [
        {"latitude": c["ref"][0], "longitude": c["ref"][1], "crs": "wgs84",
         "date": "2020/03/02"}]}] + out


SENSOR_STD = {"offset": 0.25, "factor": 0.125}


def localisation(c, ekf=False, pf=False, smoother=True, particles=20):
    d12 = [0.05, 0.05, 0.06, 0.03, 0.03, 0.06, 0.025, 0.025, 0.04, 0.01, 0.01, 0.02]
    s = dict(SENSOR_STD, model=c["std"])
    on = {"auv_centre": True, "auv_dvl": True, "camera_1": True, "camera_2": True,
          "camera_3": True, "payload": True}
    return {
        "std": {k: dict(s) for k in ("position_xy", "position_z", "speed", "orientation")},
        "usbl_filter": {"activate": c["filter"], "max_auv_speed": 2, "sigma_factor": 2},
        "ekf": {"activate": ekf, "activate_smoother": smoother,
                "mahalanobis_distance_threshold": 3.0,
                "process_noise_covariance": np.diag(d12).flatten().tolist(),
                "initial_estimate_covariance": np.diag([1e-9] * 12).flatten().tolist()},
        "particle_filter": {"activate": pf, "mode": "usbl", "dvl_noise_sigma_factor": 2,
                            "imu_noise_sigma_factor": 2, "usbl_noise_sigma_factor": 1,
                            "particles_number": particles, "particles_plot_time_interval": 600},
        "csv_output": {"activate": True, "usbl": True, "dead_reckoning": dict(on),
                       "particle_filter": dict(on), "ekf": dict(on)},
        "spp_output": {"activate": False, "ekf": dict(on)},
        "plot_output": {"activate": False, "html_plot": False},
    }


def mission(c):
    sensor = {"format": "phins", "filepath": "nav/", "filename": "20200302_phins.txt",
              "timezone": "utc", "timeoffset": 0.0}
    m = {"version": 1,
         "origin": {"latitude": c["ref"][0], "longitude": c["ref"][1],
                    "coordinate_reference_system": "wgs84", "date": "2020/03/02"},
         "velocity": dict(sensor), "orientation": dict(sensor), "depth": dict(sensor),
         "altitude": dict(sensor), "usbl": dict(sensor, format="gaps"),
         "image": {"format": "acfr_standard", "timezone": 0, "timeoffset": 0.0, "cameras": [
             {"name": n, "path": "image/" + n} for n in ("LC", "RC", "LM")[:c["cams"]]]}}
    if c.get("biocam") is not None:
        m["image"]["format"] = "biocam"
        m["image"]["cameras"][c["biocam"]]["records_laser"] = True
    if c["payload"]:
        m["payloads"] = {"chem": {
            "path": "chem/data.csv", "format": "generic_csv", "timeoffset": c.get("poffset", 0.0),
            "timezone": 0, "columns": [{"epoch": "ts"}, {"ph": "PH"}, {"orp": "ORP"}]}}
    return m


def vehicle(c):
    v = {k: frame(c["frames"][k]) for k in FRAMES}
    if c["payload"]:
        v["payloads"] = {"chem": frame(c["frames"]["RC"])}
    return v


def write_dive(root, c, loc=None, dive=DIVE):
    root = Path(root)
    raw = root / "raw" / "y" / dive
    pro = root / "processed" / "y" / dive
    cfg = root / "configuration" / "y" / dive
    for d in (raw, pro / "nav", cfg):
        d.mkdir(parents=True)
    (raw / "mission.yaml").write_text(yaml.safe_dump(mission(c)))
    (raw / "vehicle.yaml").write_text(yaml.safe_dump(vehicle(c)))
    (cfg / "auv_nav.yaml").write_text(yaml.safe_dump(loc or localisation(c)))
    (pro / "nav" / "nav_standard.json").write_text(json.dumps(packets(c)))
    if c["payload"]:
        (raw / "chem").mkdir()
        (raw / "chem" / "data.csv").write_text("corrected_timestamp,PH,ORP\n" + "".join(
            "%r,%r,%r\n" % (t, 7 + 0.01 * i, 100.0 + i) for i, t in enumerate(c["ptimes"])))
    return raw, pro, cfg


def read_csv(path):
    with open(path) as f:
        rows = list(csv.reader(f))
    head = [h.strip() for h in rows[0]]
    return [dict(zip(head, r)) for r in rows[1:]], head, rows[1:]


def stamp(t):
    return datetime.fromtimestamp(t, timezone.utc).strftime("%Y%m%d%H%M%S")


# ---------------------------------------------------------------- reference
def rot(a):
    r, p, y = (math.radians(x) for x in a)
    cr, sr, cp, sp, cy, sy = (math.cos(r), math.sin(r), math.cos(p), math.sin(p), math.cos(y),
                              math.sin(y))
    return np.array([[cy * cp, cy * sp * sr - sy * cr, cy * sp * cr + sy * sr],
                     [sy * cp, sy * sp * sr + cy * cr, sy * sp * cr - cy * sr],
                     [-sp, cp * sr, cp * cr]])


def lin(ts, vs, t):
    """linear interpolation; None outside the samples"""
    if not ts or t < ts[0] - 1e-9 or t > ts[-1] + 1e-9:
        return None
    return float(np.interp(t, ts, vs)) if np.ndim(vs[0]) == 0 else np.array(
        [np.interp(t, ts, [v[k] for v in vs]) for k in range(len(vs[0]))])


def good_velocities(c, lo, hi):
    """(time stamp of the DVL, velocity, index) of the samples that are used"""
    out = []
    for i, (t, v) in enumerate(c["velocity"]):
        if c["bad_dvl"] and i % c["bad_dvl"] == 1:
            continue
        if lo <= t <= hi:
            out.append((t + c["dvl_lag"], v))
    return out


def wrap(a):
    a = a % 360.0
    return a - 360.0 if a > 180.0 else a


def reference(c, lo, hi, sign):
    """The dead-reckoned track from the definition.  Returns a list of dicts, or None when the
    data do not overlap enough to say anything.  sign: of the lever-arm term."""
    ori = [(t, a) for t, a in c["orientation"] if lo <= t <= hi]
    vel = good_velocities(c, lo, hi)
    dep = [x for x in c["depth"] if lo <= x[0] <= hi]
    alt = [x for x in c["altitude"] if lo <= x[0] <= hi]
    if len(vel) < 2 or len(ori) < 3 or len(dep) < 2 or len(alt) < 2:
        return None
    F = {k: np.array(v) for k, v in c["frames"].items()}
    idx = [i for i, (t, _) in enumerate(ori) if vel[0][0] <= t <= vel[-1][0]]
    if len(idx) < 3:
        return None
    out, pos, prev = [], np.zeros(2), None
    for i in idx:
        t, a = ori[i]
        v = np.array([np.interp(t, [x[0] for x in vel], [x[1][k] for x in vel]) for k in range(3)])
        p, q = max(0, i - 1), min(len(ori) - 1, i + 1)
        d = ori[q][0] - ori[p][0]
        w = np.array([ori[q][1][0] - ori[p][1][0], ori[q][1][1] - ori[p][1][1],
                      wrap(ori[q][1][2] - ori[p][1][2])]) / d
        v = v + sign * np.cross(np.radians(w), F["dvl"])
        ned = rot(a) @ v
        if prev is not None:
            pos = pos + (t - prev[0]) * (ned[:2] + prev[1][:2]) / 2
        prev = (t, ned)
        o = rot(a) @ (F["origin"] - F["dvl"])
        oz = rot(a) @ (F["origin"] - F["depth"])
        dz = lin([x[0] for x in dep], [x[1] for x in dep], t)
        al = lin([x[0] for x in alt], [x[1] for x in alt], t)
        out.append({"t": t, "att": a, "v": v, "ned": ned, "dvl": pos.copy(),
                    "centre": pos + o[:2],
                    "depth_raw": dz, "depth": None if dz is None else dz + oz[2],
                    "altitude_raw": al, "altitude": None if al is None else al - o[2]})
    if idx[0] == 1:
        out = out[1:]
    return out
