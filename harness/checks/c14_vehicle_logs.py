"""C14: logs of the supported vehicles (ALR, Autosub, RDI, KOYO21, AE2000, NTNU) become the right packets."""
import math
from datetime import datetime, timedelta

import numpy as np
import pandas as pd
import scipy.io
import yaml
from hypothesis import strategies as st

import rawgen
from gen import nice
from checks.c03_time import HostTz
from pbt import angdiff, fail, require, require_close, sub

from auv_nav.parsers.parse_ae2000 import parse_ae2000
from auv_nav.parsers.parse_alr import parse_alr
from auv_nav.parsers.parse_autosub import parse_autosub
from auv_nav.parsers.parse_eiva_navipac import parse_eiva_navipac
from auv_nav.parsers.parse_koyo21rov import parse_koyo21rov
from auv_nav.parsers.parse_ntnu_dvl import header_list as NTNU_COLUMNS
from auv_nav.parsers.parse_ntnu_dvl import parse_ntnu_dvl
from auv_nav.parsers.parse_rdi import parse_rdi
from auv_nav.sensors import Category
from auv_nav.tools.latlon_wgs84 import latlon_to_metres
from oplab import Mission, Vehicle

STD = {"velocity": (0.02, 0.3), "orientation": (0.0, 0.7), "depth": (0.005, 0.0),
       "altitude": (0.04, 0.0), "usbl": (0.01, 2.5)}


def setup(root, c, fmt, filename, dive="20210304_dive"):
    raw = root / "raw" / "y" / dive
    (raw / "nav").mkdir(parents=True, exist_ok=True)
    m = {"version": 1, "origin": {"latitude": c["origin"][0], "longitude": c["origin"][1],
                                  "coordinate_reference_system": "wgs84", "date": "2020/03/02"}}
    for k, (f, o) in STD.items():
        m[k] = {"format": fmt, "filepath": "nav/", "filename": filename, "std_factor": f,
                "std_offset": o, "timezone": c["zone"][0], "timeoffset": c["offset"],
                "label": c.get("label", 1)}
        m[k].update(c.get("nodes", {}).get(k, {}))
        (raw / m[k]["filepath"]).mkdir(parents=True, exist_ok=True)
    (raw / "mission.yaml").write_text(yaml.safe_dump(m))
    v = {k: rawgen.frame() for k in rawgen.FRAMES}
    v["dvl"] = rawgen.frame(yaw=c["yaw"])
    (raw / "vehicle.yaml").write_text(yaml.safe_dump(v))
    out = root / "processed" / "y" / dive / "nav"
    out.mkdir(parents=True, exist_ok=True)
    return Mission(raw / "mission.yaml"), Vehicle(raw / "vehicle.yaml"), out, raw / "nav" / filename


@st.composite
def base(draw, rows=(1, 12), yaw=(0.0,)):
    n = draw(st.integers(*rows))
    t = float(draw(st.integers(1200000000, 1700000000)))
    out = []
    v = nice(-3, 3, 3)
    for _ in range(n):
        t = round(t + draw(st.sampled_from([0.0, 0.25, 1.0, 1.0, 3.5, 86400.0])), 2)
        out.append({"t": t, "v": draw(st.tuples(v, v, v)), "err": draw(nice(0.001, 0.2, 3)),
                    "att": draw(st.tuples(nice(-30, 30, 2), nice(-30, 30, 2), nice(0, 359.9, 1))),
                    "depth": draw(nice(0, 6000, 2)), "alt": draw(nice(1, 200, 2)),
                    "lat": draw(nice(-70, 70, 5)), "lon": draw(nice(-179, 179, 5)),
                    "lock": draw(st.sampled_from([1, 1, 1, 0])),
                    "nan": draw(st.sampled_from([None] * 6 + ["v", "att", "depth", "alt", "gps"])),
                    "part": draw(st.integers(0, 2))})
    return {"rows": out, "origin": (draw(nice(-70, 70, 4)), draw(nice(-179, 179, 4))),
            "zone": draw(st.sampled_from(rawgen.ZONES)), "offset": draw(st.sampled_from(
                [0.0, 0.0, 1.5, -20.0])), "yaw": draw(st.sampled_from(list(yaw))),
            "host": draw(st.sampled_from(["UTC", "UTC", "Asia/Tokyo", "America/New_York", "Europe/London"]))}


def logged(c, t, offset=None):
    """what a clock in the mission's zone shows at the UTC epoch t"""
    off = c["offset"] if offset is None else offset
    return datetime(1970, 1, 1) + timedelta(milliseconds=round(1000 * (t - off))) + timedelta(
        hours=c["zone"][1])


def last_of_each_time(rows):
    """a repeated time stamp replaces the earlier row"""
    out = []
    for r in rows:
        if out and r["t"] <= out[-1]["t"]:
            out[-1] = r
        else:
            out.append(r)
    return out


def flat(p):
    d = {}
    for x in p.get("data", p.get("data_target")):
        d.update(x)
    return d


def compare(got, want, category, what, values, tol=1e-9, stamp=lambda r: r["t"]):
    require(len(got) == len(want), lambda: "%s %s: %d packets for %d valid rows" % (
        what, category, len(got), len(want)))
    for p, r in zip(got, want):
        require(p["category"] == category, "%s: category %r" % (what, p["category"]))
        require(p.get("sensor") not in (None, "", "unknown"), "%s %s: no sensor name" % (what, category))
        require_close(p["epoch_timestamp"], stamp(r), "%s %s: time" % (what, category), 0, 1e-4)
        d = flat(p)
        for k, v in values(r).items():
            require_close(d[k], v, "%s %s: %s" % (what, category, k), tol, 1e-9 if tol < 1e-6 else 1e-3)


def usbl_values(c):
    def f(r):
        dist, b = latlon_to_metres(r["lat"], r["lon"], *c["origin"])
        s = STD["usbl"][0] * r["depth"] + STD["usbl"][1]
        return {"latitude": r["lat"], "longitude": r["lon"], "depth": r["depth"],
                "northings": dist * math.cos(math.radians(b)), "eastings": dist * math.sin(math.radians(b)),
                "northings_std": s, "eastings_std": s, "depth_std": s}
    return f


def vel(r):
    f, o = STD["velocity"]
    return {k: x for i, n in enumerate("xyz") for k, x in (
        (n + "_velocity", r["v"][i]), (n + "_velocity_std", abs(r["v"][i]) * f + o))}


def att(r):
    o = STD["orientation"][1]
    return {"roll": r["att"][0], "pitch": r["att"][1], "heading": r["att"][2], "roll_std": o,
            "pitch_std": o, "heading_std": o}


def dep(r):
    return {"depth": r["depth"], "depth_std": r["depth"] * STD["depth"][0]}


def alt(r):
    return {"altitude": r["alt"], "altitude_std": r["alt"] * STD["altitude"][0]}


ALL = (Category.VELOCITY, Category.ORIENTATION, Category.DEPTH, Category.ALTITUDE, Category.USBL)


@st.composite
def alr_case(draw):
    c = draw(base())
    for r in c["rows"]:
        r["lock"] = draw(st.sampled_from([1, 1, 1, 0, None]))
        r["alt"] = draw(st.sampled_from([r["alt"]] * 5 + [0.0]))
    c["file"] = draw(st.sampled_from(["timestamp", "corrected", "mat"]))
    return c


@sub("C14", "alr", alr_case(), quick=250, thorough=6000, shards=3,
     rule="some row is unusable for one sensor or repeats a time stamp")
def alr(c, t):
    kind = c["file"] if len(c["rows"]) > 1 else "timestamp"
    m, v, out, path = setup(t.scratch(), c, "alr", "alr.mat" if kind == "mat" else "alr.csv")
    nan = float("nan")

    def col(key, f, part=None):
        return [nan if r["nan"] == key and part in (None, r["part"]) else f(r) for r in c["rows"]]

    table = {
        "DVL_down_BT_valid": [r["lock"] if r["lock"] is not None else nan for r in c["rows"]],
        "DVL_down_BT_x": col("v", lambda r: r["v"][0], 0),
        "DVL_down_BT_y": col("v", lambda r: r["v"][1], 1),
        "DVL_down_BT_z": col("v", lambda r: r["v"][2], 2),
        "AUV_roll": col("att", lambda r: math.radians(r["att"][0]), 0),
        "AUV_pitch": col("att", lambda r: math.radians(r["att"][1]), 1),
        "AUV_heading": col("att", lambda r: math.radians(r["att"][2]), 2),
        "AUV_depth": col("depth", lambda r: r["depth"]),
        "AUV_altitude": col("alt", lambda r: r["alt"]),
        "GPS_latitude": [nan if r["nan"] == "gps" and r["part"] != 1 else r["lat"] for r in c["rows"]],
        "GPS_longitude": [nan if r["nan"] == "gps" and r["part"] != 0 else r["lon"] for r in c["rows"]],
    }
    times = [r["t"] for r in c["rows"]]
    if kind == "mat":
        table["DVL_down_BT_is_good"] = table.pop("DVL_down_BT_valid")
        table["epoch_timestamp"] = times
        scipy.io.savemat(str(path), {"MissionData": {k: np.array(x) for k, x in table.items()}})
    elif kind == "corrected":  # the clock of the vehicle was wrong
        pd.DataFrame(dict({"timestamp": [x + 41.5 for x in times], "corrected_timestamp": times}, **table)).to_csv(
            path, index=False)
    else:
        pd.DataFrame(dict({"timestamp": times}, **table)).to_csv(path, index=False)
    t.label(kind)
    rows = c["rows"]
    sel = {Category.VELOCITY: [r for r in rows if r["lock"] and r["nan"] != "v"],
           Category.ORIENTATION: [r for r in rows if r["nan"] != "att"],
           Category.DEPTH: [r for r in rows if r["nan"] != "depth"],
           Category.ALTITUDE: [r for r in rows if r["lock"] and r["nan"] != "alt"],
           Category.USBL: [r for r in rows if r["nan"] not in ("gps", "depth")]}
    values = {Category.VELOCITY: vel, Category.ORIENTATION: att, Category.DEPTH: dep,
              Category.ALTITUDE: alt, Category.USBL: usbl_values(c)}
    for cat in ALL:
        compare(parse_alr(m, v, cat, "oplab", out), last_of_each_time(sel[cat]), cat, "alr",
                values[cat])
    t.nontrivial(len(last_of_each_time(rows)) < len(rows) or any(
        r["nan"] or not r["lock"] for r in rows))


@sub("C14", "autosub", base((2, 10)), quick=200, thorough=4000, shards=2,
     rule="at least three rows")
def autosub(c, t):
    m, v, out, path = setup(t.scratch(), c, "autosub", "autosub.mat")
    rows = c["rows"]
    a = lambda f: np.array([f(r) for r in rows])  # noqa: E731
    tt = a(lambda r: r["t"])
    scipy.io.savemat(str(path), {"missionData": {
        "ADCPbin00": {"eTime": tt, "Vnorth0": a(lambda r: -1000 * r["v"][0]),
                      "Veast0": a(lambda r: -1000 * r["v"][1]), "Vdown0": a(lambda r: -1000 * r["v"][2]),
                      "Verr0": a(lambda r: 1000 * r["err"])},
        "INSAttitude": {"eTime": tt, "Roll": a(lambda r: math.radians(r["att"][0])),
                        "Pitch": a(lambda r: math.radians(r["att"][1])),
                        "Heading": a(lambda r: math.radians(r["att"][2]))},
        "DepCtlNode": {"eTime": tt, "DepCtldepth": a(lambda r: r["depth"])},
        "ADCPLog_1": {"eTime": tt, "ADCPAvAlt": a(lambda r: r["alt"])}}})
    want = last_of_each_time(rows)
    vals = {Category.VELOCITY: lambda r: {k: x for i, n in enumerate("xyz") for k, x in (
        (n + "_velocity", r["v"][i]), (n + "_velocity_std", r["err"]))},
        Category.ORIENTATION: att, Category.DEPTH: dep, Category.ALTITUDE: alt}
    for cat in ALL[:4]:
        compare(parse_autosub(m, v, cat, "oplab", out), want, cat, "autosub", vals[cat])
    t.nontrivial(len(rows) > 2)


@sub("C14", "koyo21rov", base((1, 10)), quick=200, thorough=4000, shards=2,
     rule="at least three rows, some of them unusable for one sensor")
def koyo(c, t):
    root = t.scratch()
    frac = c["offset"] % 1
    rows = [dict(r, t=int(r["t"]) + frac) for r in c["rows"]]
    nan = float("nan")
    when = [logged(c, r["t"]) for r in rows]
    with HostTz(c["host"]):
        koyo_checks(c, t, root, rows, nan, when)


def koyo_checks(c, t, root, rows, nan, when):
    m, v, out, path = setup(root, c, "koyo21rov", "hypack.csv")
    pd.DataFrame({
        "Date": [d.strftime("%Y/%m/%d") for d in when], "Time": [d.strftime("%H:%M:%S") for d in when],
        "Roll": [nan if r["nan"] == "att" and r["part"] == 0 else r["att"][0] for r in rows],
        "Pich": [nan if r["nan"] == "att" and r["part"] == 1 else r["att"][1] for r in rows],
        "Hedding": [nan if r["nan"] == "att" and r["part"] == 2 else r["att"][2] for r in rows],
        "Depth(ROV)": [nan if r["nan"] == "depth" else r["depth"] for r in rows],
        "ALT": [nan if r["nan"] == "alt" else r["alt"] for r in rows]}).to_csv(path, index=False)
    for cat, key, f in ((Category.ORIENTATION, "att", att), (Category.DEPTH, "depth", dep),
                        (Category.ALTITUDE, "alt", alt)):
        compare(parse_koyo21rov(m, v, cat, "oplab", out),
                last_of_each_time([r for r in rows if r["nan"] != key]), cat, "koyo21rov", f)
    m, v, out, path = setup(root / "p", c, "koyo21rov", "posfilter.csv")
    pd.DataFrame({
        "timestamp": [d.strftime("%Y-%m-%d %H:%M:%S") for d in when],
        "Lat_flt": [nan if r["nan"] == "gps" and r["part"] != 1 else r["lat"] for r in rows],
        "Lon_flt": [nan if r["nan"] == "gps" and r["part"] != 0 else r["lon"] for r in rows],
        "Depth(ROV)": [nan if r["nan"] == "depth" else r["depth"] for r in rows],
        "surge": [nan if r["nan"] == "v" and r["part"] != 1 else r["v"][0] for r in rows],
        "heave": [nan if r["nan"] == "v" and r["part"] != 0 else r["v"][2] for r in rows]}).to_csv(path, index=False)
    compare(parse_koyo21rov(m, v, Category.USBL, "oplab", out),
            last_of_each_time([r for r in rows if r["nan"] not in ("depth", "gps")]), Category.USBL, "koyo21rov",
            usbl_values(c))
    compare(parse_koyo21rov(m, v, Category.VELOCITY, "oplab", out),
            last_of_each_time([r for r in rows if r["nan"] != "v"]), Category.VELOCITY, "koyo21rov",
            lambda r: vel(dict(r, v=(r["v"][0], 0.0, r["v"][2]))))
    t.nontrivial(len(rows) > 2 and any(r["nan"] for r in rows))


@st.composite
def rdi_case(draw):
    c = draw(base((1, 10), yaw=(0.0, 45.0, -90.0, 12.5)))
    for r in c["rows"]:
        r["t"] = round(r["t"], 2)
        r["valid"] = draw(st.sampled_from(["A", "A", "A", "V"]))
        r["sv"] = draw(nice(1450, 1550, 1))
        r["noise"] = draw(st.booleans())
    c["end"] = draw(st.booleans())
    return c


@sub("C14", "rdi", rdi_case(), quick=250, thorough=6000, shards=2,
     rule="at least two ensembles, one of them without bottom lock, or a rotated DVL")
def rdi(c, t):
    rows = c["rows"]
    century = (datetime(1970, 1, 1) + timedelta(seconds=rows[0]["t"])).strftime("%Y")[:2]
    m, v, out, path = setup(t.scratch(), c, "rdi", "rdi.txt", dive=century + "210304_dive")
    text = []
    for r in rows:
        d = datetime(1970, 1, 1) + timedelta(milliseconds=round(
            1000 * (r["t"] - c["offset"]))) + timedelta(hours=c["zone"][1])
        text.append(":TS,%s%02d,35.0,+15.0,%d.0,%.1f,  0" % (
            d.strftime("%y%m%d%H%M%S"), d.microsecond // 10000, r["depth"], r["sv"]))
        if r["noise"]:
            text += ["", ":WI,1,2,3,4,A", ":BS,1,2,3,A", "garbage,1,2", ":BI,1,2"]
        text.append(":BI,%+d,%+d,%+d,%+d,%s" % tuple([round(1000 * x) for x in r["v"]] + [
            round(1000 * r["err"]), r["valid"]]))
        text.append(":BD, +1.0, +2.0, +3.0, %.2f, 0.5" % r["alt"])
        text.append(":SA,%+.2f,%+.2f,%.1f" % (r["att"][1], r["att"][0], r["att"][2]))
    if c["end"]:
        text.append(":TS,99123123595900,35.0,+15.0,1.0,1500.0,  0")
    path.write_text("\r\n".join(text) + "\r\n")
    a = math.radians(c["yaw"])
    good = [r for r in rows if r["valid"] == "A"]
    compare(parse_rdi(m, v, Category.ORIENTATION, "oplab", out), rows, Category.ORIENTATION, "rdi", att)
    compare(parse_rdi(m, v, Category.ALTITUDE, "oplab", out), good, Category.ALTITUDE, "rdi",
            lambda r: dict(alt(r), sound_velocity=r["sv"]))
    got = parse_rdi(m, v, Category.VELOCITY, "oplab", out)
    require(len(got) == len(good), "rdi velocity: %d packets for %d locked ensembles" % (
        len(got), len(good)))
    for p, r in zip(got, good):
        d = flat(p)
        require_close(p["epoch_timestamp"], r["t"], "rdi velocity: time", 0, 1e-4)
        require_close(p["epoch_timestamp_dvl"], r["t"], "rdi velocity: DVL time", 0, 1e-4)
        x, y, z = (round(1000 * q) / 1000 for q in r["v"])
        ok = any(abs(d["x_velocity"] - (x * math.cos(s) - y * math.sin(s))) < 1e-9
                 and abs(d["y_velocity"] - (x * math.sin(s) + y * math.cos(s))) < 1e-9
                 for s in (a, -a))  # the sense of the mounting rotation is not asserted
        require(ok, lambda: "rdi velocity %s for %s with DVL yaw %s" % (d, r["v"], c["yaw"]))
        require_close(d["z_velocity"], z, "rdi z velocity")
        e = round(1000 * r["err"]) / 1000
        require_close([d["x_velocity_std"], d["y_velocity_std"], d["z_velocity_std"]], [e] * 3,
                      "rdi velocity uncertainty")
    t.nontrivial(len(rows) > 1 and (len(good) < len(rows) or c["yaw"] != 0))
    t.label("time zone", c["zone"][1] != 0)


# ------------------------------------------------------------------ AE2000
@st.composite
def ae_case(draw):
    c = draw(base((1, 10), yaw=(0.0, 0.0, 45.0, -90.0)))
    t = float(draw(st.integers(1200000000, 1700000000)))
    for r in c["rows"]:
        t = round(t + draw(st.sampled_from([0.007, 0.25, 1.0, 3.5, 86399.0])), 3)
        r.update(t=t, lock=draw(st.sampled_from([1, 1, 1, 0, 2, None])),
                 depth=draw(st.sampled_from([0.0, -1.5, None, 12.5, 12.5, 800.25])))
    c["paths"] = draw(st.sampled_from([["nav/"] * 4, ["nav/dvl/", "nav/ins/", "nav/pos/", "nav/dvl/"]]))
    c["offsets"] = draw(st.sampled_from([[0.0] * 4, [1.5] * 4, [0.0, 1.5, -20.0, 0.0], [2.0, 0.0, 0.0, 3.0]]))
    c["ins"] = draw(st.sampled_from([0.0, 0.0, 90.0, -30.0]))
    c["tail"] = draw(st.booleans())
    return c


def text_ok(line, name, number, what):
    """an ACFR line carries name followed by number"""
    i = line.find(name)
    require(i >= 0, lambda: "%s: no %r in %r" % (what, name, line))
    require_close(float(line[i + len(name):].split()[0]), number, "%s: %s in %r" % (what, name, line), 1e-9, 1e-9)


@sub("C14", "ae2000", ae_case(), quick=250, thorough=6000, shards=3,
     rule="at least two rows, one of them unusable, or a rotated sensor, or separate folders or offsets")
def ae2000(c, t):
    rows = c["rows"]
    cats = ("velocity", "orientation", "depth", "altitude")
    names = ("dvl180805123503.csv", "quadrans180805123456.csv", "pos180805123456.csv", "dvl180805123503.csv")
    c = dict(c, nodes={k: {"filename": n, "filepath": p, "timeoffset": o} for k, n, p, o in zip(
        cats, names, c["paths"], c["offsets"])})
    root = t.scratch()
    m, v, out, path = setup(root, c, "ae2000", "")
    v.ins.yaw = c["ins"]
    rng = lambda r: r["alt"]
    for k, n, p in zip(cats, names, c["paths"]):
        if k == "altitude":
            continue
        d = pd.DataFrame({
            "no": range(len(rows)),
            # always UTC, whatever the zone of the mission
            "time": [(datetime(1970, 1, 1) + timedelta(milliseconds=round(r["t"] * 1000))).strftime(
                "%Y/%m/%d %H:%M:%S.%f")[:-3] for r in rows],
            "dvl_validBottom": [r["lock"] for r in rows],
            "dvl_surgeVelBottom": [round(1000 * r["v"][0]) for r in rows],
            "dvl_swayVelBottom": [round(1000 * r["v"][1]) for r in rows],
            "dvl_heaveVelBottom": [round(1000 * r["v"][2]) for r in rows],
            "dvl_rangeBottom": [r["alt"] for r in rows],
            "roll": [r["att"][0] for r in rows], "pitch": [r["att"][1] for r in rows],
            "yaw": [r["att"][2] for r in rows], "Depth": [r["depth"] for r in rows]})
        s = d.to_csv(index=False)
        if c["tail"]:
            s += "99\n"  # the recorder stopped in the middle of a line
        (root / "raw" / "y" / "20210304_dive" / p / n).write_text(s)
    off = dict(zip(cats, c["offsets"]))
    stamp = lambda k: (lambda r: r["t"] + off[k])
    good = [r for r in rows if r["lock"] == 1]
    fo, oo = STD["orientation"]
    with HostTz(c["host"]):
        got = parse_ae2000(m, v, "velocity", "oplab", out)
        require(len(got) == len(good), "ae2000 velocity: %d packets for %d locked rows" % (len(got), len(good)))
        a = math.radians(c["yaw"])
        for p, r in zip(got, good):
            d = flat(p)
            require_close(p["epoch_timestamp"], stamp("velocity")(r), "ae2000 velocity: time", 0, 1e-4)
            require_close(p["epoch_timestamp_dvl"], stamp("velocity")(r), "ae2000 DVL time", 0, 1e-4)
            x, y, z = (round(1000 * q) / 1000 for q in r["v"])
            ok = any(abs(d["x_velocity"] - (x * math.cos(s) - y * math.sin(s))) < 1e-9
                     and abs(d["y_velocity"] - (x * math.sin(s) + y * math.cos(s))) < 1e-9
                     for s in (a, -a))
            require(ok, lambda: "ae2000 velocity %s for %s with DVL yaw %s" % (d, r["v"], c["yaw"]))
            require_close(d["z_velocity"], z, "ae2000 z velocity")
            f, o = STD["velocity"]
            for k in "xyz":
                require_close(d[k + "_velocity_std"], abs(d[k + "_velocity"]) * f + o, "ae2000 velocity std")
        compare(parse_ae2000(m, v, "altitude", "oplab", out), good, "altitude", "ae2000",
                lambda r: {"altitude": r["alt"], "altitude_std": r["alt"] * STD["altitude"][0] + STD["altitude"][1]},
                stamp=stamp("altitude"))
        got = parse_ae2000(m, v, "orientation", "oplab", out)
        compare(got, rows, "orientation", "ae2000", lambda r: {
            "roll": r["att"][0], "pitch": r["att"][1], "roll_std": abs(r["att"][0]) * fo + oo,
            "pitch_std": abs(r["att"][1]) * fo + oo, "heading_std": oo + fo * r["att"][2]},
            stamp=stamp("orientation"))
        for p, r in zip(got, rows):
            h = flat(p)["heading"]
            require(abs(angdiff(h, r["att"][2] + c["ins"])) < 1e-9 and 0 <= h <= 360,
                    lambda: "ae2000 heading %r for %r with INS yaw %r" % (h, r["att"][2], c["ins"]))
        deep, last = [], None
        for r in rows:
            if r["depth"] is not None and r["depth"] > 0 and r["depth"] != last:
                deep.append(r)
                last = r["depth"]
        compare(parse_ae2000(m, v, "depth", "oplab", out), deep, "depth", "ae2000",
                lambda r: {"depth": r["depth"], "depth_std": r["depth"] * STD["depth"][0] + STD["depth"][1]},
                stamp=stamp("depth"))
        if all(r["lock"] is not None for r in rows):
            lines = parse_ae2000(m, v, "velocity", "acfr", out).splitlines()
            require(len(lines) == len(good), "ae2000 RDI lines: %d for %d locked rows" % (len(lines), len(good)))
            for s, r in zip(lines, good):
                for k, x in (("RDI: ", stamp("velocity")(r)), ("alt:", r["alt"]), ("vx:", round(1000 * r["v"][0]) / 1000),
                             ("vy:", round(1000 * r["v"][1]) / 1000), ("vz:", round(1000 * r["v"][2]) / 1000),
                             (" h:", r["att"][2]), (" p:", r["att"][1]), (" r:", r["att"][0])):
                    text_ok(s, k, x, "ae2000 RDI line")
        lines = parse_ae2000(m, v, "orientation", "acfr", out).splitlines()
        require(len(lines) == len(rows), "ae2000 PHINS_COMPASS lines: %d for %d rows" % (len(lines), len(rows)))
        for s, r in zip(lines, rows):
            for k, x in (("PHINS_COMPASS: ", stamp("orientation")(r)), (" r: ", r["att"][0]), (" p: ", r["att"][1]),
                         (" std_r: ", abs(r["att"][0]) * fo + oo)):
                text_ok(s, k, x, "ae2000 PHINS_COMPASS line")
    t.label("separate folders", len(set(c["paths"])) > 1)
    t.nontrivial(len(rows) > 1 and (len(good) < len(rows) or c["yaw"] != 0 or len(set(c["paths"])) > 1
                                    or len(set(c["offsets"])) > 1))


# ------------------------------------------------------------------ NTNU: DVL log and EIVA NaviPac
@st.composite
def ntnu_case(draw):
    c = draw(base((1, 10), yaw=(0.0, 0.0, 45.0, -90.0)))
    c["label"] = draw(st.integers(1, 9))
    t = float(draw(st.integers(1200000000, 1700000000)))
    for r in c["rows"]:
        t = round(t + draw(st.sampled_from([0.007, 0.25, 1.0, 3.5, 40000.0])), 3)
        r.update(t=t, lock=draw(st.sampled_from([True, True, False])),
                 alts=draw(st.tuples(*[nice(1, 90, 2)] * 4)),
                 kind=draw(st.sampled_from(["ok", "ok", "ok", "other", "short", "broken", "noise"])))
    c["files"] = draw(st.integers(1, 3))
    return c


@sub("C14", "ntnu", ntnu_case(), quick=250, thorough=6000, shards=3,
     rule="at least two rows, one of them unusable, or a rotated DVL, zone or host zone")
def ntnu(c, t):
    rows = c["rows"]
    root = t.scratch()
    m, v, out, path = setup(root, c, "ntnu", "")
    folder = root / "raw" / "y" / "20210304_dive" / "nav"
    days = {}
    for r in rows:
        days.setdefault(logged(c, r["t"]).strftime("%Y%m%d"), []).append(r)
    for day, rr in days.items():
        text = ["# log", "\t".join(NTNU_COLUMNS)]
        for r in rr:
            d = {k: "0" for k in NTNU_COLUMNS}
            vx = r["v"]
            if not r["lock"]:  # one or all components are those of an invalid sample
                x = {0: -32.768, 1: 32.767}[r["part"] % 2]
                vx = (x,) * 3 if r["part"] else tuple(vx[:2]) + (x,)
            d.update(time=logged(c, r["t"]).strftime("%H:%M:%S.%f"), u_dvl=vx[0], v_dvl=vx[1], z_dvl=vx[2])
            d.update({"dvl_alt%d" % i: a for i, a in enumerate(r["alts"])})
            text.append("\t".join(str(d[k]) for k in NTNU_COLUMNS))
        (folder / (day + "_rov.log")).write_text("\n".join(text) + "\n")
    n = -(-len(rows) // c["files"])
    for i in range(c["files"]):
        text = []
        for r in rows[i * n:(i + 1) * n]:
            when = logged(c, r["t"]).strftime("%Y:%m:%d:%H:%M:%S.%f")[:-3]
            k, other = r["kind"], c["label"] % 9 + 1
            prdid = "PRDID,%.2f,%.2f,%.2f" % (r["att"][1], r["att"][0], r["att"][2])
            if k == "short":
                prdid = prdid.rsplit(",", 1)[0]
            text.append("R132  4 %s %s" % (when, rawgen.telegram(prdid, broken=k == "broken")))
            ident = other if k == "other" else c["label"]
            text.append("D     %d  19  1 %s %.2f" % (ident, when, r["depth"]))
            text.append("P  D%6d  %s 500000.0 7000000.0 %.2f %.7f %.7f" % (
                ident, when, -r["depth"], r["lat"], r["lon"]))
            if k == "noise":
                text += ["", "R132  5 %s $PRDID,1,2,3" % when, "R132  4 %s $GPHDT,1,2" % when, "N  1 comment",
                         "D     %d  20  1 %s 9.0" % (c["label"], when)]
        (folder / ("%d_G.NPD" % i)).write_text("\n".join(text) + "\n")
    key = lambda p: p["epoch_timestamp"]
    with HostTz(c["host"]):
        got = sorted(parse_ntnu_dvl(m, v, Category.VELOCITY, "oplab", out), key=key)
        good = [r for r in rows if r["lock"]]
        require(len(got) == len(good), "ntnu_dvl velocity: %d packets for %d locked rows" % (len(got), len(good)))
        a = math.radians(c["yaw"])
        for p, r in zip(got, good):
            d = flat(p)
            require_close(p["epoch_timestamp"], r["t"], "ntnu_dvl velocity: time", 0, 1e-4)
            require_close(p["epoch_timestamp_dvl"], r["t"], "ntnu_dvl velocity: DVL time", 0, 1e-4)
            x, y, z = r["v"]
            require(any(abs(d["x_velocity"] - (x * math.cos(s) - y * math.sin(s))) < 1e-9
                        and abs(d["y_velocity"] - (x * math.sin(s) + y * math.cos(s))) < 1e-9
                        for s in (a, -a)), lambda: "ntnu_dvl velocity %s for %s with yaw %s" % (d, r["v"], c["yaw"]))
            require_close(d["z_velocity"], z, "ntnu_dvl z velocity")
            f, o = STD["velocity"]
            for k in "xyz":
                require_close(d[k + "_velocity_std"], abs(d[k + "_velocity"]) * f + o, "ntnu_dvl velocity std")
        compare(sorted(parse_ntnu_dvl(m, v, Category.ALTITUDE, "oplab", out), key=key), rows, Category.ALTITUDE,
                "ntnu_dvl", lambda r: alt(dict(r, alt=(r["alts"][1] + r["alts"][3]) / 2)))
        compare(sorted(parse_eiva_navipac(m, v, Category.ORIENTATION, "oplab", out), key=key),
                [r for r in rows if r["kind"] not in ("short", "broken")], Category.ORIENTATION, "eiva", att)
        mine = [r for r in rows if r["kind"] != "other"]
        compare(sorted(parse_eiva_navipac(m, v, Category.DEPTH, "oplab", out), key=key), mine, Category.DEPTH,
                "eiva", dep)
        compare(sorted(parse_eiva_navipac(m, v, Category.USBL, "oplab", out), key=key), mine, Category.USBL,
                "eiva", usbl_values(c), tol=1e-7)
    t.label("host zone", c["host"] != "UTC")
    t.nontrivial(len(rows) > 1 and (len(good) < len(rows) or len(mine) < len(rows) or c["yaw"] != 0
                                    or c["host"] != "UTC" or c["zone"][1] != 0))
