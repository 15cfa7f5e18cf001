"""C07: parsing corrects depth and USBL depth for the tide, and changes nothing else."""
import json
import os
from datetime import datetime, timedelta, timezone
from pathlib import Path

import numpy as np
import yaml
from hypothesis import strategies as st

import rawgen
from gen import nice
from pbt import fail, require, require_close, sub

import auv_nav.parse as parse_mod
from auv_nav.parse import parse_single

parse_mod.plot_parse_data = lambda *a, **k: None  # plots are not part of the property


@st.composite
def case(draw):
    log = draw(rawgen.phins_log(1, 10, faults=False))
    for f in log["frames"]:
        f["has"] = "all" if f["has"] == "att" else f["has"]
    d0 = rawgen.day0(log) + log["offset"]
    ts = [d0 + f["t"] for f in log["frames"]]
    lo, hi = ts[0], ts[-1]
    fixes = []
    t = lo + draw(st.integers(-400, 100))
    for _ in range(draw(st.integers(0, 6))):
        t += draw(st.integers(1, 200)) + draw(st.sampled_from([0, 0.25, 0.5]))
        fixes.append((round(t, 2), draw(nice(-60, 60, 5)), draw(nice(-179, 179, 5)),
                      draw(nice(0, 4000, 1))))
    zone = draw(st.sampled_from(rawgen.ZONES))
    off = draw(st.sampled_from([0.0, 0.0, 600.0, -1200.0]))
    step = draw(st.sampled_from([1, 5, 15, 60]))
    fmt = draw(st.sampled_from(["NOC_polpred", "NOC_CTI"]))
    # first tide sample (UTC), a whole minute of the tide clock
    start = (int(lo) // 60) * 60 + 60 * draw(st.integers(-40, 10)) + int(off)
    if fmt == "NOC_CTI":
        start += draw(st.sampled_from([0, 0, 30, 59]))
    n = draw(st.integers(2, 12))
    h = draw(st.lists(nice(-12, 12, 2), min_size=n, max_size=n))
    tide = [(start + 60 * step * i, x) for i, x in enumerate(h)]
    if draw(st.booleans()):  # a fix exactly at a tide sample, often the last one
        k = draw(st.sampled_from([n - 1, n - 1, n // 2]))
        fixes = sorted(fixes + [(float(tide[k][0]), draw(nice(-60, 60, 5)), draw(nice(-179, 179, 5)),
                                 draw(nice(0, 4000, 1)))])
    return {"log": log, "fixes": fixes, "zone": zone, "off": off, "fmt": fmt, "tide": tide,
            "head": draw(st.booleans()), "usbl_zone": draw(st.sampled_from(rawgen.ZONES)),
            # the logs may be split into files: the parts in time order, and the order of writing them
            "usbl_files": draw(st.sampled_from([[0], [0], [0, 1], [1, 0], [2, 0, 1]])),
            "tide_files": draw(st.sampled_from([[0], [0], [0, 1], [1, 0], [1, 2, 0]]))}


def parts(rows, k):
    """k consecutive parts"""
    n = -(-len(rows) // k)
    return [rows[i * n:(i + 1) * n] for i in range(k)]


def tide_text(c, rows):
    out = ["header %d" % i for i in range(6)]
    if c["fmt"] == "NOC_CTI" and c["head"]:
        # as exported
        out = ['"Computation Type","Time Series"', '"Model","GLBF_5HC"', '"Datum","Mean Sea Level"', '""',
               '"Date/Time (UTC)","Height (m)","Current Speed (m/s)","Direction (Deg)"']
    for t, h in rows:
        d = datetime(1970, 1, 1) + timedelta(seconds=t - c["off"] + c["zone"][1] * 3600)
        if c["fmt"] == "NOC_CTI":
            out.append(d.strftime("%Y-%m-%dT%H:%M:%SZ") + ",%.5f,0.1,74" % h)
        else:
            out.append("%2d/%2d/%4d  %02d:%02d     %6.2f      0.14       51" % (
                d.day, d.month, d.year, d.hour, d.minute, h))
    return "\n".join(out) + "\n"


def write(root, c, tide):
    raw = root / "raw" / "y" / "dive"
    (raw / "nav").mkdir(parents=True)
    log = c["log"]
    name = rawgen.date_of(log) + "_phins.txt"
    (raw / "nav" / name).write_text(rawgen.phins_text(log))
    s = {"format": "phins", "filepath": "nav/", "filename": name, "timezone": log["zone"][0],
         "timeoffset": log["offset"], "std_factor": 0.01, "std_offset": 0.1}
    m = {"version": 1, "origin": {"latitude": 10.0, "longitude": 20.0,
                                  "coordinate_reference_system": "wgs84", "date": "2020/03/02"},
         "velocity": dict(s), "orientation": dict(s), "depth": dict(s), "altitude": dict(s)}
    if c["fixes"]:
        (raw / "usbl").mkdir()
        z = c["usbl_zone"]
        lines = []
        for t, lat, lon, dep in c["fixes"]:
            d, hms = rawgen.hms(t, z[1])
            lines.append("%s %s\t%s" % (d.strftime("%d/%m/%Y"), d.strftime("%H:%M:%S"),
                                        rawgen.gga(hms, lat, lon, -dep, 13)))
        pp = parts(lines, len(c["usbl_files"]))
        for i in c["usbl_files"]:
            (raw / "usbl" / ("fix%d.txt" % i)).write_text("".join(x + "\n" for x in pp[i]))
        m["usbl"] = {"format": "NOC_nmea", "filepath": "usbl/", "timezone": z[0], "timeoffset": 0.0,
                     "label": 13, "std_factor": 0.01, "std_offset": 2.0}
    if tide:
        (raw / "tide").mkdir()
        pp = parts(c["tide"], len(c["tide_files"]))
        for i in c["tide_files"]:
            (raw / "tide" / ("tide%d.txt" % i)).write_text(tide_text(c, pp[i]))
        m["tide"] = {"format": c["fmt"], "filepath": "tide/", "timezone": c["zone"][0],
                     "timeoffset": c["off"]}
    (raw / "mission.yaml").write_text(yaml.safe_dump(m))
    (raw / "vehicle.yaml").write_text(yaml.safe_dump({k: rawgen.frame() for k in rawgen.FRAMES}))
    (raw / "camera.yaml").write_text("cameras: []\n")
    parse_single(str(raw), False)
    return json.loads((root / "processed" / "y" / "dive" / "nav" / "nav_standard.json").read_text())


def shift(c, t):
    """tide height at t; None where there is no tide data; nan where nothing is asserted"""
    ts = [x[0] for x in c["tide"]]
    if abs(t - ts[0]) < 1e-3 or 0 < abs(t - ts[-1]) < 1e-3:
        return float("nan")
    if t < ts[0] or t > ts[-1]:
        return None
    return float(np.interp(t, ts, [x[1] for x in c["tide"]]))


@sub("C07", "tide", case(), quick=400, thorough=8000, max_s=40, shards=8,
     rule="at least one depth or USBL sample lies inside the tide table and its tide is not zero")
def tide(c, t):
    root = t.scratch()
    (root / "a").mkdir()
    (root / "b").mkdir()
    a = write(root / "a", c, False)
    b = write(root / "b", c, True)
    require(len(a) == len(b), "tide data changed the number of packets: %d, %d" % (len(a), len(b)))
    used = 0
    count = {"depth": 0, "usbl": 0}
    for p, q in zip(a, b):
        p, q = json.loads(json.dumps(p)), json.loads(json.dumps(q))
        h = shift(c, p["epoch_timestamp"])
        if p["category"] == "depth":
            x, y = p["data"][0].pop("depth"), q["data"][0].pop("depth")
        elif p["category"] == "usbl":
            x, y = p["data_target"][4].pop("depth"), q["data_target"][4].pop("depth")
        else:
            x = y = None
        require(p == q, lambda: "tide data changed something else: %s / %s" % (p, q))
        if x is None or (h is not None and h != h):
            continue
        count[p["category"]] += 1
        want = x - (h or 0.0)
        require_close(y, want, "%s at %r with tide %r" % (p["category"], p["epoch_timestamp"], h),
                      0, 1e-6)
        if h:
            used += 1
            t.label(p["category"])
    if c["fixes"]:
        require(sum(p["category"] == "usbl" for p in a) == len(c["fixes"]), "USBL fixes were lost")
    t.label("before the tide table", any((rawgen.day0(c["log"]) + c["log"]["offset"] + f["t"])
                                         < c["tide"][0][0] for f in c["log"]["frames"]))
    t.label("after the tide table", any((rawgen.day0(c["log"]) + c["log"]["offset"] + f["t"])
                                        > c["tide"][-1][0] for f in c["log"]["frames"]))
    t.label("several files", len(c["usbl_files"]) > 1 and bool(c["fixes"]) or len(c["tide_files"]) > 1)
    t.nontrivial(used > 0, c["fmt"])
