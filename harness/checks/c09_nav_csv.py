"""C09: navigation csv files hold each record under the right column and reload unchanged."""
import io
import re
import sys
from contextlib import redirect_stdout
from datetime import datetime, timedelta
from pathlib import Path

import numpy as np
import pandas as pd
from hypothesis import strategies as st

import pbt
from gen import fl, nice
from pbt import fail, require, require_close, sub

from auv_nav.sensors import (Camera, Depth, Payload, SyncedOrientationBodyVelocity)
from auv_nav.tools.csv_tools import load_states, write_csv, write_sidescan_csv

sys.path.insert(0, str(pbt.SRC / "scripts"))
from simplify_nav_file import simplify_nav_file  # noqa: E402

BASE = {  # documented column -> attribute
    "northing [m]": "northings", "easting [m]": "eastings", "depth [m]": "depth",
    "roll [deg]": "roll", "pitch [deg]": "pitch", "heading [deg]": "yaw",
    "altitude [m]": "altitude", "latitude [deg]": "latitude", "longitude [deg]": "longitude",
    "vehicle_std_x [m]": "northings_std", "vehicle_std_y [m]": "eastings_std",
    "vehicle_std_z [m]": "depth_std", "vehicle_std_roll [deg]": "roll_std",
    "vehicle_std_pitch [deg]": "pitch_std", "vehicle_std_yaw [deg]": "yaw_std",
    "vehicle_std_vx [m/s]": "x_velocity_std", "vehicle_std_vy [m/s]": "y_velocity_std",
    "vehicle_std_vz [m/s]": "z_velocity_std", "vehicle_std_vroll [deg/s]": "vroll_std",
    "vehicle_std_vpitch [deg/s]": "vpitch_std", "vehicle_std_vyaw [deg/s]": "vyaw_std",
}
SYNCED = dict(BASE, timestamp="epoch_timestamp")
CAMERA = dict(BASE, **{"timestamp [s]": "epoch_timestamp", "relative_path": "filename",
                       "x_velocity [m/s]": "x_velocity", "y_velocity [m/s]": "y_velocity",
                       "z_velocity [m/s]": "z_velocity"})
ATTRS = sorted(set(CAMERA.values()) - {"filename", "epoch_timestamp"})
AX = ["x", "y", "z", "roll", "pitch", "yaw"]

num = st.one_of(fl(-1e4, 1e4), nice(-300, 300, 2), st.sampled_from(
    [0.0, -0.0, 1e-7, -1e-7, 1e-5, 123456.789012, 1 / 3, 5, -7]))
fname = st.text("abcdefgXYZ_-0123456789", min_size=1, max_size=12)


@st.composite
def states(draw, lo=2, hi=12):
    n = draw(st.integers(lo, hi))
    t = draw(st.integers(1200000000, 1700000000)) + draw(nice(0, 1, 6))
    out = []
    names = draw(st.lists(fname, min_size=n, max_size=n, unique=True))
    for i in range(n):
        # distinct numbers per attribute, so that swapped columns cannot agree
        vals = draw(st.lists(num, min_size=4, max_size=4))
        rec = {a: float(vals[k % 4]) + (k // 4) * 10.25 + k for k, a in enumerate(ATTRS)}
        rec["filename"] = "image/%s/%s.%s" % (draw(st.sampled_from(["LC", "a b", "Cam-1"])), names[i],
                                              draw(st.sampled_from(["tif", "png", "raw"])))
        rec["epoch_timestamp"] = t
        t += draw(nice(0.000001, 5, 6))
        rec["cov"] = [vals[(k * 3 + k // 4) % 4] + k * 0.125 for k in range(36)]
        out.append(rec)
    return {"recs": out, "np": draw(st.booleans()), "cov": draw(st.booleans()),
            "old": draw(st.booleans()), "nested": draw(st.booleans())}


def build(cls, rec, npfloat, cov):
    o = cls()
    for a, v in rec.items():
        if a == "cov":
            if cov:
                o.covariance = np.array(v).reshape(6, 6)
        elif a == "filename":
            if cls is Camera:
                o.filename = v
        else:
            setattr(o, a, np.float64(v) if npfloat else v)
    return o


def table(path):
    return pd.read_csv(path, float_precision="round_trip", skipinitialspace=True)


def check_frame(df, recs, cols, what):
    require(len(df) == len(recs), "%s: %d rows for %d records" % (what, len(df), len(recs)))
    for col, attr in cols.items():
        require(col in df.columns, "%s: no column %r in %s" % (what, col, list(df.columns)))
        for i, r in enumerate(recs):
            got = df[col].iloc[i]
            if attr == "filename":
                require(str(got) == r[attr], "%s row %d: file %r, expected %r" % (what, i, got, r[attr]))
            else:
                require_close(float(got), r[attr], "%s row %d column %s" % (what, i, col), 1e-12, 1e-12)


@sub("C09", "files", states(), quick=240, thorough=6000, shards=6,
     rule="at least three records")
def files(c, t):
    recs, d = c["recs"], t.scratch()
    out = d / "a" / "b" if c["nested"] else d
    for cls, cols, name in ((SyncedOrientationBodyVelocity, SYNCED, "centre"),
                            (Camera, CAMERA, "cam")):
        objs = [build(cls, r, c["np"], c["cov"]) for r in recs]
        if c["old"]:  # an older, longer file must be replaced, not appended to
            write_csv(out, objs + objs, name, True)
        write_csv(out, objs, name, True)
        write_csv(out, objs, name + "_off", False)
        require(not (out / (name + "_off.csv")).exists(), "a disabled csv was written")
        df = table(out / (name + ".csv"))
        check_frame(df, recs, cols, name + ".csv")
        # reload as records
        for i, row in pd.read_csv(out / (name + ".csv")).iterrows():
            o = cls()
            o.from_df(row)
            for attr in cols.values():
                if attr == "filename":
                    require(o.filename == recs[i]["filename"], "reloaded file name %r" % o.filename)
                else:
                    require_close(float(getattr(o, attr)), recs[i][attr],
                                  "reloaded %s of %s %d" % (attr, name, i), 1e-12, 1e-12)
    if c["cov"]:
        cv = table(out / "cam_cov.csv")
        require(len(cv) == len(recs), "covariance rows: %d" % len(cv))
        for i, r in enumerate(recs):
            require(cv["relative_path"].iloc[i] == r["filename"], "covariance row %d has another image" % i)
            for a in range(6):
                for b in range(6):
                    require_close(float(cv["cov_%s_%s" % (AX[a], AX[b])].iloc[i]), r["cov"][a * 6 + b],
                                  "covariance %s %s of row %d" % (AX[a], AX[b], i), 1e-12, 1e-12)
    else:
        require(not (out / "cam_cov.csv").exists(), "covariance file without covariances")
    t.nontrivial(len(recs) >= 3, "covariance" if c["cov"] else "plain")


@st.composite
def window(draw):
    c = draw(states(2, 10))
    n = len(c["recs"])
    a = draw(st.integers(-1, n - 1))
    b = draw(st.integers(max(a, 0), n))
    c.update(a=a, b=b, cov=True)
    return c


@sub("C09", "load_states", window(), quick=250, thorough=6000,
     rule="the requested range is a proper part of the file with more than one state")
def load_range(c, t):
    recs, d = c["recs"], t.scratch()
    write_csv(d, [build(Camera, r, c["np"], True) for r in recs], "laser", True)
    start = recs[c["a"]]["filename"] if c["a"] >= 0 else "image/none.tif"
    end = recs[c["b"]]["filename"] if c["b"] < len(recs) else "image/none.tif"
    got = load_states(d / "laser.csv", start, end)
    want = recs[c["a"]:c["b"] + 1] if c["a"] >= 0 else []
    require([g.filename for g in got] == [w["filename"] for w in want],
            lambda: "loaded %s, expected %s" % ([g.filename for g in got], [w["filename"] for w in want]))
    for g, w in zip(got, want):
        for attr in ("epoch_timestamp", "northings", "eastings", "depth", "roll", "pitch", "yaw",
                     "x_velocity", "y_velocity", "z_velocity"):
            require_close(float(getattr(g, attr)), w[attr], "loaded " + attr, 1e-12, 1e-12)
        require_close(np.asarray(g.covariance, dtype=float), np.array(w["cov"]).reshape(6, 6),
                      "loaded covariance", 1e-12, 1e-12)
    t.nontrivial(1 < len(want) < len(recs))
    t.label("unknown start", c["a"] < 0)
    t.label("unknown end", c["b"] >= len(recs))


@st.composite
def payloads(draw):
    n = draw(st.integers(2, 8))
    keys = draw(st.lists(st.text("abcdefgh_", min_size=1, max_size=6), min_size=1, max_size=5,
                         unique=True))
    rows = draw(st.lists(st.lists(num, min_size=len(keys), max_size=len(keys)), min_size=n,
                         max_size=n))
    return {"keys": keys, "rows": rows, "pose": draw(states(n, n))["recs"],
            "kind": draw(st.sampled_from(["dict", "dict", "scalar"])), "none": draw(st.booleans())}


@sub("C09", "payload_and_sidescan", payloads(), quick=250, thorough=5000,
     rule="at least three rows")
def payload(c, t):
    d = t.scratch()
    objs = []
    for p, r in zip(c["pose"], c["rows"]):
        o = build(Payload, p, False, False)
        o.data = dict(zip(c["keys"], r)) if c["kind"] == "dict" else r[0]
        objs.append(o)
    write_csv(d, objs, "ctd", True)
    lines = (d / "ctd.csv").read_text().splitlines()
    keys = c["keys"] if c["kind"] == "dict" else ["data"]
    pose = ["northing [m]", "easting [m]", "depth [m]", "altitude [m]", "latitude [deg]",
            "longitude [deg]"]
    require(lines[0].split(",") == pose + keys, "payload header %r" % lines[0])
    require(len(lines) == len(objs) + 1, "payload rows: %d" % len(lines))
    for i, (p, r) in enumerate(zip(c["pose"], c["rows"])):
        want = [p[BASE[k]] for k in pose] + (r if c["kind"] == "dict" else r[:1])
        require_close([float(x) for x in lines[i + 1].split(",")], want, "payload row %d" % i,
                      1e-12, 1e-12)
    # sidescan text file of the same poses
    objs = []
    for p in c["pose"]:
        p = dict(p, latitude=p["latitude"] % 80, longitude=p["longitude"] % 170)
        objs.append((p, build(SyncedOrientationBodyVelocity, p, False, False)))
        if c["none"]:
            objs[-1][1].latitude = objs[-1][1].longitude = None
    if c["none"]:
        (d / "s").mkdir()
        (d / "s" / "sss.txt").write_text("an older result\n")
    write_sidescan_csv(d / "s", [o for _, o in objs], "sss", True)
    write_sidescan_csv(d / "s", [o for _, o in objs], "sss_off", False)
    require(not (d / "s" / "sss_off.txt").exists(), "a disabled sidescan file was written")
    lines = [x for x in (d / "s" / "sss.txt").read_text().splitlines() if not x.startswith("#")]
    require(len(lines) == len(objs), "sidescan rows: %d" % len(lines))
    for line, (p, _) in zip(lines, objs):
        f = line.split()
        when = datetime(1970, 1, 1) + timedelta(seconds=int(p["epoch_timestamp"]))
        require(f[1:3] == [when.strftime("%Y%m%d"), when.strftime("%H%M%S")],
                "sidescan time %s for %r" % (f[1:3], p["epoch_timestamp"]))
        ll = (0.0, 0.0) if c["none"] else (p["latitude"], p["longitude"])
        require_close([float(x) for x in f[3:5]], ll, "sidescan position", 0, 6e-7)
        require_close([float(x) for x in f[5:]], [p["yaw"], p["roll"], p["pitch"], p["altitude"],
                                                  p["depth"], p["x_velocity"]], "sidescan row", 0, 6e-4)
    t.nontrivial(len(objs) >= 3, c["kind"])


@st.composite
def simplify(draw):
    c = draw(states(2, 10))
    n = len(c["recs"])
    c["order"] = draw(st.permutations(list(range(n))))
    c["present"] = draw(st.one_of(st.none(), st.lists(st.booleans(), min_size=n, max_size=n)))
    c["extra"] = draw(st.integers(0, 2))
    c["ext"] = draw(st.sampled_from([".png", ".jpg"]))
    c["mode"] = draw(st.sampled_from(["short", "normal", "long"]))
    c["exists"] = draw(st.sampled_from([None, "force", "keep"]))
    return c


@sub("C09", "simplified_nav", simplify(), quick=200, thorough=5000,
     rule="the image folder holds some but not all of the images of the navigation file")
def simplified(c, t):
    d = t.scratch()
    recs = [c["recs"][i] for i in c["order"]]
    write_csv(d, [build(Camera, r, False, False) for r in recs], "nav", True)
    folder = None
    keep = list(recs)
    if c["present"] is not None:
        folder = d / "img"
        folder.mkdir()
        keep = [r for r, p in zip(recs, c["present"]) if p]
        for r in keep:
            (folder / (Path(r["filename"]).stem + c["ext"])).write_bytes(b"")
        for i in range(c["extra"]):
            (folder / ("not in nav %d%s" % (i, c["ext"]))).write_bytes(b"")
    out = d / "out.csv"
    if c["exists"]:
        out.write_text("precious\n")
    text = io.StringIO()
    with redirect_stdout(text):
        simplify_nav_file(d / "nav.csv", folder, out, c["mode"] == "short", c["mode"] == "long",
                          c["exists"] == "force")
    if c["exists"] == "keep":
        require(out.read_text() == "precious\n", "an existing file was overwritten without force")
        return
    if not keep:
        require(not out.exists() or c["exists"] == "force", "output without any image")
        return
    df = table(out)
    keep.sort(key=lambda r: r["epoch_timestamp"])
    ext = (lambda r: c["ext"]) if folder else (lambda r: Path(r["filename"]).suffix)
    require([str(x) for x in df["filename"]] == [Path(r["filename"]).stem + ext(r) for r in keep],
            lambda: "rows %s, expected %s" % (list(df["filename"]), [r["filename"] for r in keep]))
    cols = {"short": ["latitude [deg]", "longitude [deg]"]}.get(c["mode"], [
        "timestamp [s]", "latitude [deg]", "longitude [deg]", "depth [m]", "altitude [m]",
        "roll [deg]", "pitch [deg]", "heading [deg]"])
    if c["mode"] == "long":
        cols = cols + ["northing [m]", "easting [m]"]
    require(list(df.columns) == ["filename"] + cols, "columns %s" % list(df.columns))
    check_frame(df, keep, {k: CAMERA[k] for k in cols}, "simplified nav")
    # the printed extent in degrees and in degrees and minutes
    for line in text.getvalue().splitlines():
        m = re.match(r"\s*([NSEW]): (\S+)\u00b0 \((-?\d+)\u00b0 (-?[\d.]+)'\)", line)
        if m:
            k = "latitude" if m.group(1) in "NS" else "longitude"
            v = (max if m.group(1) in "NE" else min)(r[k] for r in keep)
            require_close(float(m.group(2)), v, "extent " + m.group(1), 0, 1e-8)
            require_close(int(m.group(3)) + float(m.group(4)) / 60, v, "extent in minutes " + m.group(1), 0, 1e-4)
            require(abs(float(m.group(4))) <= 60 and int(m.group(3)) * v >= 0, "extent in minutes " + line)
            t.label("extent")
    t.nontrivial(folder is not None and 0 < len(keep) < len(recs), c["mode"])
