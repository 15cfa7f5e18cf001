"""C12: a PHINS log becomes exactly its intact telegrams, stamped and converted as documented."""
import math
from pathlib import Path

import yaml
from hypothesis import strategies as st

import rawgen
from gen import nice
from pbt import fail, require, require_close, sub

from auv_nav.parsers.parse_phins import parse_phins
from auv_nav.sensors import Category
from oplab import Mission, Vehicle


@st.composite
def case(draw):
    log = draw(rawgen.phins_log(1, 14))
    yaw = draw(st.sampled_from([0.0, 0.0, 0.0, 45.0, -12.5, 180.0]))
    return {"log": log, "yaw": yaw, "factors": draw(st.tuples(nice(0, 0.1, 4), nice(0, 1, 3),
                                                              nice(0, 0.1, 4), nice(0, 0.1, 4)))}


def setup(root, c, faults_off=()):
    raw = root / "raw" / "y" / "dive"
    (raw / "nav").mkdir(parents=True, exist_ok=True)
    log = dict(c["log"], frames=[dict(f, fault=None if f["fault"] in faults_off else f["fault"])
                                 for f in c["log"]["frames"]])
    name = rawgen.date_of(log) + "_phins.txt"
    (raw / "nav" / name).write_text(rawgen.phins_text(log), newline="")
    s = {"format": "phins", "filepath": "nav/", "filename": name, "timezone": log["zone"][0],
         "timeoffset": log["offset"]}
    vf, vo, df, af = c["factors"]
    m = {"version": 1, "origin": {"latitude": 10.0, "longitude": 20.0,
                                  "coordinate_reference_system": "wgs84", "date": "2020/03/02"},
         "velocity": dict(s, std_factor=vf, std_offset=vo), "orientation": dict(s),
         "depth": dict(s, std_factor=df), "altitude": dict(s, std_factor=af)}
    (raw / "mission.yaml").write_text(yaml.safe_dump(m))
    v = {k: rawgen.frame() for k in rawgen.FRAMES}
    v["dvl"] = rawgen.frame(yaw=c["yaw"])
    (raw / "vehicle.yaml").write_text(yaml.safe_dump(v))
    out = root / "processed" / "y" / "dive" / "nav"
    out.mkdir(parents=True, exist_ok=True)
    return Mission(raw / "mission.yaml"), Vehicle(raw / "vehicle.yaml"), out, log


def stamp(got, want, what):
    require_close(float(got), want, what, 0, 1e-4)


def same_count(got, want, what):
    require(len(got) == len(want), lambda: "%d %s packets for %d intact telegrams: %s" % (
        len(got), what, len(want), [g["epoch_timestamp"] for g in got]))


@sub("C12", "phins", case(), quick=500, thorough=12000, shards=4,
     rule="the log has at least two frames and at least one corrupted or clock-less telegram, or a "
          "rotated DVL")
def phins(c, t):
    root = t.scratch()
    mission, vehicle, out, log = setup(root, c)
    d0 = rawgen.day0(log) + log["offset"]
    fr = log["frames"]
    vf, vo, df, af = c["factors"]
    t.nontrivial(len(fr) > 1 and (any(f["fault"] for f in fr) or c["yaw"] != 0))
    for f in fr:
        t.label(f["fault"] or "intact")

    # --- velocity: DVL (body) and INS (inertial)
    got = parse_phins(mission, vehicle, Category.VELOCITY, "oplab", out)
    body = [g for g in got if g["frame"] == "body"]
    inert = [g for g in got if g["frame"] == "inertial"]
    require(len(body) + len(inert) == len(got), "unknown velocity frame")
    want = [f for f in fr if f["has"] in ("all", "dvl")
            and f["fault"] not in ("sixty", "LOGIN_", "truncated", "sixty dvl")]
    same_count(body, want, "DVL")
    for g, f in zip(body, want):
        require(g["category"] == "velocity" and g["sensor"] == "phins", "packet %s" % g)
        stamp(g["epoch_timestamp"], d0 + f["t"], "velocity time")
        stamp(g["epoch_timestamp_dvl"], d0 + f["t"] + f["dvl_lag"], "DVL time")
        v = [g["data"][i]["%s_velocity" % k] for i, k in enumerate("xyz")]
        x, y, z = f["dvl"][0], -f["dvl"][1], -f["dvl"][2]
        a = math.radians(c["yaw"])
        ok = False
        for s in (a, -a):  # the sense of the mounting rotation is not asserted
            w = (x * math.cos(s) - y * math.sin(s), x * math.sin(s) + y * math.cos(s), z)
            ok = ok or all(abs(p - q) < 1e-9 for p, q in zip(v, w))
        require(ok, "DVL velocity %s from telegram %s with DVL yaw %s" % (v, f["dvl"], c["yaw"]))
        require_close([g["data"][i]["%s_velocity_std" % k] for i, k in enumerate("xyz")],
                      [abs(p) * vf + vo for p in v], "DVL velocity std")
    want = [f for f in fr if f["has"] == "all" and f["fault"] not in ("sixty", "SPEED_")]
    same_count(inert, want, "INS velocity")
    for g, f in zip(inert, want):
        stamp(g["epoch_timestamp"], d0 + f["t"], "INS velocity time")
        require_close([g["data"][0]["north_velocity"], g["data"][1]["east_velocity"],
                       g["data"][2]["down_velocity"]], [f["speed"][1], f["speed"][0], -f["speed"][2]],
                      "INS velocity")
        k = fr.index(f)
        near = [(h["speed_std"][1], h["speed_std"][0], h["speed_std"][2]) for h in fr[:k + 1]
                if h["has"] == "all" and h["fault"] != "sixty"][-2:]
        if not any(h["has"] == "all" and h["fault"] != "sixty" for h in fr[:k]):
            near = [None] + near
        std = tuple(g["data"][i]["%s_velocity_std" % q] for i, q in enumerate(("north", "east", "down")))
        require(any(std == (None,) * 3 if h is None else all(
            p is not None and abs(p - q) < 1e-9 for p, q in zip(std, h)) for h in near),
                "INS velocity std %s, telegrams %s" % (std, near))

    # --- depth
    got = parse_phins(mission, vehicle, Category.DEPTH, "oplab", out)
    want = [f for f in fr if f["has"] in ("all", "depth")
            and f["fault"] not in ("sixty", "DEPIN_", "sixty depth")]
    same_count(got, want, "depth")
    for g, f in zip(got, want):
        require(g["category"] == "depth", "packet %s" % g)
        stamp(g["epoch_timestamp"], d0 + f["t"], "depth time")
        stamp(g["epoch_timestamp_depth"], d0 + f["t"] + f["depth_lag"], "own time of the depth")
        require_close([g["data"][0]["depth"], g["data"][0]["depth_std"]], [f["depth"], f["depth"] * df],
                      "depth")

    # --- orientation
    mission, vehicle, out, log2 = setup(root / "o", dict(c, yaw=0.0))
    got = parse_phins(mission, vehicle, Category.ORIENTATION, "oplab", out)
    want = [f for f in log2["frames"] if f["has"] in ("all", "att") and f["fault"] not in ("sixty", "attitude")]
    have = [f for f in log2["frames"] if f["has"] in ("all", "att") and f["fault"] != "sixty"]
    same_count(got, want, "orientation")
    for g, f in zip(got, want):
        require(g["category"] == "orientation", "packet %s" % g)
        stamp(g["epoch_timestamp"], d0 + f["t"], "orientation time")
        require_close([g["data"][1]["roll"], g["data"][2]["pitch"], g["data"][0]["heading"]],
                      [-f["att"][0], -f["att"][1], f["heading"]], "roll, pitch, heading")
        k = have.index(f)
        std = [g["data"][1]["roll_std"], g["data"][2]["pitch_std"], g["data"][0]["heading_std"]]
        near = [[h["std"][1], h["std"][2], h["std"][0]] for h in have[max(k - 1, 0):k + 1]]
        require(any(all(abs(p - q) < 1e-9 for p, q in zip(std, h)) for h in near),
                "orientation std %s, telegrams %s" % (std, near))

    # --- altitude
    mission, vehicle, out, log3 = setup(root / "a", c, ("sixty dvl", "truncated", "LOGIN_"))
    got = parse_phins(mission, vehicle, Category.ALTITUDE, "oplab", out)
    want = [f for f in log3["frames"] if f["has"] in ("all", "dvl") and f["fault"] not in ("sixty", "LOGDVL")]
    same_count(got, want, "altitude")
    for g, f in zip(got, want):
        require(g["category"] == "altitude", "packet %s" % g)
        stamp(g["epoch_timestamp"], d0 + f["t"], "altitude time")
        stamp(g["epoch_timestamp_dvl"], d0 + f["t"] + f["dvl_lag"], "DVL time of the altitude")
        require_close([g["data"][0]["altitude"], g["data"][0]["altitude_std"],
                       g["data"][1]["sound_velocity"], g["data"][1]["sound_velocity_correction"]],
                      [f["alt"], f["alt"] * af, f["sv"], f["svc"]], "altitude")


@st.composite
def noisy(draw):
    c = draw(case())
    n = draw(st.integers(1, 4))
    c["flips"] = draw(st.lists(st.tuples(st.integers(0, 10 ** 6), st.sampled_from("0123456789"), st.sampled_from(
        ["digit"] * 3 + ["lost character", "lost end", "short sum", "no sum", "letter in sum", "two sums"])),
        min_size=n, max_size=n))
    return c


@sub("C12", "checksum", noisy(), quick=300, thorough=8000, shards=3,
     rule="a telegram was altered in transmission")
def checksum(c, t):
    """Altering a telegram or its sum removes that telegram and changes no other."""
    root = t.scratch()
    c = dict(c, log=dict(c["log"], frames=[dict(f, fault=None) for f in c["log"]["frames"]]))
    mission, vehicle, out, log = setup(root, c)
    path = root / "raw" / "y" / "dive" / "nav" / (rawgen.date_of(log) + "_phins.txt")
    lines = path.read_text().splitlines()
    cand = [i for i, x in enumerate(lines) if "*" in x and "TIME__" not in x]
    if not cand:
        return
    hit = set()
    for k, ch, how in c["flips"]:
        i = cand[k % len(cand)]
        if i in hit:
            continue
        body, crc = lines[i].split("*")
        digits = [j for j in range(6, len(body)) if body[j].isdigit()]
        j = digits[(k // 7) % len(digits)]
        if how == "digit":
            if body[j] == ch:
                continue
            lines[i] = body[:j] + ch + body[j + 1:] + "*" + crc
        elif how == "lost character":
            lines[i] = body[:j] + body[j + 1:] + "*" + crc
        elif how == "lost end":
            lines[i] = body[:j]
        else:
            lines[i] = body + "*" + {"short sum": crc[:-1] if crc[0] != "0" else crc[1:], "no sum": "",
                                     "letter in sum": crc[0] + "G", "two sums": crc + "*" + crc}[how]
        hit.add(i)
        t.label(how)
    clean = root / "clean"
    (clean / "raw" / "y" / "dive" / "nav").mkdir(parents=True)
    (clean / "processed" / "y" / "dive" / "nav").mkdir(parents=True)
    (clean / "raw" / "y" / "dive" / "nav" / path.name).write_text(
        "\r\n".join(x for i, x in enumerate(lines) if i not in hit) + "\r\n")
    path.write_text("\r\n".join(lines) + "\r\n")
    for cat in (Category.VELOCITY, Category.ORIENTATION, Category.DEPTH, Category.ALTITUDE):
        a = parse_phins(mission, vehicle, cat, "oplab", out)
        b = parse_phins(mission, vehicle, cat, "oplab", clean / "processed" / "y" / "dive" / "nav")
        require(a == b, lambda: "a corrupted telegram was not simply dropped: %s / %s" % (a, b))
    t.nontrivial(bool(hit))
