"""C16: mission.yaml and vehicle.yaml are read, checked for consistency and written without loss."""
import copy
import random

import yaml
from hypothesis import strategies as st

from pbt import fail, require, sub

from oplab import Mission, Vehicle

SEED = st.integers(0, 2 ** 32 - 1)
ENTRIES = {"velocity": "dvl", "orientation": "ins", "depth": "depth", "altitude": "dvl", "usbl": "usbl",
           "tide": None, "dead_reckoning": None}
ZONES = {"utc": 0, "UTC": 0, "jst": 9, "JST": 9, "cet": 1, "CET": 1, "5.5": 5.5, "-3": -3, "+2": 2}


def num(r, a=-5, b=5):
    return r.choice([0, 0.0, round(r.uniform(a, b), r.choice([1, 3, 6])), r.randint(int(a), int(b))])


def zone(r, node):
    """adds time keys to node, returns (zone, offset)"""
    z = r.choice([None, 0, 9, -3.5, 1] + list(ZONES))
    o = r.choice([None, 0, 1.25, -3600, 0.5])
    if z is not None:
        node["timezone"] = z
    if o is not None:
        node["timeoffset"] = o
    return ZONES[z] if isinstance(z, str) else (z or 0), o or 0


def offset(r):
    return {k: num(r) if "m" in k else num(r, -180, 180)
            for k in ("surge_m", "sway_m", "heave_m", "roll_deg", "pitch_deg", "yaw_deg")}


def frames(r):
    """mission and vehicle dictionaries, and what should be read from them"""
    veh = {"origin": offset(r)}
    for k in ("ins", "dvl", "depth", "usbl"):
        veh[k] = offset(r)
    mis = {"version": r.choice([1, 1, 2]), "origin": {
        "latitude": round(r.uniform(-89, 89), 6), "longitude": round(r.uniform(-180, 180), 6),
        "coordinate_reference_system": "wgs84", "date": r.choice(["2019/09/21", "2017/12/31"])}}
    want = {}
    for k, default in ENTRIES.items():
        if r.random() < 0.2:
            continue
        n = {"format": r.choice(["phins", "autosub", "hyrise", "ae2000", "rosbag"])}
        w = {"format": n["format"]}
        for key, vals, dflt in (("filepath", ["nav/", "a/b/"], ""), ("filename", ["x.log", "*.mat", "Ä b.csv"], ""),
                                ("std_factor", [0.001, 0.5, 1], 0.0), ("std_offset", [0.2, 3, 1e-5], 0.0),
                                ("topic", ["/imu", "/a/b_c"], None), ("field_id", [3, 12], 0),
                                ("apply_depth_filter", [True, False], True),
                                ("apply_north_east_filter", [True, False], True)):
            w[key] = dflt
            if r.random() < 0.5:
                w[key] = n[key] = r.choice(vals)
        w["label"] = 0
        if r.random() < 0.4:
            w["label"] = n[r.choice(["label", "id"])] = r.randint(0, 20)
            if "label" in n and r.random() < 0.3:
                n["id"] = r.randint(0, 20)  # the label wins
        if default is not None:
            w["origin"] = default
            if r.random() < 0.4:
                fr = r.choice(["ins", "dvl", "depth", "usbl", k + "_frame"])
                veh.setdefault(fr, offset(r))
                n["origin"] = w["origin"] = fr
        w["timezone"], w["timeoffset_s"] = zone(r, n)
        mis[k] = n
        want[k] = w
    cams = []
    if r.random() < 0.8:
        n = {"format": r.choice(["biocam", "acfr_standard", "seaxerocks_3"]), "cameras": []}
        own = r.choice([0, 0, 1, 1, 0.5])
        for i in range(r.randint(1, 3)):
            c = {"name": "cam%d" % i, "path": r.choice(["image", "image/%d" % i])}
            e = dict(c, origin="cam%d" % i, records_laser=False, topic=None, timeoffset=0.0, timeoffset_s=None)
            if r.random() < own:
                c["origin"] = e["origin"] = r.choice(["frame%d", "camera%d"]) % (i + 1)
            if r.random() < 0.4:
                c["records_laser"] = e["records_laser"] = True
            if r.random() < 0.3:
                c["topic"] = e["topic"] = "/cam%d" % i
            if r.random() < 0.3:
                c["timeoffset"] = e["timeoffset"] = num(r)
            if r.random() < 0.3:
                c["timeoffset_s"] = e["timeoffset_s"] = num(r)
            n["cameras"].append(c)
            veh[e["origin"]] = offset(r)
            cams.append(e)
        w = {"format": n["format"]}
        w["timezone"], w["timeoffset_s"] = zone(r, n)
        mis["image"] = n
        want["image"] = w
    pays = {}
    k = r.choice([0, 1, 2, 3])
    if k:
        mis["payloads"], veh["payloads"] = {}, {}
    for i in range(k):
        n = {"path": "pay/%d.csv" % i, "format": "csv"}
        w = dict(n, columns=None)
        if r.random() < 0.5:
            n["columns"] = w["columns"] = {"a": {"name": "CO2", "unit": "ppm"}, "b": r.randint(0, 9)}
        w["timezone"], w["timeoffset_s"] = zone(r, n)
        mis["payloads"]["pay%d" % i] = n
        veh["payloads"]["pay%d" % i] = offset(r)
        pays["pay%d" % i] = w
    if k and r.random() < 0.3:
        veh["payloads"]["unused"] = offset(r)
    return mis, veh, want, cams, pays


def check_entry(e, w, what):
    for k, v in w.items():
        got = getattr(e, k)
        require(got == v, "%s: %s is %r, expected %r" % (what, k, got, v))
    require(e.timezone_s == w["timezone"] * 3600, "%s: timezone of %r s" % (what, e.timezone_s))
    require(abs(e.offset_s - (w["timezone"] * 3600 + w["timeoffset_s"])) < 1e-9,
            "%s: offset of %r s, expected %r h + %r s" % (what, e.offset_s, w["timezone"], w["timeoffset_s"]))


def check_mission(m, mis, want, cams, pays, what):
    o = mis["origin"]
    require((m.origin.latitude, m.origin.longitude, m.origin.crs, m.origin.date) == (
        o["latitude"], o["longitude"], o["coordinate_reference_system"], o["date"]), what + ": origin")
    for k in list(ENTRIES) + ["image"]:
        e = getattr(m, k)
        require(e.empty() == (k not in want), "%s: %s is%s empty" % (what, k, "" if e.empty() else " not"))
        if k in want:
            check_entry(e, want[k], "%s: %s" % (what, k))
    require(len(m.image.cameras) == len(cams), "%s: %d cameras" % (what, len(m.image.cameras)))
    for c, w in zip(m.image.cameras, cams):
        for k, v in w.items():
            require(getattr(c, k) == v, "%s: camera %s: %s is %r, expected %r" % (what, w["name"], k, getattr(c, k), v))
    require(set(m.payloads) == set(pays), "%s: payloads %s" % (what, sorted(m.payloads)))
    for k, w in pays.items():
        check_entry(m.payloads[k], w, "%s: payload %s" % (what, k))


def check_offset(s, node, what):
    got = (s.surge, s.sway, s.heave, s.roll, s.pitch, s.yaw)
    w = tuple(node[k] for k in ("surge_m", "sway_m", "heave_m", "roll_deg", "pitch_deg", "yaw_deg"))
    require(got == w and not s.empty(), "%s is at %s, expected %s" % (what, got, w))


def check_vehicle(v, veh, cams, what):
    for k in ("origin", "ins", "dvl", "depth", "usbl"):
        check_offset(getattr(v, k), veh[k], "%s: %s" % (what, k))
    for i in range(3):
        s = getattr(v, "camera%d" % (i + 1))
        if i < len(cams):
            check_offset(s, veh[cams[i]["origin"]], "%s: camera %d" % (what, i + 1))
        else:
            require(s.empty() and (s.surge, s.sway, s.heave, s.roll, s.pitch, s.yaw) == (0,) * 6,
                    "%s: a camera that is not there has a position" % what)
    pl = veh.get("payloads", {})
    require(set(v.payloads) == set(pl), "%s: payloads %s" % (what, sorted(v.payloads)))
    for k in pl:
        check_offset(v.payloads[k], pl[k], "%s: payload %s" % (what, k))


def dump(d, mis, veh):
    d.mkdir(parents=True, exist_ok=True)
    (d / "mission.yaml").write_text(yaml.safe_dump(mis, allow_unicode=True), encoding="utf-8")
    (d / "vehicle.yaml").write_text(yaml.safe_dump(veh, allow_unicode=True), encoding="utf-8")


@sub("C16", "files", SEED, quick=200, thorough=8000, shards=4, max_s=20,
     rule="the mission has cameras, payloads and an entry with its own frame")
def files(seed, t):
    r = random.Random(seed)
    s = t.scratch()
    mis, veh, want, cams, pays = frames(r)
    a = s / "a"
    dump(a, mis, veh)
    m = Mission(a / "mission.yaml")
    require(m.version == mis["version"], "version %s" % m.version)
    check_mission(m, mis, want, cams, pays, "loaded mission")
    v = Vehicle(a / "vehicle.yaml")
    check_vehicle(v, veh, cams, "loaded vehicle")
    before = (a / "mission.yaml").read_bytes(), (a / "vehicle.yaml").read_bytes()
    # copies next to the results
    b = s / "b" / "c"
    m.write(b / "mission.yaml")
    v.write(b / "vehicle.yaml")
    check_mission(Mission(b / "mission.yaml"), mis, want, cams, pays, "copied mission")
    check_vehicle(Vehicle(b / "vehicle.yaml"), veh, cams, "copied vehicle")
    for f, d in (("mission.yaml", mis), ("vehicle.yaml", veh)):
        y = yaml.safe_load((b / f).read_text(encoding="utf-8"))
        meta = y.pop("metadata")
        require(y == d, "the copy of %s has other content" % f)
        require(set(meta) >= {"username", "date", "hostname"}, "metadata of %s" % f)
    require(before == ((a / "mission.yaml").read_bytes(), (a / "vehicle.yaml").read_bytes()), "the input changed")
    # a mission that exists in memory only
    c = s / "c"
    dump(c, mis, veh)
    (c / "mission.yaml").unlink()
    m.filename = None
    fresh = Mission()
    if r.random() < 0.5:  # as the converters make one
        for k, x in vars(m).items():
            if k not in ("version", "filename"):
                setattr(fresh, k, x)
        m = fresh
    m.write(c / "mission.yaml")
    check_mission(Mission(c / "mission.yaml"), mis, want, cams, pays, "written mission")
    t.nontrivial(bool(cams) and bool(pays) and any(
        w.get("origin") not in (None, ENTRIES[k]) for k, w in want.items() if k in ENTRIES), "%d cameras" % len(cams))


@sub("C16", "inconsistent", SEED, quick=150, thorough=4000, shards=2, max_s=15,
     rule="the frame of a sensor, camera or payload is missing, or a time zone is unknown")
def inconsistent(seed, t):
    r = random.Random(seed)
    s = t.scratch()
    mis, veh, want, cams, pays = frames(r)
    bad = copy.deepcopy(veh)
    kinds = [k for k in want if k in ENTRIES and ENTRIES[k]]
    what = r.choice(["sensor"] * 2 + ["camera", "payload", "zone", "nofile"])
    if what == "sensor" and kinds:
        k = r.choice(kinds)
        del bad[want[k]["origin"]]
        name = k
    elif what == "camera" and cams:
        name = r.choice(cams)["origin"]
        del bad[name]
    elif what == "payload" and pays:
        name = r.choice(sorted(pays))
        frame = bad["payloads"].pop(name)
        if r.random() < 0.5:
            bad[name] = frame  # not among the payloads
    elif what == "zone" and kinds:
        name = r.choice(kinds)
        mis[name]["timezone"] = r.choice(["CEST", "Europe/London", "+9h", ""])
    else:
        what, name = "nofile", "vehicle.yaml"
    dump(s / "m", mis, bad)
    if what == "nofile":
        (s / "m" / "vehicle.yaml").unlink()
    try:
        Mission(s / "m" / "mission.yaml")
    except SystemExit:
        t.nontrivial(True, what)
        return
    fail("a mission without %s %s was accepted" % (what, name))


@sub("C16", "old", SEED, quick=100, thorough=3000, shards=2, max_s=15,
     rule="the vehicle file has offsets in the old form")
def old(seed, t):
    """files of the first format: x_offset and heading offset, camera1..3"""
    r = random.Random(seed)
    s = t.scratch()

    def off():
        return {"x_offset": num(r), "y_offset": num(r), "z_offset": num(r)}
    fmt = r.choice(["seaxerocks_3", "acfr_standard"])
    veh = {k: off() for k in ("origin", "ins", "dvl", "depth", "usbl", "camera1", "camera2", "camera3")}
    head = {k: num(r, -180, 180) for k in ("orientation", "velocity")}
    mis = {"origin": {"latitude": 26.6, "longitude": 127.8, "coordinate_reference_system": "wgs84", "date": "2017/12/20"}}
    for k in ("velocity", "orientation", "depth", "altitude", "usbl"):
        mis[k] = {"format": "phins", "filepath": "nav/", "filename": "a.txt", "timezone": "utc", "timeoffset": 0}
    has = r.random() < 0.8
    if has:
        for k in head:
            mis[k]["headingoffset"] = head[k]
    mis["image"] = {"format": fmt, "filepath": "image/a/", "camera1": "c1/", "camera2": "c2/", "camera3": "c3/",
                    "timezone": "utc", "timeoffset": 0}
    dump(s / "m", mis, veh)
    m = Mission(s / "m" / "mission.yaml")
    n = 3 if fmt == "seaxerocks_3" else 2
    names = ["fore", "aft", "laser"] if n == 3 else ["c1/", "c2/"]
    require([c.name for c in m.image.cameras] == names, "cameras %s" % [c.name for c in m.image.cameras])
    require([c.origin for c in m.image.cameras] == ["camera1", "camera2", "camera3"][:n], "frames of the cameras")
    require([c.path for c in m.image.cameras] == (["image/a/c%d/" % i for i in (1, 2, 3)] if n == 3 else
                                                  ["image/a/"] * 2), "paths %s" % [c.path for c in m.image.cameras])
    v = Vehicle(s / "m" / "vehicle.yaml")
    for k in ("origin", "ins", "dvl", "depth", "usbl", "camera1", "camera2") + (("camera3",) if n == 3 else ()):
        e = getattr(v, k)
        w = tuple(veh[k][x] for x in ("x_offset", "y_offset", "z_offset"))
        yaw = {"ins": head["orientation"], "dvl": head["velocity"]}.get(k, 0) if has else 0
        got = (e.surge, e.sway, e.heave, e.roll, e.pitch, e.yaw)
        require(got == w + (0, 0, yaw), "%s is at %s, expected %s" % (k, got, w + (0, 0, yaw)))
    t.nontrivial(True, fmt)
