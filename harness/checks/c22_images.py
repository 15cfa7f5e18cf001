"""C22: image files of every supported camera system become image entries with the right times, names and pairs."""
import random
from datetime import datetime, timedelta
from pathlib import Path

import numpy as np
import yaml
from hypothesis import strategies as st

import rawgen
from pbt import fail, require, sub

from auv_nav.parsers.parse_acfr_images import parse_acfr_images
from auv_nav.parsers.parse_biocam_images import correct_timestamps, parse_biocam_images
from auv_nav.parsers.parse_ntnu_stereo import parse_ntnu_stereo_images
from auv_nav.parsers.parse_rosbag import parse_rosbag_extracted_images
from auv_nav.parsers.parse_seaxerocks_images import parse_seaxerocks_images
from auv_nav.parsers.parse_stereo_gopro import parse_stereo_gopro_images
from auv_nav.parsers.parse_voyis import parse_voyis_images
from auv_nav.sensors import Camera
from oplab import Mission

SEED = st.integers(0, 2 ** 32 - 1)
TOL = 0.05
E0 = datetime(1970, 1, 1)


def dive(root, name, fmt, cameras, zone, offset):
    raw = root / "raw" / "2020" / "cruise" / "auv" / name
    raw.mkdir(parents=True)
    m = {"version": 1, "origin": {"latitude": 10.0, "longitude": 20.0, "coordinate_reference_system": "wgs84",
                                  "date": "2020/03/02"},
         "image": {"format": fmt, "cameras": cameras, "timezone": zone[0], "timeoffset": offset}}
    (raw / "mission.yaml").write_text(yaml.safe_dump(m))
    v = {k: rawgen.frame() for k in list(rawgen.FRAMES) + [cam["name"] for cam in cameras]}
    (raw / "vehicle.yaml").write_text(yaml.safe_dump(v))
    out = root / "processed" / "2020" / "cruise" / "auv" / name / "nav"
    out.mkdir(parents=True)
    return raw, Mission(raw / "mission.yaml"), out


def clock(us, zone_h):
    """wall clock of an instant (integer microseconds) in a zone"""
    return E0 + timedelta(microseconds=us) + timedelta(hours=zone_h)


def instants(r, n, unit=1000):
    """n instants in integer microseconds, multiples of unit; some close together"""
    t = r.randint(1000000000, 1900000000) * 1000000 + r.choice([0, r.randint(0, 999999)])
    out = []
    for _ in range(n):
        t += r.choice([20000, 70000, 333000, 1000000, 2500000, 3600 * 10 ** 6, 86400 * 10 ** 6 - 3000])
        out.append(t // unit * unit)
    return out


def partners(r, left, unit=1000):
    """times of the second camera: some exact, some late, some missing, some of no first image"""
    out = []
    for t in left:
        k = r.random()
        if k < 0.15:
            continue
        out.append(t + r.choice([0, 0, 0, 4000, -8000, 30000, -44000, 60000, 90000]) // unit * unit
                   + r.choice([0, r.randint(-9, 9)]) * unit)
    if r.random() < 0.3:
        out.append(left[0] - 5000000)
    return sorted(set(out))


def judge(got, left, right, shift, what, key=lambda e: e):
    """got: entries with camera1 and camera2. left and right: {name: instant in us}"""
    byname = {}
    for e in got:
        n1 = e["camera1"][0]["filename"]
        require(n1 not in byname, "%s: two entries for %s" % (what, n1))
        byname[n1] = e
        require(e["class"] == "measurement" and e["category"] == "image", "%s: entry %r" % (what, e))
        cam = Camera()
        cam.from_json(e, "camera2")
        require(cam.valid() and cam.filename == e["camera2"][0]["filename"], "%s: unreadable entry" % what)
    unknown = set(byname) - set(left)
    require(not unknown, "%s: unknown images %r" % (what, unknown))
    pairs = 0
    for n, t in left.items():
        d = {k: abs(t - u) / 1e6 for k, u in right.items()}
        best = min(d.values()) if d else 1e9
        if best > TOL + 1e-5:
            require(n not in byname, "%s: %s has no partner within %g s but is paired with %r"
                    % (what, n, TOL, byname.get(n)))
            continue
        if best > TOL - 1e-5:
            continue
        require(n in byname, "%s: %s has a partner %g s apart but is not listed" % (what, n, best))
        e = byname[n]
        m = e["camera2"][0]["filename"]
        require(m in right, "%s: unknown partner %r" % (what, m))
        require(d[m] <= best + 1e-9, "%s: %s is paired with %s (%g s apart), nearest is %g s apart"
                % (what, n, m, d[m], best))
        for k, want in ((e["epoch_timestamp"], t), (e["camera1"][0]["epoch_timestamp"], t),
                        (e["camera2"][0]["epoch_timestamp"], right[m])):
            require(abs(k - (want / 1e6 + shift)) < 2e-5, "%s: time of %s is %r, expected %r"
                    % (what, n, k, want / 1e6 + shift))
        pairs += 1
    return pairs


def vis(text, what):
    """lines of the ACFR format -> [(time, name)]"""
    out = []
    for line in text.splitlines():
        p = line.split()
        require(len(p) == 6 and p[0] == "VIS:" and p[2] == "[%s]" % p[1] and p[4:] == ["exp:", "0"],
                "%s: line %r" % (what, line))
        out.append((float(p[1]), p[3]))
    return out


def touch(p):
    p.parent.mkdir(parents=True, exist_ok=True)
    p.write_bytes(b"")


def two_dives(fn, c, t, fmt, make, sub_=None):
    """the parser is used for one dive after the other; each must be parsed on its own"""
    r = random.Random(c)
    root = Path(t.scratch())
    pairs = 0
    for name in ["d1", "d2"][:r.choice([1, 2, 2])]:
        zone = r.choice(rawgen.ZONES)
        offset = r.choice([0.0, 0.0, 1.5, -0.25])
        cameras, fill = make(r)
        raw, mission, out = dive(root, name, fmt, cameras, zone, offset)
        left, right = fill(raw, zone[1])
        before = sorted(p for p in raw.rglob("*"))
        got = fn(mission, None, "images", "oplab", out)
        shift = offset
        pairs += judge(got, left, right, shift, "%s/%s" % (fmt, name))
        require(sorted(raw.rglob("*")) == before, "%s: the raw folder was changed" % fmt)
        t.label("pairs>0" if pairs else "no pairs")
        if r.random() < 0.4 and fmt in ("acfr_standard", "ntnu_stereo"):
            lines = vis(fn(mission, None, "images", "acfr", out), fmt)
            want = []
            for e in got:
                for k in ("camera1", "camera2"):
                    want.append((e[k][0]["epoch_timestamp"], Path(e[k][0]["filename"]).name))
            require([(a, Path(b).name) for a, b in lines] == want,
                    "%s: ACFR lines %r, expected %r" % (fmt, lines[:4], want[:4]))
            t.label("acfr lines")
    t.nontrivial(pairs >= 2)


@sub("C22", "acfr", SEED, quick=150, thorough=5000, rule="at least two stereo pairs")
def acfr(c, t):
    """ACFR stereo images are paired by time, per dive"""
    def make(r):
        path = r.choice(["image/r20170817_041459_UG117/i20170817_041459/", "image"])
        cams = [{"name": "LC", "path": path}, {"name": "RC", "path": path}]
        mono = r.random() < 0.1

        def fill(raw, zone):
            ts = instants(r, r.randint(1, 8))
            left, right = {}, {}
            other = ts if r.random() < 0.2 else partners(r, ts)
            for d, lst, lab in ((left, ts, "LC"), (right, [] if mono else other, "RC")):
                for u in lst:
                    w = clock(u, zone)
                    n = "PR_%s_%03d_%s16.%s" % (w.strftime("%Y%m%d_%H%M%S"), w.microsecond // 1000, lab, "tif")
                    touch(raw / path / n)
                    d[str(raw / path / n)] = u
            if r.random() < 0.5:
                touch(raw / path / "notes_LC.txt")
                touch(raw / path / "._PR_20170101_101010_000_LC16.tif")
            if not right:
                right = dict(left)
            return left, right
        return cams, fill
    two_dives(parse_acfr_images, c, t, "acfr_standard", make)


@sub("C22", "ntnu", SEED, quick=150, thorough=5000, rule="at least two stereo pairs")
def ntnu(c, t):
    """NTNU stereo images are paired by time, per dive; file names have four decimals of the second"""
    def make(r):
        cams = [{"name": "L", "path": "image"}, {"name": "R", "path": "image"}]

        def fill(raw, zone):
            ts = instants(r, r.randint(1, 8), 100)
            left, right = {}, {}
            for d, lst, lab in ((left, ts, "L"), (right, partners(r, ts, 100) or ts, "R")):
                for u in lst:
                    w = clock(u, zone)
                    p = Path("image") / r.choice(["", "a", "b/c"]) / (
                        w.strftime("%y%m%d-%H%M%S") + ".%04d%s.jpg" % (w.microsecond // 100, lab))
                    touch(raw / p)
                    d[str(p)] = u
            return left, right
        return cams, fill
    two_dives(parse_ntnu_stereo_images, c, t, "ntnu_stereo", make)


@sub("C22", "gopro", SEED, quick=150, thorough=3000, rule="at least two stereo pairs")
def gopro(c, t):
    """GoPro pairs listed in filelist.csv are used if both files exist"""
    def make(r):
        cams = [{"name": "gopro_left", "path": "image/left/"}, {"name": "gopro_right", "path": "image/right/"}]

        def fill(raw, zone):
            rows, left, right = [], {}, {}
            (raw / "image").mkdir(parents=True)
            for i, u in enumerate(instants(r, r.randint(1, 8))):
                a, b = "L_%05d.jpg" % i, "R_%05d.jpg" % i
                rows.append("%r,%s,%s" % (u / 1e6, a, b))
                k = r.choice([3, 3, 3, 2, 1, 0])
                if k & 1:
                    touch(raw / "image/left" / a)
                if k & 2:
                    touch(raw / "image/right" / b)
                if k == 3:
                    left["image/left/" + a] = u
                    right["image/right/" + b] = u
            (raw / "image" / "filelist.csv").write_text("epoch,file_left,file_right\n" + "\n".join(rows) + "\n")
            return left, right
        return cams, fill

    def fn(mission, vehicle, category, ftype, out):
        got = parse_stereo_gopro_images(mission, vehicle, category, ftype, out)
        m = mission.image.timeoffset_s  # times in the list are epochs; offsets of the mission are not applied
        for e in got:
            e["epoch_timestamp"] += m
            for k in ("camera1", "camera2"):
                e[k][0]["epoch_timestamp"] += m
            require(e["camera1"][0]["filename"][-9:-4] == e["camera2"][0]["filename"][-9:-4],
                    "gopro: paired %r" % e)
        return got
    two_dives(fn, c, t, "stereo_gopro", make)


@sub("C22", "rosbag_images", SEED, quick=100, thorough=2000, rule="at least two images")
def rosbag_images(c, t):
    """images extracted from ROS bags carry their time in the file name"""
    def make(r):
        cams = [{"name": "cam", "path": "image"}]

        def fill(raw, zone):
            d = {}
            for u in instants(r, r.randint(1, 8)):
                n = "frame%d.%06d%03d.png" % (u // 1000000, u % 1000000, 10 * r.randint(0, 99))
                touch(raw / "image" / n)
                d[str(raw / "image" / n)] = u
            if r.random() < 0.3:
                touch(raw / "image" / "info.txt")
            return d, d
        return cams, fill

    def fn(mission, *a):
        got = parse_rosbag_extracted_images(mission, *a)
        for e in got:
            e["epoch_timestamp"] += mission.image.timeoffset_s
            for k in ("camera1", "camera2"):
                e[k][0]["epoch_timestamp"] += mission.image.timeoffset_s
        return got
    two_dives(fn, c, t, "rosbag_extracted_images", make)


def biocam_name(r, w, wc, long, suffix):
    if long == "ms":
        return "%s_%03d_%s_%03d_%s" % (w.strftime("%Y%m%d_%H%M%S"), w.microsecond // 1000,
                                       wc.strftime("%Y%m%d_%H%M%S"), wc.microsecond // 1000, suffix)
    if long:
        return "%s_%06d_%s_%06d_%s" % (w.strftime("%Y%m%d_%H%M%S"), w.microsecond,
                                       wc.strftime("%Y%m%d_%H%M%S"), wc.microsecond, suffix)
    return "x_%s_%s_%s" % (w.strftime("%Y%m%d_%H%M%S"), "%06d" % w.microsecond, suffix)


@sub("C22", "biocam", SEED, quick=150, thorough=5000, rule="at least two stereo pairs or laser images")
def biocam(c, t):
    """BioCam strobe images are paired by computer time, laser images listed one by one, with both clocks"""
    r = random.Random(c)
    root = Path(t.scratch())
    n_all = 0
    for name in ["d1", "d2"][:r.choice([1, 2, 2])]:
        zone = r.choice(rawgen.ZONES)
        offset = r.choice([0.0, 0.0, 1.5, -0.25])
        cams = [{"name": "cam51707923", "path": "image/"}, {"name": "cam61003146", "path": "image/"}]
        raw, mission, out = dive(root, name, "biocam", cams, zone, offset)
        ts = instants(r, r.randint(1, 8))
        long = r.choice([True, True, "ms"])
        camclock = {}
        left, right, laser = {}, {}, {}
        drift = r.choice([0, 1234567, -3600 * 10 ** 6])
        two = partners(r, ts) or list(ts)
        las = instants(r, r.randint(0, 6)) if r.random() < 0.7 else []
        for d, lst, where, suffix in (
                (left, ts, "cam51707923_strobe", "pcoc.tif"), (right, two, "cam61003146_strobe", "pcom.tif"),
                (laser, las, "cam61003146_laser/L%02d", "pcom.jpg")):
            for i, u in enumerate(lst):
                if long == "ms":
                    u -= u % 1000
                w, wc = clock(u, zone[1]), clock(u + drift // 1000 * 1000 if long == "ms" else u + drift, zone[1])
                p = Path("image") / (where % (i // 3) if "%" in where else where) / biocam_name(r, w, wc, long, suffix)
                touch(raw / p)
                d[str(p)] = u
                camclock[str(p)] = u + (drift // 1000 * 1000 if long == "ms" else drift)
        if r.random() < 0.5:
            touch(raw / "image/cam51707923_strobe/readme.txt")
        got = parse_biocam_images(mission, None, "images", "oplab", out)
        st_ = [e for e in got if e["category"] == "image"]
        n = judge(st_, left, right, offset, "biocam/" + name)
        for e in st_:
            for k in ("camera1", "camera2"):
                x = e[k][0]
                require(abs(x["epoch_timestamp_cpu"] - x["epoch_timestamp"]) < 1e-9 and abs(
                    x["epoch_timestamp_cam"] - camclock[x["filename"]] / 1e6 - offset) < 2e-5,
                    "biocam: clocks of %r" % x)
        ls = [e for e in got if e["category"] == "laser"]
        require(len(ls) + len(st_) == len(got), "biocam: unknown entries")
        require(sorted(e["camera3"][0]["filename"] for e in ls) == sorted(laser),
                "biocam: laser images %r, expected %r" % (len(ls), len(laser)))
        for e in ls:
            x = e["camera3"][0]
            u = laser[x["filename"]]
            for v, w in ((e["epoch_timestamp"], u), (x["epoch_timestamp"], u), (x["epoch_timestamp_cpu"], u),
                         (x["epoch_timestamp_cam"], camclock[x["filename"]])):
                require(abs(v - w / 1e6 - offset) < 2e-5, "biocam: laser time %r of %r" % (v, x))
        n_all += n + len(ls)
    t.nontrivial(n_all >= 2)


@sub("C22", "biocam_clock", SEED, quick=300, thorough=6000, rule="the clocks drift and the delays differ")
def biocam_clock(c, t):
    """camera clocks give the exposure times: the line through the least delayed images maps them to computer time"""
    r = random.Random(c)
    t0 = float(r.randint(1400000000, 1700000000))
    clocks = {}
    for k in (1, 2):
        clocks[k] = (r.choice([0.0, 1e-6, -3e-5, 2e-4]), r.choice([0.0, 12.5, -4000.0]))
    late = r.choice(["none", "none", "equal", "random"])
    wait = r.uniform(0.01, 0.2)

    def entry(k, x):
        """camera k exposes at true (computer) time x; its clock and the delayed computer stamp"""
        m, c_ = clocks[k]
        # cpu = (1+m)*(cam-t0) + c + t0
        cam = (x - t0 - c_) / (1 + m) + t0
        d = {"none": 0.0, "equal": wait, "random": r.choice([0.0, r.uniform(0, 0.5)])}[late]
        return {"epoch_timestamp": x + d, "epoch_timestamp_cpu": x + d, "epoch_timestamp_cam": cam,
                "filename": "f%d_%.6f" % (k, x)}
    data, truth = [], []
    x = t0
    for _ in range(r.randint(4, 25)):
        x += r.uniform(0.5, 60)
        if r.random() < 0.75:
            e1, e2 = entry(1, x), entry(2, x + r.choice([0, 0.002]))
            data.append({"epoch_timestamp": e1["epoch_timestamp"], "category": "image", "class": "measurement",
                         "camera1": [e1], "camera2": [e2]})
        else:
            e3 = entry(2, x)
            data.append({"epoch_timestamp": e3["epoch_timestamp"], "category": "laser", "class": "measurement",
                         "camera3": [e3]})
    if sum(d["category"] == "image" for d in data) < 3:
        return
    import copy
    ref = copy.deepcopy(data)
    got = correct_timestamps(data)
    require(len(got) == len(ref), "clock correction changes the number of images")
    for k, keys in ((1, ["camera1"]), (2, ["camera2", "camera3"])):
        cam, cpu, res = [], [], []
        for a, b in zip(ref, got):
            for key in keys:
                if key in a:
                    x, y = a[key][0], b[key][0]
                    require(x["filename"] == y["filename"] and x["epoch_timestamp_cpu"] == y["epoch_timestamp_cpu"]
                            and x["epoch_timestamp_cam"] == y["epoch_timestamp_cam"], "clock correction changes %r" % x)
                    cam.append(x["epoch_timestamp_cam"])
                    cpu.append(x["epoch_timestamp_cpu"])
                    res.append(y["epoch_timestamp"])
                    if key != "camera2":
                        require(b["epoch_timestamp"] == y["epoch_timestamp"], "entry and image times differ")
        cam, cpu, res = map(np.array, (cam, cpu, res))
        require(bool(np.all(res <= cpu + 1e-4)), "corrected time is %g s later than the image was recorded"
                % float(np.max(res - cpu)))
        require(float(np.min(cpu - res)) < 1e-4, "no image touches the bounding line (%g s)" % float(np.min(cpu - res)))
        if late in ("none", "equal"):
            require(float(np.max(np.abs(res - cpu))) < 2e-4, "exact clocks are changed by %g s"
                    % float(np.max(np.abs(res - cpu))))
        # straight line of the camera clock, the least squares line moved down
        xc = cam - cam.mean()
        off = cpu - cam
        m = float((xc * (off - off.mean())).sum() / (xc * xc).sum())
        line = off.mean() + m * xc
        line += (off - line).min()
        require(float(np.max(np.abs(res - cam - line))) < 1e-3, "corrected times are %g s off the bounding line"
                % float(np.max(np.abs(res - cam - line))))
    t.label(late)
    t.nontrivial(late == "random" and any(m for m, _ in clocks.values()))


@sub("C22", "seaxerocks", SEED, quick=150, thorough=5000, rule="stereo and laser images, offsets differ")
def seaxerocks(c, t):
    """SeaXerocks images get the times of FileTime.csv and the offsets of their cameras"""
    r = random.Random(c)
    root = Path(t.scratch())
    zone = r.choice(rawgen.ZONES)
    offset = r.choice([0.0, 0.0, 1.5, -0.25])
    key = r.choice(["timeoffset", "timeoffset_s", None])
    offs = [r.choice([0.0, 0.5, -0.125]) for _ in range(3)] if key else [0.0] * 3
    cams = [{"name": n, "path": p} for n, p in (("Cam5170/7923", "image/Xviii/Cam51707923"),
                                                ("Cam51707925", "image/Xviii/Cam51707925"),
                                                ("LM165", "image/LM165"))]
    for cam, o in zip(cams, offs):
        if key:
            cam[key] = o
    raw, mission, out = dive(root, "d", "seaxerocks_3", cams, zone, offset)
    (raw / "image/Xviii/Cam51707923").mkdir(parents=True)
    (raw / "image/LM165").mkdir(parents=True)

    def table(path, ts, start):
        rows = ["index,date,time,ms"] if r.random() < 0.6 else []
        names = []
        micro = r.random() < 0.2        # longer fractions are read to the millisecond
        for i, u in enumerate(ts):
            w = clock(u, zone[1])
            n = "%07d" % (start + i)
            names.append(n)
            rows.append("%s,%s,%s" % (n, w.strftime("%Y%m%d,%H%M%S"),
                                      ("%06d" % w.microsecond)[:6 if micro else 3]))
        (raw / path / "FileTime.csv").write_text("\n".join(rows) + "\n")
        return names
    ts, tl = instants(r, r.randint(1, 8)), instants(r, r.randint(0, 8))
    sn = table("image/Xviii", ts, r.choice([0, 1, 999, 123456]))
    first = r.choice([0, 998, 9997, 123456, 1230000])
    ln = table("image/LM165", tl, first)
    ext = r.choice(["jpg", "tif"])
    s = r.choice([0, 1])
    for n in ln:
        touch(raw / "image/LM165" / n[s:s + 3] / ("image%s.%s" % (n, ext)))
    got = parse_seaxerocks_images(mission, None, "images", "oplab", out)
    st_ = [e for e in got if e["category"] == "image"]
    ls = [e for e in got if e["category"] == "laser"]
    require(len(st_) == len(ts) and len(ls) == len(tl) and len(got) == len(ts) + len(tl),
            "seaxerocks: %d stereo and %d laser images listed, expected %d and %d"
            % (len(st_), len(ls), len(ts), len(tl)))
    for e, u, n in zip(st_, ts, sn):
        for k, cam, o in (("camera1", cams[0], offs[0]), ("camera2", cams[1], offs[1])):
            x = e[k][0]
            require(x["filename"] == "%s/%s.raw" % (cam["path"], n), "seaxerocks: file %r" % x)
            require(abs(x["epoch_timestamp"] - u / 1e6 - offset - o) < 2e-5,
                    "seaxerocks: time %r of %s, expected %r" % (x["epoch_timestamp"], n, u / 1e6 + offset + o))
        require(e["epoch_timestamp"] == e["camera1"][0]["epoch_timestamp"], "seaxerocks: entry time")
    for e, u, n in zip(ls, tl, ln):
        p = raw / e["filename"]
        require(p.is_file() and p.name == "image%s.%s" % (n, ext), "seaxerocks: laser file %r does not exist"
                % e["filename"])
        require(abs(e["epoch_timestamp"] - u / 1e6 - offset - offs[2]) < 2e-5,
                "seaxerocks: laser time %r of %s, expected %r" % (e["epoch_timestamp"], n, u / 1e6 + offset + offs[2]))
    for e in got:
        cam = Camera()
        cam.from_json(e, "camera1" if e["category"] == "image" else "camera3")
        require(cam.valid(), "seaxerocks: unreadable entry")
    t.nontrivial(bool(ls) and len(set(offs)) > 1)


@sub("C22", "voyis", SEED, quick=150, thorough=4000, rule="stills and laser images with both kinds of stamps")
def voyis(c, t):
    """Voyis stills and laser images are listed by their PPS or system time stamps"""
    r = random.Random(c)
    root = Path(t.scratch())
    zone = r.choice(rawgen.ZONES)
    cams = [{"name": "stills", "path": "image/stills"}, {"name": "laser", "path": "image/laser"}]
    offset = r.choice([0.0, 0.0, 1.5, -0.25])
    raw, mission, out = dive(root, "d", "voyis", cams, zone, offset)
    desc, want, kinds = [], {}, set()
    for name, head, have in (("stills", "raw_stills_raw_", r.random() < 0.9), ("laser", "laser_laser_raw_",
                                                                              r.random() < 0.7)):
        if not have:
            continue
        stamp = "YYYYxMMxDDxhhmmssxfffuuuxx.xxx"
        desc.append({"name": name, "type": "rggb", "bit_depth": 16, "path": "image/%s/%s" % (name, r.choice(["*", ""])),
                     "extension": "tif", "filename_to_date_pps": "x" * (len(head) + 4) + stamp,
                     "filename_to_date_system": "x" * (len(head) + 7) + stamp})
        for i, u in enumerate(instants(r, r.randint(1, 6), 1)):
            w = clock(u, zone[1])
            kind = r.choice(["PPS", "PPS", "SYSTEM"])
            kinds.add((name, kind))
            p = Path("image") / name / r.choice(["a", "b", "a/c"]) / (
                "%s%s_%s.%06d_%d.tif" % (head, kind, w.strftime("%Y-%m-%dT%H%M%S"), w.microsecond, i))
            touch(raw / p)
            want[str(p)] = u
    (raw / "camera.yaml").write_text(yaml.safe_dump({"camera_system": "voyis", "cameras": desc}))
    got = parse_voyis_images(mission, None, "images", "oplab", out)
    names = [e["camera1"][0]["filename"] for e in got]
    require(sorted(names) == sorted(want), "voyis: images %r, expected %r" % (sorted(names), sorted(want)))
    for e in got:
        u = want[e["camera1"][0]["filename"]]
        require(e["category"] == "image", "voyis: category %r" % e["category"])
        for v in (e["epoch_timestamp"], e["camera1"][0]["epoch_timestamp"]):
            # the sign of the extra time offset is not judged
            require(min(abs(v - u / 1e6 - k * offset) for k in (1, -1)) < 2e-5, "voyis: time %r of %s, expected %r (offset %g)"
                    % (v, e["camera1"][0]["filename"], u / 1e6, offset))
    t.nontrivial(len(kinds) >= 3)
