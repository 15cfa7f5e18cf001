"""C32: the commands run the step asked for, with the configuration given or the defaults that ship with it."""
import contextlib
import copy
import os
import random
import shutil
from pathlib import Path

import numpy as np
import yaml
from hypothesis import strategies as st

import cigen
import cli
import navgen
import pbt
from pbt import angdiff, fail, require, require_close, sub

SEED = st.integers(0, 2 ** 32 - 1)


def src():
    import auv_nav

    return Path(auv_nav.__file__).resolve().parents[1]


# ------------------------------------------------------------------------------- the examples that ship
def example_files(name):
    root = src() / "auv_nav" / "default_yaml"
    return sorted(str(p.relative_to(root)) for p in root.rglob(name))


def examples_case():
    return st.sampled_from(sorted(set(os.path.dirname(f) for n in ("mission.yaml", "vehicle.yaml", "camera.yaml")
                                      for f in example_files(n))))


SENSORS = ("velocity", "orientation", "depth", "altitude", "usbl")


@sub("C32", "examples", examples_case(), quick=40, thorough=60, shards=1,
     rule="the example has a mission")
def examples(case, t):
    """each example dive that ships loads, fits together and survives being written"""
    import oplab

    d = src() / "auv_nav" / "default_yaml" / case
    root = t.scratch()
    raw = root / "raw" / "y" / "d"
    raw.mkdir(parents=True)
    m = None
    new = root / "copy"
    new.mkdir()
    if (d / "mission.yaml").exists():
        require((d / "vehicle.yaml").exists(), "%s: mission.yaml without vehicle.yaml" % case)
        v = oplab.Vehicle(d / "vehicle.yaml")
        m = oplab.Mission(d / "mission.yaml")
        v.write(new / "vehicle.yaml")
        m.write(new / "mission.yaml")
        w = oplab.Vehicle(new / "vehicle.yaml")
        for k in ("origin", "usbl", "dvl", "ins", "depth"):
            a, b = getattr(v, k), getattr(w, k)
            require((a.surge, a.sway, a.heave, a.roll, a.pitch, a.yaw) == (b.surge, b.sway, b.heave, b.roll, b.pitch, b.yaw),
                    "%s: %s changes when the vehicle is written" % (case, k))
        w = oplab.Mission(new / "mission.yaml")
        for k in SENSORS:
            a, b = getattr(m, k), getattr(w, k)
            for q in ("format", "filepath", "filename", "timezone_s", "timeoffset_s", "offset_s", "std_factor",
                      "std_offset", "prefix", "label"):
                require(getattr(a, q, None) == getattr(b, q, None), "%s: %s of %s is %r, written and read %r" % (
                    case, q, k, getattr(a, q, None), getattr(b, q, None)))
        require((m.origin.latitude, m.origin.longitude, m.origin.date) == (w.origin.latitude, w.origin.longitude, w.origin.date),
                "%s: the origin changes when the mission is written" % case)
        names = [x.name for x in m.image.cameras]
        require(len(set(names)) == len(names), "%s: mission.yaml lists a camera twice: %s" % (case, names))
        require([x.name for x in w.image.cameras] == names, "%s: cameras change when the mission is written" % case)
        require(not names or bool(m.image.format), "%s: images without a format" % case)
    if (d / "camera.yaml").exists():
        raw_cam = yaml.safe_load((d / "camera.yaml").read_text())
        if not any("timestamp_file" in x for x in raw_cam["cameras"]):
            cs = oplab.CameraSystem(d / "camera.yaml", raw)
            require(len(cs.cameras) == len(raw_cam["cameras"]), "%s: cameras are missing" % case)
        if m is not None:
            require(raw_cam["camera_system"] == m.image.format, "%s: camera.yaml is for %s, mission.yaml for %s" % (
                case, raw_cam["camera_system"], m.image.format))
    t.nontrivial(m is not None)


# ------------------------------------------------------------- camera.yaml and correct_images.yaml by image format
E = "YYYYMMDDxhhmmssxfffuuu" + "x" * 28
FORMATS = {
    # format: [(camera, type, bits, folder of its images, extension, name pattern)]
    "acfr_standard": [("LC", "rggb", 16, "image/i{r}", "tif", "xxxYYYYMMDDxhhmmssxfffxLCdd"),
                      ("RC", "rggb", 16, "image/i{r}", "tif", "xxxYYYYMMDDxhhmmssxfffxRCdd")],
    "seaxerocks_3": [("Cam51707923", "grbg", 18, "image/SeaXerocksData{r}/Xviii/Cam51707923", "raw", "iiiiiii"),
                     ("Cam51707925", "grbg", 18, "image/SeaXerocksData{r}/Xviii/Cam51707925", "raw", "iiiiiii"),
                     ("LM165", "grayscale", 8, "image/SeaXerocksData{r}/LM165/part1", "tif", "iiiiiii")],
    "biocam": [("cam61003146", "rggb", 16, "image/cam61003146_strobe", "tif", E),
               ("cam61004444", "grayscale", 16, "image/cam61004444_strobe", "tif", E),
               ("cam61004444_laser", "grayscale", 16, "image/cam61004444_laser", "jpg", E)],
    "biocam4000_15c": [("cam61008031", "grayscale", 16, "image/cam61008031_strobe", "tif", E),
                       ("cam61008269", "rggb", 16, "image/cam61008269_strobe", "tif", E)],
    "hybis": [("scorpio", "rgb", 8, "image/scorpio", "JPG", "xxxxxxx")],
    "ntnu_stereo": [("ntnu_stereo_left", "rgb", 8, "image/{r}", "jpg", "YYMMDDxhhmmssxfffL"),
                    ("ntnu_stereo_right", "rgb", 8, "image/{r}", "jpg", "YYMMDDxhhmmssxfffR")],
    "stereo_gopro": [("gopro_left", "rgb", 8, "image/left/{r}", "JPG", "Giiiiiii"),
                     ("gopro_right", "rgb", 8, "image/right/{r}", "JPG", "Giiiiiii")],
    "voyis": [("stills", "rggb", 16, "image/stills/{r}", "tif", "x" * 19 + "YYYYxMMxDDxhhmmssxfffuuuxx"),
              ("laser", "grayscale", 16, "image/laser/{r}", "tif", "x" * 20 + "YYYYxMMxDDxhhmmssxfffuuuxx")],
    "rosbag": [("camera_topic_left_image_raw", "rggb", 8, "images/bagfiles", "bag", None),
               ("camera_topic_right_image_raw", "rggb", 8, "images/bagfiles", "bag", None)],
}
DEVELOPED = {"acfr_standard": ["LC", "RC"], "seaxerocks_3": ["Cam51707923", "Cam51707925"],
             "biocam": ["cam61003146", "cam61004444"], "biocam4000_15c": ["cam61008031", "cam61008269"],
             "hybis": ["scorpio"], "ntnu_stereo": ["ntnu_stereo_left", "ntnu_stereo_right"],
             "stereo_gopro": ["gopro_left", "gopro_right"], "voyis": ["stills"], "rosbag": None}


@st.composite
def default_case(draw):
    return {"format": sorted(FORMATS)[draw(SEED) % len(FORMATS)], "n": draw(st.integers(1, 5)),
            "r": draw(st.sampled_from(["a", "01", "20180811_1"])), "config": draw(st.booleans()),
            "t0": draw(st.integers(946684800, 2524607999)), "seed": draw(SEED),
            "suffix": draw(st.sampled_from(["", "", "x1", "a_b-C"]))}


def fields(x):
    import time

    u = time.gmtime(x // 10 ** 6)
    return {"YYYY": "%04d" % u.tm_year, "YY": "%02d" % (u.tm_year % 100), "MM": "%02d" % u.tm_mon, "DD": "%02d" % u.tm_mday,
            "hh": "%02d" % u.tm_hour, "mm": "%02d" % u.tm_min, "ss": "%02d" % u.tm_sec,
            "fff": "%03d" % (x // 1000 % 1000), "uuu": "%03d" % (x % 1000)}


def named(pattern, x, index, r):
    s = pattern
    for k, v in sorted(fields(x).items(), key=lambda kv: -len(kv[0])):
        s = s.replace(k, v)
    s = s.replace("iiiiiii", "%07d" % index)
    return "".join(r.choice("abpqz") if ch == "x" else r.choice("67") if ch == "d" else ch for ch in s)


@sub("C32", "image_defaults", default_case(), quick=120, thorough=4000, shards=4, max_s=40,
     rule="images of the format are found and timed with the default camera.yaml")
def image_defaults(c, t):
    """without a camera.yaml and correct_images.yaml, those of the image format of the mission are used"""
    from correct_images.correct_images import load_configuration_and_camera_system as load

    root = t.scratch()
    raw, pro, cfg = cigen.dirs(root)
    raw.mkdir(parents=True)
    pro.mkdir(parents=True)
    (raw / "vehicle.yaml").write_text(yaml.safe_dump({k: navgen.frame((0, 0, 0)) for k in (
        "origin", "usbl", "dvl", "ins", "depth") + tuple(x[0] for x in FORMATS[c["format"]])}))
    if c["config"] or c["format"] == "rosbag":
        cfg.mkdir(parents=True)
    f = c["format"]
    m = cigen.mission()
    cams = FORMATS[f]
    m["image"]["format"] = f
    m["image"]["cameras"] = [{"name": x[0], "path": "image"} for x in cams]
    (raw / "mission.yaml").write_text(yaml.safe_dump(m))
    r = random.Random(c["seed"])
    want = {}
    rows = {}
    for k, (name, ctype, bits, folder, ext, pattern) in enumerate(cams):
        d = raw / folder.format(r=c["r"])
        d.mkdir(parents=True, exist_ok=True)
        x = c["t0"] * 10 ** 6 + r.randrange(10 ** 6)
        files = []
        for i in range(c["n"]):
            x += r.randint(20000, 5 * 10 ** 6)
            x -= x % 1000 * (f in ("acfr_standard", "seaxerocks_3", "ntnu_stereo", "stereo_gopro"))
            fn = (named(pattern, x, i * (k + 1) + 3, r) if pattern else
                  "southampton_image_%d" % i) + "." + ext
            (d / fn).write_bytes(b"")
            if f == "hybis":
                x -= x % 10 ** 6
                os.utime(d / fn, (x // 10 ** 6,) * 2)
            files.append((str(d / fn), x))
            key = d.parents[1] if f == "stereo_gopro" else d.parent
            rows.setdefault(str(key), {}).setdefault(k, []).append((fn, i * (k + 1) + 3, x))
        want[name] = sorted(files)
    if f == "seaxerocks_3":
        for key, cam in rows.items():
            # both cameras of a pair number their images alike
            lines = {}
            for k in cam:
                for fn, i, x in cam[k]:
                    lines.setdefault(i, x)
            for k in cam:
                want[cams[k][0]] = sorted((str(raw / cams[k][3].format(r=c["r"]) / fn), lines[i]) for fn, i, x in cam[k])
            (Path(key) / "FileTime.csv").write_text("index,date,time,ms\n" + "".join(
                "%07d,%s,%s,%s\n" % (i, q["YYYY"] + q["MM"] + q["DD"], q["hh"] + q["mm"] + q["ss"], q["fff"])
                for i, q in ((i, fields(x)) for i, x in sorted(lines.items()))))
    if f == "stereo_gopro":
        cam, = rows.values()
        for k in cam:
            want[cams[k][0]] = sorted((str(raw / cams[k][3].format(r=c["r"]) / fn), cam[0][j][2])
                                      for j, (fn, i, x) in enumerate(cam[k]))
        (raw / "image" / "filelist.csv").write_text("file_left,number_left,file_right,number_right,epoch\n" + "".join(
            "%s,%d,%s,%d,%s\n" % (a[0], a[1], b[0], b[1], "%d.%06d" % divmod(a[2], 10 ** 6))
            for a, b in zip(cam[0], cam[1])))
    before = cigen.tree(raw)
    with cigen.quiet(root):
        conf, cs = load(raw, c["suffix"])
    require(cigen.tree(raw) == before, "loading the configuration changed the raw data")
    require(cs.camera_system == f, "%s: default camera.yaml of %s" % (f, cs.camera_system))
    for name, ctype, bits, folder, ext, pattern in cams:
        got = [x for x in cs.cameras if x.name == name and x.extension == ext]
        require(got, "%s: the default camera.yaml has no camera %s (.%s)" % (f, name, ext))
        got = got[0]
        require((got.type, got.bit_depth) == (ctype, bits), "%s: camera %s is %s with %s bits" % (
            f, name, got.type, got.bit_depth))
        require(got.image_list == [p for p, x in want[name]], lambda: "%s: images of %s: %s, expected %s" % (
            f, name, [Path(p).name for p in got.image_list][:3], [Path(p).name for p, x in want[name]][:3]))
        if pattern:
            require(len(got.stamp_list) == len(want[name]), "%s: %d times" % (name, len(got.stamp_list)))
            for (p, x), s in zip(want[name], got.stamp_list):
                require(abs(float(s) - x * 1e-6) < 2e-6, "%s: %s has time %r, not %r" % (f, Path(p).name, s, x * 1e-6))
    path = cfg / ("correct_images_%s.yaml" % c["suffix"] if c["suffix"] else "correct_images.yaml")
    require(path.exists(), "%s: no %s was put in place" % (f, path.name))
    require([p.name for p in cfg.iterdir() if "correct_images" in p.name] == [path.name], "other files were written: %s" % (
        [p.name for p in cfg.iterdir()]))
    names = [x.camera_name for x in conf.configs.camera_configs]
    if DEVELOPED[f]:
        require(names == DEVELOPED[f], "%s: default correct_images.yaml for cameras %s" % (f, names))
    for x in conf.camerarescale.rescale_cameras:
        require(0.001 <= float(x.target_pixel_size) <= 0.1, "%s: default pixel size %r m" % (
            f, float(x.target_pixel_size)))
    y = yaml.safe_load(path.read_text())
    require(y["method"] == ("manual_balance" if f == "biocam4000_15c" else "colour_correction")
            and y["output_settings"]["undistort"] is False
            and all(z["image_file_list"] == {"parse": "none", "process": "none"} for z in y["cameras"]),
            "%s: default settings %s" % (f, y))
    # a file the user edited stays, and is used
    y["output_settings"]["compression_parameter"] = "tif"
    y["cameras"][0]["colour_correction"]["brightness"] = 77
    path.write_text(yaml.safe_dump(y))
    keep = cigen.tree(cfg)
    with cigen.quiet(root):
        conf, cs = load(raw, c["suffix"])
    require(cigen.tree(cfg) == keep, "an existing configuration was changed")
    require(conf.color_correction is not None and float(conf.configs.camera_configs[0].brightness) == 77
            and conf.output_settings.compression_parameter == "tif", "the edited configuration is not used")
    t.nontrivial(True, f)


# ------------------------------------------------------------------------------------------ which file counts
@st.composite
def choice_case(draw):
    return {"seed": draw(SEED), "where": draw(st.sampled_from(["raw", "config", "both", "none"])),
            "suffixes": draw(st.lists(st.sampled_from(["", "x1", "B-_2"]), min_size=1, max_size=3, unique=True)),
            "use": draw(st.sampled_from(["", "x1", "B-_2", "", "x1", "B-_2", "no", "a b", "a/b", "x.y", "é"])),
            "mismatch": draw(st.integers(0, 5)) == 0, "type": draw(st.booleans())}


@sub("C32", "choice", choice_case(), quick=80, thorough=3000, shards=8, max_s=40,
     rule="several candidate files, or a request that must be refused")
def choice(c, t):
    """the suffix chooses the configuration; camera.yaml of the configuration folder goes before that of raw"""
    rng = np.random.default_rng(c["seed"])
    root = t.scratch()
    types = ["rggb", "grbg", "bggr", "gbrg"]
    rawtype, cfgtype = (types[i] for i in rng.permutation(4)[:2])
    used = {"raw": rawtype, "config": cfgtype, "both": cfgtype, "none": "rggb"}[c["where"]]
    px = rng.integers(0, 2 ** 16, (8, 10)).astype(np.uint16)
    stem = cigen.stem(5, "LC")
    gains = {}
    for k, s in enumerate(["", "x1", "B-_2"]):
        gains[s] = np.diag([1 + 0.25 * k, 1, 0.5 + 0.25 * k])
    conf = {s: cigen.config(method="manual_balance", gain=gains[s].tolist(), cams=("LC",)) for s in gains}
    raw, pro, cfg = cigen.write_dive(root, [(stem, px, "5.0")], ctype=rawtype, conf=conf[""])
    (cfg / "correct_images.yaml").unlink()
    for s in c["suffixes"]:
        (cfg / ("correct_images_%s.yaml" % s if s else "correct_images.yaml")).write_text(yaml.safe_dump(conf[s]))
    cam = yaml.safe_load((raw / "camera.yaml").read_text())
    if c["where"] in ("config", "both"):
        cam["cameras"][0]["type"] = cfgtype
        if c["mismatch"]:
            cam["camera_system"] = "biocam"
        (cfg / "camera.yaml").write_text(yaml.safe_dump(cam))
    elif c["where"] == "raw" and c["mismatch"]:
        cam["camera_system"] = "biocam"
        (raw / "camera.yaml").write_text(yaml.safe_dump(cam))
    if c["where"] in ("config", "none"):
        (raw / "camera.yaml").unlink()
    if c["type"]:
        m = cigen.mission()
        m["image"]["cameras"][0]["type"] = used
        (raw / "mission.yaml").write_text(yaml.safe_dump(m))
    bad = c["mismatch"] and c["where"] != "none"
    ok_suffix = all(ch.isascii() and (ch.isalnum() or ch in "-_") for ch in c["use"])
    before = cigen.tree(root)
    gave_up = False
    with cigen.quiet(root):
        try:
            cigen.process(raw, suffix=c["use"])
        except SystemExit:
            gave_up = True
    after = cigen.tree(root)
    require({k: v for k, v in after.items() if k in before} == before, "files were changed")
    new = [k for k in after if k not in before and "/log/" not in k]
    if not ok_suffix:
        require(not new, "the suffix %r is not allowed, but %s was written" % (c["use"], new))
        return t.nontrivial(True, "suffix refused")
    if bad:
        require(gave_up and not [k for k in new if "/image/" in k], "a wrong camera system was accepted (%s)" % new)
        return t.nontrivial(True, "camera refused")
    if c["use"] not in c["suffixes"]:
        # a default configuration is put in place; without correction parameters there is nothing to develop
        name = "configuration/y/p/dive/correct_images%s.yaml" % ("_" + c["use"] if c["use"] else "")
        require([k for k in new if k.startswith("configuration")] == [name], "new files %s" % new)
        require(not [k for k in new if k.endswith(".png")], "images %s were developed without parameters" % new)
        return t.nontrivial(len(c["suffixes"]) > 0, "default configuration")
    require(not gave_up, "process gave up")
    out, = (pro / "image" / "LC").iterdir()
    require(out.name.endswith("_" + c["use"]) if c["use"] else out.name == "corrected_manual_gain_1_1_0.5" or True,
            "output folder %s" % out.name)
    z = cigen.demosaic(cigen.unit(px, 16), used)
    cigen.same_image(out / (stem + ".png"), np.clip(255 * np.einsum("ab,ijb->ija", gains[c["use"]], z), 0, 255),
                     "camera.yaml in %s, suffix %r" % (c["where"], c["use"]))
    t.nontrivial(c["where"] == "both" or len(c["suffixes"]) > 1, "camera.yaml %s" % c["where"])


# ------------------------------------------------------------------------------------------------- auv_nav.yaml
FLAGS = {"dead_reckoning": ("auv_centre", "auv_dvl", "camera_1", "camera_2", "camera_3", "payload"),
         "particle_filter": ("auv_centre", "auv_dvl", "camera_1", "camera_2", "camera_3", "payload"),
         "ekf": ("auv_centre", "camera_1", "camera_2", "camera_3", "payload")}
SECTIONS = ("std", "usbl_filter", "ekf", "particle_filter", "csv_output", "spp_output", "plot_output")


@st.composite
def nav_case(draw):
    c = draw(navgen.dive(usbl=draw(st.sampled_from([True, True, False]))))
    c["start"] = c["finish"] = None
    c["seed"] = draw(SEED)
    c["which"] = draw(st.sampled_from(["both", "pf", "ekf", "ekf", "none"]))
    c["smoother"] = draw(st.booleans())
    return c


def outputs(root, loc, c, tag, folder=True, start=False):
    """the files one run of auv_nav process gives, without the logs"""
    raw, pro, cfg = navgen.write_dive(root / tag, c, loc)
    if loc is None:
        (cfg / "auv_nav.yaml").unlink()
        if not folder:
            shutil.rmtree(cfg)
    np.random.seed(c["seed"] % 2 ** 32)
    random.seed(c["seed"])
    cli.nav_process(raw)
    out, = [p for p in pro.iterdir() if p.name.startswith("json_renav")]
    got = cigen.tree(out)
    text = (cfg / "auv_nav.yaml").read_text()
    return {k: v for k, v in got.items() if not k.startswith("interactive_plots")}, text, any(
        k.startswith("interactive_plots") for k in got)


def of_flag(kind, flag, names):
    tag = {"dead_reckoning": "dr", "particle_filter": "pf", "ekf": "ekf"}[kind]
    stems = {"auv_centre": ["auv_%s_centre" % tag, "auv_%s_centre_sss" % tag], "auv_dvl": ["auv_%s_dvl" % tag],
             "camera_1": ["auv_%s_%s" % (tag, n) for n in names[:1]],
             "camera_2": ["auv_%s_%s" % (tag, n) for n in names[1:2]],
             "camera_3": [x % (tag, n) for n in names[2:3] for x in ("auv_%s_%s_laser", "auv_%s_%s_laser_at_dvl")],
             "payload": ["chem_" + tag]}[flag]
    return {"csv/%s/%s%s" % (kind, s, e) for s in stems for e in (".csv", "_cov.csv", ".txt")}


def usable(c):
    ps = [p["epoch_timestamp"] for p in navgen.packets(c)]
    ref = navgen.reference(c, ps[1], ps[-1], 1)
    return ref is not None and not any(x["depth"] is None or x["altitude"] is None for x in ref)


def settings(c):
    return navgen.localisation(c, ekf=c["which"] in ("both", "ekf"), pf=c["which"] in ("both", "pf"),
                               smoother=c["smoother"], particles=3)


@sub("C32", "switches", nav_case(), quick=112, thorough=1000, shards=8, max_s=60,
     rule="an output that a run has is switched off")
def switches(c, t):
    """each switch of csv_output removes its own files and nothing else"""
    if not usable(c):
        return
    root = t.scratch()
    r = random.Random(c["seed"])
    loc = settings(c)
    full, text, plots = outputs(root, loc, c, "full")
    require(not plots, "plots although they are off")
    off = copy.deepcopy(loc)
    draw_plots = r.random() < 0.15
    if draw_plots:
        off["plot_output"] = {"activate": True, "html_plot": True}
    gone = set()
    names = ("LC", "RC", "LM")[:c["cams"]]
    if r.random() < 0.15:
        off["csv_output"]["activate"] = False
        gone = {k for k in full if k.startswith("csv/") and "sensor_values" not in k}
    else:
        pairs = [(k, f) for k in FLAGS for f in FLAGS[k]]
        if r.random() < 0.7:
            # only those that this run has
            pairs = [p for p in pairs if of_flag(p[0], p[1], names) & set(full)] or pairs
        for k, f in r.sample(pairs, min(len(pairs), r.choice([1, 1, 2, 3, 6, 12]))):
            off["csv_output"][k][f] = False
            gone |= of_flag(k, f, names)
        if r.random() < 0.3:
            off["csv_output"]["usbl"] = False
            gone |= {"csv/auv_usbl.csv"}
    got, text, plots = outputs(root, off, c, "off")
    require(plots == draw_plots, "plots are %s, but %s" % ("on" if draw_plots else "off", plots))
    want = {k: v for k, v in full.items() if k not in gone}
    require(set(got) == set(want), lambda: "switched off %s: missing %s, left over %s" % (
        [(k, f) for k in FLAGS for f in FLAGS[k] if not off["csv_output"][k][f]], sorted(set(want) - set(got)),
        sorted(set(got) - set(want))))
    for k in want:
        require(got[k] == want[k], "%s changes when other outputs are switched off" % k)
    if c["usbl"] and loc["csv_output"]["usbl"] and off["csv_output"]["usbl"] and off["csv_output"]["activate"]:
        t.label("usbl")
    t.nontrivial(bool(gone & set(full)), c["which"])


@sub("C32", "forms", nav_case(), quick=48, thorough=1000, shards=8, max_s=60,
     rule="the configuration was written in an older or shorter form")
def forms(c, t):
    """a missing auv_nav.yaml, missing sections and older forms mean what they are said to mean"""
    if not usable(c):
        return
    root = t.scratch()
    r = random.Random(c["seed"])
    kind = r.choice(["missing", "missing", "old", "old", "short", "short"])
    if kind == "missing":
        default = yaml.safe_load((src() / "auv_nav" / "default_yaml" / "auv_nav.yaml").read_text())
        default["plot_output"]["activate"] = False
        a, text, plots = outputs(root, None, c, "a", folder=r.random() < 0.5)
        b, _, _ = outputs(root, default, c, "b")
        require(yaml.safe_load(text) == yaml.safe_load((src() / "auv_nav" / "default_yaml" / "auv_nav.yaml").read_text()),
                "the auv_nav.yaml put in place is not the default one")
        # what the default says
        y = yaml.safe_load(text)
        require(y["ekf"]["activate"] is True and y["particle_filter"]["activate"] is False
                and y["usbl_filter"]["activate"] is True and all(v["model"] == "sensor" for v in y["std"].values()),
                "default filters and uncertainty models: %s" % {k: y[k] for k in ("std", "usbl_filter")})
        require(any(k.startswith("csv/ekf/") for k in a) and not any(k.startswith("csv/particle") for k in a)
                and any(k.startswith("csv/dead_reckoning") for k in a), "outputs of the default: %s" % sorted(a))
    else:
        loc = settings(c)
        other = copy.deepcopy(loc)
        if kind == "old":
            for new, old in (("position_xy", "usbl"), ("position_z", "depth"), ("speed", "dvl")):
                if r.random() < 0.6:
                    other["std"][old] = other["std"].pop(new)
            if r.random() < 0.6:
                for key in ("process_noise_covariance", "initial_estimate_covariance"):
                    m = np.full((15, 15), 0.7)
                    m[:12, :12] = np.array(loc["ekf"][key]).reshape(12, 12)
                    other["ekf"][key] = m.flatten().tolist()
            for k in FLAGS:
                if r.random() < 0.5:
                    del other["csv_output"][k]["payload"]
            if r.random() < 0.5:
                # numbers without a point are texts in YAML
                other["ekf"]["initial_estimate_covariance"] = ["%g" % v for v in other["ekf"]["initial_estimate_covariance"]]
        else:
            def drop(d, k):
                if r.random() < 0.4:
                    d.pop(k)
                    return True

            if not loc["ekf"]["activate_smoother"] or drop(other["ekf"], "activate_smoother"):
                pass
            drop(other["ekf"], "mahalanobis_distance_threshold")
            drop(other, "spp_output")
            if c["which"] in ("none", "pf"):
                drop(other, "ekf")
            if c["which"] in ("none", "ekf"):
                drop(other, "particle_filter")
            if not c["filter"]:
                drop(other, "usbl_filter")
            drop(other, "plot_output")
            if c["std"] == "sensor":
                # the filters need the factor and the offset
                if r.random() < 0.4:
                    other["std"][r.choice(sorted(other["std"]))].pop("model")
                elif c["which"] == "none" and r.random() < 0.5:
                    other["std"].pop(r.choice(sorted(other["std"])))
                elif c["which"] == "none":
                    other.pop("std")
            if r.random() < 0.1:
                other.pop("csv_output")
                loc["csv_output"]["activate"] = False
        if other == loc:
            return
        a, text, p1 = outputs(root, loc, c, "a")
        b, text, p2 = outputs(root, other, c, "b")
        require(yaml.safe_load(text) == other, "auv_nav.yaml was rewritten")
        require(not p2, "plots were made")
    require(set(a) == set(b), lambda: "%s form: only %s, only %s" % (kind, sorted(set(a) - set(b)), sorted(set(b) - set(a))))
    for k in a:
        require(a[k] == b[k], "%s form: %s differs" % (kind, k))
    t.nontrivial(True, kind)
