"""C17: the dataset layout (raw / processed / configuration) and the images that camera.yaml describes."""
import os
import random
from datetime import datetime, timedelta
from pathlib import Path

import imageio
import numpy as np
import yaml
from hypothesis import strategies as st

from pbt import fail, require, sub

from oplab import CameraSystem, get_config_folder, get_processed_folder, get_raw_folder
from oplab.folder_structure import (check_dirs_exist, get_file_list, get_processed_folders, get_raw_folders,
                                    remove_directory, valid_dive)

SEED = st.integers(0, 2 ** 32 - 1)
GET = {"raw": get_raw_folder, "processed": get_processed_folder, "configuration": get_config_folder}
WORDS = ["2019", "cruise", "ship", "as6", "20190913_134347_dive_01", "image", "nav", "Raw", "raw_data",
         "processed1", "a b", "Ä", "x.y", "config", "cam61003146_strobe"]


def tree(root):
    return {str(p.relative_to(root)): (p.read_bytes() if p.is_file() else None) for p in Path(root).rglob("*")}


@sub("C17", "folders", SEED, quick=600, thorough=15000, rule="path below the dataset folder, several levels")
def folders(c, t):
    """the three folders of a dataset mirror each other and asking for one changes nothing on disk"""
    r = random.Random(c)
    base = Path(os.path.realpath(t.scratch())) / r.choice(["data", "data/sub", "my data"])
    here = r.choice(list(GET))
    rel = [r.choice(WORDS) for _ in range(r.randint(0, 6))]
    leaf = r.choice([None, "mission.yaml", "image.tif"])
    p = base.joinpath(here, *rel, *([leaf] if leaf else []))
    exists = {}
    for k in GET:
        exists[k] = r.random() < 0.5
        if exists[k]:
            q = base.joinpath(k, *rel)
            q.mkdir(parents=True)
            if leaf:
                (q / leaf).write_text("x")
    base.mkdir(parents=True, exist_ok=True)
    before = tree(base)
    arg = p
    if r.random() < 0.3:
        arg = base.joinpath(here, "..", here, *rel, *([leaf] if leaf else []))
    if r.random() < 0.5:
        arg = str(arg)
    for k, fn in GET.items():
        want = base.joinpath(k, *p.relative_to(base).parts[1:])
        got = fn(arg)
        require(Path(got) == want, "%s folder of %s is %s, expected %s" % (k, arg, got, want))
        back = GET[here](got)
        require(Path(back) == p, "%s -> %s -> %s" % (p, got, back))
        if k != "configuration":
            many = {"raw": get_raw_folders, "processed": get_processed_folders}[k]
            require(many([arg, got]) == [want, want] and many(arg) == want, "lists of folders differ")
    require(tree(base) == before, "asking for a folder changed the dataset")
    t.nontrivial(len(rel) >= 2)


@sub("C17", "outside", SEED, quick=150, thorough=2000, rule="always")
def outside(c, t):
    """a folder that is in no dataset is refused"""
    r = random.Random(c)
    base = Path(os.path.realpath(t.scratch()))
    p = base.joinpath(*[r.choice([w for w in WORDS]) for _ in range(r.randint(1, 4))])
    if any(k in base.parts for k in GET):
        return
    if r.random() < 0.5:
        p.mkdir(parents=True)
    for k, fn in GET.items():
        try:
            got = fn(p)
        except SystemExit:
            continue
        fail("%s folder of %s, which is in no dataset, is %s" % (k, p, got))
    t.nontrivial(True)


@sub("C17", "files", SEED, quick=200, thorough=4000, rule="nested folders")
def files(c, t):
    """file lists are complete; removing a folder removes that folder only"""
    r = random.Random(c)
    base = Path(t.scratch()) / "d"
    base.mkdir()
    dirs = [base]
    for i in range(r.randint(0, 6)):
        d = r.choice(dirs) / ("d%d" % i)
        d.mkdir()
        dirs.append(d)
    for i in range(r.randint(0, 10)):
        (r.choice(dirs) / ("f%d%s" % (i, r.choice([".tif", "", ".json"])))).write_text(str(i))
    got = get_file_list(r.choice([base, str(base)]))
    require(sorted(map(str, got)) == sorted(str(Path(a) / f) for a, _, fs in os.walk(base) for f in fs),
            "file list of a folder")
    require(check_dirs_exist(dirs) and check_dirs_exist(base), "existing folders are reported missing")
    require(not check_dirs_exist(dirs + [base / "nope"]) and not check_dirs_exist([base / "nope"] + dirs)
            and not check_dirs_exist(base / "nope"), "a missing folder is reported as existing")
    nav = base / "nav"
    require(not valid_dive(base), "a folder without navigation is a valid dive")
    nav.mkdir()
    (nav / "nav_standard.json").write_text("[]")
    require(valid_dive(base), "a folder with navigation is no valid dive")
    victim = r.choice(dirs)
    rest = {k: v for k, v in tree(base.parent).items()
            if k != str(victim.relative_to(base.parent)) and not k.startswith(str(victim.relative_to(base.parent)) + "/")}
    remove_directory(victim)
    require(tree(base.parent) == rest, "removing %s left or removed something else" % victim.name)
    t.nontrivial(len(dirs) > 2)


def stamp_name(w, style, head, tail):
    return head + {"ms": w.strftime("%Y%m%d_%H%M%S_") + "%03d" % (w.microsecond // 1000),
                   "us": w.strftime("%Y%m%d_%H%M%S_") + "%06d" % w.microsecond,
                   "s": w.strftime("%Y%m%d%H%M%S")}[style] + tail


def stamp_format(style, head, tail):
    return "x" * len(head) + {"ms": "YYYYMMDDxhhmmssxfff", "us": "YYYYMMDDxhhmmssxfffuuu",
                              "s": "YYYYMMDDhhmmss"}[style] + "x" * len(tail)


LAYOUTS = {"plain": ("image/cam1", "image/cam1", ""), "prefix": ("image/bags/cam_", "image/bags", ""),
           "any": ("image/stills/*", "image/stills/20230922", ""),
           "wild": ("image/SeaXerocksData*/Xviii/Cam1", "image/SeaXerocksData20171117/Xviii/Cam1", ""),
           "wilddir": ("image/i*/", "image/i20170817_041459", ""),
           "ends": ("image/*/*L", "image/20210420", "L"), "has": ("image/i*/*LC*", "image/i20170817_041459", "_LC16")}


@sub("C17", "cameras", SEED, quick=350, thorough=8000, rule="at least two images and files of another camera")
def cameras(c, t):
    """camera.yaml finds all images of a camera and no other, in order, with their times and size"""
    r = random.Random(c)
    root = Path(os.path.realpath(t.scratch()))
    here = r.choice(["raw", "processed"])
    raw = root / "raw" / "2020" / "d"
    desc, expect = [], []
    for i in range(r.randint(1, 2)):
        kind = r.choice(list(LAYOUTS))
        path, folder, tail = LAYOUTS[kind]
        if kind == "has":
            tail = r.choice(["_LC16", "_LC", "_LC_x", "_xLC", "_LC16_LC"])
        path, folder = path.replace("image", "image%d" % i, 1), folder.replace("image", "image%d" % i, 1)
        ext = r.choice(["tif", "png", "jpg", "tif"])
        style = r.choice(["ms", "us", "s"])
        head = {"prefix": "cam_", "ends": "", "has": "PR_"}.get(kind, r.choice(["", "PR_", "cam61_"]))
        shape = (r.randint(2, 9), r.randint(2, 9))
        colour = r.random() < 0.4
        when = datetime(2000, 1, 1) + timedelta(seconds=r.randint(0, 9 * 10 ** 8))
        images = {}
        for _ in range(r.randint(1, 7)):
            when += timedelta(microseconds=1000 * r.choice([1000, 3123, 86399999, 1]) if style != "s"
                              else 1000000 * r.choice([1, 7, 86399]))
            d = raw / folder
            if kind in ("any", "wild", "wilddir") and r.random() < 0.3:
                d = d / "more"
            f = d / stamp_name(when, style, head, tail + "." + ext)
            d.mkdir(parents=True, exist_ok=True)
            images[str(f)] = when
        for f in images:
            if f == min(images):
                imageio.imwrite(f, np.full(shape + ((3,) if colour else ()), 7, np.uint8))
            else:
                Path(f).write_bytes(b"")
        other = 0
        d = raw / folder
        d.mkdir(parents=True, exist_ok=True)
        if r.random() < 0.6:
            other += 1
            for n in ["notes.txt", "thumb." + {"tif": "png"}.get(ext, "tif"), "PR_x" + ext]:
                (d / n).write_bytes(b"")
        if r.random() < 0.6:
            other += 1
            if kind == "ends":
                (d / stamp_name(when, style, head, "R." + ext)).write_bytes(b"")
                (d / stamp_name(when, style, head, "L_small." + ext)).write_bytes(b"")
            if kind == "has":
                (d / stamp_name(when, style, head, "_RC16." + ext)).write_bytes(b"")
            if kind == "prefix":
                (d / stamp_name(when, style, "other_", "." + ext)).write_bytes(b"")
                (d / stamp_name(when, style, "small_cam_", "." + ext)).write_bytes(b"")
            if kind == "plain":
                (raw / (folder + "2")).mkdir(parents=True)
                (raw / (folder + "2") / stamp_name(when, style, head, "." + ext)).write_bytes(b"")
            if kind in ("wild", "wilddir", "has"):
                q = raw / ("image%d" % i) / "Other2017"
                q.mkdir(parents=True)
                (q / stamp_name(when, style, head, tail + "." + ext)).write_bytes(b"")
        name, want_name = r.choice([("cam%d" % i, "cam%d" % i), ("/vehicle/cam%d" % i, "vehicle_cam%d" % i)])
        node = {"name": name, "type": r.choice(["grayscale", "rgb", "bgr", "rggb", "grbg", "bggr", "gbrg"]),
                "bit_depth": r.choice([8, 12, 16, 32]), "path": path, "extension": ext,
                "filename_to_date": stamp_format(style, head, tail) + ".xxx"}
        desc.append(node)
        expect.append((want_name, node, images, list(shape) + [3 if colour else 1], style, other))
    cfg = root / "camera.yaml"
    cfg.write_text(yaml.safe_dump({"camera_system": "test", "cameras": desc}))
    before = tree(root)
    system = CameraSystem(r.choice([cfg, str(cfg)]), root / here / "2020" / "d")
    require(system.camera_system == "test" and len(system.cameras) == len(desc), "camera.yaml: %s" % system)
    nt = False
    for cam, (name, node, images, shape, style, other) in zip(system.cameras, expect):
        require((cam.name, cam.type, cam.bit_depth, cam.extension, cam.path) == (
            name, node["type"], node["bit_depth"], node["extension"], node["path"]), "camera %r read as %r"
            % (node, vars(cam)))
        for _ in range(2):
            got = list(cam.image_list)
            require(got == sorted(images), "camera %s at %s finds %r, expected %r"
                    % (name, node["path"], got, sorted(images)))
        stamps = list(cam.stamp_list)
        require(len(stamps) == len(got), "%d time stamps for %d images" % (len(stamps), len(got)))
        for f, s in zip(got, stamps):
            w = (images[f] - datetime(1970, 1, 1)) / timedelta(seconds=1)
            require(abs(s - w) < 1e-5, "%s: time %r, expected %r" % (Path(f).name, s, w))
        require(list(cam.image_properties) == shape, "image size %r, expected %r" % (cam.image_properties, shape))
        nt |= len(images) > 1 and other > 0
    require(tree(root) == before, "reading the camera system changed the dataset")
    t.nontrivial(nt)


@sub("C17", "bad_camera", SEED, quick=100, thorough=1000, rule="always")
def bad_camera(c, t):
    """an incomplete camera.yaml is refused"""
    r = random.Random(c)
    root = Path(t.scratch())
    node = {"name": "cam", "type": "rgb", "bit_depth": 8, "path": "image", "extension": "tif",
            "filename_to_date": "YYYYMMDDhhmmss.xxx"}
    doc = {"camera_system": "test", "cameras": [dict(node), node]}
    what = r.choice(["type", "stamp", "system", "cameras", "file"])
    if what == "type":
        node["type"] = r.choice(["mono", "RGB", "bayer_rggb", "gray"])
    elif what == "stamp":
        del node["filename_to_date"]
        if r.random() < 0.5:
            node["columns"] = [{"name": "date", "content": "YYYYMMDD"}]
    elif what == "system":
        del doc["camera_system"]
    elif what == "cameras":
        del doc["cameras"]
    f = root / "camera.yaml"
    if what != "file":
        f.write_text(yaml.safe_dump(doc))
    try:
        CameraSystem(f, root / "raw" / "d")
    except SystemExit:
        t.nontrivial(True)
        return
    fail("camera.yaml without valid %s is accepted" % what)
