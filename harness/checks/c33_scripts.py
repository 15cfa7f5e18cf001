"""C33: the helper scripts: time correction, navigation lists, statistics, brightness and image folders."""
import contextlib
import csv
import io
import math
import os
import random
import re
import runpy
import sys
from datetime import datetime, timezone
from pathlib import Path
from unittest import mock

import imageio.v2 as iio
import joblib
import cv2
import numpy as np
from hypothesis import strategies as st

import cli
import fakeros
from pbt import fail, require, require_close, sub

SEED = st.integers(0, 2 ** 32 - 1)


def src():
    import oplab

    return Path(oplab.__file__).resolve().parents[1]


def script(name, args, cwd):
    """what the script prints; its exit does not matter"""
    here = os.getcwd()
    out = io.StringIO()
    os.chdir(cwd)
    try:
        with mock.patch.object(sys, "path", [str(src() / "scripts")] + sys.path), \
                mock.patch.object(sys, "argv", [name] + [str(a) for a in args]), contextlib.redirect_stdout(out), \
                contextlib.redirect_stderr(io.StringIO()), joblib.parallel_backend("sequential"):
            try:
                runpy.run_path(str(src() / "scripts" / name), run_name="__main__")
            except SystemExit as e:
                require(e.code in (None, 0, 1), "%s does not accept %s" % (name, args))
    finally:
        os.chdir(here)
    return out.getvalue()


def mixed(paths, opts, seed):
    return cli.argv([], paths, opts, random.Random(seed))


def read(path):
    with open(path) as f:
        return list(csv.DictReader(f))


def tree(d):
    return {str(p.relative_to(d)): p.read_bytes() for p in sorted(d.rglob("*")) if p.is_file()}


# --------------------------------------------------------------------------------------- ALR to BioCam time
@sub("C33", "biocam_time", SEED, quick=120, thorough=4000, shards=2, max_s=20,
     rule="the clocks drift, and times lie inside and outside the polled span")
def biocam_time(seed, t):
    """ALR times become BioCam times, on the line between the polls around them (the end lines are extended)"""
    r = random.Random(seed)
    root = t.scratch()
    n = r.randint(2, 8)
    alr, bc = r.randint(10 ** 12, 2 * 10 ** 12), 0
    bc = alr + r.randint(-10 ** 6, 10 ** 6)
    polls = []
    for _ in range(n):
        d = r.randint(0, 400)
        polls.append((bc, alr, bc + d))
        step = r.randint(1000, 10 ** 6)
        alr += step
        bc += step + d + r.randint(-300, 300)
    if [p[0] for p in polls] != sorted(p[0] for p in polls):
        return
    logs, k = [], 0
    while k < n:
        m = r.randint(1, n)
        f = root / ("serial%d.log" % len(logs))
        lines = []
        for b0, a, b1 in polls[k:k + m]:
            for _ in range(r.randint(0, 2)):
                lines.append("%d,strobe,%d,1,2,3,4,5" % (b0 - 10, r.randint(0, 99)))
            lines.append("poll_time:,%d,a,b,c,%d,d,%d,e" % (b0, a, b1))
        f.write_text("\n".join(lines) + "\n")
        logs.append(f)
        k += m
    div = r.choice([1, 1, 1000, 1000000])
    col = r.choice(["timestamp", "timestamp", "alr_time"])
    A = [p[1] / 1000.0 for p in polls]
    B = [(p[0] + p[2]) / 2000.0 for p in polls]
    sub_dir = root / r.choice(["d", "nav.csv files"])
    sub_dir.mkdir()
    files, rows = [], []
    for i in range(r.randint(1, 3)):
        ts = sorted(r.uniform(A[0] - 50, A[-1] + 50) if r.random() < 0.7 else r.choice(A) for _ in range(r.randint(1, 8)))
        ts = [round(x * div) if div > 1 else round(x, 3) for x in ts]
        f = sub_dir / ("log%d.csv" % i)
        f.write_text("depth,%s,temp\n" % col + "".join("%r,%r,%d\n" % (round(r.uniform(0, 100), 2), x, i) for i, x in enumerate(ts)))
        files.append(f)
        rows.append((ts, read(f)))
    # files may be listed after one option or each after its own
    args = [str(x) for x in logs]
    if r.random() < 0.5:
        args += [r.choice(["-a", "--alr_timesamped_file"])] + [str(x) for x in files]
    else:
        for x in files:
            args += ["-a", str(x)]
    if col != "timestamp":
        args += [r.choice(["-t", "--timestamp_col"]), col]
    if div != 1:
        args += [r.choice(["-d", "--divisions_per_second"]), str(div)]
    existing = r.random() < 0.3
    name = lambda f: f.with_name(f.stem + "_corrected.csv")
    if existing:
        name(files[-1]).write_text("keep me\n")
        before = tree(root)
        script("adjust_alr_to_biocam_time.py", args, root)
        require(tree(root) == before, "existing results were changed without -f")
        args.append(r.choice(["-f", "--force"]))
    before = tree(root)
    said = script("adjust_alr_to_biocam_time.py", args, root)
    after = tree(root)
    require(set(after) - set(before) == {str(name(f).relative_to(root)) for f in files} - set(before), "new files %s" % sorted(
        set(after) - set(before)))
    for f, (ts, orig) in zip(files, rows):
        got = read(name(f))
        require(len(got) == len(orig), "%s: %d of %d rows" % (f.name, len(got), len(orig)))
        for x, o, g in zip(ts, orig, got):
            for key in o:
                require_close(float(g[key]), float(o[key]), "column %s" % key, 1e-12, 1e-9)
            a = x / div
            j = max([i for i in range(n - 1) if A[i] <= a], default=0)
            want = B[j] + (a - A[j]) * (B[j + 1] - B[j]) / (A[j + 1] - A[j])
            require_close(float(g["corrected_timestamp"]), want, "BioCam time of ALR time %r (polled %r)" % (a, A), 0, 2e-6)
    allt = [x / div for ts, o in rows for x in ts]
    t.nontrivial(min(allt) < A[0] < max(allt) or min(allt) < A[-1] < max(allt), "%d log(s)" % len(logs))


# ------------------------------------------------------------------------------------------ navigation lists
KEYS = ("northing [m]", "easting [m]", "depth [m]", "roll [deg]", "pitch [deg]", "heading [deg]", "altitude [m]",
        "timestamp [s]", "latitude [deg]", "longitude [deg]")


def navigation(r, path, n, folders=("image/LC", "image/x")):
    rows = []
    t0 = r.randint(10 ** 9, 2 * 10 ** 9)
    for i in range(n):
        rows.append({"relative_path": "%s/%s%04d.%s" % (r.choice(folders), r.choice(["a", "b.c_", "PR_"]), i, r.choice(["raw", "tif", "png"])),
                     "northing [m]": r.uniform(-500, 500), "easting [m]": r.uniform(-500, 500), "depth [m]": r.uniform(0, 4000),
                     "roll [deg]": r.uniform(-20, 20), "pitch [deg]": r.uniform(-20, 20), "heading [deg]": r.uniform(0, 360),
                     "altitude [m]": r.uniform(1, 12), "timestamp [s]": t0 + r.randint(0, 10 ** 5) + r.randint(0, 999999) * 1e-6,
                     "latitude [deg]": r.uniform(-89, 89), "longitude [deg]": r.uniform(-180, 180),
                     "x_velocity [m/s]": r.uniform(-1, 1)})
    heads = list(rows[0]) if rows else ["relative_path"] + list(KEYS)
    heads = heads[:1] + r.sample(heads[1:], len(heads) - 1)
    path.write_text(",".join(heads) + "\n" + "".join(",".join(
        x[h] if h == "relative_path" else "%.6f" % x[h] for h in heads) + "\n" for x in rows))
    return rows


@sub("C33", "nav_lists", SEED, quick=160, thorough=4000, shards=2, max_s=20,
     rule="some but not all images of the navigation file are in the folder")
def nav_lists(seed, t):
    """simplified and Squidle navigation files list the images of the folder, in time order, with their own poses"""
    r = random.Random(seed)
    root = t.scratch()
    rows = navigation(r, root / "nav.csv", r.randint(1, 12))
    squidle = r.random() < 0.4
    folder = root / "images"
    folder.mkdir()
    ext = r.choice(["png", "jpg"])
    here = [x for x in rows if r.random() < 0.6] or rows[:1]
    use = squidle or r.random() < 0.7
    for x in here:
        (folder / (Path(x["relative_path"]).stem + "." + ext)).write_bytes(b"")
    for i in range(r.randint(0, 2)):
        (folder / ("other%d.%s" % (i, ext))).write_bytes(b"")
    (folder / "notes.txt").write_text("x")
    if r.random() < 0.3:  # stems that begin alike
        x = r.choice(rows)
        (folder / (Path(x["relative_path"]).stem + r.choice(["_2.", "_THM.", "_thumb.", ".0."]) + ext)).write_bytes(b"")
    out = root / r.choice(["out.csv", "navdata.csv", "navigation_data.csv"])
    opts = [(("-o", "--output"), str(out))]
    if out.name == ("navdata.csv" if squidle else "navigation_data.csv") and r.random() < 0.5:
        opts = []
    if not squidle and use:
        opts.append((("-i", "--image_folder"), str(folder)))
    kind = None if squidle else r.choice([None, "-s", "-l"])
    if kind:
        opts.append(((kind, {"-s": "--short", "-l": "--long"}[kind]), None))
    tool = "generate_nav_file_for_squidle.py" if squidle else "simplify_nav_file.py"
    paths = [root / "nav.csv"] + [folder] * squidle
    if r.random() < 0.3:
        out.write_text("keep me\n")
        before = tree(root)
        script(tool, mixed(paths, opts, seed), root)
        require(tree(root) == before, "%s replaced its output without -f" % tool)
        opts.append((("-f", "--force"), None))
    if r.random() < 0.1:
        (folder / ("q.png" if ext == "jpg" else "q.jpg")).write_bytes(b"")
        if use:
            before = tree(root)
            script(tool, mixed(paths, opts, seed), root)
            require(tree(root) == before, "%s accepts a folder with png and jpg images" % tool)
            return t.label("mixed folder")
    before = tree(root)
    said = script(tool, mixed(paths, opts, seed), root)
    after = tree(root)
    require({k: v for k, v in after.items() if k != out.name} == {k: v for k, v in before.items() if k != out.name},
            "%s changed other files" % tool)
    require(out.exists(), "%s wrote nothing: %s" % (tool, said[-200:]))
    got = read(out)
    want = sorted(here if use else rows, key=lambda x: x["timestamp [s]"])
    require(len(got) == len(want), "%d rows, expected %d" % (len(got), len(want)))
    for g, w in zip(got, want):
        stem = Path(w["relative_path"]).stem
        if squidle:
            m = {"pose.lat": "latitude [deg]", "pose.lon": "longitude [deg]", "pose.dep": "depth [m]", "pose.alt": "altitude [m]",
                 "pose.data.northing_m": "northing [m]", "pose.data.easting_m": "easting [m]", "pose.data.roll": "roll [deg]",
                 "pose.data.pitch": "pitch [deg]", "pose.data.heading": "heading [deg]"}
            require(g["key"] == stem, "key %s, expected %s" % (g["key"], stem))
            s = g["timestamp_start"]
            d = datetime.strptime(s[:26], "%Y-%m-%d %H:%M:%S.%f" if "." in s else "%Y-%m-%d %H:%M:%S")
            require_close(d.replace(tzinfo=timezone.utc).timestamp(), w["timestamp [s]"], "time of %s" % stem, 0, 5e-6)
            require(set(g) == set(m) | {"key", "timestamp_start"}, "columns %s" % list(g))
        else:
            m = {k: k for k in KEYS if kind == "-l" or k not in ("northing [m]", "easting [m]")}
            if kind == "-s":
                m = {k: k for k in KEYS if k.startswith(("lat", "lon"))}
            require(g["filename"] == (stem + "." + ext if use else Path(w["relative_path"]).name), "file %s" % g["filename"])
            require(set(g) == set(m) | {"filename"}, "columns %s" % list(g))
        for a, b in m.items():
            require_close(float(g[a]), w[b], "%s of %s" % (a, stem), 1e-12, 2e-6)
    if not squidle:
        box = re.findall(r"([NSEW]): (-?[\d.e-]+)°", said)
        lats, lons = [w["latitude [deg]"] for w in want], [w["longitude [deg]"] for w in want]
        for k, v in box:
            require_close(float(v), {"N": max(lats), "S": min(lats), "E": max(lons), "W": min(lons)}[k], "bounding box " + k, 0, 2e-6)
        for k, v, d, m in re.findall(r"([NSEW]): (-?[\d.e-]+)° \((-?\d+)° (-?[\d.]+)'\)", said):
            require_close(int(d) + float(m) / 60, float(v), "bounding box %s in minutes" % k, 0, 2e-5)
        require(len(box) == 4, "bounding box %s" % box)
    t.nontrivial(use and 0 < len(here) < len(rows), tool)


@sub("C33", "acquisition", SEED, quick=80, thorough=3000, shards=2, max_s=20,
     rule="images above and below the altitude limit")
def acquisition(seed, t):
    """counts, altitude, path, area and time near the sea floor are those of the images below the limit"""
    r = random.Random(seed)
    root = t.scratch()
    rows = navigation(r, root / "nav.csv", r.randint(2, 25))
    rows.sort(key=lambda x: x["timestamp [s]"])
    flat = r.random() < 0.5
    if flat:
        for x in rows:
            x["altitude [m]"] = r.uniform(1, 4)
    heads = list(rows[0])
    for x in rows:
        for h in heads[1:]:
            x[h] = float("%.6f" % x[h])
    (root / "nav.csv").write_text(",".join(heads) + "\n" + "".join(",".join(
        x[h] if h == "relative_path" else "%.6f" % x[h] for h in heads) + "\n" for x in rows))
    opts, lim, alpha = [], 6.0, 70.34
    k = r.random()
    if k < 0.5:
        lim = round(r.uniform(3, 9), 1)
        opts.append((("-t", "--altitude_threshold_m"), lim))
    elif k < 0.65:          # an image just at the limit
        lim = r.choice(rows)["altitude [m]"]
        opts.append((("-t", "--altitude_threshold_m"), "%.6f" % lim))
    if r.random() < 0.5:
        alpha = round(r.uniform(20, 120), 1)
        opts.append((("-a", "--alpha"), alpha))
    use = rows
    ts = [x["timestamp [s]"] for x in rows]
    if r.random() < 0.4:
        s = r.choice(ts)
        opts.append((("-s", "--start_time"), "%.6f" % s))
        use = [x for x in use if x["timestamp [s]"] >= s]
    if r.random() < 0.4:
        s = r.choice(ts)
        opts.append((("-e", "--end_time"), "%.6f" % s))
        use = [x for x in use if x["timestamp [s]"] <= s]
    said = script("image_acquisition_stats.py", mixed([root / "nav.csv"], opts, seed), root)
    low = [x for x in use if x["altitude [m]"] < lim]
    if not low:
        require("ERROR" in said, "no image in the selection, but: %s" % said)
        return t.label("nothing selected")

    def value(head):
        m = re.search(re.escape(head) + r"[^\n]*:\s+(-?[\d.]+)", said)
        require(m, "%s is missing in %s" % (head, said))
        return float(m.group(1))

    require(value("Number of images at alt") == len(low), "number of images below %r m: %s" % (lim, said))
    require_close(value("Average altitude"), np.mean([x["altitude [m]"] for x in low]), "average altitude", 0, 6e-4)
    a, b = low[0]["timestamp [s]"], low[-1]["timestamp [s]"]
    require(value("Number of images during bottom time") == len([x for x in use if a <= x["timestamp [s]"] <= b]),
            "images during bottom time: %s" % said)
    h, m, s = map(float, re.search(r"Bottom time[^\n]*:\s+(\d+)h (\d+)min (\d+)s", said).groups())
    require_close(h * 3600 + m * 60 + s, b - a, "bottom time", 0, 0.51)
    if flat and lim >= 4:
        d = [math.hypot(q["northing [m]"] - p["northing [m]"], q["easting [m]"] - p["easting [m]"]) for p, q in zip(low, low[1:])]
        require_close(value("Total distance travelled"), sum(d), "distance", 1e-9, 0.51)
        area = sum(x * q["altitude [m]"] for x, q in zip(d, low[1:])) * 2 * math.tan(math.radians(alpha / 2))
        lo = sum(x * min(p["altitude [m]"], q["altitude [m]"]) for x, p, q in zip(d, low, low[1:])) * 2 * math.tan(math.radians(alpha / 2))
        hi = sum(x * max(p["altitude [m]"], q["altitude [m]"]) for x, p, q in zip(d, low, low[1:])) * 2 * math.tan(math.radians(alpha / 2))
        got = value("Total surface area")
        require(lo - 0.51 <= got <= hi + 0.51, "area %r, between %r and %r (%r)" % (got, lo, hi, area))
    t.nontrivial(len(low) < len(use) or flat)


# --------------------------------------------------------------------------------------------- image folders
@sub("C33", "brightness", SEED, quick=60, thorough=2000, shards=2, max_s=20,
     rule="images on both sides of the threshold")
def brightness(seed, t):
    """the brightest grey level of each image, and the list of the images above the threshold"""
    r = random.Random(seed)
    rng = np.random.default_rng(seed)
    root = t.scratch()
    folder = root / "im"
    folder.mkdir()
    want = {}
    for i in range(r.randint(1, 8)):
        ext = r.choice(["png", "png", "jpg"])
        top = r.choice([60, 199, 200, 201, 254, 255])
        shape = (r.randint(4, 9), r.randint(4, 9)) + ((3,) if r.random() < 0.8 else ())
        px = rng.integers(0, top + 1, shape).astype(np.uint8)
        if r.random() < 0.5:
            px[r.randrange(shape[0]), r.randrange(shape[1])] = top
        f = folder / ("im%d.%s" % (i, ext))
        iio.imwrite(f, px)
        back = iio.imread(f).astype(float)
        want[str(f)] = (back.mean(axis=2) if back.ndim == 3 else back).max()
    (folder / "readme.txt").write_text("x")
    out = root / r.choice(["b.csv", "image_brightness.csv"])
    a = [folder] + ([out] if out.name == "b.csv" or r.random() < 0.5 else [])
    script("compute_max_brightness.py", a, root)
    got = {x["path"]: float(x["max_brightness"]) for x in read(out)}
    require(set(got) == set(want), "images %s" % sorted(set(got) ^ set(want)))
    for k in want:
        require_close(got[k], want[k], "brightest level of %s" % Path(k).name, 0, 1e-6)
    lim = r.choice([None, 150, 199, 200, 254])
    lst = root / r.choice(["l.txt", "filelist_images_with_potential_outliers.txt"])
    a = [out] + ([lst] if lst.name == "l.txt" or r.random() < 0.5 else [])
    said = script("find_images_with_artefacts.py", mixed(a, [(("-t", "--threshold"), lim)] if lim else [], seed), root)
    lim = 200 if lim is None else lim
    bright = sorted(k for k in want if want[k] > lim)
    require(sorted(lst.read_text().split("\n")[:-1]) == bright, "listed %s, above %d: %s" % (lst.read_text(), lim, bright))
    require("larger than %d: %d\n" % (lim, len(bright)) in said, "counted: %s" % said[:200])
    t.nontrivial(0 < len(bright) < len(want))


PATTERN = {"rggb": ((0, 1), (1, 2)), "grbg": ((1, 0), (2, 1)), "bggr": ((2, 1), (1, 0)), "gbrg": ((1, 2), (0, 1))}


@sub("C33", "debayer_folder", SEED, quick=60, thorough=2000, shards=2, max_s=20,
     rule="a colour pattern")
def debayer_folder(seed, t):
    """each image of the folder becomes a colour image of the same depth, with its colours in place"""
    r = random.Random(seed)
    root = t.scratch()
    folder, out = root / "im", root / "a" / "out"
    folder.mkdir()
    pattern = r.choice(["rggb", "grbg", "bggr", "gbrg", "mono"])
    deep = r.random() < 0.5
    ext = r.choice(["tif", "png"])
    want = {}
    for i in range(r.randint(1, 5)):
        rgb = [r.randint(0, 65535 if deep else 255) for _ in range(3)]
        h, w = 2 * r.randint(4, 8), 2 * r.randint(4, 8)
        px = np.zeros((h, w), np.uint16 if deep else np.uint8)
        if pattern == "mono":
            px[:] = np.random.default_rng(seed + i).integers(0, 65536 if deep else 256, (h, w))
        else:
            for y in (0, 1):
                for x in (0, 1):
                    px[y::2, x::2] = rgb[PATTERN[pattern][y][x]]
        iio.imwrite(folder / ("im.%d.%s" % (i, ext)), px)
        want["im.%d.png" % i] = px if pattern == "mono" else rgb
    (folder / ("x.jpg")).write_bytes(b"")
    script("debayer_folder.py", [folder, ext, pattern.upper() if r.random() < 0.5 else pattern, out], root)
    got = sorted(p.name for p in out.iterdir())
    require(got == sorted(want), "%s: wrote %s, expected %s" % (pattern, got, sorted(want)))
    for k, v in want.items():
        im = cv2.imread(str(out / k), -1)  # imageio narrows colours of 16 bits
        im = im[:, :, ::-1] if im.ndim == 3 else im
        require(im.dtype == (np.uint16 if deep else np.uint8), "%s has %s" % (k, im.dtype))
        if pattern == "mono":
            require(np.array_equal(im, v), "%s: the grey image is changed" % k)
        else:
            require(im.ndim == 3 and np.array_equal(im[2:-2, 2:-2], np.broadcast_to(v, im[2:-2, 2:-2].shape)),
                    lambda: "%s %s: colour %s, expected %s" % (pattern, k, im[3, 3], v))
    t.nontrivial(pattern != "mono", pattern)


@sub("C33", "extract_bags", SEED, quick=40, thorough=1500, shards=2, max_s=20,
     rule="several images, and other topics in the bags")
def extract_bags(seed, t):
    """the images of the topic are written, each under the time of its header"""
    r = random.Random(seed)
    rng = np.random.default_rng(seed)
    root = t.scratch()
    fakeros.install()
    bags, want = [], {}
    now = r.randint(10 ** 9, 2 * 10 ** 9) * 10 ** 9
    topic = "/cam/image_raw"
    for b in range(r.randint(1, 3)):
        rows = []
        for i in range(r.randint(0, 4)):
            now += r.choice([r.randint(1, 10 ** 9), r.randint(10 ** 9, 5 * 10 ** 9), 10 ** 9])
            h, w, n = r.randint(3, 8), r.randint(3, 8), 1
            px = rng.integers(0, 256, (h, w, n)).astype(np.uint8)
            tp = topic if r.random() < 0.7 else "/cam2/image_raw"
            rows.append((tp, "sensor_msgs/Image", now, now / 1e9 + 0.1, "cam",
                         {"data": px.tobytes(), "height": h, "width": w, "encoding": "mono8"}))
            if tp == topic:
                s = "%d" % now
                want["frame%s.%s.png" % (s[:-9], s[-9:])] = px[:, :, 0]
        f = root / ("b%d.bag" % b)
        fakeros.write(f, rows)
        bags.append(f)
    out = root / "x" / "out"
    script("extract_rosbag_images.py", bags + [out, topic], root)
    got = sorted(p.name for p in out.iterdir()) if out.exists() else []
    require(got == sorted(want), "wrote %s, expected %s" % (got, sorted(want)))
    for k, px in want.items():
        require(np.array_equal(iio.imread(out / k), px), "image %s differs" % k)
    t.nontrivial(len(want) > 1)


@sub("C33", "pixel_stats", SEED, quick=48, thorough=600, shards=4, max_s=40,
     rule="an uneven illumination in wide or tall images")
def pixel_stats(seed, t):
    """images that share one illumination come out even: 25 +- 7 % over the folder at every pixel"""
    import numba

    r = random.Random(seed)
    root = t.scratch()
    folder, out = root / "im", root / "out"
    folder.mkdir()
    h, w = 4 * r.randint(5, 8), 4 * r.randint(5, 8)
    n = r.randint(3, 6)
    y, x = np.mgrid[0:h, 0:w]
    # brighter towards one corner
    px = 1 + r.uniform(0.2, 0.6) * x / w + r.uniform(-0.2, 0.1) * y / h
    base = np.stack([px * r.uniform(0.5, 1) for _ in range(3)], -1)
    base *= 100 / base.max()
    gains = [r.uniform(0.8, 2.4) for _ in range(n)]
    if r.random() < 0.4:
        # one image so bright, or so dark, among many that its corrected values saturate
        usual, odd = r.choice([(0.8, 2.4), (2.2, 0.3)])
        gains = [usual + 0.02 * (i % 2) for i in range(r.randint(125, 150))]
        gains.insert(r.randint(0, len(gains)), odd)
    if max(gains) - min(gains) < 0.5:
        return
    ims = [np.rint(base * g).astype(np.uint8) for g in gains]
    for i, im in enumerate(ims):
        iio.imwrite(folder / ("im%d.png" % i), im)
    before = tree(folder)
    with mock.patch.object(numba, "njit", lambda *a, **k: a[0] if a and callable(a[0]) else (lambda f: f)):
        script("pixel_stats_folder.py", [folder, "png", out], root)
    require(tree(folder) == before, "the images themselves were changed")
    require(sorted(p.name for p in out.iterdir()) == sorted(p.name for p in folder.iterdir()), "images %s" % sorted(out.iterdir()))
    require(not list(root.glob("*.map")), "the temporary file was left behind")
    m, s = np.mean(gains), np.std(gains)
    # the images have whole grey levels, and the statistics half their size
    step = np.max(np.abs(np.diff(base, axis=0))) + np.max(np.abs(np.diff(base, axis=1)))
    tol = 5 if s > 0.2 else 5 + (25 + 9 * m * step) / (s * base.min())
    for i, g in enumerate(gains):
        got = iio.imread(out / ("im%d.png" % i)).astype(float)
        want = min(255, max(0, 256 * (0.25 + 0.07 * (g - m) / s)))
        require(np.abs(got - want).max() < tol, lambda: "image %d (gain %.2f of %.2f +- %.2f): %.1f to %.1f, expected %.1f" % (
            i, g, m, s, got.min(), got.max(), want))
    t.nontrivial(True, "wide" if w > h else "tall")
