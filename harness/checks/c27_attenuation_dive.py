"""C27: colour correction removes the dependence on altitude and reaches brightness and contrast."""
import csv
import random
from pathlib import Path

import numpy as np
from hypothesis import strategies as st

import cigen
import cli
from cigen import demosaic, finish, same_image, unit
from pbt import fail, require, require_close, sub

SEED = st.integers(0, 2 ** 32 - 1)


def make(seed):
    """Few (expensive) cases are run, so every one is drawn evenly from the whole space."""
    r = random.Random(seed)
    ctype = r.choice(["rggb", "bggr", "gbrg", "rgb", "grayscale"])
    return {"ctype": ctype, "bits": 8 if ctype == "rgb" else r.choice([12, 16]),
            "bins": [(b, r.choice([10, 10, 11, 13, 9, 3])) for b in sorted(set(r.sample(range(40), 3) + [r.choice([0, 5, 39])]))],
            "seed": seed, "kind": r.choice(["ekf", "dead_reckoning"]), "metric": r.choice(["altitude", "depth_map"]),
            "smoothing": r.choice(["mean", "median", "mean_trimmed"]),
            "dives": r.choice([1, 1, 2, 2, 3]),
            "shape": r.choice([(10, 10), (10, 14), (14, 10)]),
            "brightness": r.randint(10, 60), "contrast": r.randint(2, 10),
            "other": r.choice([None, "first", "last"]), "far": r.random() < 0.5, "drop": r.randint(0, 3), "cmd": r.choice(["two", "two", "correct"])}


@sub("C27", "attenuation_dive", SEED.map(make), quick=20, thorough=300, shards=8, max_s=60,
     rule="at least two altitude bins with ten or more images")
def attenuation_dive(c, t):

    root = t.scratch()
    rng = np.random.default_rng(c["seed"])
    h, w = c["shape"]
    ch = 3 if c["ctype"] == "rgb" else 1
    full = 255 if c["ctype"] == "rgb" else 65535
    lo = 3.0
    base = rng.uniform(0.6, 1.2, (h, w, ch))
    rows, alts, maps, n = [], [], [], 0
    far = c["far"] and c["metric"] == "altitude"  # images that are developed, but not used for the model
    for b, k in c["bins"] + [(45, 2)] * far:
        for _ in range(k):
            a = round(lo + 0.1 * b + (rng.choice([0.01, 0.03, 0.09]) if c["metric"] == "altitude" else 0.02), 3)
            m = np.full((h, w), a)
            if c["metric"] == "depth_map":  # a few pixels look into a hole
                m[rng.random((h, w)) < rng.uniform(0, 0.2)] += 0.2
            seen = m.copy()
            if c["metric"] == "depth_map" and c["seed"] % 2 and a > 3.5:    # and one may have no depth
                seen[rng.integers(0, h), rng.integers(0, w)] = 0
            px = full * base * np.exp(-0.25 * m)[..., None] * rng.uniform(0.6, 1.2, (h, w, ch))
            px = px.clip(1, full * 0.9).astype(np.uint8 if ch == 3 else np.uint16)
            rows.append((cigen.stem(n, "LC"), px[..., 0] if ch == 1 else px, repr(a)))
            alts.append(a)
            maps.append(seen)
            n += 1
    order = rng.permutation(n)
    rows, alts, maps = [rows[i] for i in order], [alts[i] for i in order], [maps[i] for i in order]
    ext = "png" if ch == 3 else "tif"
    conf = cigen.config(metric=c["metric"], parse=(3, 7), process=(3, 8 if far else 7), smoothing=c["smoothing"],
                        cams=("LC",), other=c["other"], brightness=c["brightness"], contrast=c["contrast"])
    # the images belong to one or several dives
    place = np.sort(rng.integers(0, c["dives"], n)) if c["seed"] % 3 else rng.integers(0, c["dives"], n)
    place[:c["dives"]] = range(c["dives"])
    dives = []
    for d in range(c["dives"]):
        dives.append(cigen.write_dive(root, [rows[i] if place[i] == d else (rows[i][0], None, rows[i][2]) for i in range(n)
                                             if place[i] == d or rng.random() < 0.1],
                                      ctype=c["ctype"], bits=c["bits"], conf=conf, ext=ext, dive="dive%d" % d,
                                      kind=c["kind"]))
    raws = [q[0] for q in dives]
    dev = list(range(n))
    dist_of = [float(q.mean()) for q in maps]
    keep = [i for i in dev if alts[i] < 7]
    if c["metric"] == "depth_map":
        keep = [i for i in keep if i >= c["drop"]]
        for i in keep:
            dm = dives[place[i]][1] / "3d_reconstruction" / "depth_maps" / "gp_smoothed" / "image" / "i1"
            dm.mkdir(parents=True, exist_ok=True)
            np.save(dm / (rows[i][0] + "_depthmap.npy"), maps[i])
        dev = keep
    if set(place[dev]) != set(range(c["dives"])):
        return t.label("a dive without depth maps")
    x = np.array([unit(rows[i][1], c["bits"]) for i in keep])
    bin_of = [int(np.floor((dist_of[i] - lo) / 0.1 + 1e-6)) for i in keep]
    good = [b for b in sorted(set(bin_of)) if bin_of.count(b) >= 10]
    if not good:
        return t.label("no bin with ten images")
    with cigen.quiet(root):
        before = [cigen.tree(q) for q in raws]
        if c["cmd"] == "correct" and c["dives"] == 1:
            raw, = raws
            cli.correct_images(["correct", str(raw)] if c["seed"] % 2 else [str(raw)])
            t.label("correct command")
        else:
            cigen.parse(raws, mm=root / "mm")
        ps = [q[1] / "image" / "LC" / ("params_" + c["metric"]) for q in dives]
        p = ps[-1]
        left = [q for q in root.rglob("*.map")]
        require(not left, "memory maps left behind: %s" % left)
        # samples of the model: one image per populated altitude bin
        im, dist = np.load(p / "images_map.npy"), np.load(p / "distances_map.npy")
        require(len(im) > max(good), "no sample of the images at %.1f m" % (lo + 0.1 * max(good)))
        for b in range(len(im)):
            if b not in good:
                require(not np.nan_to_num(im[b]).any(), "bin %d has too few images but is used" % b)
                continue
            xs = x[[i for i, q in enumerate(bin_of) if q == b]]
            k = len(xs)
            if c["smoothing"] == "mean":
                want = xs.mean(0)
            elif c["smoothing"] == "median":
                want = np.median(xs, 0)
            else:
                want = np.sort(xs, 0)[int(k * 0.1):int(k * 0.9)].mean(0)
            require_close(im[b].reshape(want.shape), want, "%s image of bin %d" % (c["smoothing"], b), 1e-3, 1e-5)
            dd = np.array([maps[i] for i, q in zip(keep, bin_of) if q == b])
            if not dd.all():
                t.label("missing depths")
            dd = dd.sum(0) / np.maximum((dd != 0).sum(0), 1)
            require_close(dist[b].reshape(h, w), dd, "distance of bin %d" % b, 1e-4, 1e-4)
        att = np.load(p / "attenuation_parameters.npy").astype(float)
        gain = np.load(p / "correction_gains.npy").astype(float)
        target = np.mean([maps[i].mean() for i in keep])
        require_close(gain, att[..., 0] * np.exp(att[..., 1] * target) + att[..., 2], "gains", 1e-3, 1e-5)
        cor = []
        for i in dev:
            model = att[..., 0] * np.exp(att[..., 1] * maps[i]) + att[..., 2]
            z = np.moveaxis(gain / model, 0, -1)
            cor.append(unit(rows[i][1], c["bits"]) * (z if ch == 3 else z[..., 0]))
        every, cor = dict(zip(dev, cor)), np.array([q for i, q in zip(dev, cor) if i in keep])
        m, sd = np.load(p / "image_corrected_mean.npy"), np.load(p / "image_corrected_std.npy")
        sat = (cor > 0.94).any(0)
        if not sat.all():
            require_close(m.reshape(cor.shape[1:])[~sat], cor.mean(0)[~sat], "mean of the corrected images", 1e-3, 1e-4)
            require_close(sd.reshape(cor.shape[1:])[~sat], cor.std(0)[~sat], "std of the corrected images", 1e-2, 1e-3)
        for q in ps[:-1]:
            for name in ("attenuation_parameters", "correction_gains", "image_corrected_mean", "image_corrected_std"):
                require((q / (name + ".npy")).exists() and np.array_equal(np.load(q / (name + ".npy")), np.load(p / (name + ".npy"))),
                        "%s of the dives differ" % name)
        if c["cmd"] != "correct" or c["dives"] > 1:
            for raw in raws:
                cigen.process(raw)
        require([cigen.tree(q) for q in raws] == before, "the raw data changed")
        m, sd = m.reshape(cor.shape[1:]), sd.reshape(cor.shape[1:])
        for d, (raw, pro, cfg) in enumerate(dives):
            judge(c, pro, [i for i in dev if place[i] == d], rows, every, m, sd)
    t.nontrivial(len(good) >= 2, c["metric"] + " " + c["smoothing"])
    t.label(c["ctype"])
    t.label("several dives", c["dives"] > 1)


def judge(c, pro, dev, rows, every, m, sd):
    """the images of one dive, developed with the model of all dives"""
    out = pro / "image" / "LC" / ("corrected_%s_mean_%d_std_%d" % (c["metric"], c["brightness"], c["contrast"]))
    got = sorted(q.stem for q in out.iterdir() if q.suffix == ".png")
    require(got == sorted(rows[i][0] for i in dev), "developed %d images of %d" % (len(got), len(dev)))
    for i in dev:
        z = np.clip((every[i] - m) / sd * c["contrast"] / 100 + c["brightness"] / 100, 0, 1)
        same_image(out / (rows[i][0] + ".png"), finish(demosaic(z, c["ctype"])), rows[i][0])
    with open(out / "filelist.csv") as f:
        fl = list(csv.DictReader(f))
    require([Path(q["relative_path"]).stem for q in fl] == [rows[i][0] for i in sorted(dev)],
            "filelist.csv does not list the developed images in order")
