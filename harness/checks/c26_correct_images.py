"""C26: correct_images uses and develops exactly the selected images, and never overwrites silently."""
import csv
import os
from pathlib import Path

import numpy as np
import yaml
from hypothesis import strategies as st

import cigen
from cigen import demosaic, finish, same_image, unit
from gen import nice
from pbt import fail, require, require_close, sub

SEED = st.integers(0, 2 ** 32 - 1)
COLOUR = ("rgb", "bgr")
FORMATS = st.sampled_from(["png", "png", "tif", "tiff", "bmp"])
OTHER = [None, "first", "last"]


# -------------------------------------------------------------------------------------- strategy
@st.composite
def dive_case(draw, lo=4, hi=10):
    n = draw(st.integers(lo, hi))
    imgs = []
    for i in range(n):
        imgs.append({"alt": draw(nice(1, 14, 1).map(lambda v: round(v + 0.05, 2)))
                     if draw(st.integers(0, 7)) else None,
                     "file": draw(st.integers(0, 6)) > 0,
                     "parse": draw(st.integers(0, 4)) > 0, "process": draw(st.integers(0, 3)) > 0})
    imgs[draw(st.integers(0, n - 1))]["file"] = True
    return imgs


@st.composite
def sel_case(draw):
    ctype = draw(st.sampled_from(["rggb", "grbg", "bggr", "gbrg", "rgb", "bgr", "grayscale"]))
    w = sorted(draw(st.lists(st.integers(1, 14), min_size=2, max_size=2, unique=True)))
    v = sorted(draw(st.lists(st.integers(1, 14), min_size=2, max_size=2, unique=True)))
    if draw(st.integers(0, 2)):
        w = [0, 20]
    if draw(st.integers(0, 2)):
        v = [0, 20]
    return {"dives": [draw(dive_case()) for _ in range(draw(st.sampled_from([1, 1, 2, 3])))],
            "parse": w, "proc": v, "lists": [draw(st.booleans()), draw(st.booleans())], "ctype": ctype,
            "bits": draw(st.sampled_from([8] if ctype in COLOUR else [8, 12, 16])),
            "box": 8 if ctype in COLOUR else 16, "seed": draw(SEED), "h": 2 * draw(st.integers(3, 6)),
            "w": 2 * draw(st.integers(3, 6)), "kind": draw(st.sampled_from(["ekf", "dead_reckoning"])),
            "fmt": draw(FORMATS), "dots": draw(st.booleans()), "end": draw(st.sampled_from(["", "\n", "\n\n", "\r\n"])),
            "suffix": draw(st.sampled_from(["", "", "b2"])), "other": draw(st.sampled_from(OTHER)), "explicit": draw(st.booleans()),
            "brightness": draw(st.integers(10, 80)), "contrast": draw(st.integers(2, 12))}


def build(c, root, **conf):
    rng = np.random.default_rng(c["seed"])
    shape = (c["h"], c["w"]) + ((3,) if c["ctype"] in COLOUR else ())
    out = []
    k = 0
    for d, dive in enumerate(c["dives"]):
        rows = []
        for im in dive:
            px = rng.integers(0, 2 ** c["box"], shape).astype(np.uint8 if c["box"] == 8 else np.uint16)
            rows.append((cigen.stem(k, "LC").replace("_", "." if c["dots"] else "_"), px if im["file"] else None,
                         "None" if im["alt"] is None else repr(im["alt"])))
            k += 1
        nav = "json_renav_a"
        cf = cigen.config(lists=["lp.txt" if c["lists"][0] else "none", "lq.txt" if c["lists"][1] else "none"],
                          brightness=c["brightness"], contrast=c["contrast"],
                          nav=nav if c["explicit"] else "json_renav_*", fmt=c["fmt"], cams=("LC",), other=c["other"], **conf)
        if c.get("bare"):
            del cf["colour_correction"]
        raw, pro, cfg = cigen.write_dive(root, rows, ctype=c["ctype"], bits=c["bits"], conf=cf,
                                         suffix=c["suffix"], kind=c["kind"], dive="dive%d" % d,
                                         ext="png" if c["ctype"] in COLOUR else "tif")
        for name, key in (("lp.txt", "parse"), ("lq.txt", "process")):
            end = c.get("end", "\n")
            (cfg / name).write_text(("\r\n" if end == "\r\n" else "\n").join(
                r[0] + ".png" for r, im in zip(rows, dive) if im[key]) + end, newline="")
        for name in ("xp.txt", "xq.txt"):  # the lists of the other camera
            (cfg / name).write_text(rows[-1][0] + ".png\n")
        out.append((raw, pro, cfg, rows))
    return out


def chosen(c, dive, rows, which, window):
    use = c["lists"][0 if which == "parse" else 1]
    return [r for r, im in zip(rows, dive)
            if im["file"] and im["alt"] is not None and window[0] < im["alt"] < window[1]
            and (im[which] or not use)]


def refused(fn, root, what):
    before = cigen.tree(root)
    try:
        fn()
    except SystemExit:
        after = cigen.tree(root)
        gone = [k for k in before if k not in after]
        diff = [k for k in before if k in after and before[k] != after[k] and "/log/" not in k]
        require(not gone and not diff, "%s was refused but changed %s %s" % (what, gone, diff))
        return
    fail("%s was not refused" % what)


def outputs(c, pro, n):
    d = pro / "image" / "LC"
    s = "_" + c["suffix"] if c["suffix"] else ""
    return d / (n + s)


@sub("C26", "grey_world", sel_case(), quick=96, thorough=3000, shards=8, max_s=60,
     rule="some images are selected and some are not")
def grey_world(c, t):
    root = t.scratch()
    sets = build(c, root, metric="uniform", parse=c["parse"], process=c["proc"])
    raws = [s[0] for s in sets]
    use = [chosen(c, dv, s[3], "parse", c["parse"]) for dv, s in zip(c["dives"], sets)]
    flat = [r for u in use for r in u]
    # a dive with no existing image in its list at all is an error of the user
    dead = any(not any(im["file"] and (im["parse"] or not c["lists"][0]) and im["alt"] is not None
                       for im in dv) for dv in c["dives"])
    # (without a usable altitude nothing is asserted about which message the user gets)
    empty = any(not any(im["file"] and (im["parse"] or not c["lists"][0]) for im in dv) for dv in c["dives"])
    with cigen.quiet(root):
        if not dead and len(flat) >= 3:
            refused(lambda: cigen.process(raws[0], suffix=c["suffix"]), root, "process before parse")
        try:
            cigen.parse(raws, suffix=c["suffix"], mm=root / "mm")
        except SystemExit:
            require(dead or len(flat) < 3, "parse gave up although %d images are usable" % len(flat))
            require(not [k for k in cigen.tree(root) if k.endswith(".npy")], "parameters of a failed parse")
            return t.label("nothing to do")
        require(not empty and len(flat) >= 3, "parse accepted %d images" % len(flat))
        x = np.array([unit(r[1], c["bits"]) for r in flat])
        for s in sets:
            p = outputs(c, s[1], "params_uniform")
            m, sd = np.load(p / "image_raw_mean.npy"), np.load(p / "image_raw_std.npy")
            require_close(m, x.mean(0), "mean of the %d selected images" % len(flat), 1e-3, 1e-4)
            require_close(sd, x.std(0), "std of the %d selected images" % len(flat), 1e-3, 1e-4)
        require(not list((root / "mm").rglob("*")) if (root / "mm").exists() else True, "memory maps left behind")
        refused(lambda: cigen.parse(raws, suffix=c["suffix"], mm=root / "mm"), root, "parse over parameters")
        some = False
        for dv, s in zip(c["dives"], sets):
            raw, pro, cfg, rows = s
            want = chosen(c, dv, rows, "process", c["proc"])
            ok = [im for im in dv if im["file"] and (im["process"] or not c["lists"][1])]
            before = cigen.tree(raw)
            try:
                cigen.process(raw, suffix=c["suffix"])
            except SystemExit:
                require(not [im for im in ok if im["alt"] is not None], "process gave up with %d images" % len(ok))
                continue
            require(cigen.tree(raw) == before, "process changed the raw data")
            out = outputs(c, pro, "corrected_uniform_mean_%d_std_%d" % (c["brightness"], c["contrast"]))
            got = sorted(p.name for p in out.iterdir() if p.name != "filelist.csv")
            require(got == sorted(r[0] + "." + c["fmt"] for r in want), lambda: "developed %s, selected %s" % (
                got, sorted(r[0] for r in want)))
            for r in want:
                z = np.clip((unit(r[1], c["bits"]) - x.mean(0)) / x.std(0) * c["contrast"] / 100
                            + c["brightness"] / 100, 0, 1)
                same_image(out / (r[0] + "." + c["fmt"]), finish(demosaic(z, c["ctype"])), r[0])
            with open(out / "filelist.csv") as f:
                fl = list(csv.DictReader(f))
            orig = [r for r in rows]
            exp = [r for r in orig if r in want]
            require([Path(q["relative_path"]).name for q in fl] == [r[0] + "." + c["fmt"] for r in exp],
                    "filelist rows %s" % [q["relative_path"] for q in fl])
            for q, r in zip(fl, exp):
                i = orig.index(r)
                require(q["raw_relative_path"].split("/")[-1].rsplit(".", 1)[0] == r[0]
                        and (raw / q["raw_relative_path"]).exists(), "raw path %s" % q["raw_relative_path"])
                require_close(float(q["northing [m]"]), 1.5 * i, "northing of %s in filelist.csv" % r[0])
                require_close(float(q["altitude [m]"]), float(r[2]), "altitude of %s in filelist.csv" % r[0])
            if want:
                refused(lambda: cigen.process(raw, suffix=c["suffix"]), root, "process over images")
                keep = cigen.tree(out)
                cigen.process(raw, force=True, suffix=c["suffix"])
                require(cigen.tree(out) == keep, "processing again gives other results")
            some = some or (want and len(want) < len(rows))
    t.nontrivial(bool(some), "%d dive(s)" % len(c["dives"]))
    t.label(c["ctype"])
    t.label("image lists", any(c["lists"]))
    t.label("suffix", bool(c["suffix"]))


# ----------------------------------------------------------------------------------- manual balance
@st.composite
def manual_case(draw):
    ctype = draw(st.sampled_from(["rggb", "grbg", "bggr", "gbrg", "rgb", "bgr", "grayscale"]))
    grey1 = ctype == "grayscale" and draw(st.booleans())
    n = 1 if grey1 else 3
    return {"dives": [draw(dive_case(1, 4))], "ctype": ctype, "bits": 8 if ctype in COLOUR else 16, "fmt": draw(FORMATS), "dots": draw(st.booleans()),
            "box": 8 if ctype in COLOUR else 16, "seed": draw(SEED), "h": 2 * draw(st.integers(3, 6)),
            "w": 2 * draw(st.integers(3, 6)), "kind": "ekf", "suffix": draw(st.sampled_from(["", "m"])),
            "other": draw(st.sampled_from(OTHER)), "bare": draw(st.booleans()), "parse": draw(st.booleans()),
            "explicit": True, "brightness": 30, "contrast": 3, "lists": [False, False],
            "gain": [[draw(nice(0.2, 2, 1)) if i == j else draw(st.sampled_from([0, 0, 0.1])) for j in range(n)]
                     for i in range(n)],
            "sub": [draw(st.sampled_from([0, 0.05, 0.1])) for _ in range(n)]}


@sub("C26", "manual_balance", manual_case(), quick=120, thorough=3000, shards=8, max_s=40,
     rule="at least one image; gains are not neutral")
def manual(c, t):
    root = t.scratch()
    (raw, pro, cfg, rows), = build(c, root, method="manual_balance", gain=c["gain"], sub=c["sub"])
    files = [r for r in rows if r[1] is not None]
    g, s = np.array(c["gain"]), np.array(c["sub"])
    with cigen.quiet(root):
        if not files:
            return t.label("no image")
        before = cigen.tree(raw)
        if c["parse"]:
            cigen.parse([raw], suffix=c["suffix"], mm=root / "mm")
            require(not [k for k in cigen.tree(root) if k.endswith((".npy", ".png")) and "/image/LC" in k],
                    "parse developed images or wrote parameters although the balance is manual")
        cigen.process(raw, suffix=c["suffix"])
        require(cigen.tree(raw) == before, "process changed the raw data")
        out, = [p for p in (pro / "image" / "LC").iterdir() if p.name.startswith("corrected_manual")]
        require(out.name.endswith("_m") == bool(c["suffix"]), "output folder %s" % out.name)
        got = sorted(p.name for p in out.iterdir() if p.name != "filelist.csv")
        require(got == sorted(r[0] + "." + c["fmt"] for r in files), "developed %s" % got)
        for r in files:
            z = demosaic(unit(r[1], c["bits"]), c["ctype"])
            z = np.einsum("ab,ijb->ija", g, z - s) if z.ndim == 3 else (z - s[0]) * g[0, 0]
            same_image(out / (r[0] + "." + c["fmt"]), np.clip(255 * z, 0, 255), "%s (%s)" % (r[0], c["ctype"]))
        refused(lambda: cigen.process(raw, suffix=c["suffix"]), root, "process over images")
        # another balance gives images of its own, next to the first
        keep = cigen.tree(out)
        g2, s2 = g.copy(), s.astype(float)
        k = c["seed"] % len(s)
        if c["seed"] % 2:
            g2[k, k] += 0.5
        else:
            s2[k] += 0.05
        conf = cigen.config(method="manual_balance", gain=g2.tolist(), sub=s2.round(3).tolist(), cams=("LC",), fmt=c["fmt"], nav="json_renav_a")
        name, = cfg.glob("correct_images*.yaml")
        name.write_text(yaml.safe_dump(conf))
        cigen.process(raw, suffix=c["suffix"])
        require(cigen.tree(out) == keep, "images of another balance were changed")
        new, = [p for p in (pro / "image" / "LC").iterdir() if p.name.startswith("corrected_manual") and p != out]
        require(len(list(new.iterdir())) == len(got), "developed %d of %d images with another balance" % (len(list(new.iterdir())), len(got)))
    t.nontrivial(not np.array_equal(g, np.eye(len(g))) or bool(s.any()), c["ctype"])
