"""C15: runs of auv_nav: fused tracks fit together, runs repeat, and nothing is overwritten unasked."""
import json
import math
import random
from pathlib import Path

import numpy as np
import yaml
from hypothesis import strategies as st

import cli
import navgen
import rawgen
from checks.c10_dead_reckoning import at, close_rows, latlon_ok, num, placed, table
from navgen import dive, reference, rot
from pbt import angdiff, require, require_close, sub


SEED = st.integers(0, 2 ** 32 - 1)


def track(rows):
    key = "timestamp [s]" if "timestamp [s]" in rows[0] else "timestamp"
    return [{"t": num(r[key]), "centre": np.array([num(r["northing [m]"]), num(r["easting [m]"])]),
             "depth": num(r["depth [m]"]), "altitude": num(r["altitude [m]"]),
             "att": (num(r["roll [deg]"]), num(r["pitch [deg]"]), num(r["heading [deg]"]))} for r in rows]


@st.composite
def fused_case(draw):
    c = draw(dive(usbl=draw(st.sampled_from([True, True, True, False])), extra=True))
    if draw(st.sampled_from([False] * 5 + [True])):
        c["usbl"] = c["usbl"][:1]
    c["factors"] = draw(st.sampled_from([(2, 2), (0, 2), (2, 0), (1, 3)]))
    c["start"] = c["finish"] = None
    c["which"] = draw(st.sampled_from(["both", "pf", "ekf", "ekf"]))
    c["smoother"] = draw(st.booleans())
    c["seed"] = draw(st.integers(0, 10 ** 6))
    return c


@sub("C15", "fused", fused_case(), quick=120, thorough=2500, max_s=60, shards=8,
     rule="a filter ran on a dive with images or payload and sensors away from the origin")
def fused(c, t):
    """the tracks of one filter at the DVL, the origin, the cameras and payloads are one rigid vehicle"""
    pf, ekf = c["which"] != "ekf", c["which"] != "pf"
    np.random.seed(c["seed"])
    ps = [p["epoch_timestamp"] for p in navgen.packets(c)]
    lo, hi = ps[1], ps[-1]
    ref = reference(c, lo, hi, 1)
    if ref is None:
        return
    # states without depth or altitude are not specified
    if any(x["depth"] is None or x["altitude"] is None for x in ref):
        return
    root = t.scratch()
    loc = navgen.localisation(c, ekf=ekf, pf=pf, smoother=c["smoother"], particles=3)
    loc["particle_filter"].update(dvl_noise_sigma_factor=c["factors"][0], imu_noise_sigma_factor=c["factors"][1])
    raw, pro, cfg = navgen.write_dive(root, c, loc)
    cli.nav_process(raw)
    s, f = navgen.stamp(lo), navgen.stamp(hi)
    out = pro / ("json_renav_%s_%s_%s_%s" % (s[:8], s[8:], f[:8], f[8:])) / "csv"
    F = {k: np.array(v) for k, v in c["frames"].items()}
    usbl = [u for u in c["usbl"] if lo <= u[0] <= hi]
    dr = track(table(out / "dead_reckoning" / "auv_dr_dvl.csv", "dead reckoning"))
    t0, t1 = dr[0]["t"], dr[-1]["t"]
    times = [("LC", "auv_%s_LC", [m[0] for m in c["images"] if lo <= m[0] <= hi], c["cams"] >= 1),
             ("RC", "auv_%s_RC", [m[1] for m in c["images"] if lo <= m[0] <= hi], c["cams"] >= 2),
             ("LM", "auv_%s_" + (navgen.laser(c) or ["none"])[0], [x for x in c["laser"] if lo <= x <= hi], bool(c["laser"])),
             ("RC", "chem_%s", [q + c["poffset"] for q in c["ptimes"]], c["payload"])]
    frame = {"LC": F["LC"], "RC": F["RC"], "LM": F[navgen.laser(c)[1]] if c["laser"] else None}
    done = False
    # the USBL filter may have dropped all fixes: then there is no filter to run
    if pf and usbl and (not c["filter"] or (out / "particle_filter" / "auv_pf_dvl.csv").exists()):
        d = out / "particle_filter"
        dvl, centre = table(d / "auv_pf_dvl.csv", "PF track"), table(d / "auv_pf_centre.csv", "PF track of the origin")
        latlon_ok(dvl, c["ref"], "PF dvl")
        latlon_ok(centre, c["ref"], "PF centre")
        T = track(dvl)
        want = []
        for x in T:
            o, oz = rot(x["att"]) @ (F["origin"] - F["dvl"]), rot(x["att"]) @ (F["origin"] - F["depth"])
            want.append((x["t"], x["centre"][0] + o[0], x["centre"][1] + o[1], x["depth"] + oz[2], x["att"],
                         x["altitude"] - o[2]))
        close_rows(centre, want, "PF centre")
        # the attitude is perturbed by the uncertainty of the orientation, and by that only
        own = {x["t"]: x["att"] for x in dr if all(abs(x["t"] - u[0]) > 1e-3 for u in usbl)}
        e = [abs(angdiff(a, b)) for x in T if x["t"] in own for a, b in zip(x["att"], own[x["t"]])]
        if c["factors"][1] == 0:
            require(not e or max(e) < 1e-6, "PF attitude differs by %r degrees although the IMU is trusted" % e)
        elif len(e) > 6:
            require(max(e) > 1e-6, "PF attitude has no noise")
        C = track(centre)
        require(C[0]["t"] <= t0 + 1e-5 and abs(C[-1]["t"] - t1) < 1e-4, "the PF track covers %r to %r, dead reckoning "
                "%r to %r" % (C[0]["t"], C[-1]["t"], t0, t1))
        # noise of more than half a turn: which way round the heading goes between two states is not specified
        wild = any(abs(b["att"][2] - a["att"][2]) > 500 for a, b in zip(C, C[1:]))
        for cam, name, ts, on in times:
            if wild or not on or len(ts) < 2:
                continue
            near = [q for q in ts if any(abs(q - x["t"]) < 2e-3 for x in C)]
            if near:
                continue
            w = placed(C, ts, frame[cam] - F["origin"], np.zeros(2))
            if len(w) < 2:
                continue
            rows = table(d / ((name % "pf") + ".csv"), name % "pf")
            if cam == "RC" and name.startswith("chem"):
                for r in rows:
                    r["timestamp"] = repr(num(r["corrected_timestamp"]) + c["poffset"])
                w = [(p[0], p[1], p[2], p[3], None, p[5]) for p in w]
            close_rows(rows, w, name % "pf", 1e-4)
            done = True
            t.label("pf " + (name % cam))
    if ekf:
        d = out / "ekf"
        centre = table(d / "auv_ekf_centre.csv", "EKF track")
        latlon_ok(centre, c["ref"], "EKF centre")
        C = track(centre)
        stamps = [x["t"] for x in C]
        require(all(b >= a for a, b in zip(stamps, stamps[1:])), "EKF track is not in time order")
        require(t0 - 1e-6 <= stamps[0] and stamps[-1] <= t1 + 1e-6, "EKF track leaves the dive")
        for x in C:
            al = at(dr, x["t"], "altitude")
            o = rot(x["att"]) @ (F["origin"] - F["dvl"])
            if al is not None:
                require_close(x["altitude"], al - o[2], "EKF altitude of the origin", 0, 1e-4)
        for cam, name, ts, on in times:
            if not on:
                continue
            if name.startswith("chem"):
                # two states at one time: either may be used
                if len(ts) < 2 or any(sum(abs(x["t"] - q) < 2e-3 for x in C) > 1 for q in ts):
                    continue
                w = placed(C, ts, frame[cam] - F["origin"], np.zeros(2))
                if len(w) < 2:
                    continue
                rows = table(d / "chem_ekf.csv", "chem_ekf")
                for r in rows:
                    r["timestamp"] = repr(num(r["corrected_timestamp"]) + c["poffset"])
                close_rows(rows, [(p[0], p[1], p[2], p[3], None, p[5]) for p in w], "chem_ekf", 1e-4)
                done = True
                t.label("ekf payload")
                continue
            files = {"LC": [m[0] for m in c["images"]], "RC": [m[1] for m in c["images"]], "LM": c["laser"]}[cam]
            inside = [(i, q) for i, q in enumerate(files) if q in ts and t0 < q <= t1]
            if len(inside) < 2:
                continue
            rows = table(d / ((name % "ekf") + ".csv"), name % "ekf")
            R = track(rows)
            got = {r["relative_path"]: x for r, x in zip(rows, R)}
            require(len(got) == len(rows), "an image has two EKF poses")
            for i, q in inside:
                fn = "image/%s/%06d.png" % (cam, i)
                require(fn in got, "%s: no EKF pose for %s at %r (track %r to %r)" % (name, fn, q, t0, t1))
                x = got[fn]
                require(abs(x["t"] - q) < 1e-6, "%s: image %s of %r at %r" % (name, fn, q, x["t"]))
                ok = []
                for y in C:
                    if abs(y["t"] - q) < 1e-6:
                        o = rot(y["att"]) @ (frame[cam] - F["origin"])
                        e = [abs(x["centre"][0] - y["centre"][0] - o[0]), abs(x["centre"][1] - y["centre"][1] - o[1]),
                             abs(x["depth"] - y["depth"] - o[2]), abs(x["altitude"] - y["altitude"] + o[2])]
                        ok.append(max(e))
                require(ok and min(ok) < 1e-5, "%s: image %s is off the EKF track by %r m" % (name, fn, ok))
            require(all(fn in {"image/%s/%06d.png" % (cam, i) for i, q in enumerate(files) if q in ts} for fn in got),
                    "EKF pose for an image outside the dive")
            latlon_ok(rows, c["ref"], name % "ekf")
            cov = table(d / ((name % "ekf") + "_cov.csv"), "EKF covariances")
            require([r["relative_path"] for r in cov] == [r["relative_path"] for r in rows],
                    "covariances and poses of images are not listed alike")
            done = True
            t.label("ekf camera")
            if cam != "LM":
                continue
            # the same at the DVL
            got = {r["relative_path"]: x for r, x in zip(rows, R)}
            rows = table(d / ((name % "ekf") + "_at_dvl.csv"), "laser at the DVL")
            require([r["relative_path"] for r in rows] == list(got), "the laser at the DVL lists other images")
            for r, x in zip(rows, track(rows)):
                y = got[r["relative_path"]]
                o = rot(x["att"]) @ (F["dvl"] - frame[cam])
                require_close([x["t"]] + list(x["centre"]) + [x["depth"], x["altitude"]],
                              [y["t"], y["centre"][0] + o[0], y["centre"][1] + o[1], y["depth"] + o[2],
                               y["altitude"] - o[2]], "laser at the DVL, %s" % r["relative_path"], 0, 1e-5)
    # none of this touches the dead reckoning of the same run
    for a, b in zip(dr, ref):
        require_close(a["t"], b["t"], "dead reckoning stamps with filters on", 0, 1e-6)
    t.nontrivial(done and bool(np.any(F["dvl"])))


# ---------------------------------------------------------------- histories of runs
def log_frames(r, n):
    t = float(r.randint(1000, 70000))
    out = []
    for _ in range(n):
        t = round(t + r.choice([0.5, 1.0, 0.8]), 3)
        out.append({"t": t, "heading": round(r.uniform(0, 359), 2), "att": (round(r.uniform(-5, 5), 3), round(r.uniform(-5, 5), 3)),
                    "std": (0.1, 0.1, 0.1), "dvl": tuple(round(r.uniform(-1, 1), 3) for _ in range(3)), "dvl_lag": 0.0,
                    "speed": (0.1, 0.2, 0.3), "speed_std": (0.1, 0.1, 0.1), "depth": round(r.uniform(20, 30), 2),
                    "depth_lag": 0.0, "alt": round(r.uniform(2, 9), 2), "sv": 1500.0, "svc": 0.0, "fault": None,
                    "lower": False, "has": "all"})
    return out


def write_raw(raw, version, dive_no):
    """raw data of a dive; the sensor readings depend on the version"""
    r = random.Random(dive_no * 1000 + version)
    (raw / "nav").mkdir(parents=True, exist_ok=True)
    (raw / "image" / "LC").mkdir(parents=True, exist_ok=True)
    log = {"day": 18000 + dive_no, "zone": ("utc", 0.0), "offset": 0.0, "frames": log_frames(r, 12)}
    name = rawgen.date_of(log) + "_phins.txt"
    (raw / "nav" / name).write_text(rawgen.phins_text(log))
    s = {"format": "phins", "filepath": "nav/", "filename": name, "timezone": "utc", "timeoffset": 0.0,
         "std_factor": 0.01, "std_offset": 0.1}
    m = {"version": 1, "origin": {"latitude": 10.0, "longitude": 20.0, "coordinate_reference_system": "wgs84",
                                  "date": "2020/03/02"},
         "velocity": dict(s), "orientation": dict(s), "depth": dict(s), "altitude": dict(s)}
    (raw / "mission.yaml").write_text(yaml.safe_dump(m))
    (raw / "vehicle.yaml").write_text(yaml.safe_dump({k: rawgen.frame((0.1, 0.2, 0.3)) for k in rawgen.FRAMES}))
    (raw / "camera.yaml").write_text("cameras: []\n")


def tree(root, skip=("log",)):
    out = {}
    if root.exists():
        for p in sorted(root.rglob("*")):
            rel = p.relative_to(root)
            if p.is_file() and not any(s in rel.parts for s in skip):
                out[str(rel)] = p.read_bytes()
    return out


def run(args):
    try:
        cli.auv_nav(args)
        return True
    except SystemExit as e:
        return False


CONF = navgen.localisation({"std": "sensor", "filter": False}, ekf=True)
_fresh = {}


def name_of(i):
    s = navgen.stamp(18000 * 86400 + i * 86400)
    return "%s_%s_v" % (s[:8], s[8:])


def fresh(t, i, version, window):
    """what one run on untouched folders gives: (nav_standard.json, outputs of process or None)"""
    key = (i, version, window)
    if key not in _fresh:
        root = t.scratch() / "fresh"
        raw = root / "raw" / "y" / name_of(i)
        write_raw(raw, version, i)
        cfg = root / "configuration" / "y" / name_of(i)
        cfg.mkdir(parents=True)
        (cfg / "auv_nav.yaml").write_text(yaml.safe_dump(CONF))
        assert run(["parse", str(raw)])
        pro = root / "processed" / "y" / name_of(i)
        nav = (pro / "nav" / "nav_standard.json").read_bytes()
        args = ["process", str(raw)]
        ps = json.loads(nav)
        a, b = ps[1]["epoch_timestamp"], ps[-1]["epoch_timestamp"]
        if window:
            args += ["-s", navgen.stamp(a + window)]
            a = int(a + window)
        assert run(args)
        name = "json_renav_%s_%s" % tuple(navgen.stamp(x)[:8] + "_" + navgen.stamp(x)[8:] for x in (a, b))
        _fresh[key] = (nav, name, tree(pro / name), args[2:])
        import shutil
        shutil.rmtree(root)
    return _fresh[key]


@sub("C15", "history", SEED, quick=64, thorough=1200, max_s=60, shards=8,
     rule="an output that exists is asked for again with and without force")
def history(c, t):
    r = random.Random(c)
    n = r.randint(1, 2)
    root = t.scratch()
    raws = [root / "raw" / "y" / name_of(i) for i in range(n)]
    version = [0] * n
    for i, p in enumerate(raws):
        write_raw(p, 0, i)
        cfg = root / "configuration" / "y" / name_of(i)
        cfg.mkdir(parents=True)
        (cfg / "auv_nav.yaml").write_text(yaml.safe_dump(CONF))
    pro = [root / "processed" / "y" / name_of(i) for i in range(n)]
    nav = [None] * n                    # version of the raw data that was parsed, or bytes somebody put there
    outs = [{} for _ in range(n)]       # folder -> files
    seen = set()
    for _ in range(r.randint(3, 9)):
        i = r.randrange(n)
        op = r.choice(["parse", "parse", "process", "process", "process", "edit", "note"])
        before = [tree(p) for p in pro]
        fixed = (tree(root / "raw"), tree(root / "configuration"))
        if op == "edit":
            version[i] += 1
            write_raw(raws[i], version[i], i)
            continue
        if op == "note":        # somebody keeps notes or edits an output
            k = r.choice(["nav", "out"])
            if k == "nav" and nav[i] is not None:
                f = pro[i] / "nav" / "nav_standard.json"
                f.write_bytes(f.read_bytes() + b"\n ")
                nav[i] = (nav[i][0], f.read_bytes()) if isinstance(nav[i], tuple) else (nav[i], f.read_bytes())
            elif outs[i]:
                d = r.choice(sorted(outs[i]))
                (pro[i] / d / "notes.txt").write_text("mine")
                outs[i][d]["notes.txt"] = b"mine"
                fn = r.choice(sorted(k for k in outs[i][d] if k.endswith(".csv")))
                (pro[i] / d / fn).write_bytes(b"edited\n")
                outs[i][d][fn] = b"edited\n"
            continue
        force = r.random() < 0.4
        if op == "parse":
            which = [i] if n == 1 or r.random() < 0.6 else r.sample(range(n), n)
            ok = run(["parse"] + [str(raws[k]) for k in which] + (["-F"] if force else []))
            require(ok, "parse gave up")
            for k in which:
                if nav[k] is None or force:
                    seen.add(("parse", force, nav[k] is not None))
                    nav[k] = version[k]
                else:
                    seen.add(("parse", force, True))
        else:
            if nav[i] is None:
                continue
            v = nav[i][0] if isinstance(nav[i], tuple) else nav[i]
            window = r.choice([0, 0, 2, 3])
            _, name, files, args = fresh(t, i, v, window)
            exists = name in outs[i]
            ok = run(["process", str(raws[i])] + args + (["-F"] if force else []))
            seen.add(("process", force, exists))
            if exists and not force:
                require(not ok, "process ran although %s exists" % name)
            else:
                require(ok, "process gave up")
                outs[i][name] = dict(outs[i].get(name, {}), **files)
        for k in range(n):
            have = tree(pro[k])
            want = {}
            if nav[k] is not None:
                want["nav/nav_standard.json"] = nav[k][1] if isinstance(nav[k], tuple) else fresh(t, k, nav[k], 0)[0]
            for d, fs in outs[k].items():
                for fn, b in fs.items():
                    want[d + "/" + fn] = b
            for fn, b in want.items():
                require(fn in have, "%s %s: %s is missing" % (op, "-F" if force else "", fn))
                require(have[fn] == b, lambda: "%s %s: %s differs from %s" % (
                    op, "-F" if force else "", fn, "what it was" if before[k].get(fn) == b else "a fresh run"))
            extra = [fn for fn in have if fn not in want and (fn.startswith("json_renav") or fn.endswith(".csv"))]
            require(not extra, "unexpected files %r" % extra[:5])
        require((tree(root / "raw"), tree(root / "configuration")) == fixed, "%s changed raw data or configuration" % op)
    t.nontrivial(any(e and x[2] for x in seen for e in [True]) and len(seen) >= 3)
    for x in seen:
        t.label("%s force=%s exists=%s" % x)


@sub("C15", "leftovers", SEED, quick=24, thorough=400, max_s=40, shards=8,
     rule="a single output is left")
def leftovers(c, t):
    """parsing without force leaves alone whatever outputs there are, were it only one of them"""
    r = random.Random(c)
    root = t.scratch()
    raw, pro = root / "raw" / "y" / name_of(0), root / "processed" / "y" / name_of(0)
    write_raw(raw, 0, 0)
    require(run(["parse", str(raw)]), "parse gave up")
    full = {str(q.relative_to(pro)): q.read_bytes() for q in sorted(pro.rglob("*"))
            if q.is_file() and "log" not in q.parts and q.suffix != ".log"}
    require("nav/nav_standard.json" in full, "outputs %s" % sorted(full))
    for _ in range(3):
        k = r.choice([1, 1, 1, 2, len(full)])
        left = r.sample(sorted(full), k)
        for n in full:
            (pro / n).unlink(missing_ok=True)
        for n in left:
            (pro / n).write_bytes(full[n] + b"\n")     # touched by the user
        run(["parse", str(raw)])
        for n in left:
            require((pro / n).exists() and (pro / n).read_bytes() == full[n] + b"\n",
                    "parse without force replaced %s, of %s" % (n, left))
        t.nontrivial(k == 1, left[0] if k == 1 else "several outputs")
    require(run(["parse", str(raw), "-F"]), "parse -F gave up")
    for n in full:
        if not n.endswith(".html"):
            require((pro / n).read_bytes() == full[n], "%s differs from a fresh run after parse -F" % n)


@sub("C15", "merged", SEED, quick=10, thorough=300, max_s=40, shards=4,
     rule="the first argument is not the earliest dive, or the merged dive is named by its raw path")
def merged(c, t):
    """a merged dive is processed like a dive that holds the same data and the files of the first dive"""
    r = random.Random(c)
    root = t.scratch()
    ids = r.sample(range(3), r.choice([2, 2, 3]))
    raws = [root / "raw" / "y" / name_of(i) for i in ids]
    for i, p in zip(ids, raws):
        write_raw(p, r.randrange(5), i)
        arms = [round(r.uniform(-2, 2), 2) for _ in range(3)]
        (p / "vehicle.yaml").write_text(yaml.safe_dump({k: rawgen.frame(tuple(round(a * (j % 3), 2) for a in arms))
                                                        for j, k in enumerate(rawgen.FRAMES)}))
    cli.nav_parse(raws, merge=True)
    got = sorted((root / "processed" / "y").glob("*_merged"))
    require(len(got) == 1, "merging gave %s" % [g.name for g in got])
    name = got[0].name
    conf = yaml.safe_dump(CONF)
    for n in (name, "20200101_000000_one"):
        d = root / "configuration" / "y" / n
        d.mkdir(parents=True)
        (d / "auv_nav.yaml").write_text(conf)
    one = root / "raw" / "y" / "20200101_000000_one"
    one.mkdir(parents=True)
    for f in ("mission.yaml", "vehicle.yaml", "camera.yaml"):
        (one / f).write_bytes((raws[0] / f).read_bytes())
    nav = root / "processed" / "y" / one.name / "nav"
    nav.mkdir(parents=True)
    (nav / "nav_standard.json").write_bytes((got[0] / "nav" / "nav_standard.json").read_bytes())
    by_raw = r.random() < 0.5
    require(run(["process", str(root / ("raw" if by_raw else "processed") / "y" / name)]), "the merged dive was not processed")
    require(run(["process", str(one)]), "the dive with the same data was not processed")
    a = {k: v for k, v in tree(got[0]).items() if k.startswith("json_renav")}
    b = {k: v for k, v in tree(nav.parent).items() if k.startswith("json_renav")}
    require(b, "no output")
    require(sorted(a) == sorted(b), lambda: "files of the merged dive %s, of a dive with the same data %s" % (
        sorted(a)[:6], sorted(b)[:6]))
    for k in b:
        require(a[k] == b[k], k + " of the merged dive is not what its data and the first dive's files give")
    t.nontrivial(by_raw or ids[0] != min(ids))
