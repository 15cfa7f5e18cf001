"""C06: the standard navigation file keeps every packet, in time order; merging dives too."""
import copy
import json
from pathlib import Path

import yaml
from hypothesis import strategies as st

import cli
import navgen
from gen import nice
from pbt import fail, require, sub

import auv_nav.parse as parse_mod
from auv_nav.parse import merge_json_files
from auv_nav.parsers.parse_interlacer import parse_interlacer

parse_mod.plot_parse_data = lambda *a, **k: None  # plots are not part of the property

STAMPS = st.one_of(
    st.integers(0, 5).map(float), st.integers(0, 2_000_000_000),
    st.integers(1_599_999_990, 1_600_000_010).map(lambda x: x / 1.0),
    nice(1.6e9, 1.6e9 + 30, 3), nice(-1000, 1000, 2), nice(9.99e8, 1.001e9, 1),
    st.floats(1e9, 2e9, allow_nan=False))
CATEGORIES = st.sampled_from(["velocity", "orientation", "depth", "altitude", "usbl", "image", "laser"])


@st.composite
def packet_list(draw):
    n = draw(st.integers(1, 14))
    out = [{"epoch_timestamp": draw(STAMPS), "category": draw(CATEGORIES),
            "data": [{"id": i, "text": draw(st.sampled_from(["", "é", "a\"b", "x\n"]))}]}
           for i in range(n)]
    if draw(st.integers(0, 3)) == 0:  # the same reading may be logged twice
        out.insert(draw(st.integers(0, n)), copy.deepcopy(draw(st.sampled_from(out))))
    return out


def in_order(packets):
    """stable chronological order, from the definition"""
    return [p for _, p in sorted(enumerate(packets),
                                 key=lambda q: (float(q[1]["epoch_timestamp"]), q[0]))]


@sub("C06", "interlace", packet_list(), quick=2500, thorough=60000,
     rule="at least three packets that are not yet in order")
def interlace(ps, t):
    d = t.scratch()
    (d / "nav.json").write_text(json.dumps(ps))
    parse_interlacer(d, "nav.json")
    got = json.loads((d / "nav.json").read_text())
    require(len(got) == len(ps), "%d packets, expected %d" % (len(got), len(ps)))
    require(sorted(json.dumps(p, sort_keys=True) for p in got) == sorted(
        json.dumps(p, sort_keys=True) for p in ps), "packets were lost, repeated or changed")
    ts = [float(p["epoch_timestamp"]) for p in got]
    require(ts == sorted(ts), lambda: "not in time order: %s" % ts)
    require(got == in_order(ps), "packets with equal time stamps changed their order")
    # a second pass changes nothing
    parse_interlacer(d, "nav.json")
    require(json.loads((d / "nav.json").read_text()) == got, "interlacing is not idempotent")
    t.nontrivial(len(ps) >= 3 and ps != got)
    t.label("equal time stamps", len(set(ts)) < len(ts))


@st.composite
def dives(draw):
    n = draw(st.integers(1, 4))
    base = draw(st.integers(1_300_000_000, 1_700_000_000))
    origin = (draw(nice(-80, 80, 4)), draw(nice(-179, 179, 4)))
    out = []
    for k in range(n):
        start = base + draw(st.integers(-40000, 40000))
        ps = []
        for i in range(draw(st.integers(0, 8))):
            t = start + draw(nice(0, 5000, 2))
            kind = draw(st.sampled_from(["image", "image", "laser", "depth", "seaxerocks"]))
            p = {"epoch_timestamp": t, "category": kind, "class": "measurement"}
            if kind == "image":
                p["camera1"] = [{"epoch_timestamp": t, "filename": "image/LC/%d.tif" % i}]
                if draw(st.booleans()):
                    p["camera2"] = [{"epoch_timestamp": t, "filename": "image/RC/%d.tif" % i}]
            elif kind == "seaxerocks":
                p["category"] = "image"
                for c in ("camera1", "camera2", "camera3"):
                    p[c] = [{"epoch_timestamp": t, "filename": "%s/%d.tif" % (c, i)}]
            elif kind == "laser":
                p["filename"] = "image/LM/%d.tif" % i
            else:
                p["data"] = [{"depth": i + 0.5, "depth_std": 0.1}]
            ps.append(p)
        other = draw(st.sampled_from([False] * 9 + [True])) and k > 0
        # the dives may lie in different cruises
        out.append({"start": start, "packets": ps, "origin": (origin[0], origin[1] + 0.5) if other
                    else origin})
    names = set()
    for d in out:
        while d["start"] in names:
            d["start"] += 1
        names.add(d["start"])
    return {"dives": out, "order": draw(st.permutations(range(n)))}


def origin_packet(o):
    return {"epoch_timestamp": 0.0, "class": "origin", "category": "origin",
            "data": [{"latitude": o[0], "longitude": o[1], "crs": "wgs84", "date": "2020/03/02"}]}


def name_of(d):
    s = navgen.stamp(d["start"])
    return "%s_%s_vehicle" % (s[:8], s[8:])


@sub("C06", "merge", dives(), quick=600, thorough=12000, max_s=40,
     rule="at least two dives that overlap in time or are not given in time order, and image packets")
def merge(c, t):
    root = t.scratch()
    ds = [c["dives"][i] for i in c["order"]]
    files = {}
    for d in ds:
        raw = root / "raw" / "cruise" / name_of(d)
        nav = root / "processed" / "cruise" / name_of(d) / "nav"
        raw.mkdir(parents=True)
        nav.mkdir(parents=True)
        for f in ("mission.yaml", "vehicle.yaml", "camera.yaml"):
            (raw / f).write_text("dive: %s\nfile: %s\n" % (name_of(d), f))
        body = in_order(d["packets"])
        text = json.dumps([origin_packet(d["origin"])] + body)
        (nav / "nav_standard.json").write_text(text)
        files[nav / "nav_standard.json"] = text
    paths = [str(root / "raw" / "cruise" / name_of(d)) for d in ds]
    differ = len({d["origin"] for d in ds}) > 1
    try:
        cli.nav_parse(paths, merge=True)
    except SystemExit:
        require(differ and len(ds) > 1, "merging dives of one origin was refused")
        merged = list((root / "processed" / "cruise").glob("*_merged/nav/nav_standard.json"))
        require(not merged, "a merged file was written although the origins differ")
        t.nontrivial(True, "origins differ")
        return
    for f, text in files.items():
        require(f.read_text() == text, "merging changed the file of a single dive")
    merged = sorted((root / "processed" / "cruise").glob("*_merged"))
    if len(ds) == 1:
        require(not merged, "a single dive was merged")
        return
    require(not differ, "dives with different origins were merged")
    s = sorted(d["start"] for d in ds)
    want_name = "%s_%s_merged" % (navgen.stamp(s[0]), navgen.stamp(s[-1]))
    require([m.name for m in merged] == [want_name],
            "merged folder %s, expected %s" % ([m.name for m in merged], want_name))
    got = json.loads((merged[0] / "nav" / "nav_standard.json").read_text())
    want = [origin_packet(ds[0]["origin"])]
    for d in ds:
        pre = name_of(d) + "/"
        for p in in_order(copy.deepcopy(d["packets"])):
            for cam in ("camera1", "camera2", "camera3"):
                if cam in p:
                    p[cam][0]["filename"] = pre + p[cam][0]["filename"]
            if p["category"] == "laser":
                p["filename"] = pre + p["filename"]
            want.append(p)
    require(got == in_order(want), lambda: "merged packets %s, expected %s" % (
        json.dumps(got)[:800], json.dumps(in_order(want))[:800]))
    for f in ("mission.yaml", "vehicle.yaml", "camera.yaml"):
        m = merged[0] / f
        require(m.exists(), f + " of the merged dive is missing")
        require(yaml.safe_load(m.read_text()) == {"dive": name_of(ds[0]), "file": f},
                f + " of the merged dive is not that of the first dive")
    imgs = sum(p["category"] in ("image", "laser") for d in ds for p in d["packets"])
    t.nontrivial(imgs >= 2)
    t.label("dives not in time order", [d["start"] for d in ds] != s)
