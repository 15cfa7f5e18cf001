"""C13: USBL and ship logs become one position fix per valid report, in metres and UTC."""
import math
from datetime import datetime, timedelta

import yaml
from hypothesis import strategies as st

import rawgen
from checks.c03_time import HostTz
from gen import nice
from pbt import angdiff, fail, require, require_close, sub

from auv_nav.parsers.parse_gaps import parse_gaps
from auv_nav.parsers.parse_NOC_nmea import parse_NOC_nmea
from auv_nav.parsers import parse_sonardyne_mrt as sonardyne
from auv_nav.parsers.parse_usbl_dump import parse_usbl_dump
from auv_nav.sensors import Category
from auv_nav.tools.latlon_wgs84 import latlon_to_metres
from oplab import Mission, Vehicle


@st.composite
def place(draw):
    return (draw(nice(-70, 70, 4)), draw(nice(-179, 179, 4)))


@st.composite
def common(draw):
    return {"zone": draw(st.sampled_from(rawgen.ZONES)), "offset": draw(st.sampled_from(
        [0.0, 0.0, 2.5, -30.0])), "factor": draw(nice(0, 0.1, 3)), "std": draw(nice(0.1, 10, 1)),
        "origin": draw(place()), "t0": draw(st.integers(1200000000, 1700000000)),
        "label": draw(st.integers(1, 9)), "others": draw(st.permutations([0, 1, 2, 3, 4]))}


def other(c, k=0):
    """the number of another beacon than the vehicle's: the next one, or one that contains its digits"""
    n = c["label"]
    return (n + 1, 10 + n, 10 * n, 20 + n, 100 * n + 10 + n)[c["others"][k % 5]]


near = st.tuples(nice(-0.02, 0.02, 5), nice(-0.02, 0.02, 5))


def mission(root, c, fmt, label, filename=""):
    raw = root / "raw" / "y" / "dive"
    (raw / "usbl").mkdir(parents=True, exist_ok=True)
    m = {"version": 1, "origin": {"latitude": c["origin"][0], "longitude": c["origin"][1],
                                  "coordinate_reference_system": "wgs84", "date": "2020/03/02"},
         "usbl": {"format": fmt, "filepath": "usbl/", "filename": filename, "timezone": c["zone"][0],
                  "timeoffset": c["offset"], "label": label, "std_factor": c["factor"],
                  "std_offset": c["std"]}}
    (raw / "mission.yaml").write_text(yaml.safe_dump(m))
    (raw / "vehicle.yaml").write_text(yaml.safe_dump({k: rawgen.frame() for k in rawgen.FRAMES}))
    out = root / "processed" / "y" / "dive" / "nav"
    out.mkdir(parents=True, exist_ok=True)
    return Mission(raw / "mission.yaml"), Vehicle(raw / "vehicle.yaml"), out, raw / "usbl"


def metres(lat, lon, c):
    d, b = latlon_to_metres(lat, lon, *c["origin"])
    return d * math.cos(math.radians(b)), d * math.sin(math.radians(b))


def check_target(p, c, t, lat, lon, depth, sigma, what):
    require(p["category"] == "usbl", "%s: category %r" % (what, p["category"]))
    require_close(p["epoch_timestamp"], t, what + ": time", 0, 2e-3)
    d = {}
    for x in p["data_target"]:
        d.update(x)
    require_close([d["latitude"], d["longitude"]], [lat, lon], what + ": position", 0, 2e-8)
    n, e = metres(lat, lon, c)
    require_close([d["northings"], d["eastings"]], [n, e], what + ": metres from the origin", 1e-5, 0.05)
    require_close(d["depth"], depth, what + ": depth", 0, 1e-6)
    require_close([d["northings_std"], d["eastings_std"], d["depth_std"]], [sigma] * 3,
                  what + ": uncertainty in metres", 1e-3, 1e-3)
    # the same uncertainty in degrees: one degree is between 110.5 and 111.8 km, times cos(latitude)
    require(0.98 * sigma / 111300 <= d["latitude_std"] <= 1.02 * sigma / 111300 + 1e-9,
            "%s: latitude uncertainty %r degrees for %r m" % (what, d["latitude_std"], sigma))
    k = 111300 * math.cos(math.radians(lat))
    require(0.97 * sigma / k <= d["longitude_std"] <= 1.03 * sigma / k + 1e-9,
            "%s: longitude uncertainty %r degrees for %r m" % (what, d["longitude_std"], sigma))
    return d


# ------------------------------------------------------------------ GAPS
@st.composite
def gaps_case(draw):
    c = draw(common())
    t = float(c["t0"])
    items = []  # (kind, ...)
    base = draw(place())

    def ship():
        nonlocal t
        t = round(t + draw(nice(0.2, 4, 2)), 2)
        d = draw(near)
        return ("ship", t, base[0] + d[0], base[1] + d[1], draw(nice(0, 359.9, 1)),
                draw(st.booleans()))

    for _ in range(draw(st.integers(1, 5))):
        for _ in range(draw(st.integers(1, 3))):
            items.append(ship())
        for _ in range(draw(st.integers(1, 2))):
            t = round(t + draw(nice(0.05, 2, 2)), 2)
            d = draw(near)
            items.append(("fix", t, base[0] + d[0], base[1] + d[1], draw(nice(1, 4000, 1)),
                          draw(st.sampled_from(["ok"] * 5 + ["other beacon", "no F", "bad", "bad 2"]))))
        items.append(ship())
        if draw(st.booleans()):
            items.append(("noise", draw(st.sampled_from(["", "$GPGGA,1,2,3", "garbage", "$PTSAX,1"]))))
    if draw(st.booleans()):  # recording stops at any point
        items = items[:draw(st.integers(1, len(items)))]
    cuts = sorted(draw(st.lists(st.integers(0, len(items)), max_size=3)))
    c.update(items=items, cuts=cuts, names=draw(st.permutations([0, 1, 2, 3])), arrows=draw(st.booleans()))
    return c


def dm(x, width):
    a = abs(x)
    d = int(a)
    m = round((a - d) * 60, 5)
    if m >= 60:
        d, m = d + 1, 0.0
    return "%0*d%08.5f" % (width, d, m), math.copysign(d + m / 60, x)


def clock(t, zone):
    d = datetime(1970, 1, 1) + timedelta(milliseconds=round(t * 1000)) + timedelta(hours=zone)
    return d, d.strftime("%H%M%S.") + "%03d" % (d.microsecond // 1000)


def ptsag(t, zone, ident, lat, lon, status, depth, quality, arrows):
    d, hms = clock(t, zone)
    la, lo = dm(lat, 2)[0], dm(lon, 3)[0]
    body = "PTSAG,#00123,%s,%02d,%02d,%04d,%s,%s,%s,%s,%s,%s,%.1f,%s,%.1f" % (
        hms, d.day, d.month, d.year, ident, la, "N" if lat >= 0 else "S", lo,
        "E" if lon >= 0 else "W", status, depth, quality, depth)
    return ("<< " if arrows else "") + rawgen.telegram(body)


def gaps_lines(c):
    out = []
    for it in c["items"]:
        if it[0] == "noise":
            out.append([it[1]])
        elif it[0] == "ship":
            _, t, la, lo, hd, first = it
            a = ptsag(t - c["offset"], c["zone"][1], "0", la, lo, "F", 0.0, "0", c["arrows"])
            b = ("<< " if c["arrows"] else "") + rawgen.telegram("HEHDT,%.1f,T" % hd)
            out.append([a, b] if first else [b, a])
        else:
            _, t, la, lo, depth, kind = it
            ident = c["label"] if kind != "other beacon" else other(c, len(out))
            out.append([ptsag(t - c["offset"], c["zone"][1], ident, la, lo,
                              "C" if kind == "no F" else "F", depth, {"bad": "0", "bad 2": "2"}.get(kind, "1"),
                              c["arrows"])])
    return out


def gaps_model(items):
    """(fix, ship before, ship after) of each fix that is reported: the first valid one after a
    ship position since the last report"""
    prior = pending = None
    res = []
    for it in items:
        if it[0] == "ship":
            if pending is not None:
                res.append((pending, prior, it))
                prior = pending = None
            else:
                prior = it
        elif it[0] == "fix" and it[5] != "other beacon" and prior is not None and pending is None:
            if it[5] in ("no F", "bad", "bad 2"):
                prior = None
            else:
                pending = it
    return res


@sub("C13", "gaps", gaps_case(), quick=400, thorough=10000, shards=3,
     rule="at least two fixes are reported, or reports of other beacons or invalid reports occur")
def gaps(c, t):
    m, v, out, folder = mission(t.scratch(), c, "gaps", c["label"])
    lines = gaps_lines(c)
    ends = [0] + c["cuts"] + [len(lines)]
    want, files = [], []
    for k, (a, b) in enumerate(zip(ends, ends[1:])):
        if a == b:
            continue
        files.append((c["names"][k], k, "\r\n".join(x for g in lines[a:b] for x in g) + "\r\n"))
        want += gaps_model(c["items"][a:b])
    for n, k, text in sorted(files):  # created in any order
        (folder / ("log%d.dat" % k)).write_text(text)
    (folder / "readme.txt").write_text("not a log\n")
    got = parse_gaps(m, v, Category.USBL, "oplab", out)
    require(len(got) == len(want), lambda: "%d fixes, expected %d: %s" % (
        len(got), len(want), [g["epoch_timestamp"] for g in got]))
    for p, (fix, s0, s1) in zip(sorted(got, key=lambda g: g["epoch_timestamp"]), want):
        la, lo = dm(fix[2], 2)[1], dm(fix[3], 3)[1]
        w = (fix[1] - s0[1]) / (s1[1] - s0[1])
        slat = dm(s0[2], 2)[1] * (1 - w) + dm(s1[2], 2)[1] * w
        slon = dm(s0[3], 3)[1] * (1 - w) + dm(s1[3], 3)[1] * w
        lateral = latlon_to_metres(la, lo, slat, slon)[0]
        dist = math.hypot(lateral, fix[4])
        d = check_target(p, c, fix[1], la, lo, fix[4], c["factor"] * dist + c["std"], "gaps")
        require_close(d["distance_to_ship"], dist, "slant range", 1e-4, 0.05)
        sh = p["data_ship"]
        require_close([sh[0]["latitude"], sh[0]["longitude"]], [slat, slon], "ship position", 0, 1e-6)
        require_close([sh[1]["northings"], sh[1]["eastings"]], metres(slat, slon, c), "ship metres",
                      1e-4, 0.1)
        turn = angdiff(s1[4], s0[4])
        require(0 <= sh[2]["heading"] <= 360, "ship heading %r is not between 0 and 360" % sh[2]["heading"])
        if abs(abs(turn) - 180) > 0.5:
            require(abs(angdiff(sh[2]["heading"], s0[4] + w * turn)) < 0.02, lambda: "ship heading %r "
                    "between %r and %r (weight %r)" % (sh[2]["heading"], s0[4], s1[4], w))
        t.label("heading through north", abs(s1[4] - s0[4]) > 180)
    dep = parse_gaps(m, v, Category.DEPTH, "oplab", out)
    require(sorted((g["epoch_timestamp"], g["data"][0]["depth"]) for g in dep)
            == sorted((g["epoch_timestamp"], g["data_target"][4]["depth"]) for g in got),
            "depths of the fixes differ from the fixes")
    t.label("several files", len(files) > 1)
    t.nontrivial(len(want) > 1 or any(i[0] == "fix" and i[5] != "ok" for i in c["items"]))


# ------------------------------------------------------------------ usbl dump and NMEA
@st.composite
def dump_case(draw):
    c = draw(common())
    rows = []
    t = c["t0"]
    base = draw(place())
    for _ in range(draw(st.integers(1, 10))):
        t += draw(st.integers(1, 4000))
        d = draw(near)
        rows.append({"t": t, "lat": round(base[0] + d[0], 5), "lon": round(base[1] + d[1], 5),
                     "depth": draw(nice(0, 4000, 1)), "range": draw(nice(1, 5000, 1)),
                     "ms": draw(st.integers(0, 999)), "kind": draw(st.sampled_from(
                         ["ok"] * 5 + ["other", "empty", "broken"]))})
    c.update(rows=rows, cut=draw(st.integers(0, 10)), names=draw(st.permutations(["fix.txt", "a.nmea"])))
    return c


def dump_pos(x, pos, neg):
    a = abs(x)
    d = int(a)
    m = round((a - d) * 60, 6)
    return "%d-%.6f %s" % (d, m, pos if x >= 0 else neg)


@sub("C13", "dump_and_nmea", dump_case(), quick=400, thorough=10000, shards=3,
     rule="at least one valid report, and a western or southern position or a report to be ignored")
def dump(c, t):
    root = t.scratch()
    m, v, out, folder = mission(root, c, "usbl_dump", "T%d" % c["label"], "dump.csv")
    text = []
    for i, r in enumerate(c["rows"]):
        d, _ = clock(r["t"] - c["offset"] - (c["offset"] % 1), c["zone"][1])
        text.append(",".join([
            d.strftime("%Y-%m-%d"), d.strftime("%H:%M:%S"),
            "T%d" % (other(c, i) if r["kind"] in ("other", "broken") else c["label"]), "x", "y", "z",
            "" if r["kind"] == "empty" else dump_pos(r["lat"], "N", "S"),
            "" if r["kind"] == "empty" else dump_pos(r["lon"], "E", "W"),
            "D=%.1f" % r["depth"], "H=12.5", "B=30.0", "R=%.1f" % r["range"]]))
    (folder / "dump.csv").write_text("\n".join(text) + "\n")
    got = parse_usbl_dump(m, v, Category.USBL, "oplab", out)
    want = [r for r in c["rows"] if r["kind"] == "ok"]
    require(len(got) == len(want), "usbl_dump: %d fixes for %d valid reports" % (len(got), len(want)))
    for p, r in zip(got, want):
        d = check_target(p, c, r["t"] - c["offset"] % 1, r["lat"], r["lon"], r["depth"],
                         c["factor"] * r["range"] + c["std"], "usbl_dump")
        require_close(d["distance_to_ship"], r["range"], "slant range")

    m, v, out, folder = mission(root / "n", c, "NOC_nmea", c["label"])
    text = []
    for i, r in enumerate(c["rows"]):
        d, hms = clock(r["t"] + r["ms"] / 1000 - c["offset"], c["zone"][1])
        if r["kind"] == "empty":
            text.append("a line without a sentence")
            continue
        text.append("%s %s\t%s" % (d.strftime("%d/%m/%Y"), d.strftime("%H:%M:%S"), rawgen.gga(
            hms, r["lat"], r["lon"], -r["depth"], (other(c, i) if i % 3 else 0) if r["kind"] == "other" else c["label"], r["kind"] == "broken")))
    k = c["cut"] % (len(text) + 1)
    for name, part in zip(c["names"], (text[:k], text[k:])):
        (folder / name).write_text("\n".join(part) + "\n")
    t.label("several files", 0 < k < len(text))
    got = sorted(parse_NOC_nmea(m, v, Category.USBL, "oplab", out), key=lambda g: g["epoch_timestamp"])
    require(len(got) == len(want), "NOC_nmea: %d fixes for %d valid reports" % (len(got), len(want)))
    for p, r in zip(got, want):
        check_target(p, c, r["t"] + r["ms"] / 1000, r["lat"], r["lon"], r["depth"],
                     c["factor"] * r["depth"] + c["std"], "NOC_nmea")
    south = any(r["lat"] < 0 for r in want)
    west = any(r["lon"] < 0 for r in want)
    t.label("south", south)
    t.label("west", west)
    t.nontrivial(bool(want) and (south or west or len(want) < len(c["rows"])))


# ------------------------------------------------------------------ Sonardyne
@st.composite
def sonar_case(draw):
    c = draw(common())
    base, t = draw(place()), float(c["t0"])
    rows = []
    for _ in range(draw(st.integers(2, 14))):
        t = round(t + draw(st.sampled_from([0.001, 0.25, 1.0, 1.7, 60.0, 20000.0])), 3)
        d = draw(near)
        rows.append({"kind": draw(st.sampled_from(["AUV"] * 3 + ["ship", "ship", "heading", "heading", "AUV 2",
                                                                "JobData", "Event", "DepthObs"])),
                     "t": t, "lat": round(base[0] + d[0], 7), "lon": round(base[1] + d[1], 7),
                     "depth": draw(nice(0, 4000, 2)), "hd": draw(nice(0, 359.9, 1)),
                     "id": draw(st.sampled_from(["mine", "mine", "other"])),
                     "bad": draw(st.sampled_from([None] * 5 + ["", "half a line", "not a number"]))})
    # an MRT log always has some ship position and heading
    for k in ("ship", "heading"):
        t = round(t + draw(st.sampled_from([0.25, 5.0])), 3)
        rows.append({"kind": k, "t": t, "lat": base[0], "lon": base[1], "depth": 0.0, "hd": draw(nice(0, 359.9, 1)),
                     "id": "mine", "bad": None})
    c.update(rows=rows, parts=draw(st.integers(1, 3)), order=draw(st.randoms(use_true_random=False)).sample(
        range(len(rows)), len(rows)) if draw(st.booleans()) else list(range(len(rows))),
        layout=draw(st.integers(1, 4)), host=draw(st.sampled_from(["UTC", "UTC", "Asia/Tokyo", "America/New_York", "Europe/London"])))
    return c


def mrt_line(r, when):
    head = lambda name, src: [name, "u1", "s1", src, "p1", "parent", "a1", when, "f1", "7"]
    k = r["kind"]
    if k in ("AUV", "AUV 2", "ship"):
        src = {"AUV": "AUV 1", "ship": "GNSS 1"}.get(k, k)
        return head("LatLongObs", src) + ["%.7f" % r["lat"], "%.7f" % r["lon"], "%.2f" % -r["depth"], "1", "1", "1"]
    if k == "heading":
        return head("PitchRollHeadingObs", "MRT-USBL") + ["1.5", "-2.5", "%.1f" % r["hd"], "1", "1", "1"]
    if k == "JobData":
        return ["JobData", "a", "b", "c"]
    if k == "Event":
        return head("Event", "AUV 1") + ["type", "a message", " with a comma"]
    return head("DepthObs", "AUV 1") + ["%.2f" % r["depth"], "1"]


@sub("C13", "sonardyne_mrt", sonar_case(), quick=250, thorough=6000, shards=3,
     rule="at least two AUV fixes, with another record between them or a host or mission time zone")
def sonardyne_mrt(c, t):
    root = t.scratch()
    m, v, out, folder = mission(root, c, "sonardyne_mrt", c["label"], "job.csv")
    rows = c["rows"]
    header = ["Time,Display,x,System,y"] + ["header %d" % i for i in range(35)]
    (folder / "job.csv").write_text("\n".join(header) + "\n")
    n = -(-len(rows) // c["parts"])
    for i in range(c["parts"]):
        text = list(header)
        for j in c["order"][i * n:(i + 1) * n]:
            r = rows[j]
            d, _ = clock(r["t"] - c["offset"], c["zone"][1])
            text.append(",".join(mrt_line(r, d.strftime("%Y-%m-%d %H:%M:%S.%f"))))
        (folder / ("job_%d.csv" % (i + 1))).write_text("\n".join(text) + "\n")
    with HostTz(c["host"]):
        got = sonardyne.parse_sonardyne_mrt(m, v, Category.USBL, "oplab", out)
    want = [r for r in rows if r["kind"] == "AUV"]
    require(len(got) == len(want), "sonardyne_mrt: %d fixes for %d AUV positions" % (len(got), len(want)))
    for p, r in zip(got, want):
        d = {}
        for x in p["data_ship"]:
            d.update(x)

        def nearest(kind):
            q = [x for x in rows if x["kind"] == kind]
            best = min(abs(x["t"] - r["t"]) for x in q)
            return [x for x in q if abs(x["t"] - r["t"]) < best + 1e-5]

        ships = nearest("ship")
        ship = [s for s in ships if abs(s["lat"] - d["latitude"]) < 1e-6 and abs(s["lon"] - d["longitude"]) < 1e-6]
        require(ship, lambda: "sonardyne_mrt: ship position %s, closest in time is %s" % (d, ships))
        require(any(abs(x["hd"] - d["heading"]) < 1e-6 for x in nearest("heading")),
                lambda: "sonardyne_mrt: ship heading %s is not the closest in time" % d["heading"])
        n_, e_ = metres(ship[0]["lat"], ship[0]["lon"], c)
        require_close([d["northings"], d["eastings"]], [n_, e_], "sonardyne_mrt: ship in metres", 1e-5, 0.05)
        lateral, _ = latlon_to_metres(r["lat"], r["lon"], ship[0]["lat"], ship[0]["lon"])
        slant = math.hypot(lateral, r["depth"])
        q = check_target(p, c, r["t"], r["lat"], r["lon"], r["depth"], c["factor"] * slant + c["std"], "sonardyne_mrt")
        require_close(q["distance_to_ship"], slant, "sonardyne_mrt: slant range", 1e-6, 1e-3)
    t.label("host zone", c["host"] != "UTC")
    t.label("unordered records", c["order"] != sorted(c["order"]))
    t.nontrivial(len(want) > 1 and (len(want) < len(rows) - 2 or c["host"] != "UTC" or c["zone"][1] != 0))


def gga_fields(lat, lon, ident):
    return [dm(lat, 2)[0], "N" if lat >= 0 else "S", dm(lon, 3)[0], "E" if lon >= 0 else "W"]


# where the beacon number is, and what comes before the position, in the four layouts the parser supports
def gga_line(layout, r, d, ident):
    body = gga_fields(r["lat"], r["lon"], ident)
    hms = d.strftime("%H%M%S.%f")[:-4]
    if layout == 1:  # clock time in front; number in the quality field
        f = ["$GPGGA", hms] + body + [str(ident), "08", "1.0", "0.0", "M", "", "M", "", "0001"]
        return "Rx %s COM1 %s*5A" % (d.strftime("%H:%M:%S.%f")[:-3], ",".join(f))
    if layout == 4:  # as 1, number in the reference-station field
        f = ["$GPGGA", hms] + body + ["2", "08", "1.0", "0.0", "M", "", "M", "", str(ident)]
        return "Rx %s COM1 %s*5A" % (d.strftime("%H:%M:%S.%f")[:-3], ",".join(f))
    f = ["$GPGGA", hms] + body + ["2", "08", "1.0", "0.0", "M", "", "M"]
    f += [str(ident)] if layout == 2 else ["", str(ident)]
    stamp = d.strftime("%Y/%m/%d %H:%M:%S.%f")[:-3]
    return "%s a b c d %s*5A" % (stamp, ",".join(f))


@sub("C13", "sonardyne_gga", sonar_case(), quick=250, thorough=6000, shards=3,
     rule="at least one report of the beacon, and a southern or western position, another beacon or a damaged line")
def sonardyne_gga(c, t):
    rows = c["rows"]
    c = dict(c, offset=0.0)
    for layout, name, fn in ((1, "%s_GGAlsq.txt", sonardyne.parse_sonardyne_gga),
                             (2, "CommsLog_GNSS_%s.txt", sonardyne.parse_sonardyne_gga2),
                             (3, "GGAPosition.txt", sonardyne.parse_sonardyne_gga3),
                             (4, "%s_GGA.txt", sonardyne.parse_sonardyne_gga4)):
        if layout != c["layout"]:
            continue
        root = t.scratch()
        m, v, out, folder = mission(root, c, "sonardyne_gga", c["label"])
        m.usbl.field_id = c["label"]
        files = {}
        want = []
        for i, r in enumerate(rows):
            d, _ = clock(r["t"], c["zone"][1])
            s = gga_line(layout, r, d, other(c, i) if r["id"] == "other" else c["label"])
            if r["bad"] == "half a line":
                s = s[:len(s) // 2 - 5]
            elif r["bad"] == "not a number":
                s = s.replace("N,", "x,").replace("S,", "x,").replace(dm(r["lat"], 2)[0], "xxxx")
            elif r["bad"] == "":
                s = ""
            elif r["id"] == "mine":
                want.append(r)
            day = d.strftime("%Y%m%d")
            files.setdefault(name % day if "%s" in name else name, []).append(s)
        for f, text in files.items():
            (folder / f).write_text("\n".join(text) + "\n")
        with HostTz(c["host"]):
            got = fn(m, v, Category.USBL, "oplab", out)
        what = "sonardyne_gga layout %d" % layout
        require(len(got) == len(want), "%s: %d fixes for %d reports of the beacon" % (what, len(got), len(want)))
        for p, r in zip(got, want):
            require(p["category"] == "usbl", what)
            require_close(p["epoch_timestamp"], r["t"], what + ": time", 0, 2e-3)
            d = {}
            for x in p["data_target"]:
                d.update(x)
            require_close([d["latitude"], d["longitude"]], [r["lat"], r["lon"]], what + ": position", 0, 2e-8)
            require_close([d["northings"], d["eastings"]], list(metres(r["lat"], r["lon"], c)),
                          what + ": metres from the origin", 1e-5, 0.05)
    t.label("layout %d" % c["layout"])
    t.label("host zone", c["host"] != "UTC")
    t.nontrivial(any(r["id"] == "mine" and not r["bad"] for r in rows) and any(
        r["lat"] < 0 or r["lon"] < 0 or r["bad"] or r["id"] == "other" for r in rows))
