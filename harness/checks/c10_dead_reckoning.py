"""C10: `auv_nav process` integrates velocities into the track, and places everything on it."""
import math

import numpy as np
from geographiclib.geodesic import Geodesic
from hypothesis import strategies as st

import cli
import navgen
from navgen import dive, read_csv, reference, rot, wrap
from pbt import angdiff, fail, require, require_close, sub

from auv_nav.localisation.dead_reckoning import dead_reckoning
from gen import fl

G = Geodesic.WGS84


@sub("C10", "step", st.fixed_dictionaries({
    "t": fl(1e9, 2e9), "dt": fl(1e-3, 100), "vn": st.tuples(fl(-5, 5), fl(-5, 5)),
    "ve": st.tuples(fl(-5, 5), fl(-5, 5)), "p": st.tuples(fl(-1e4, 1e4), fl(-1e4, 1e4))}),
    quick=1500, thorough=30000, rule="velocities differ and are not zero")
def step(c, t):
    t1 = c["t"] + c["dt"]
    n, e = dead_reckoning(t1, c["t"], c["vn"][1], c["vn"][0], c["ve"][1], c["ve"][0], *c["p"])
    dt = t1 - c["t"]
    require_close([n, e], [c["p"][0] + dt * sum(c["vn"]) / 2, c["p"][1] + dt * sum(c["ve"]) / 2],
                  "trapezoidal step", 1e-9, 1e-9)
    t.nontrivial(c["vn"][0] != c["vn"][1] and c["ve"][0] != c["ve"][1])


@st.composite
def case(draw):
    c = draw(dive(extra=True))
    # process the whole dive, or a window of it
    w = draw(st.sampled_from(["all", "all", "start", "finish", "both"]))
    span = int(c["t1"] - c["t0"])
    a = draw(st.integers(0, max(0, span // 3)))
    b = draw(st.integers(0, max(0, span // 3)))
    c["start"] = int(c["t0"]) + a if w in ("start", "both") else None
    c["finish"] = int(c["t1"]) - b if w in ("finish", "both") else None
    return c


def num(x):
    return None if x in ("None", "") else float(x)


def run(c, t, loc=None):
    root = t.scratch()
    raw, pro, cfg = navgen.write_dive(root, c, loc)
    ps = [p["epoch_timestamp"] for p in navgen.packets(c)]
    lo = c["start"] if c["start"] is not None else ps[1]
    hi = c["finish"] if c["finish"] is not None else ps[-1]
    if reference(c, lo, hi, 1) is None:
        return None
    cli.nav_process(raw, False, "" if c["start"] is None else navgen.stamp(c["start"]),
                    "" if c["finish"] is None else navgen.stamp(c["finish"]))
    s, f = navgen.stamp(lo), navgen.stamp(hi)
    out = pro / ("json_renav_%s_%s_%s_%s" % (s[:8], s[8:], f[:8], f[8:]))
    require(out.is_dir(), "output folder %s is missing, found %s" % (
        out.name, [p.name for p in pro.glob("json_renav*")]))
    return raw, pro, out, lo, hi


def table(path, what):
    require(path.exists(), "%s was not written (%s)" % (what, path.name))
    return read_csv(path)[0]


def close_rows(rows, want, what, tol=1e-6):
    """rows of a navigation csv against the reference; want: (t, n, e, d, att, alt)"""
    key = "timestamp [s]" if rows and "timestamp [s]" in rows[0] else "timestamp"
    require(len(rows) == len(want), "%s: %d rows, expected %d (%s vs %s)" % (
        what, len(rows), len(want), [r[key] for r in rows][:4], [w[0] for w in want][:4]))
    for r, (tt, n, e, d, att, alt) in zip(rows, want):
        require_close(num(r[key]), tt, what + ": time stamp", 0, 1e-6)
        require_close([num(r["northing [m]"]), num(r["easting [m]"])], [n, e],
                      "%s: position at %r" % (what, tt), 0, tol)
        if d is not None:
            require_close(num(r["depth [m]"]), d, "%s: depth at %r" % (what, tt), 0, tol)
        if alt is not None:
            require_close(num(r["altitude [m]"]), alt, "%s: altitude at %r" % (what, tt), 0, tol)
        if att is not None:
            require_close([num(r["roll [deg]"]), num(r["pitch [deg]"])], att[:2],
                          "%s: roll, pitch at %r" % (what, tt), 0, tol)
            require(abs(angdiff(num(r["heading [deg]"]), att[2])) < tol,
                    "%s: heading %s at %r, expected %r" % (what, r["heading [deg]"], tt, att[2]))


def latlon_ok(rows, ref, what):
    for r in rows:
        n, e = num(r["northing [m]"]), num(r["easting [m]"])
        g = G.Direct(ref[0], ref[1], math.degrees(math.atan2(e, n)), math.hypot(e, n))
        require_close(num(r["latitude [deg]"]), g["lat2"], what + ": latitude", 0, 1e-8)
        require(abs(angdiff(num(r["longitude [deg]"]), g["lon2"])) < 1e-8, what + ": longitude")


def at(track, q, key):
    """the reference track at time q; None outside (or where a sensor is missing)"""
    ts = [x["t"] for x in track]
    if not (ts[0] <= q <= ts[-1]):
        return None
    i = max(1, next(k for k in range(len(ts)) if q <= ts[k]))
    a, b = track[i - 1], track[i]
    x = (q - a["t"]) / (b["t"] - a["t"])
    if key == "att":
        return (a["att"][0] + x * (b["att"][0] - a["att"][0]),
                a["att"][1] + x * (b["att"][1] - a["att"][1]),
                a["att"][2] + x * wrap(b["att"][2] - a["att"][2]))
    if a[key] is None or b[key] is None:
        return None
    return a[key] + x * (b[key] - a[key])


def placed(track, times_, lever, shift):
    out = []
    for q in times_:
        c = at(track, q, "centre")
        if c is None:
            continue
        att = at(track, q, "att")
        o = rot(att) @ np.array(lever)
        d, al = at(track, q, "depth"), at(track, q, "altitude")
        out.append((q, c[0] + o[0] + shift[0], c[1] + o[1] + shift[1],
                    None if d is None else d + o[2], att, None if al is None else al - o[2]))
    return out


@sub("C10", "track", case(), quick=600, thorough=10000, max_s=60, shards=8,
     rule="at least five states and a vehicle that moves and turns (counted apart: USBL shift, "
          "time window, cameras, payload, bad DVL clock)")
def track_(c, t):
    r = run(c, t)
    if r is None:
        return
    raw, pro, out, lo, hi = r
    dr = out / "csv" / "dead_reckoning"
    centre = table(dr / "auv_dr_centre.csv", "track of the vehicle centre")
    dvl = table(dr / "auv_dr_dvl.csv", "track of the DVL")
    # the sign of the lever-arm term is a known finding of C01: either is accepted here
    usbl = [u for u in c["usbl"] if lo <= u[0] <= hi]
    first = (num(centre[0]["northing [m]"]), num(centre[0]["easting [m]"])) if centre else None
    err = None
    for sign in (1, -1):
        ref = reference(c, lo, hi, sign)
        shift = np.zeros(2)
        if usbl and centre:
            # the whole track is shifted by one offset (its value is C11's subject)
            shift = np.array(first) - ref[0]["centre"]
        try:
            close_rows(centre, [(x["t"], x["centre"][0] + shift[0], x["centre"][1] + shift[1],
                                 x["depth"], x["att"], x["altitude"]) for x in ref], "centre")
            close_rows(dvl, [(x["t"], x["dvl"][0] + shift[0], x["dvl"][1] + shift[1],
                              x["depth_raw"], x["att"], x["altitude_raw"]) for x in ref], "dvl")
            err = None
            break
        except AssertionError as e:
            err = err or e
    if err:
        raise err
    F = {k: np.array(v) for k, v in c["frames"].items()}
    o = F["origin"]
    inside = [m for m in c["images"] if lo <= m[0] <= hi]
    overlap = [u for u in usbl if ref[0]["t"] <= u[0] <= ref[-1]["t"]]
    if not c["filter"] and len(overlap) >= 2:
        res = [np.array(u[1:3]) - at(ref, u[0], "centre") for u in overlap]
        lo_, hi_ = np.min(res, 0) - 1e-6, np.max(res, 0) + 1e-6
        require(np.all(shift >= lo_) and np.all(shift <= hi_),
                lambda: "USBL shift %s is not a mean of the residuals %s" % (shift, res))
    if usbl and np.any(np.abs(shift) > 1e-6):
        latlon_ok(centre, c["ref"], "centre")
        latlon_ok(dvl, c["ref"], "dvl")
    jobs = [("auv_dr_LC.csv", [m[0] for m in inside], "LC", c["cams"] >= 1),
            ("auv_dr_RC.csv", [m[1] for m in inside], "RC", c["cams"] >= 2),
            ("auv_dr_%s.csv" % (navgen.laser(c) or ["none"])[0], [x for x in c["laser"] if lo <= x <= hi], "LM",
             bool(c["laser"])),
            ("chem_dr.csv", [q + c.get("poffset", 0.0) for q in c["ptimes"]], "RC", c["payload"])]
    for name, ts, cam, on in jobs:
        if not on or len(ts) < 2 or ts[0] > ref[-1]["t"] or ts[-1] < ref[0]["t"]:
            continue
        want = placed(ref, ts, F[navgen.laser(c)[1] if cam == "LM" else cam] - o, shift)
        if len(want) < 2:
            continue
        rows = table(dr / name, name)
        if cam == "RC" and name.startswith("chem"):
            require(len(rows) == len(want), "payload rows: %d, expected %d" % (len(rows), len(want)))
            for row, w in zip(rows, want):
                i = min(range(len(ts)), key=lambda k: abs(ts[k] - w[0]))
                require_close([num(row["corrected_timestamp"]), num(row["PH"]), num(row["ORP"])],
                              [c["ptimes"][i], 7 + 0.01 * i, 100.0 + i], "payload data stay with their time")
                row["timestamp"] = repr(ts[i])
            close_rows(rows, [(w[0], w[1], w[2], w[3], None, w[5]) for w in want], name, 1e-4)
            t.label("payload")
        else:
            close_rows(rows, want, name, 1e-4)
            alln = {"LC": [m[0] for m in c["images"]], "RC": [m[1] for m in c["images"]],
                    "LM": c["laser"]}[cam]
            for row, w in zip(rows, want):
                i = min(range(len(alln)), key=lambda k: abs(alln[k] - w[0]))
                require(row["relative_path"] == "image/%s/%06d.png" % (cam, i),
                        "%s: file %s at %r" % (name, row["relative_path"], w[0]))
            t.label("camera " + (cam if cam != "LM" else "laser seen by " + navgen.laser(c)[1]))
        latlon_ok(rows, c["ref"], name)
    # the sensor files list exactly the samples inside the window, with the uncertainty model
    sv = out / "csv" / "sensor_values_and_uncertainties"
    lin_ = c["std"] == "linear"

    def unc(x, own):
        return 0.25 + 0.125 * abs(x) if lin_ else own

    O = {x[0]: x[1] + (unc(x[1][0], 0.02), unc(x[1][1], 0.03), unc(x[1][2], 0.1 + 0.01 * (i % 5)))
         for i, x in enumerate(c["orientation"])}
    D = [(x[0], x[1], unc(x[1], 0.01 * x[1])) for x in c["depth"] if lo <= x[0] <= hi]
    V = [(x[0],) + tuple(x[1]) + (unc(x[1][0], 0.05), unc(x[1][1], 0.06), unc(x[1][2], 0.07))
         for x in navgen.good_velocities(c, lo, hi)]
    for name, want, cols in (
            ("orientation", [(k,) + v for k, v in O.items() if lo <= k <= hi],
             ["roll", "pitch", "yaw", "roll_std", "pitch_std", "yaw_std"]),
            ("depth", D, ["depth", "depth_std"]),
            ("altitude", [x for x in c["altitude"] if lo <= x[0] <= hi], ["altitude"]),
            ("velocity_body", V, ["x_velocity", "y_velocity", "z_velocity", "x_velocity_std",
                                  "y_velocity_std", "z_velocity_std"]),
            ("usbl", [(u[0], u[1], u[2], u[3]) + ((12.75, 12.75) if lin_ else (3.0, 3.0)) + (2.0,)
                      for u in usbl],
             ["northings", "eastings", "depth", "northings_std", "eastings_std", "depth_std"])):
        if len(want) > 1:
            rows = table(sv / (name + ".csv"), name)
            require_close([num(r["epoch_timestamp"]) for r in rows], [w[0] for w in want],
                          "samples in " + name, 0, 1e-6)
            require_close([[num(r[k]) for k in cols] for r in rows], [w[1:] for w in want],
                          "values and uncertainties in " + name, 1e-9, 1e-9)
    sd = ["vehicle_std_roll [deg]", "vehicle_std_pitch [deg]", "vehicle_std_yaw [deg]"]
    sw = ["vehicle_std_vx [m/s]", "vehicle_std_vy [m/s]", "vehicle_std_vz [m/s]"]
    for row in centre + dvl:
        tt = num(row["timestamp"])
        require_close([num(row[k]) for k in sd], O[tt][3:], "attitude uncertainty of the track", 1e-9)
        require_close([num(row[k]) for k in sw],
                      [np.interp(tt, [v[0] for v in V], [v[k] for v in V]) for k in (4, 5, 6)],
                      "velocity uncertainty of the track", 1e-9)
        if D and D[0][0] <= tt <= D[-1][0]:
            require_close(num(row["vehicle_std_z [m]"]),
                          np.interp(tt, [x[0] for x in D], [x[2] for x in D]),
                          "depth uncertainty of the track", 1e-6, 1e-9)
    if not c["filter"] and len(usbl) > 1:
        rows = table(out / "csv" / "auv_usbl.csv", "USBL fixes")
        require_close([[num(r[k]) for k in ("Timestamp", "Northing [m]", "Easting [m]", "Depth [m]")]
                       for r in rows], usbl, "USBL fixes", 0, 1e-6)
    t.nontrivial(len(ref) >= 5 and not c["const"] and np.linalg.norm(ref[-1]["dvl"]) > 0.5)
    t.label("usbl", bool(usbl))
    t.label("window", c["start"] is not None or c["finish"] is not None)
    t.label("bad dvl clock", bool(c["bad_dvl"]))
    t.label("dvl off the origin", bool(np.any(F["dvl"])))
    t.label("first node removed", len(ref) and ref[0]["dvl"].any())
