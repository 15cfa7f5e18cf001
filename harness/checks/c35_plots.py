"""C35: the interactive plots of auv_nav show what was measured and computed."""
import json
import math
import random
import re
import sys
import threading
import time
from datetime import datetime, timezone
from pathlib import Path
from unittest import mock

import numpy as np
from hypothesis import strategies as st

import cli
import navgen
from checks import c34_relative as c34
from checks.c10_dead_reckoning import num, table
from navgen import dive, lin, reference, rot
from pbt import angdiff, fail, require, require_close, sub

SEED = st.integers(0, 2 ** 32 - 1)


def figure(path):
    """traces by name, layout, frames of a plot"""
    require(path.exists(), "no plot %s" % path.name)
    s = path.read_text(encoding="utf-8")
    i = s.rindex("Plotly.newPlot(") + len("Plotly.newPlot(")
    dec, out = json.JSONDecoder(), []
    while True:
        while s[i] in " \n\t,":
            i += 1
        if s[i] == ")":
            break
        v, i = dec.raw_decode(s, i)
        out.append(v)
    k = s.find("Plotly.addFrames(", i)
    frames = []
    if k >= 0:
        k = s.index(",", k) + 1
        while s[k] in " \n":
            k += 1
        frames, _ = dec.raw_decode(s, k)
    by = {}
    for tr in out[1]:
        by.setdefault(tr.get("name"), []).append(tr)
    return by, out[1], out[2], frames


class plotting:
    """plots without their copy of the plotting library; failures of plotting threads are failures"""

    def __enter__(self):
        import plotly.offline as py

        plot = py.plot
        self.errors = []
        self.patches = [mock.patch.object(py, "plot", lambda *a, **k: plot(*a, **dict(k, include_plotlyjs=False))),
                        mock.patch.object(threading, "excepthook", lambda a: self.errors.append(
                            "%s: %s" % (a.thread.name, a.exc_value)))]
        for p in self.patches:
            p.start()
        return self

    def __exit__(self, kind, *a):
        for p in self.patches:
            p.stop()
        if kind is None:
            require(not self.errors, lambda: "threads failed: %r" % self.errors)


def same(by, name, ts, vs, what, tol=1e-6, angle=False, n=0):
    require(name in by, "%s: no %r among %r" % (what, name, sorted(map(str, by))))
    tr = by[name][n]
    x, y = tr.get("x") or [], tr.get("y") or []
    require(len(x) == len(y) == len(vs), "%s: %s has %d points, expected %d" % (what, name, len(x), len(vs)))
    if not len(vs):
        return
    if ts is not None:
        require_close([a - ts[0] for a in x], [b - ts[0] for b in ts], "%s: times of %s" % (what, name), 0, 1e-5)
    for a, b, q in zip(y, vs, x):
        d = angdiff(a, b) if angle else a - b
        require(abs(d) <= tol * max(1.0, abs(b)), "%s: %s is %r at %r, expected %r" % (what, name, a, q, b))


def column(rows, *names):
    for n in names:
        if rows and n in rows[0]:
            return [num(r[n]) for r in rows]
    return []


@st.composite
def plotted(draw):
    c = draw(dive(usbl=draw(st.sampled_from([True, True, False])), span=(8, 70), extra=draw(st.booleans())))
    c["which"] = draw(st.sampled_from(["both", "pf", "ekf", "ekf", "none"]))
    c["smoother"] = draw(st.booleans())
    c["interval"] = draw(st.sampled_from([600, 3, 0.5, False]))
    c["seed"] = draw(st.integers(0, 10 ** 6))
    return c


@sub("C35", "process_plots", plotted(), quick=48, thorough=1500, max_s=120, shards=8,
     rule="a dive with images or USBL fixes and a filter")
def process_plots(c, t):
    """plots of a dive agree with its measurements and with the tracks written by the same run"""
    if not c34.usable(c):
        return
    np.random.seed(c["seed"])
    ps = [p["epoch_timestamp"] for p in navgen.packets(c)]
    lo, hi = ps[1], ps[-1]
    ref = reference(c, lo, hi, 1)
    loc = navgen.localisation(c, ekf=c["which"] in ("both", "ekf"), pf=c["which"] in ("both", "pf"),
                              smoother=c["smoother"], particles=4)
    loc["plot_output"] = {"activate": True, "html_plot": True}
    loc["particle_filter"]["particles_plot_time_interval"] = c["interval"]
    root = t.scratch()
    raw, pro, cfg = navgen.write_dive(root, c, loc)
    with plotting():
        cli.nav_process(raw)
    out, = [p for p in pro.iterdir() if p.name.startswith("json_renav")]
    P, C = out / "interactive_plots", out / "csv"
    rows = lambda p: table(C / p, p) if (C / p).exists() else []
    inside = lambda s: [x for x in s if lo <= x[0] <= hi]
    F = {k: np.array(v) for k, v in c["frames"].items()}
    # measurements
    o = inside(c["orientation"])
    by = figure(P / "orientation_vs_time.html")[0]
    for k, name in enumerate(("Roll", "Pitch", "Yaw")):
        same(by, name, [x[0] for x in o], [x[1][k] for x in o], "orientation plot", angle=True)
    by = figure(P / "velocity_vs_time.html")[0]
    ts = [x["t"] for x in ref]
    for k, (a, b) in enumerate((("north", "x"), ("east", "y"), ("down", "z"))):
        same(by, "DVL %s velocity" % a, ts, [x["ned"][k] for x in ref], "velocity plot")
        same(by, "DVL %s velocity" % b, ts, [x["v"][k] for x in ref], "velocity plot")
    # velocities of the INS; the first one serves to start from and may be left out
    ins = inside(c.get("inertial", ()))
    if ins:
        n = len(ins) - len(by["phins north velocity"][0].get("x") or [])
        require(n in (0, 1), "%d of %d velocities of the INS are plotted" % (len(ins) - n, len(ins)))
        for k, a in enumerate(("north", "east", "down")):
            same(by, "phins %s velocity" % a, [x[0] for x in ins[n:]], [x[1][k] for x in ins[n:]], "velocity plot")
        t.label("inertial")
    by = figure(P / "deadreckoning_vs_time.html")[0]
    dvl, centre = rows("dead_reckoning/auv_dr_dvl.csv"), rows("dead_reckoning/auv_dr_centre.csv")
    for a, key in (("Northing", "northing [m]"), ("Easting", "easting [m]")):
        same(by, a + " DVL", column(dvl, "timestamp"), column(dvl, key), "dead reckoning plot")
        same(by, a + " Centre", column(centre, "timestamp"), column(centre, key), "dead reckoning plot")
    same(by, "Depth Centre", column(centre, "timestamp"), column(centre, "depth [m]"), "dead reckoning plot")
    shift = []
    if len(ins) > 1:
        way = np.zeros((len(ins), 2))
        for i in range(1, len(ins)):
            (a, v), (b, w) = ins[i - 1], ins[i]
            way[i] = way[i - 1] + (b - a) * (np.array(v[:2]) + np.array(w[:2])) / 2
        for k, a in enumerate(("Northing", "Easting")):
            y = by[a + " phins"][0].get("y") or []
            require(len(y) == len(ins) - n, "%s phins has %d points" % (a, len(y)))
            shift.append(y[0] - way[n][k] if y else 0.0)
            same(by, a + " phins", [x[0] for x in ins[n:]], list(way[n:, k] + shift[-1]), "dead reckoning plot", 1e-5)
    dep, alt = inside(c["depth"]), inside(c["altitude"])
    same(by, "Depth Sensor", [x[0] for x in dep], [x[1] for x in dep], "dead reckoning plot")
    same(by, "Altitude", [x[0] for x in alt], [x[1] for x in alt], "dead reckoning plot")
    floor = by["Depth  Seafloor (Depth Sensor + Altitude)"][0]
    require(len(floor["x"]) == len(alt), "seafloor has %d points, altitude %d" % (len(floor["x"]), len(alt)))
    for (q, a), y in zip(alt, floor["y"]):
        d = lin([x[0] for x in dep], [x[1] for x in dep], q)
        if d is not None and q > dep[0][0]:
            require_close(y, d + a, "seafloor at %r" % q, 0, 1e-6)
    fixes = {u[0]: u for u in inside(c["usbl"])}
    times = by["Northing USBL"][0].get("x") or []
    if not c["filter"]:
        require(sorted(times) == sorted(fixes), "USBL fixes at %r, expected %r" % (times, sorted(fixes)))
    require(all(any(abs(q - f) < 1e-5 for f in fixes) for q in times), "USBL fixes at %r of %r" % (times, sorted(fixes)))
    near = [min(fixes, key=lambda f: abs(f - q)) for q in times]
    # the track of the INS is moved by the fixes alone, as the dead reckoning is
    if shift and not near:
        require_close(shift, [0.0, 0.0], "shift of the INS track without fixes", 0, 1e-6)
    elif shift:
        at = [x[0] for x in ins]
        d = np.array([[fixes[f][1] - lin(at, way[:, 0], f), fixes[f][2] - lin(at, way[:, 1], f)] for f in near
                      if at[n] <= f <= at[-1]])
        if len(d) > 1:
            require(all(d.min(0) - 1e-5 <= shift) and all(shift <= d.max(0) + 1e-5),
                    lambda: "the INS track is moved by %r, the fixes are off by %r" % (shift, d.tolist()))
            t.label("inertial shift")
    for k, name in ((1, "Northing USBL"), (2, "Easting USBL"), (3, "Depth USBL")):
        same(by, name, near, [fixes[f][k] for f in near], "dead reckoning plot")
    by = figure(P / "sensor_uncertainties_plot.html")[0]
    for name, file, key in [("Roll std", "orientation", "roll_std"), ("Pitch std", "orientation", "pitch_std"),
                            ("Yaw std", "orientation", "yaw_std"), ("x velocity std", "velocity_body", "x_velocity_std"),
                            ("y velocity std", "velocity_body", "y_velocity_std"),
                            ("z velocity std", "velocity_body", "z_velocity_std"), ("Depth std", "depth", "depth_std"),
                            ("Lat std usbl", "usbl", "latitude_std"), ("Lon std usbl", "usbl", "longitude_std"),
                            ("northing std usbl", "usbl", "northings_std"), ("easting std usbl", "usbl", "eastings_std")]:
        R = rows("sensor_values_and_uncertainties/%s.csv" % file)
        if file == "usbl":
            R = [r for r in R if any(abs(num(r["epoch_timestamp"]) - f) < 1e-5 for f in near)]
        same(by, name, column(R, "epoch_timestamp"), column(R, key), "uncertainty plot")
    if ins:
        for k, a in enumerate(("north", "east", "down")):
            s = [0.05 + 0.001 * i for i, x in enumerate(c["inertial"]) if lo <= x[0] <= hi] if k == 0 else [
                (0.06, 0.07)[k - 1]] * len(ins)
            same(by, a + " velocity std inertial", [x[0] for x in ins[n:]], s[n:], "uncertainty plot")
    # filters
    ekf = rows("ekf/auv_ekf_centre.csv")
    pf = rows("particle_filter/auv_pf_dvl.csv")
    if ekf:
        q = column(ekf, "timestamp")
        pos, ori, vel = (figure(P / "ekf" / (n + "_with_std_vs_time.html"))[0] for n in ("positions", "orientation", "velocities"))
        att = list(zip(*(column(ekf, k) for k in ("roll [deg]", "pitch [deg]", "heading [deg]"))))
        lever = [rot(a) @ (F["origin"] - F["dvl"]) for a in att]
        for k, (key, name, one, std, axis) in enumerate((
                ("northing [m]", "northings", "northing", "northings", "x"), ("easting [m]", "eastings", "easting", "eastings", "y"),
                ("depth [m]", "depth", "depth", "depths", "z"))):
            v = [a - l[k] for a, l in zip(column(ekf, key), lever)]
            s = column(ekf, "vehicle_std_%s [m]" % axis)
            same(pos, name + " (m)", q, v, "EKF position plot")
            same(pos, std + " std ekf (m)", q, s, "EKF position plot")
            same(pos, one + "+sigma", q, [a + b for a, b in zip(v, s)], "EKF position plot")
            same(pos, one + "-sigma", q, [a - b for a, b in zip(v, s)], "EKF position plot")
        for k, name in enumerate(("roll", "pitch", "yaw")):
            v, s = [a[k] for a in att], column(ekf, "vehicle_std_%s [deg]" % name)
            same(ori, name + " [deg]", q, v, "EKF orientation plot", angle=True)
            same(ori, name + " std ekf [deg]", q, s, "EKF orientation plot")
        cam = {}
        for p in sorted((C / "ekf").glob("auv_ekf_?C.csv")):
            for r in table(p, p.name):
                cam[num(r["timestamp [s]"])] = r
        for name, key, one in (("surge speeds (m/s)", "x", "surge_speed"), ("sway speeds (m/s)", "y", "sway_speed"),
                               ("vertical speeds (m/s)", "z", "down_speed")):
            s = column(ekf, "vehicle_std_v%s [m/s]" % key)
            v = vel[name][0]["y"]
            same(vel, name, q, v, "EKF velocity plot")
            same(vel, one + "s_std (m/s)", q, s, "EKF velocity plot")
            same(vel, one + "+sigma", q, [a + b for a, b in zip(v, s)], "EKF velocity plot")
            same(vel, one + "-sigma", q, [a - b for a, b in zip(v, s)], "EKF velocity plot")
            for x, y in zip(q, v):
                if x in cam and q.count(x) == 1:
                    require_close(y, num(cam[x][key + "_velocity [m/s]"]), "EKF %s at %r" % (name, x), 0, 1e-6)
        by, traces, _, _ = figure(P / "ekf_rejected_measurements.html")
        src = {"orientation": [x[0] for x in o], "depth": [x[0] for x in dep], "USBL": list(fixes),
               "DVL": [x[0] + d for x in c["velocity"] for d in (0.0, c["dvl_lag"], c.get("dvl_off", 30.0))]}
        for tr in traces:
            require(tr["name"] in src, "rejected measurements of %r" % tr["name"])
            for x, y, text in zip(tr.get("x") or [], tr.get("y") or [], tr.get("text") or []):
                require(any(abs(x - f) < 1e-5 for f in src[tr["name"]]) and y == tr["name"], "rejected %s at %r was not measured"
                        % (y, x))
                require(time.strftime("%Y-%m-%d %H:%M:%S", time.gmtime(x)) in text, "rejected measurement %r of %r" % (text, x))
                t.label("rejected")
        t.label("ekf")
    # the track
    by, traces, _, _ = figure(P / "auv_path.html")
    static = {n: [(x, y) for x, y in zip(tr[0].get("x") or [], tr[0].get("y") or [])] for n, tr in by.items()}
    track = {"dr_camera1": "dead_reckoning/auv_dr_LC.csv", "ekf_camera1": "ekf/auv_ekf_LC.csv", "dr_centre":
             "dead_reckoning/auv_dr_centre.csv", "dr_dvl": "dead_reckoning/auv_dr_dvl.csv", "ekf_dvl": "ekf/auv_ekf_centre.csv",
             "pf_camera1": "particle_filter/auv_pf_LC.csv", "pf_centre": "particle_filter/auv_pf_centre.csv",
             "pf_dvl": "particle_filter/auv_pf_dvl.csv"}
    stamps = {}
    for name, file in track.items():
        R = rows(file)
        if len(R) < 2 and name not in by:
            continue
        q = column(R, "timestamp", "timestamp [s]")
        same(by, name, None, column(R, "northing [m]"), "path plot")
        require_close(by[name][0].get("x") or [], column(R, "easting [m]"), "path plot: eastings of " + name, 0, 1e-6)
        stamps[name] = q
        h = by[name][0].get("hovertext")
        if isinstance(h, list):
            for a, b in zip(h, q):
                if abs(b - round(b)) > 1e-4:
                    require(time.strftime("%H:%M:%S", time.gmtime(b)) in a, "path plot: %s at %r is labelled %r" % (name, b, a))
    if len(near) > 1:
        same(by, "usbl", None, [fixes[f][1] for f in near], "path plot")
        require_close(by["usbl"][0]["x"], [fixes[f][2] for f in near], "path plot: USBL eastings", 0, 1e-6)
        stamps["usbl"] = near
    if pf:
        cloud = by.get("pf_dvl_distribution")
        if c["interval"] is False:
            groups = [list(zip(tr[0]["x"], tr[0]["y"])) for n, tr in by.items() if str(n).startswith("PF_Resampling")]
            require(groups and all(len(g) == 4 for g in groups), "particles are not plotted")
        else:
            require(cloud is not None and cloud[0]["x"] and len(cloud[0]["x"]) % 4 == 0, "particles are not plotted")
            pts = list(zip(cloud[0]["x"], cloud[0]["y"]))
            groups = [pts[i:i + 4] for i in range(0, len(pts), 4)]
            span = stamps["pf_dvl"][-1] - stamps["pf_dvl"][0]
            require(len(groups) <= 1 + span / c["interval"], "%d clouds of particles in %g s, one every %g s at most"
                    % (len(groups), span, c["interval"]))
        line = static["pf_dvl"]
        for g in groups:
            require(any(abs(a[0] - b[0]) < 1e-6 and abs(a[1] - b[1]) < 1e-6 for a in g for b in line),
                    "a cloud of particles is off the track they make: %r" % (g,))
        t.label("pf")
    # the slider shows the track so far
    names = [n for n in ("dr_camera1", "ekf_camera1", "usbl") if len(stamps.get(n, ())) > 1]
    if names:
        by, traces, layout, frames = figure(P / "auv_path_slider.html")
        require({n for n in by} == set(static), "the slider plot shows %r, the path plot %r" % (sorted(by), sorted(static)))
        q = [float(f["name"]) for f in frames]
        a, b = min(stamps[n][0] for n in names), max(stamps[n][-1] for n in names)
        require(bool(q) and q[0] <= a and all(y > x for x, y in zip(q, q[1:])), "slider: frames at %r, images and fixes from %r to %r"
                % (q, a, b))
        gap = max([y - x for x, y in zip(q, q[1:])] + [b - q[-1]])
        require(gap <= max(2.0, (b - a) / 20), "slider: frames at %r, images and fixes from %r to %r" % (q, a, b))
        steps = layout["sliders"][0]["steps"]
        require([str(s["args"][0][0]) for s in steps] == [f["name"] for f in frames] == [str(s["label"]) for s in steps],
                "slider: steps do not select the frames in order")
        for f, at in zip(frames, q):
            shown = {}
            for k, d in zip(f.get("traces") or range(len(f["data"])), f["data"]):
                require(d.get("name", traces[k]["name"]) == traces[k]["name"], "slider: a frame draws %s in place of %s"
                        % (d.get("name"), traces[k]["name"]))
                shown[traces[k]["name"]] = list(zip(d.get("x") or [], d.get("y") or []))
            require(set(names) <= set(shown), "slider: frames show %r, expected %r" % (sorted(shown), names))
            for n, pts in shown.items():
                require(n in stamps, "slider: unknown track %s" % n)
                want = static[n][:sum(1 for x in stamps[n] if x <= at + 1e-6)]
                require(pts == want, "slider: %s at %r shows %d points, expected %d" % (n, at, len(pts), len(want)))
        t.label("slider")
    t.label("long dive", hi - lo > 45)
    t.nontrivial(bool(names) and bool(ekf or pf), c["which"])


@sub("C35", "relative_plots", c34.laser_dive(), quick=16, thorough=400, max_s=120, shards=8,
     rule="at least three images")
def relative_plots(c, t):
    """plots of relative uncertainties show the poses and uncertainties that were written"""
    if not c34.usable(c):
        return
    root = t.scratch()
    raw, pro, cfg = navgen.write_dive(root, c, c34.localisation(c))
    cli.nav_process(raw)
    out, = [p for p in pro.iterdir() if p.name.startswith("json_renav")]
    ekf = out / "csv" / "ekf"
    cam = ("RC", "LM")[c["cams"] - 2]
    src = ekf / ("auv_ekf_%s_laser_at_dvl.csv" % cam)
    if not src.exists() or len(c34.poses(src)) < 2:
        return
    ids = [p[0] for p in c34.poses(src)]
    with plotting():
        try:
            cli.auv_nav(["process", str(raw), "-r", "--start_image_identifier", ids[0], "--end_image_identifier", ids[-1]])
        except SystemExit:
            pass
        for th in threading.enumerate():
            if th is not threading.current_thread() and not th.daemon:
                th.join(20)
    name = "auv_ekf_cov_based_on_%s_" + cam + "_laser_at_dvl"
    A, B = (table(ekf / ((name % k) + ".csv"), k) for k in ("subtraction", "ekf_propagation"))
    cov = c34.covariances(ekf / ((name % "subtraction") + "_cov.csv"))
    q = column(A, "timestamp [s]")
    for folder, second in (("based_on_subtraction_at_dvl", False), ("based_on_ekf_propagation_at_dvl", True)):
        F = out / "interactive_plots" / folder
        pos, ori = (figure(F / (n + "_with_std_vs_time.html"))[0] for n in ("positions", "orientation"))
        for k, (key, n1, n2, n3, axis) in enumerate((
                ("northing [m]", "northings (m)", "northings_2", "northings std %s (m)", "x"),
                ("easting [m]", "eastings (m)", "eastings_2", "eastings std %s (m)", "y"),
                ("depth [m]", "depth (m)", "depths_2", "depths std %s (m)", "z"),
                ("roll [deg]", "roll [deg]", "roll_2 [deg]", "roll std %s [deg]", "roll"),
                ("pitch [deg]", "pitch [deg]", "pitch_2 [deg]", "pitch std %s [deg]", "pitch"),
                ("heading [deg]", "yaw [deg]", "yaw_2 [deg]", "yaw std %s [deg]", "yaw"))):
            fig = pos if k < 3 else ori
            s = [math.sqrt(max(0.0, cov[r["relative_path"]][k, k])) * (1 if k < 3 else 180 / math.pi) for r in A]
            same(fig, n1, q, column(A, key), folder, angle=k > 2)
            if not second:
                same(fig, n3 % "ekf", q, s, folder)
                continue
            same(fig, n2, q, column(B, key), folder, angle=k > 2)
            same(fig, n3 % "ekf", q, column(B, "vehicle_std_%s [%s]" % (axis, "m" if k < 3 else "deg")), folder)
            same(fig, n3 % "sub", q, s, folder)
    t.nontrivial(len(ids) >= 3)


@sub("C35", "parse_plots", SEED, quick=60, thorough=2000, max_s=60, shards=6,
     rule="categories in both frames, measurements in quick succession or times with microseconds")
def parse_plots(c, t):
    """the table and the history of parsed data list every measurement at its time"""
    from auv_nav.plot.plot_parse_data import plot_parse_data

    r = random.Random(c)
    t0 = r.randint(1200000000, 1700000000) + r.choice([0.0, 0.25, 0.0625])
    kinds = [("orientation", "body"), ("velocity", "body"), ("velocity", "inertial"), ("depth", "inertial"),
             ("altitude", "body"), ("usbl", "inertial"), ("image", "body"), ("laser", "body")]
    kinds = r.sample(kinds, r.randint(1, len(kinds)))
    packets, dense = [], False
    for cat, frame in kinds:
        q = t0 + r.uniform(0, 5)
        burst = r.choice([0, 0, 1, 3, 15])
        for i in range(r.choice([1, 2, 5, 20])):
            packets.append({"epoch_timestamp": round(q, 6), "class": "measurement", "sensor": "x", "frame": frame,
                            "category": cat, "data": [{"value": i, "value_std": 0.5}, {"other": i}]})
            dense |= burst > 9 and i > 9
            q += r.uniform(0, 0.0015) if i < burst else r.choice([0.01, 0.5, 1.0, 30.0]) + r.random()
    packets.sort(key=lambda p: p["epoch_timestamp"])
    d = t.scratch()
    (d / "nav_standard.json").write_text(json.dumps([
        {"epoch_timestamp": 0.0, "class": "origin", "category": "origin", "data": [{"latitude": 1.0}]}] + packets))
    with plotting(), cli.fresh():
        try:
            if r.random() < 0.5:
                plot_parse_data(d, "oplab")
            else:
                plot_parse_data(d)
        except SystemExit:
            fail("plotting the parsed data ends the program")
    want = {}
    for p in packets:
        want.setdefault((p["category"], p["frame"]), []).append(p["epoch_timestamp"])
    _, traces, layout, _ = figure(d / "json_data_info.html")
    cells = traces[0]["cells"]["values"]
    require(sorted(zip(cells[0], cells[1])) == sorted((k[0], len(v)) for k, v in want.items()), "table of %r, measured %r" % (
        sorted(zip(cells[0], cells[1])), sorted((k[0], len(v)) for k, v in want.items())))
    for cat, n, keys, values in zip(*cells):
        keys, values = keys.split("<br>"), values.split("<br>")
        ok = []
        for (a, b), v in want.items():
            if a != cat or len(v) != n or "frame" not in keys or b not in values:
                continue
            gap = v[1] - v[0] if n > 1 else 0
            first = min((p for p in packets if (p["category"], p["frame"]) == (a, b)), key=lambda p: p["epoch_timestamp"])
            good = True
            for name, x in first.items():
                k = keys.index(name) if name in keys else len(values)
                good &= values[k:k + (len(x) if name == "data" else 1)] == ([str(y) for y in x] if name == "data" else [str(x)])
                good &= name != "data" or not any(keys[k + 1:k + len(x)])
            if n == 1:
                good &= keys[-1].startswith("Approximate update rate") and values[-1] == "None"
            gaps = [y - x for x, y in zip(v, v[1:])]
            if n > 1 and max(gaps) > 0 and values[-1] != "None":
                good &= any(abs(float(values[-1]) * g - 1) < 1e-6 for g in gaps)
            if gap >= 0.002:
                good &= keys[-1].startswith("Approximate update rate") and abs(float(values[-1]) * gap - 1) < 1e-6
            ok.append(good)
        require(any(ok), "table: %s is described as %r: %r" % (cat, keys, values))
    by, traces, _, _ = figure(d / "timestamp_history.html")
    require(sorted(by) == sorted("%s - %s" % k for k in want), "history of %r, measured %r" % (sorted(by), sorted(want)))
    for (a, b), v in want.items():
        tr = by["%s - %s" % (a, b)][0]
        x = tr["x"]
        require(len(x) == len(v) == len(tr["y"]) == len(tr["text"]), "history: %d of %d points of %s" % (len(x), len(v), a))
        for s, y, text, q in zip(x, tr["y"], tr["text"], v):
            when = datetime.strptime(s, "%Y-%m-%d %H:%M:%S.%f").replace(tzinfo=timezone.utc).timestamp()
            require(abs(when - q) < 2e-6, "history: %s of %r is at %s" % (a, q, s))
            require(y == "%s - %s" % (a, b), "history: row %r" % y)
            require(time.strftime("%Y-%m-%d %H:%M:%S", time.gmtime(q)) in text, "history: %r of %r" % (text, q))
    for which in (d / "json_data_info.html", d / "timestamp_history.html"):
        title = figure(which)[2]["title"]
        title = title["text"] if isinstance(title, dict) else title
        for word, q in (("Start", packets[0]["epoch_timestamp"]), ("Finish", packets[-1]["epoch_timestamp"])):
            part = title.split(word + " time is")[1].split("Finish")[0]
            require("%d (epoch)" % int(q) in part and time.strftime("%Y-%m-%d %H:%M:%S", time.gmtime(q)) + " (UTC)" in
                    part.replace("), ", ") , ").replace(", UTC", " (UTC)") or time.strftime("%Y-%m-%d %H:%M:%S", time.gmtime(q))
                    in part, "%s of %r is %r" % (word, q, part))
    t.label("dense", dense)
    t.nontrivial(len(want) >= 3 and (dense or len(packets) > 20))
