"""C19: the extended Kalman filter and smoother estimate what the Kalman equations say."""
import copy
import math
import random
from types import SimpleNamespace as NS

import numpy as np
from hypothesis import strategies as st

import cli
import navgen
from checks.c10_dead_reckoning import num, table
from pbt import angdiff, fail, require, require_close, sub

from auv_nav.localisation.ekf import (EkfImpl, EkfState, ExtendedKalmanFilter, save_ekf_to_list,
                                      update_camera_list)
from auv_nav.sensors import (BodyVelocity, Camera, Depth, Orientation, SyncedOrientationBodyVelocity, Usbl)

SEED = st.integers(0, 2 ** 32 - 1)
ANG = (3, 4, 5)


def rotation(r, p, y):
    cr, sr, cp, sp, cy, sy = math.cos(r), math.sin(r), math.cos(p), math.sin(p), math.cos(y), math.sin(y)
    rx = np.array([[1, 0, 0], [0, cr, -sr], [0, sr, cr]])
    ry = np.array([[cp, 0, sp], [0, 1, 0], [-sp, 0, cp]])
    rz = np.array([[cy, -sy, 0], [sy, cy, 0], [0, 0, 1]])
    return rz @ ry @ rx


def motion(x, dt):
    """state after dt: constant body velocity and body rates"""
    x = np.asarray(x, float).ravel()
    r, p, y = x[3:6]
    out = x.copy()
    out[0:3] += rotation(r, p, y) @ x[6:9] * dt
    wx, wy, wz = x[9:12]
    out[3] += (wx + math.sin(r) * math.tan(p) * wy + math.cos(r) * math.tan(p) * wz) * dt
    out[4] += (math.cos(r) * wy - math.sin(r) * wz) * dt
    out[5] += (math.sin(r) * wy + math.cos(r) * wz) / math.cos(p) * dt
    return out


def jacobian(x, dt):
    x = np.asarray(x, float).ravel()
    J = np.zeros((12, 12))
    for i in range(12):
        h = 1e-5 * max(1.0, abs(x[i])) if i >= 3 else 1.0
        a, b = x.copy(), x.copy()
        a[i] += h
        b[i] -= h
        # positions enter linearly; leaving them out avoids cancellation of large coordinates
        fa, fb = motion(np.r_[0, 0, 0, a[3:]], dt), motion(np.r_[0, 0, 0, b[3:]], dt)
        fa[:3] += a[:3] - x[:3]
        fb[:3] += b[:3] - x[:3]
        J[:, i] = (fa - fb) / (2 * h)
    return J


def wrap(a):
    return math.atan2(math.sin(a), math.cos(a))


def spd(r, scale):
    """positive definite matrix with the given standard deviations, correlated"""
    g = np.random.default_rng(r.randint(0, 2 ** 31))
    a = g.normal(size=(12, 12)) * 0.2 + np.eye(12)
    s = np.array(scale)
    m = a @ a.T
    d = np.sqrt(np.diag(m))
    return m / d[:, None] / d[None, :] * s[:, None] * s[None, :]


def same_state(got, want, what, tol=1e-6):
    got, want = np.asarray(got, float).ravel(), np.asarray(want, float).ravel()
    d = got - want
    for i in ANG:
        d[i] = wrap(d[i])
    lim = tol * np.maximum(1.0, np.abs(want))
    require(bool(np.all(np.abs(d) <= lim)), "%s: state differs by %r (is %r, expected %r)"
            % (what, d.tolist(), got.tolist(), want.tolist()))


def same_cov(got, want, what, tol=1e-6):
    got, want = np.asarray(got, float), np.asarray(want, float)
    require(got.shape == (12, 12), "%s: covariance has shape %r" % (what, got.shape))
    s = np.sqrt(np.maximum(np.diag(want), 0)) + 1e-6
    e = np.abs(got - want) / s[:, None] / s[None, :]
    require(float(e.max()) <= tol, "%s: covariance differs by %.2g of the standard deviations at %r"
            % (what, float(e.max()), np.unravel_index(int(e.argmax()), e.shape)))


def healthy(P, what):
    P = np.asarray(P, float)
    s = np.sqrt(np.maximum(np.diag(P), 0)) + 1e-6
    C = P / s[:, None] / s[None, :]
    require(bool(np.all(np.isfinite(P))), "%s: covariance is not finite" % what)
    require(float(np.abs(C - C.T).max()) < 1e-6, "%s: covariance is not symmetric" % what)
    require(float(np.linalg.eigvalsh((C + C.T) / 2).min()) > -1e-6, "%s: covariance is not positive" % what)


@sub("C19", "model", SEED, quick=400, thorough=10000, rule="vehicle moves and turns")
def model(c, t):
    """prediction moves the vehicle along its body velocity and grows the uncertainty by the linearised motion"""
    r = random.Random(c)
    x = np.array([r.uniform(-1e3, 1e3), r.uniform(-1e3, 1e3), r.uniform(0, 6000), r.uniform(-3.1, 3.1),
                  r.uniform(-1.3, 1.3), r.uniform(-3.14, 3.14)] + [r.uniform(-3, 3) for _ in range(3)]
                 + [r.uniform(-0.3, 0.3) for _ in range(3)])
    dt = r.choice([0.0, 0.01, 0.1, 1.0, r.uniform(0, 5), r.uniform(5, 120)])
    if dt > 5:          # sensors were silent
        x[9:] *= 1 / dt
    P = spd(r, [r.choice([0.1, 1, 10])] * 3 + [0.05] * 3 + [0.1] * 3 + [0.02] * 3)
    Q = spd(r, [r.choice([0.01, 0.1])] * 3 + [0.01] * 3 + [0.05] * 3 + [0.01] * 3)
    e = EkfImpl()
    t0 = float(r.randint(10 ** 9, 2 * 10 ** 9))
    e.set_initial_state(t0, x.reshape(12, 1).copy(), P.copy())
    e.set_process_noise_covariance(Q.copy())
    e.predict(t0 + dt, dt)
    same_state(e.get_state(), motion(x, dt), "prediction over %g s" % dt)
    J = jacobian(x, dt)
    same_cov(e.covariance, J @ P @ J.T + dt * Q, "prediction over %g s" % dt)
    healthy(e.covariance, "prediction")
    require(all(abs(float(e.state[i, 0])) <= math.pi + 1e-9 for i in ANG), "angles are not wrapped")
    t.nontrivial(dt > 0)


# --------------------------------------------------------------------- generated histories

STD = {"position_xy": {"factor": 0.01, "offset": 1.5}, "position_z": {"factor": 0.002, "offset": 0.05},
       "speed": {"factor": 0.02, "offset": 0.03}, "orientation": {"factor": 0.0, "offset": 0.4}}
STDXYZ = dict(STD, speed={"factor_x": 0.02, "offset_x": 0.03, "factor_y": 0.01, "offset_y": 0.05,
                          "factor_z": 0.03, "offset_z": 0.02})


def turn(deg):
    return (deg + 180) % 360 - 180


def truth(r):
    """pose and velocity as a function of time"""
    a = [r.uniform(-0.15, 0.15), r.uniform(-0.15, 0.15)]
    y0, wy = r.uniform(0, 2 * math.pi), r.choice([0.0, 0.02, -0.05, 0.1])
    u = r.uniform(0.2, 1.5)
    w = r.choice([0.0, 0.05])
    base = r.choice([0.0] * 5 + [math.pi])      # or the INS is mounted upside down

    def at(s):
        return np.array([base + a[0] * math.sin(0.1 * s), a[1] * math.cos(0.07 * s), y0 + wy * s]), np.array([u, 0.1, w])
    xyz = np.array([r.uniform(-200, 200), r.uniform(-200, 200), r.uniform(20, 3000)])
    return at, xyz


def history(r, noise=1.0, outliers=True, gaps=False):
    """measurements of a dive in time order and the times at which the pose is wanted"""
    at, xyz = truth(r)
    t0 = float(r.randint(10 ** 9, 2 * 10 ** 9))
    T = r.uniform(3, 25)
    gap = (math.inf, 0)
    if gaps and r.random() < 0.2:        # all sensors are silent for a while
        T = r.uniform(20, 60)
        a = r.uniform(1, T - 8)
        gap = (a, a + r.uniform(6, T - a))
    grid = np.arange(0, T + 1e-9, 0.01)
    pos = [xyz]
    for s in grid[1:]:
        rpy, v = at(s - 0.005)
        pos.append(pos[-1] + rotation(*rpy) @ v * 0.01)
    pos = np.array(pos)

    def p(s):
        return np.array([np.interp(s, grid, pos[:, k]) for k in range(3)])

    def times(step, jitter):
        s, out = r.uniform(-1.0, step), []
        while s < T + 1.5:
            if not gap[0] < s < gap[1]:
                out.append(round(s, 3))
            s += step * (r.uniform(0.3, 2) if jitter else 1)
        return out
    own = r.random() < 0.7
    z = lambda sd: r.gauss(0, sd) * noise
    lever_u, lever_d = [[r.choice([0.0, r.uniform(-2, 2)]) for _ in range(3)] for _ in range(2)]
    H = NS(t0=t0, T=T, at=at, p=p, ori=[], usbl=[], depth=[], vel=[], lever_u=lever_u, lever_d=lever_d,
           std=r.choice([STD, STDXYZ]), bad=[])
    for s in times(r.choice([0.2, 0.5, 1.0]), True):
        o = Orientation()
        o.epoch_timestamp = t0 + s
        rpy, _ = at(s)
        sd = r.choice([0.1, 0.5]) if own else 0.4
        o.roll, o.pitch = turn(math.degrees(rpy[0]) + z(sd)), math.degrees(rpy[1]) + z(sd)
        o.yaw = (math.degrees(rpy[2]) + z(sd)) % 360
        o.roll_std = o.pitch_std = o.yaw_std = sd if own else 0.0
        if own:
            o.yaw_std = 2 * sd
        H.ori.append(o)
    for s in times(r.choice([0.5, 1.0]), True):
        v = BodyVelocity()
        v.epoch_timestamp = t0 + s
        _, b = at(s)
        v.x_velocity, v.y_velocity, v.z_velocity = (b + [z(0.02), z(0.02), z(0.02)]).tolist()
        v.x_velocity_std = v.y_velocity_std = v.z_velocity_std = r.choice([0.02, 0.1]) if own else 0.0
        if own:
            v.z_velocity_std = 0.03
        H.vel.append(v)
    for s in times(r.choice([0.7, 2.0]), False) if r.random() < 0.9 else []:
        d = Depth()
        d.epoch_timestamp = t0 + s
        rpy, _ = at(s)
        d.depth = float((p(s) - rotation(*rpy) @ lever_d)[2] + z(0.05))
        d.depth_std = 0.05 if own else 0.0
        H.depth.append(d)
    for s in times(r.choice([3.0, 6.0]), True) if r.random() < 0.85 else []:
        u = Usbl()
        u.epoch_timestamp = t0 + s
        rpy, _ = at(s)
        q = p(s) - rotation(*rpy) @ lever_u
        u.northings, u.eastings, u.depth = float(q[0] + z(1.5)), float(q[1] + z(1.5)), float(q[2])
        if outliers and r.random() < 0.2:
            u.northings += r.choice([-1, 1]) * r.uniform(300, 2000)
            H.bad.append(u)
        u.northings_std = r.choice([1.5, 3.0]) if own else 0.0
        u.eastings_std = 2.0 if own else 0.0
        H.usbl.append(u)
    H.want = sorted(set(round(t0 + r.uniform(-0.5, T + 0.5), 3) for _ in range(r.randint(0, 6) if math.isinf(gap[0]) else 0)))
    if r.random() < 0.5 and H.vel:
        H.want = sorted(set(H.want + [r.choice(H.vel + H.ori).epoch_timestamp]))
    ini = SyncedOrientationBodyVelocity()
    rpy, v = at(0.0)
    ini.epoch_timestamp = t0
    q = p(0.0)
    ini.northings, ini.eastings, ini.depth = q[0] + z(1), q[1] + z(1), q[2] + z(0.1)
    ini.roll, ini.pitch, ini.yaw = (turn(math.degrees(rpy[0])), math.degrees(rpy[1]), math.degrees(rpy[2]) % 360)
    ini.x_velocity, ini.y_velocity, ini.z_velocity = v.tolist()
    H.ini = ini
    H.P0 = spd(r, [3.0, 3.0, 0.5, 0.02, 0.02, 0.05, 0.1, 0.1, 0.1, 0.05, 0.05, 0.05]) if r.random() < 0.5 else \
        np.diag([9.0, 9.0, 0.25, 1e-3, 1e-3, 3e-3, 0.01, 0.01, 0.01, 3e-3, 3e-3, 3e-3])
    H.Q = np.diag([0.01, 0.01, 0.01, 1e-4, 1e-4, 1e-4, 0.01, 0.01, 0.01, 1e-3, 1e-3, 1e-3])
    if r.random() < 0.4:
        H.Q = spd(r, np.sqrt(np.diag(H.Q)))
    H.end = t0 + T
    return H


def stamps(H):
    """the filter steps through every measurement and wanted time after the start, up to the first at or after the end"""
    all_ = sorted(set(m.epoch_timestamp for k in ("ori", "usbl", "depth", "vel") for m in getattr(H, k)) | set(H.want))
    out = []
    for s in all_:
        if s <= H.t0:
            continue
        out.append(s)
        if s >= H.end:
            break
    return out


def readings(H, m, kind, x):
    """(indices, values, standard deviations) of a measurement, at the DVL"""
    R = rotation(*x[3:6])
    S = H.std
    if kind == "ori":
        sd = [m.roll_std, m.pitch_std, m.yaw_std] if m.roll_std > 0 else [S["orientation"]["offset"]] * 3
        return [3, 4, 5], np.radians([m.roll, m.pitch, m.yaw]), np.radians(sd)
    if kind == "usbl":
        o = R @ H.lever_u
        if m.northings_std > 0:
            sd = [m.northings_std, m.eastings_std]
        else:
            d = math.sqrt(m.northings ** 2 + m.eastings ** 2 + m.depth ** 2)
            sd = [S["position_xy"]["factor"] * d + S["position_xy"]["offset"]] * 2
        return [0, 1], np.array([m.northings + o[0], m.eastings + o[1]]), np.array(sd)
    if kind == "depth":
        sd = m.depth_std if m.depth_std > 0 else S["position_z"]["factor"] * m.depth + S["position_z"]["offset"]
        return [2], np.array([m.depth + (R @ H.lever_d)[2]]), np.array([sd])
    v = np.array([m.x_velocity, m.y_velocity, m.z_velocity])
    if m.x_velocity_std > 0:
        sd = np.array([m.x_velocity_std, m.y_velocity_std, m.z_velocity_std])
    elif "factor_x" in S["speed"]:
        sd = np.array([abs(v[i]) * S["speed"]["factor_" + k] + S["speed"]["offset_" + k] for i, k in enumerate("xyz")])
    else:
        sd = np.abs(v) * S["speed"]["factor"] + S["speed"]["offset"]
    return [6, 7, 8], v, sd


class Unsure(Exception):
    pass


def reference(H, threshold):
    """textbook EKF; returns [(time, x, P)] and the times of rejected measurements"""
    i = H.ini
    x = np.array([i.northings, i.eastings, i.depth] + [math.radians(a) for a in (i.roll, i.pitch, i.yaw)]
                 + [i.x_velocity, i.y_velocity, i.z_velocity, 0, 0, 0], float)
    P = H.P0.copy()
    out = [(H.t0, x.copy(), P.copy())]
    last = H.t0
    rejected = []
    for s in stamps(H):
        J = jacobian(x, s - last)
        x = motion(x, s - last)
        P = J @ P @ J.T + (s - last) * H.Q
        last = s
        for kind in ("ori", "usbl", "depth", "vel"):
            for m in getattr(H, kind):
                if m.epoch_timestamp != s:
                    continue
                idx, z, sd = readings(H, m, kind, x)
                R = np.diag(np.maximum(np.asarray(sd, float) ** 2, 1e-9))
                Hm = np.zeros((len(idx), 12))
                Hm[range(len(idx)), idx] = 1
                inn = z - x[idx]
                for k, a in enumerate(idx):
                    if a in ANG:
                        inn[k] = wrap(inn[k])
                S = Hm @ P @ Hm.T + R
                d = math.sqrt(float(inn @ np.linalg.solve(S, inn)))
                if abs(d - threshold) < 1e-3 * threshold:
                    raise Unsure()
                if d >= threshold:
                    rejected.append((kind, s))
                    continue
                K = P @ Hm.T @ np.linalg.inv(S)
                x = x + K @ inn
                P = (np.eye(12) - K @ Hm) @ P
                P = (P + P.T) / 2
        for a in ANG:
            x[a] = wrap(x[a])
        out.append((s, x.copy(), P.copy()))
    return out, rejected


def rts(H, states):
    """textbook fixed-interval smoother"""
    out = [list(s) for s in states]
    for k in range(len(states) - 2, -1, -1):
        s, x, P = states[k]
        s2, xs, Ps = out[k + 1]
        F = jacobian(x, s2 - s)
        pred = F @ P @ F.T + (s2 - s) * H.Q
        G = np.linalg.solve(pred, F @ P).T
        d = xs - motion(x, s2 - s)
        for a in ANG:
            d[a] = wrap(d[a])
        out[k] = [s, x + G @ d, P + G @ (Ps - pred) @ G.T]
    return out


def run(H, threshold, smooth):
    f = ExtendedKalmanFilter(H.ini, H.end, H.P0, H.Q, H.std, H.usbl, H.depth, H.ori, H.vel, threshold, smooth,
                             H.lever_u, H.lever_d)
    f.run(H.want)
    return f


@sub("C19", "filter", SEED, quick=110, thorough=2500, rule="position fixes are used; lever arms", shards=4)
def filter_(c, t):
    """every state equals that of a reference Kalman filter, outliers are rejected and reported"""
    r = random.Random(c)
    H = history(r, gaps=True)
    threshold = r.choice([3.0, 8.0, 300.0])
    try:
        want, rejected = reference(H, threshold)
    except Unsure:
        return
    keep = copy.deepcopy((H.P0, H.Q, [vars(m) for m in H.usbl + H.depth + H.ori + H.vel], vars(H.ini)))
    f = run(H, threshold, False)
    now = (H.P0, H.Q, [vars(m) for m in H.usbl + H.depth + H.ori + H.vel], vars(H.ini))
    require(str(keep) == str(now), "the filter changed its inputs")
    got = f.get_result()
    require([s.time for s in got] == [w[0] for w in want], "times of the states: %d, expected %d"
            % (len(got), len(want)))
    for g, w in zip(got, want):
        what = "state at +%.3f s" % (w[0] - H.t0)
        same_state(g.state, w[1], what)
        same_cov(g.covariance, w[2], what)
        healthy(g.covariance, what)
    names = {"ori": "orientation", "usbl": "USBL", "depth": "depth", "vel": "DVL"}
    rep = f.get_rejected_measurements()
    flat = sorted((k, s) for k, v in rep.items() for s in v)
    require(flat == sorted((names[k], s) for k, s in rejected), "rejected %r, expected %r" % (flat, rejected))
    used = [m for m in H.usbl if H.t0 < m.epoch_timestamp <= want[-1][0]]
    t.label("rejected" if rejected else "none rejected")
    t.nontrivial(bool(used) and any(H.lever_u))


@sub("C19", "smoother", SEED, quick=60, thorough=1500, rule="at least 10 states", shards=4)
def smoother(c, t):
    """smoothing uses the later measurements: the states are those of a reference smoother, never less certain"""
    r = random.Random(c)
    H = history(r, outliers=r.random() < 0.3, gaps=True)
    threshold = r.choice([8.0, 300.0])
    try:
        filt, _ = reference(H, threshold)
    except Unsure:
        return
    if len(filt) < 2:
        return
    f = run(H, threshold, True)
    got = f.get_smoothed_result()
    want = rts(H, filt)
    require([s.time for s in got] == [w[0] for w in want], "times of the smoothed states")
    for g, w, fs in zip(got, want, filt):
        what = "smoothed state at +%.3f s" % (w[0] - H.t0)
        same_state(g.state, w[1], what, 1e-5)
        same_cov(g.covariance, w[2], what, 1e-4)
        healthy(g.covariance, what)
        s = np.sqrt(np.diag(fs[2]))
        D = (fs[2] - np.asarray(g.covariance)) / s[:, None] / s[None, :]
        require(float(np.linalg.eigvalsh((D + D.T) / 2).min()) > -1e-4, "%s: less certain than the filter" % what)
    plain = f.get_result()
    for g, w in zip(plain, filt):
        same_state(g.state, w[1], "filtered state after smoothing")
        same_cov(g.covariance, w[2], "filtered state after smoothing")
    require(np.allclose(np.asarray(got[-1].state), np.asarray(plain[-1].state)), "the last state is smoothed")
    t.nontrivial(len(got) >= 10)


@sub("C19", "tracking", SEED, quick=50, thorough=1000, rule="position fixes and a turn", shards=2)
def tracking(c, t):
    """with faithful measurements the estimate follows the true track"""
    r = random.Random(c)
    H = history(r, noise=0.0, outliers=False)
    smooth = r.random() < 0.5
    f = run(H, 300.0, smooth)
    states = f.get_smoothed_result() if smooth else f.get_result()
    for s in states:
        b = s.toSyncedOrientationBodyVelocity()
        q, (rpy, v) = H.p(b.epoch_timestamp - H.t0), H.at(b.epoch_timestamp - H.t0)
        if b.epoch_timestamp - H.t0 > H.T:
            continue
        d = np.array([b.northings, b.eastings, b.depth]) - q
        sd = np.sqrt(np.maximum(np.diag(np.asarray(s.covariance)), 0))
        require(bool(np.all(np.abs(d) < 1.0 + 3 * sd[:3])), "estimate is %r m off the true track %g s after the start"
                % (d.tolist(), b.epoch_timestamp - H.t0))
        e = [angdiff(a, math.degrees(w)) for a, w in zip((b.roll, b.pitch, b.yaw), rpy)]
        require(all(abs(a) < 20 + 3 * math.degrees(k) for a, k in zip(e, sd[3:6])), "attitude is %r degrees off" % e)
        P = np.asarray(s.covariance)
        sd = np.sqrt(np.maximum(np.diag(P), 0))
        require_close([b.northings_std, b.eastings_std, b.depth_std, math.radians(b.roll_std),
                       math.radians(b.pitch_std), math.radians(b.yaw_std), b.x_velocity_std, b.y_velocity_std,
                       b.z_velocity_std, math.radians(b.vroll_std), math.radians(b.vpitch_std),
                       math.radians(b.vyaw_std)], sd.tolist(), "standard deviations", 1e-9, 1e-12)
        back = EkfState(0, np.zeros((12, 1)), None)
        back.fromSyncedOrientationBodyVelocity(b)
        require_close(back.state.ravel().tolist(), np.asarray(s.state).ravel().tolist(), "state round trip", 1e-9, 1e-9)
        require(back.time == s.time, "time round trip")
    t.nontrivial(bool(H.usbl))


@sub("C19", "outputs", SEED, quick=250, thorough=5000, rule="several images, offsets from the DVL")
def outputs(c, t):
    """states are moved from the DVL to the vehicle's origin and every image in the estimate gets its pose"""
    r = random.Random(c)
    off = lambda: NS(surge=round(r.uniform(-2, 2), 2), sway=round(r.uniform(-2, 2), 2), heave=round(r.uniform(-2, 2), 2))
    vehicle = NS(origin=off(), dvl=off())
    mission = NS(origin=NS(latitude=r.uniform(-60, 60), longitude=r.uniform(-170, 170)))
    t0 = float(r.randint(10 ** 9, 2 * 10 ** 9))
    n = r.randint(2, 12)
    ts = [t0]
    for _ in range(n - 1):
        ts.append(ts[-1] + r.choice([0.0, 0.25, 1.0, 0.5]) if len(ts) > 1 else ts[-1] + 0.25)
    states = []
    for s in ts:
        x = np.array([r.uniform(-500, 500), r.uniform(-500, 500), r.uniform(0, 3000), r.uniform(-0.4, 0.4),
                      r.uniform(-0.4, 0.4), r.uniform(-3.1, 3.1)] + [r.uniform(-1, 1) for _ in range(6)])
        states.append(EkfState(s, x.reshape(12, 1), spd(r, [1.0] * 12)))
    dr = []
    s = t0
    while True:
        b = SyncedOrientationBodyVelocity()
        b.epoch_timestamp, b.altitude = s, r.uniform(2, 10)
        dr.append(b)
        if s >= ts[-1] and len(dr) > 1:
            break
        s += r.choice([0.3, 0.5, 2.0])
    shift = r.random() < 0.7
    got = save_ekf_to_list(states, mission, vehicle, dr, shift)
    require(len(got) == len(states), "%d poses for %d states" % (len(got), len(states)))
    lever = np.array([vehicle.origin.surge - vehicle.dvl.surge, vehicle.origin.sway - vehicle.dvl.sway,
                      vehicle.origin.heave - vehicle.dvl.heave]) * shift
    from auv_nav.tools.latlon_wgs84 import metres_to_latlon
    for b, s in zip(got, states):
        x = s.state.ravel()
        q = x[:3] + rotation(*x[3:6]) @ lever
        require_close([b.northings, b.eastings, b.depth], q.tolist(), "position of the vehicle", 1e-9, 1e-6)
        require(b.epoch_timestamp == s.time, "time of the pose")
        la, lo = metres_to_latlon(mission.origin.latitude, mission.origin.longitude, q[1], q[0])
        require_close([b.latitude, b.longitude], [la, lo], "latitude and longitude", 0, 1e-8)
        alt = float(np.interp(s.time - t0, [d.epoch_timestamp - t0 for d in dr], [d.altitude for d in dr]))
        require_close(b.altitude, alt - (rotation(*x[3:6]) @ lever)[2], "altitude", 1e-6, 1e-6)
    # images: at times of states, between them, before and after; two may share a time
    cams, ref = [], []
    pool = sorted(set(ts))
    for i in range(r.randint(0, 8)):
        cm = Camera()
        k = r.random()
        cm.epoch_timestamp = r.choice(pool) if k < 0.75 else r.choice([t0 - 1, ts[-1] + 1, t0 + 0.1234])
        cams.append(cm)
    cams.sort(key=lambda m: m.epoch_timestamp)
    for i, cm in enumerate(cams):
        cm.filename = "im%d" % i
    o1, o2 = [0.0, 0.0, 0.0], [r.uniform(-2, 2) for _ in range(3)]
    res = update_camera_list(cams, got, o1, o2, [mission.origin.latitude, mission.origin.longitude])
    want = [m for m in cams if m.epoch_timestamp in pool]
    require([m.filename for m in res] == [m.filename for m in want], "images with a pose: %r, expected %r (of %r)"
            % ([m.filename for m in res], [m.filename for m in want], [m.epoch_timestamp - t0 for m in cams]))
    for m, w in zip(res, want):
        ok = False
        for b in got:
            if b.epoch_timestamp == w.epoch_timestamp:
                q = np.array([b.northings, b.eastings, b.depth]) + rotation(
                    *np.radians([b.roll, b.pitch, b.yaw])) @ np.array(o2)
                ok |= float(np.abs(q - [m.northings, m.eastings, m.depth]).max()) < 1e-6
        require(ok and m.epoch_timestamp == w.epoch_timestamp, "image %s is placed at %r" % (
            m.filename, [m.northings, m.eastings, m.depth]))
    t.nontrivial(len(want) >= 2 and shift)


@st.composite
def configured(draw):
    c = draw(navgen.dive(usbl=draw(st.sampled_from([True, True, True, False])), cams=draw(st.sampled_from([1, 2]))))
    c["start"] = c["finish"] = None
    c["filter"] = False
    c["smoother"] = draw(st.sampled_from([True, False, None]))
    c["threshold"] = draw(st.sampled_from([3.0, 6.0, 50.0, None]))
    c["wide"] = draw(st.booleans())
    sd = st.sampled_from([0.02, 0.05, 0.2])
    c["P"] = [draw(sd) * k for k in (50, 30, 20, 1, 1, 2, 4, 3, 2, 1, 1, 1)]
    c["Q"] = [draw(sd) * k for k in (2, 3, 4, 1, 1, 1, 5, 6, 7, 1, 1, 2)]
    c["corr"] = draw(st.integers(0, 2 ** 31))
    return c


@sub("C19", "process", configured(), quick=64, thorough=1600, max_s=60, shards=8,
     rule="position fixes, lever arms, at least ten states")
def process(c, t):
    """`auv_nav process` runs the filter with the configured noise, threshold and mounting positions"""
    ps = [p["epoch_timestamp"] for p in navgen.packets(c)]
    lo, hi = ps[1], ps[-1]
    ref = navgen.reference(c, lo, hi, 1)
    if ref is None or any(x["depth"] is None or x["altitude"] is None for x in ref):
        return
    r = random.Random(c["corr"])
    F = {k: np.array(v) for k, v in c["frames"].items()}
    H = NS(std=None, lever_u=F["dvl"] - F["usbl"], lever_d=F["dvl"] - F["depth"], P0=spd(r, c["P"]),
           Q=spd(r, c["Q"]))
    loc = navgen.localisation(c, ekf=True)

    def given(m):
        if c["wide"]:       # the older 15 x 15 form
            w = np.diag([0.5, 0.4, 0.3] * 5)
            w[:12, :12] = m
            w[12:, :12] = 0.01
            w[:12, 12:] = 0.01
            return w.flatten().tolist()
        return m.flatten().tolist()
    loc["ekf"].update(process_noise_covariance=given(H.Q), initial_estimate_covariance=given(H.P0))
    for k, v in (("activate_smoother", c["smoother"]), ("mahalanobis_distance_threshold", c["threshold"])):
        loc["ekf"][k] = v
        if v is None:
            del loc["ekf"][k]
    smooth, threshold = c["smoother"] is not False, c["threshold"] or 3.0
    root = t.scratch()
    raw, pro, cfg = navgen.write_dive(root, c, loc)
    cli.nav_process(raw)
    out, = [p for p in pro.iterdir() if p.name.startswith("json_renav")]
    linear = c["std"] == "linear"

    def unc(x, own):
        return 0.25 + 0.125 * abs(x) if linear else own
    inside = lambda s: [x for x in s if lo <= x[0] <= hi]
    H.ori = [NS(epoch_timestamp=q, roll=a[0], pitch=a[1], yaw=a[2], roll_std=unc(a[0], 0.02), pitch_std=unc(a[1], 0.03),
                yaw_std=unc(a[2], 0.1 + 0.01 * (i % 5))) for i, (q, a) in enumerate(c["orientation"]) if lo <= q <= hi]
    H.vel = [NS(epoch_timestamp=q, x_velocity=v[0], y_velocity=v[1], z_velocity=v[2], x_velocity_std=unc(v[0], 0.05),
                y_velocity_std=unc(v[1], 0.06), z_velocity_std=unc(v[2], 0.07)) for q, v in navgen.good_velocities(c, lo, hi)]
    H.depth = [NS(epoch_timestamp=q, depth=d, depth_std=unc(d, 0.01 * d)) for q, d in inside(c["depth"])]
    H.usbl = [NS(epoch_timestamp=q, northings=n, eastings=e, depth=d, northings_std=12.75 if linear else 3.0,
                 eastings_std=12.75 if linear else 3.0) for q, n, e, d in inside(c["usbl"])]
    dvl = table(out / "csv" / "dead_reckoning" / "auv_dr_dvl.csv", "dead reckoning")
    n, e = num(dvl[0]["northing [m]"]), num(dvl[0]["easting [m]"])
    first = ref[0]
    q0 = first["t"]
    H.t0, H.end = q0, ref[-1]["t"]
    z = (rotation(*np.radians(first["att"])) @ H.lever_d)[2]
    H.ini = NS(northings=n, eastings=e, depth=first["depth_raw"] + z, roll=first["att"][0], pitch=first["att"][1],
               yaw=first["att"][2], x_velocity=first["v"][0], y_velocity=first["v"][1], z_velocity=first["v"][2])
    H.want = sorted(set([m[0] for m in c["images"] if lo <= m[0] <= hi]
                        + [m[1] for m in c["images"] if lo <= m[0] <= hi] * (c["cams"] > 1)
                        + [x for x in c["laser"] if lo <= x <= hi] + c["ptimes"]))
    try:
        want, rejected = reference(H, threshold)
    except Unsure:
        return
    if smooth:
        want = rts(H, want)
    rows = table(out / "csv" / "ekf" / "auv_ekf_centre.csv", "EKF track")
    # a last state after the end of the dead reckoning has no altitude and may be left out
    last = [w for w in want if w[0] <= H.end + 1e-9]
    require(len(rows) in (len(want), len(last)), "%d EKF states, expected %d" % (len(rows), len(want)))
    for row, w in zip(rows, want):
        what = "EKF state at +%.3f s (of %.3f s)" % (w[0] - q0, H.end - q0)
        require(abs(num(row["timestamp"]) - w[0]) < 1e-5, "%s is at %r" % (what, row["timestamp"]))
        x, P = np.asarray(w[1]), np.asarray(w[2])
        sd = np.sqrt(np.diag(P))
        p = x[:3] + rotation(*x[3:6]) @ (F["origin"] - F["dvl"])
        got = [num(row[k]) for k in ("northing [m]", "easting [m]", "depth [m]")]
        tol = 1e-5 if not smooth else 1e-4
        require_close(got, p.tolist(), what + ": position", tol, tol)
        for k, a in zip(("roll [deg]", "pitch [deg]", "heading [deg]"), x[3:6]):
            require(abs(angdiff(num(row[k]), math.degrees(a))) < 100 * tol, "%s: %s is %s, expected %r"
                    % (what, k, row[k], math.degrees(a)))
        for k, s in zip(("x [m]", "y [m]", "z [m]", "roll [deg]", "pitch [deg]", "yaw [deg]", "vx [m/s]", "vy [m/s]",
                         "vz [m/s]"), sd):
            s = math.degrees(s) if "deg" in k else s
            require_close(num(row["vehicle_std_" + k]), s, "%s: uncertainty of %s" % (what, k), 1e-3 if smooth else 1e-4, 1e-6)
    t.label("smoother" if smooth else "filter")
    t.label("15 x 15", c["wide"])
    t.label("rejected", bool(rejected))
    t.label("linear", linear)
    t.nontrivial(bool(H.usbl) and any(H.lever_u) and any(H.lever_d) and len(rows) >= 10)
