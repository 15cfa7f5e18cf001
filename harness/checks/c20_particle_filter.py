"""C20: the particle filter moves particles with the vehicle, weighs them by the fixes and keeps the likely."""
import copy
import math
import random
from types import SimpleNamespace as NS

import numpy as np
from hypothesis import strategies as st

from checks.c30_laser import quiet
from checks.c19_ekf import rotation
from pbt import angdiff, require, require_close, sub

from auv_nav.localisation.pf import (DeadReckoningMovementModel, Index, Particle, ParticleFilter,
                                     ParticleToSyncedOrientationBodyVelocity, UsblObservationModel,
                                     run_particle_filter)
from auv_nav.sensors import SyncedOrientationBodyVelocity

SEED = st.integers(0, 2 ** 32 - 1)
STEP = ("northings", "eastings", "depth", "roll", "pitch", "yaw", "x_velocity", "y_velocity", "z_velocity",
        "altitude")


def stds(r, zero=False):
    def pair():
        return (0.0, 0.0) if zero else (r.choice([0.0, r.uniform(0, 0.02)]), r.uniform(0.001, 0.5))
    s = {}
    for k in ("position_z", "orientation", "position_xy"):
        f, o = pair()
        s[k] = {"factor": f, "offset": o, "model": "linear"}
    if r.random() < 0.5:
        f, o = pair()
        s["speed"] = {"factor": f, "offset": o}
    else:
        s["speed"] = {}
        for a in "xyz":
            f, o = pair()
            s["speed"]["factor_" + a] = f
            s["speed"]["offset_" + a] = o
    return s


def linear(s, axis=None):
    if axis and "factor_" + axis in s:
        return s["factor_" + axis], s["offset_" + axis]
    return s["factor"], s["offset"]


def step(r, time):
    d = SyncedOrientationBodyVelocity()
    d.epoch_timestamp = time
    d.northings, d.eastings = r.uniform(-1e3, 1e3), r.uniform(-1e3, 1e3)
    d.depth, d.altitude = r.uniform(0, 3000), r.uniform(0, 30)
    d.roll, d.pitch, d.yaw = r.uniform(-20, 20), r.uniform(-20, 20), r.uniform(0, 360)
    d.x_velocity, d.y_velocity, d.z_velocity = (r.uniform(-2, 2) for _ in range(3))
    return d


def start(d):
    p = Particle()
    p.time = d.epoch_timestamp
    p.state = np.array([[d.northings], [d.eastings], [d.depth], [math.radians(d.roll)],
                        [math.radians(d.pitch)], [math.radians(d.yaw)], [d.x_velocity], [d.y_velocity],
                        [d.z_velocity], [d.altitude]])
    return p


def world_velocity(d):
    return rotation(math.radians(d.roll), math.radians(d.pitch), math.radians(d.yaw)) @ np.array(
        [d.x_velocity, d.y_velocity, d.z_velocity])


def fix(n, e, z, sn, se, sz, time=None):
    return NS(northings=n, eastings=e, depth=z, northings_std=sn, eastings_std=se, depth_std=sz,
              epoch_timestamp=time)


@sub("C20", "noise", SEED, quick=70, thorough=1500, rule="moving vehicle, noise that depends on the reading",
     shards=2)
def noise(c, t):
    r = random.Random(c)
    np.random.seed(c % 2 ** 32)
    s = stds(r)
    k_dvl, k_imu = r.uniform(0.5, 3), r.uniform(0.5, 3)
    a, b = step(r, 1000.0), step(r, 1001.0)
    mm = DeadReckoningMovementModel(s, k_dvl, k_imu)
    mm.set_movement(b)
    N = 500
    ps = []
    for _ in range(N):
        p = start(a)
        mm.propagate(p, 1e-7)
        ps.append(p.state.ravel().copy())
    ps = np.array(ps)
    want = {}
    f, o = linear(s["position_z"])
    want[Index.Z] = (b.depth, abs(b.depth) * f + o)
    f, o = linear(s["orientation"])
    for i, v in ((Index.ROLL, b.roll), (Index.PITCH, b.pitch), (Index.YAW, b.yaw)):
        want[i] = (math.radians(v), math.radians((abs(v) * f + o) * k_imu))
    for i, v, ax in ((Index.VX, b.x_velocity, "x"), (Index.VY, b.y_velocity, "y"),
                     (Index.VZ, b.z_velocity, "z")):
        f, o = linear(s["speed"], ax)
        want[i] = (v, (abs(v) * f + o) * k_dvl)
    want[Index.ALT] = (b.altitude, 0.0)
    for i, (m, sd) in want.items():
        x = ps[:, i]
        if i == Index.YAW:
            x = np.array([m + math.radians(angdiff(math.degrees(v), math.degrees(m))) for v in x])
        require(abs(x.mean() - m) <= 6 * sd / math.sqrt(N) + 1e-6,
                "state %d: particles are around %r, the vehicle reports %r (std %r)" % (i, x.mean(), m, sd))
        require(abs(x.std() - sd) <= 0.2 * sd + 1e-6,
                "state %d: particles spread by %r, the sensor noise is %r" % (i, x.std(), sd))
    require(float(np.abs(ps[:, 0] - a.northings).max()) < 1e-5, "particles jump in northing")
    t.nontrivial(linear(s["orientation"])[0] > 0 or linear(s["speed"], "x")[0] > 0)


@sub("C20", "movement", SEED, quick=400, thorough=10000, rule="several steps that differ")
def movement(c, t):
    r = random.Random(c)
    mm = DeadReckoningMovementModel(stds(r, True), r.uniform(0.5, 3), r.uniform(0.5, 3))
    t0 = r.uniform(1.2e9, 1.7e9)
    a = step(r, t0)
    p = start(a)
    pos, now, ref = np.array([a.northings, a.eastings]), t0, []
    for i in range(r.randint(1, 12)):
        if i == 0 or r.random() < 0.7:
            b = step(r, now)
            mm.set_movement(b)
        dt = r.choice([0.0, r.uniform(0, 5), 0.1])
        mm.propagate(p, dt)
        v = world_velocity(b)
        pos = pos + v[:2] * dt
        now += dt
        ref.append((now, pos, b, abs(v[2] * dt)))
    got = ParticleToSyncedOrientationBodyVelocity(p)
    same_track(got, ref)
    t.nontrivial(len(ref) > 2)


def same_track(got, ref):
    require(len(got) == len(ref), "%d steps, expected %d" % (len(got), len(ref)))
    for i, (g, (now, pos, b, dz)) in enumerate(zip(got, ref)):
        w = "step %d of %d: " % (i, len(ref))
        require_close(g.epoch_timestamp, now, w + "time", 0, 1e-5)
        require_close([g.northings, g.eastings], list(pos), w + "position", 1e-9, 1e-5)
        require(abs(g.depth - b.depth) <= dz + 1e-6, w + "depth %r, reported %r" % (g.depth, b.depth))
        for k in ("roll", "pitch", "yaw"):
            require(abs(angdiff(getattr(g, k), getattr(b, k))) < 1e-6,
                    w + "%s %r, reported %r" % (k, getattr(g, k), getattr(b, k)))
        require_close([g.x_velocity, g.y_velocity, g.z_velocity],
                      [b.x_velocity, b.y_velocity, b.z_velocity], w + "velocity", 0, 1e-9)
        require_close(g.altitude, b.altitude, w + "altitude", 0, 1e-9)


@sub("C20", "weights", SEED, quick=300, thorough=8000,
     rule="weights differ; at least one particle is dropped and one copied")
def weights(c, t):
    r = random.Random(c)
    np.random.seed(c % 2 ** 32)
    n = r.randint(2, 40)
    factor = r.uniform(0.5, 4)
    base = step(r, 1000.0)
    mm = DeadReckoningMovementModel(stds(r, True), 1, 1)
    mm.set_movement(base)
    pf = ParticleFilter(n, mm, UsblObservationModel(factor), r.randint(0, 100))
    pf.set_prior(start(base))
    spread = r.choice([0.5, 3.0, 10.0])
    for i, p in enumerate(pf.particles):
        p.state[0, 0] += r.gauss(0, spread)
        p.state[1, 0] += r.gauss(0, spread)
        p.state[9, 0] = i       # tag
    require_close(sum(p.weight for p in pf.particles), 1.0, "weights after the prior", 0, 1e-9)
    logw = {p.state[9, 0]: 0.0 for p in pf.particles}
    where = {p.state[9, 0]: p.state[:3, 0].copy() for p in pf.particles}
    lost = False
    for _ in range(r.randint(1, 4)):
        off = r.choice([0.0, 1.0, 5.0, 15.0, 40.0]) if r.random() < 0.85 else 1e5
        sn, se, sz = (r.uniform(0.5, 4) for _ in range(3))
        f = fix(base.northings + r.uniform(-1, 1) * off, base.eastings + off, base.depth + r.uniform(-1, 1), sn, se, sz)
        pf.set_observation(f)
        pf.measure()
        sg = factor * math.sqrt(sn ** 2 + se ** 2 + sz ** 2)
        for k in logw:
            d = np.linalg.norm(where[k] - np.array([f.northings, f.eastings, f.depth]))
            logw[k] += -d * d / 2 / sg ** 2 - math.log(sg) - 0.5 * math.log(2 * math.pi)
        ws = [p.weight for p in pf.particles]
        require(all(math.isfinite(w) and w >= 0 for w in ws), "weights %r" % ws)
        require_close(sum(ws), 1.0, "sum of the weights after a fix", 0, 1e-9)
        require(max(ws) == ws[0], "the first particle is not the best one")
        if max(logw.values()) < -300 or off > 1e4:
            lost = True         # a fix that no particle explains; only that the filter goes on is specified
            break
        m = max(logw.values())
        tot = sum(math.exp(v - m) for v in logw.values())
        for p in pf.particles:
            require_close(p.weight, math.exp(logw[p.state[9, 0]] - m) / tot, "weight of a particle", 1e-6, 1e-9)
    neff = 1 / sum(w * w for w in ws)
    require_close(pf.get_neff(), neff, "effective particles", 1e-6)
    if abs(neff - n / 2) > 1e-6:
        require(pf.should_resample() == (neff < n / 2), "resampling with %r effective particles of %d" % (neff, n))
    before = {p.state[9, 0]: p for p in copy.deepcopy(pf.particles)}
    pf.resample()
    require(len(pf.particles) == n, "%d particles after resampling %d" % (len(pf.particles), n))
    count = {k: 0 for k in before}
    for p in pf.particles:
        count[p.state[9, 0]] += 1
        require_close(p.weight, 1.0 / n, "weight of a particle after resampling", 1e-9)
        require(bool(np.array_equal(p.state, before[p.state[9, 0]].state)), "resampling changed a particle")
    for k, m in count.items():
        require(abs(m - n * before[k].weight) < 1 + 1e-6,
                "%d copies of a particle of weight %r among %d" % (m, before[k].weight, n))
    moved = pf.particles[0]
    keep = [p.state.copy() for p in pf.particles[1:]]
    mm.propagate(moved, 1.0)
    require(all(np.array_equal(a, p.state) for a, p in zip(keep, pf.particles[1:])),
            "moving a resampled particle moves another one")
    require(len(moved.trajectory) == 1 and not any(len(p.trajectory) for p in pf.particles[1:]),
            "particles share their trajectory after resampling")
    t.nontrivial(not lost and max(count.values()) > 1 and min(count.values()) == 0)


@sub("C20", "resampling", SEED, quick=60, thorough=1500, rule="at least three different weights that are not multiples of 1/n")
def resampling(c, t):
    """over many draws each particle is copied in proportion to its weight, whatever its place in the list"""
    r = random.Random(c)
    np.random.seed(c % 2 ** 32)
    n, m = r.randint(2, 8), 400
    w = [r.choice([0.0, r.random(), r.random(), r.random() ** 4]) for _ in range(n)]
    w[r.randrange(n)] = 1.0
    w = np.array(w) / sum(w)
    order = sorted(w, reverse=True) if r.random() < 0.5 else list(w)
    mm = DeadReckoningMovementModel(stds(r, True), 1, 1)
    count = np.zeros(n)
    for _ in range(m):
        pf = ParticleFilter(n, mm, UsblObservationModel(1.0), 0)
        for i in range(n):
            pf.particles[i] = Particle()
            pf.particles[i].weight = float(order[i])
            pf.particles[i].state[9, 0] = i
        pf.resample()
        for p in pf.particles:
            count[int(p.state[9, 0])] += 1
    for k in range(n):
        # a count is one of two neighbouring integers: its mean spreads by at most 0.5 / sqrt(m)
        require(abs(count[k] / m - n * order[k]) < 6 * 0.5 / math.sqrt(m),
                "particle %d of weight %r among %d is copied %r times on average" % (k, order[k], n, count[k] / m))
    t.nontrivial(len({round(float(x), 9) for x in w if abs(x * n - round(x * n)) > 1e-3}) >= 3)


@sub("C20", "dead_reckoning_times", SEED, quick=60, thorough=1500,
     rule="position fixes before, during and after dead reckoning", shards=2)
def dead_reckoning_times(c, t):
    """without noise the output is the dead-reckoned motion at the times of all records and fixes"""
    r = random.Random(c)
    np.random.seed(c % 2 ** 32)
    t0 = float(int(r.uniform(1.2e9, 1.7e9)))
    n = r.randint(2, 30)
    dr, now = [], t0
    for _ in range(n):
        dr.append(step(r, now))
        now += r.choice([0.25, 0.5, 1.0])
    end = dr[-1].epoch_timestamp
    times = sorted({r.choice([t0, t0 + r.randint(-8, 4 * n) * 0.25, t0 + r.uniform(-3, n)]) for _ in range(r.randint(1, 8))})
    us = [fix(dr[0].northings + r.uniform(-5, 5), dr[0].eastings + r.uniform(-5, 5), dr[0].depth, 3.0, 3.0, 1.0, x)
          for x in times]
    N = r.randint(1, 4)
    with quiet():
        out = run_particle_filter(copy.deepcopy(us), copy.deepcopy(dr), N, stds(r, True), 1.0, 1.0, r.choice([1.0, 3.0]))
    events = [(x, 0, None) for x in times if t0 <= x <= end] + [(d.epoch_timestamp, 1, d) for d in dr]
    events.sort(key=lambda e: e[:2])
    pos, last, b, ref = np.array([dr[0].northings, dr[0].eastings]), t0, dr[0], []
    for x, _, d in events:
        b = d or b
        v = world_velocity(b)
        pos = pos + v[:2] * (x - last)
        ref.append((x, pos, b, abs(v[2] * (x - last))))
        last = x
    same_track(out[0], ref)
    require(all(any(u.epoch_timestamp == x.epoch_timestamp for u in us) for x in out[1]), "unknown fix in use")
    require(all(len(ps) == N for ps in out[2]), "the history lost particles")
    t.nontrivial(times[0] < t0 and any(t0 <= x <= end for x in times))


@sub("C20", "tracking", SEED, quick=16, thorough=300, rule="dead reckoning alone drifts away", shards=8)
def tracking(c, t):
    """dead reckoning drifts within the noise given for the sensors; the fixes hold the output near the truth"""
    r = random.Random(c)
    np.random.seed(c % 2 ** 32)
    t0, n = 1.5e9, 150
    yaw0, rate = r.uniform(0, 360), r.choice([0, 0, r.uniform(-1, 1)])
    speed = r.uniform(0.4, 1.0)
    bias = np.array([r.uniform(-1, 1), r.uniform(-1, 1)])
    bias *= r.uniform(0.1, 0.2) / np.linalg.norm(bias)
    truth, est, dr, us = np.zeros(2), np.zeros(2), [], []
    off = np.array([r.uniform(-500, 500), r.uniform(-500, 500)])
    outlier = r.choice([None, r.randint(20, 100)])
    for i in range(n):
        d = step(r, t0 + i)
        d.roll = d.pitch = 0.0
        d.depth, d.yaw = 50.0, (yaw0 + rate * i) % 360
        d.x_velocity, d.y_velocity, d.z_velocity = speed + bias[0], bias[1], 0.0
        R = rotation(0, 0, math.radians(d.yaw))
        if i:
            truth = truth + (R @ np.array([speed, 0, 0]))[:2]
            est = est + world_velocity(d)[:2]
        d.northings, d.eastings = off + est
        dr.append(d)
        if i % 3 == 1:
            p = off + truth + np.array([r.gauss(0, 0.5), r.gauss(0, 0.5)])
            if outlier is not None and outlier <= i < outlier + 3:
                p = p + 5000
            us.append(fix(p[0], p[1], 50.0, 1.0, 1.0, 0.1, t0 + i + 0.5))
    s = {"position_z": {"factor": 0, "offset": 0.01}, "orientation": {"factor": 0, "offset": 0.2},
         "position_xy": {"factor": 0, "offset": 1.0}, "speed": {"factor": 0, "offset": 0.45}}
    with quiet():
        out = run_particle_filter(us, dr, 100, s, 1.0, 1.0, 1.0)
    last = out[0][-1]
    err = np.hypot(last.northings - off[0] - truth[0], last.eastings - off[1] - truth[1])
    drift = float(np.linalg.norm(est - truth))
    require(err < 7.0, "the output is %.1f m from the vehicle, dead reckoning alone %.1f m (fixes have 1 m)"
            % (err, drift))
    require(len(out[1]) > 0, "no fix led to resampling although dead reckoning drifts by %.1f m" % drift)
    stamps = [x.epoch_timestamp for x in out[0]]
    require(all(b >= a - 1e-6 for a, b in zip(stamps, stamps[1:])), "output is not in time order")
    t.nontrivial(drift > 9, "outlier" if outlier else "clean")
