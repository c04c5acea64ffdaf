"""Drivers for C10 and C11: canonical subproblems."""
import math, itertools
import numpy as np
from vlib import *
import general_robotics_toolbox as rox

def ang(v):
    return fx(v)
def pairs(v):
    return [[fx(a), fx(b)] for a, b in v]
def angs(v):
    return [fx(a) for a in np.asarray(v).reshape(-1).tolist()] if not isinstance(v, (list, tuple)) else [fx(a) for a in v]

def gen_vec(rng, s=1.2):
    k = rng.integers(0, 5)
    v = rng.uniform(-s, s, 3)
    if k == 0:
        v = rng.integers(-2, 3, 3) / 2.0
        if not v.any():
            v = np.array([1.0, 0, 0])
    if k == 1:
        v[rng.integers(0, 3)] = 0
    return v

def short(v):
    return v * min(1, 1.5 / np.linalg.norm(v))

def perp_of(rng, k):
    while True:
        v = rng.uniform(-1, 1, 3)
        v -= k.dot(v) * k
        if np.linalg.norm(v) > .2:
            v -= k.dot(v) * k / k.dot(k)
            return v

def form(rng, *vs, u=1.0):
    # the first two are lengths, in any unit
    return [lay(rng, np.asarray(v) * u if k < 2 and u != 1 else v) for k, v in enumerate(vs)]

def c10(rec, cases):
    rng = rec.rng
    # subproblem 0
    for i in range(rec.n(900, 15000)):
        k = rand_axis(rng)
        p = perp_of(rng, k)
        th = rand_angle(rng)
        q = R_of(k, th) @ p
        if i % 6 == 5:         # not perpendicular: p, q or both, to either side
            d = float(rng.choice([-1, 1])) * float(rng.choice([1e-3, 1e-2, .3]))
            w = rng.integers(0, 3)
            if w != 1: p = p + d * k
            if w != 0: q = q + d * k
        rec.ev({"op": "sub0", "p": vec(p), "q": vec(q), "k": vec(k), "r": res(ang, rox.subproblem0, *form(rng, p, q, k, u=len_unit(rng)))})
    # subproblem 1
    for i in range(rec.n(1800, 25000)):
        k = rand_axis(rng)
        p = gen_vec(rng)
        if i % 7 == 0:         # nearly on the axis
            p = rng.uniform(-1, 1) * k + 10.0 ** rng.uniform(-6, -1) * perp_of(rng, k)
        if i % 31 == 0:
            p = rng.uniform(.2, 3) * k
        th = rand_angle(rng)
        if i % 11 == 0:        # small and nearly straight angles
            th = float(rng.choice([0, math.pi, -math.pi])) + float(rng.choice([-1, 1])) * 10.0 ** rng.uniform(-4, -1)
        q = R_of(k, th) @ p
        if i % 31 == 0:        # on the axis up to rounding
            if i % 2: p, q = p + 10.0 ** rng.uniform(-9, -7) * rng.normal(size=3), q + 10.0 ** rng.uniform(-9, -7) * rng.normal(size=3)
        w = [fx(th)] if np.linalg.norm(np.cross(p, k)) > .05 and abs(th) < 20 else []
        rec.ev({"op": "sub1", "p": vec(p), "q": vec(q), "k": vec(k), "w": w, "r": res(ang, rox.subproblem1, *form(rng, p, q, k, u=len_unit(rng)))})
    # subproblem 2
    def two(p, q, k1, k2, exact=False, touch=False, w=(), tol=100):
        rec.ev({"op": "sub2", "w": [[fx(a), fx(b)] for a, b in w], "tol": tol, "touch": bool(touch), "p": vec(p), "q": vec(q), "k1": vec(k1), "k2": vec(k2), "exact": bool(exact), "r": res(pairs, rox.subproblem2, *form(rng, p, q, k1, k2, u=len_unit(rng)))})
    for c in cases:
        s = .25 if c["nn"] == 25 else .5
        two(np.array(c["p"]) * s, np.array(c["q"]) * s, np.array(c["k1"], float), unit(c["k2"]), c["touch"])
    i = 0
    while i < rec.n(1800, 30000):
        k1, k2 = rand_axis(rng), rand_axis(rng)
        if np.linalg.norm(np.cross(k1, k2)) < .2:
            continue
        i += 1
        p = gen_vec(rng)
        if np.linalg.norm(p) < .1 or np.linalg.norm(np.cross(p, k2)) < .02:
            continue
        kind = i % 4
        if kind == 0:
            q = gen_R(rng) @ p                       # anywhere on the sphere
        elif kind == 3:                              # the cones touch, up to rounding
            n = np.linalg.norm(p)
            b = unit(k1 - k1.dot(k2) * k2)
            # z in the plane of k1, k2 with z.k2 = p.k2
            z = p.dot(k2) * k2 + float(rng.choice([-1, 1])) * math.sqrt(max(0, n * n - p.dot(k2) ** 2)) * b
            q = R_of(k1, rand_angle(rng)) @ z
        else:
            q = R_of(k1, rand_angle(rng)) @ R_of(k2, rand_angle(rng)) @ p
        if np.linalg.norm(np.cross(q, k1)) < .02:
            continue
        two(p, q, k1, k2, touch=kind == 3)
    i = 0
    while i < rec.n(500, 8000):                  # the cones nearly touch: two meeting points close to each other, or a narrow gap
        k1, k2 = rand_axis(rng), rand_axis(rng)
        p = short(gen_vec(rng))
        n = np.cross(k1, k2)
        pp = p - p.dot(k2) * k2
        if np.linalg.norm(n) < .2 or np.linalg.norm(p) < .1 or np.linalg.norm(pp) < .1:
            continue
        n = unit(n)
        # the turn about k2 that brings p into the plane of the axes, and a little to either side
        b0 = math.atan2(-(pp @ n), np.cross(k2, pp) @ n) + float(rng.choice([0, math.pi]))
        de = 10.0 ** rng.uniform(-3.7, -1)
        c = R_of(k2, b0 + de) @ p
        c2 = c - 2 * (c @ n) * n
        if np.linalg.norm(np.cross(c, k1)) < .1:
            continue
        i += 1
        a1 = float(rng.uniform(-3, 3))
        q = R_of(k1, a1) @ c
        x = np.cross(k1, c2)
        da = math.atan2(c @ x, (c - c.dot(k1) * k1) @ c2)
        two(p, q, k1, k2, w=[(a1, b0 + de), (a1 + da, b0 - de)])
        # farther from (or closer to) the first axis than any turn about the second can bring it
        z = R_of(k2, b0) @ p
        s = np.sign(z.dot(k1) - (R_of(k2, b0 + .1) @ p).dot(k1))
        ax = np.cross(z, k1)
        f = 10.0 ** rng.uniform(-3, -.5)
        q = R_of(unit(ax), s * f) @ z
        if np.sign(np.cross(q, k1) @ ax) > 0 and np.linalg.norm(np.cross(q, k1)) > .05:
            two(p, R_of(k1, a1) @ q, k1, k2)
    i = 0
    while i < rec.n(600, 10000):                 # axes close to parallel or antiparallel still meet
        k1 = rand_axis(rng)
        al = 10.0 ** rng.uniform(-2.5, -.5)
        n = unit(perp_of(rng, k1))
        k2 = math.cos(al) * k1 + math.sin(al) * np.cross(n, k1)
        k2 = k2 / np.linalg.norm(k2)
        if rng.random() < .5:
            k2 = -k2
        p = short(gen_vec(rng))
        a, b = float(rng.uniform(-3, 3)), float(rng.uniform(-3, 3))
        c = R_of(k2, b) @ p
        # the meeting point well off the plane of the axes, where it is well conditioned
        if abs(c @ n) < .2 or np.linalg.norm(np.cross(p, k2)) < .2:
            continue
        i += 1
        two(p, R_of(k1, a) @ c, k1, k2, w=[(a, b)], tol=1000)
    for i in range(rec.n(60, 500)):
        k = rand_axis(rng)
        p = gen_vec(rng); q = gen_R(rng) @ p
        two(p, q, k, k * float(rng.choice([-1, 1])))

def c11(rec, cases):
    rng = rec.rng
    def three(p, q, k, d, exact=False, w=()):
        u = len_unit(rng)
        rec.ev({"op": "sub3", "w": [fx(x) for x in w], "p": vec(p), "q": vec(q), "k": vec(k), "d": fx(d), "exact": bool(exact), "r": res(angs, rox.subproblem3, *form(rng, p, q, k, u=u), d * u)})
    def four(p, q, k, d, exact=False, w=()):
        u = len_unit(rng)
        rec.ev({"op": "sub4", "w": [fx(x) for x in w], "p": vec(p), "q": vec(q), "k": vec(k), "d": fx(d), "exact": bool(exact), "r": res(angs, rox.subproblem4, *form(rng, p, q, k, u=u), d * u * u)})
    for c in cases:
        k = np.array(c["k"], float)
        p, q = np.array(c["p"]) / 4., np.array(c["q"]) / 4.
        for t in range(4):
            R = R_of(k, t * math.pi / 2).round()
            if c["_m"] and c.get("_i", 0) == 0:
                three(p, q, k, float(np.linalg.norm(q + R @ p)))
            four(p, q, k, float(p @ R @ q))
    n = 0
    while n < rec.n(2500, 40000):
        k = rand_axis(rng)
        p, q = short(gen_vec(rng)), short(gen_vec(rng))
        pp, qp = p - p.dot(k) * k, q - q.dot(k) * k
        a, b = np.linalg.norm(pp), np.linalg.norm(qp)
        if a < .05 or b < .05:
            continue
        n += 1
        h = k.dot(p + q)
        lo, hi = math.sqrt((a - b) ** 2 + h * h), math.sqrt((a + b) ** 2 + h * h)
        kind = n % 6
        f = 10.0 ** rng.uniform(-3, -.3)
        d = [rng.uniform(lo, hi), lo + f * (hi - lo), hi - f * (hi - lo), lo * (1 - f), hi * (1 + f), rng.uniform(0, 2.5)][kind]
        if d < 3:
            three(p, q, k, d)
        A = p @ np.cross(k, q)
        B = p.dot(q) - k.dot(p) * k.dot(q)
        C0 = p.dot(q) - B
        m = math.hypot(A, B)
        if m < .02:
            continue
        d = [C0 + rng.uniform(-m, m), C0 - m * (1 - f), C0 + m * (1 - f), C0 - m * (1 + f), C0 + m * (1 + f), rng.uniform(-2.5, 2.5)][kind]
        four(p, q, k, d)
        # close to the extreme there are still two angles, one on either side
        if n % 3 == 0 and min(a, b) > .2 and m > .1:
            de = 10.0 ** rng.uniform(-3, -1)
            t0 = math.atan2(A, B) + float(rng.choice([0, math.pi]))
            w = [t0 + de, t0 - de]
            four(p, q, k, float(p @ R_of(k, w[0]) @ q), w=w)
            t0 = math.atan2(k @ np.cross(pp, qp), pp @ qp) + float(rng.choice([0, math.pi]))
            w = [t0 + de, t0 - de]
            d = float(np.linalg.norm(q + R_of(k, w[0]) @ p))
            if d > .05:
                three(p, q, k, d, w=w)
    for _ in range(rec.n(50, 500)):           # a point on the axis cannot change its distance
        k = rand_axis(rng)
        p = k * rng.uniform(.2, 1); q = short(gen_vec(rng))
        d = float(np.linalg.norm(p + q))
        three(p, q, k, d + .3)
        three(q, p, k, d + .3)
