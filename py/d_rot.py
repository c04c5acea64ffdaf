"""Drivers for C01, C02, C03: rotations, quaternion algebra, interpolation."""
import math, itertools
import numpy as np
from vlib import *
import general_robotics_toolbox as rox

def quats(rec, cases):
    """unit quaternions: the lattice enumerated by the model, directed families, random"""
    rng = rec.rng
    for c in cases:
        yield unit(np.array(c["q"], float))
    fam = []
    axes = [unit(a) for a in itertools.product([-1, 0, 1], repeat=3) if any(a)]
    axes += [np.array([0, .6, .8]), np.array([0, -.6, .8]), np.array([.6, 0, -.8]), np.array([0.8, -.6, 0]),
             np.array([1, 2, 2]) / 3, np.array([-2, 1, 2]) / 3, np.array([2, -2, 1]) / 3]
    for k in axes:
        for th in (0, 1e-9, 3e-7, 2e-6, 1e-5, 1e-3, .5, math.pi / 2, 2 * math.pi / 3, 2.5, math.pi - 1e-3, math.pi - 1e-5,
                   math.pi - 2e-6, math.pi - 3e-7, math.pi - 1e-9, math.pi, math.pi + 1e-7, math.pi + 1e-5, 4.0, 2 * math.pi - 1e-6, 2 * math.pi):
            yield q_of(k, th)
    for _ in range(rec.n(300, 6000)):      # half turns about axes with (nearly) equal components, where conversions change branch
        k = axes[rng.integers(0, len(axes))] + rng.choice([-1, 0, 1], 3) * 10.0 ** rng.uniform(-9, -2, 3)
        yield q_of(unit(k), math.pi + float(rng.choice([-1, 0, 1])) * 10.0 ** rng.uniform(-9, -2)) * rng.choice([-1.0, 1.0])
    for _ in range(rec.n(500, 8000)):
        yield unit(q_of(rand_axis(rng), rand_angle(rng))) * rng.choice([-1.0, 1.0])
    for _ in range(rec.n(300, 8000)):
        q = rng.normal(size=4)
        for i in range(4):
            if rng.random() < .3:
                q[i] *= 10.0 ** rng.uniform(-12, 0)
        yield unit(q)

def mat_of_q(q):
    w, x, y, z = q
    return np.array([[w*w+x*x-y*y-z*z, 2*(x*y-w*z), 2*(x*z+w*y)],
                     [2*(x*y+w*z), w*w-x*x+y*y-z*z, 2*(y*z-w*x)],
                     [2*(x*z-w*y), 2*(y*z+w*x), w*w-x*x-y*y+z*z]])

def c01(rec, cases):
    rng = rec.rng
    for q in quats(rec, cases):
        R = mat_of_q(q)
        if rng.random() < .5:              # as computed by products of rotations: not orthonormal to the last bit
            R = R + 1e-16 * rng.integers(-4, 5, (3, 3))
        Re = mat(R)
        rec.ev({"op": "q2R", "q": vec(q), "r": res(mat, rox.q2R, lay(rng, q))})
        rec.ev({"op": "R2q", "R": Re, "r": res(lambda v: vec(v, 4), rox.R2q, lay(rng, R))})
        rec.ev({"op": "R2rot", "R": Re, "r": res(kth, rox.R2rot, lay(rng, R))})
        rec.ev({"op": "q2rot", "q": vec(q), "r": res(kth, rox.q2rot, lay(rng, q))})
        which = rng.integers(0, 4)
        ch = [lambda: rox.q2R(rox.rot2q(*rox.R2rot(R))),
              lambda: rox.rot(*rox.q2rot(rox.R2q(R))),
              lambda: rox.rot(*rox.R2rot(rox.q2R(q))),
              lambda: rox.q2R(rox.R2q(rox.rot(*rox.q2rot(q))))][which]
        rec.ev({"op": "rchain", "n": int(which), "R": Re, "r": res(mat, ch)})
        c = np.linalg.norm(R[0:2, 0])
        rec.ev({"op": "R2rpy", "R": Re, "c16": int(min(c * 1e16, 1e9)), "r": res(lambda v: vec(v, 3), rox.R2rpy, lay(rng, R))})
    for _ in range(rec.n(700, 10000)):
        k, th = rand_axis(rng), rand_angle(rng, True)
        rec.ev({"op": "rot", "k": vec(k), "th": fx(th), "r": res(mat, rox.rot, axis_form(rng, k), th + turns(rng))})
        rec.ev({"op": "rot2q", "k": vec(k), "th": fx(th), "r": res(lambda v: vec(v, 4), rox.rot2q, axis_form(rng, k), th + turns(rng))})
        R = R_of(k, th)
        rec.ev({"op": "rchain", "n": 9, "R": mat(R), "r": res(mat, lambda: rox.rot(*rox.R2rot(rox.rot(k, th))))})
    for k in ([0, 0, 1], [0, 1, 0], [1, 0, 0], (0, 0, -1)):   # plain sequences as axis
        for th in (.3, -2.0, math.pi):
            rec.ev({"op": "rot", "k": vec(k), "th": fx(th), "r": res(mat, rox.rot, k, th)})
    # roll-pitch-yaw, including close to and at gimbal lock
    for i in range(rec.n(900, 10000)):
        r, p, y = [rand_angle(rng) for _ in range(3)]
        kind = i % 4
        if kind == 0:
            p = rng.uniform(-1.5, 1.5)
        if kind == 1:
            p = float(rng.choice([-1, 1])) * (math.pi / 2 - float(rng.choice([-1, 1])) * 10.0 ** rng.uniform(-11, -1))
        if kind == 2 and i % 8 == 2:
            p = float(rng.choice([-1, 1])) * math.pi / 2
        rpy = [r, p, y]
        rec.ev({"op": "rpy2R", "rpy": vec(rpy), "r": res(mat, rox.rpy2R, [x + turns(rng) for x in rpy] if i % 3 else lay(rng, rpy))})
        R = R_of([0, 0, 1], y) @ R_of([0, 1, 0], p) @ R_of([1, 0, 0], r)
        c = np.linalg.norm(R[0:2, 0])
        if c < 1e-15 or c > 2e-12:
            rec.ev({"op": "R2rpy", "R": mat(R), "c16": int(min(c * 1e16, 1e9)), "r": res(lambda v: vec(v, 3), rox.R2rpy, R)})
        if c > 1e-6:
            rec.ev({"op": "rchain", "n": 10, "R": mat(R), "r": res(mat, lambda: rox.rpy2R(rox.R2rpy(rox.rpy2R(rpy))))})
    for y in itertools.product([0, 1, 2, 3], repeat=2):     # exact lock
        for sgn in (1, -1):
            cz, sz = [1, 0, -1, 0][y[0]], [0, 1, 0, -1][y[0]]
            cx, sx = [1, 0, -1, 0][y[1]], [0, 1, 0, -1][y[1]]
            R = np.array([[cz, -sz, 0], [sz, cz, 0], [0, 0, 1.]]) @ np.array([[0, 0, sgn], [0, 1, 0], [-sgn, 0, 0.]]) @ np.array([[1., 0, 0], [0, cx, -sx], [0, sx, cx]])
            rec.ev({"op": "R2rpy", "R": mat(R), "c16": 0, "r": res(lambda v: vec(v, 3), rox.R2rpy, lay(rng, R))})
    np.random.seed(rec.seed % (2 ** 31))
    for _ in range(rec.n(60, 1000)):
        rec.ev({"op": "properR", "r": res(mat, rox.random_R)})
        rec.ev({"op": "properR", "r": res(mat, lambda: rox.random_transform().R)})
        rec.ev({"op": "properR", "r": res(mat, lambda: rox.identity_transform().R)})

def c02(rec, cases):
    rng = rec.rng
    def v3():
        v = rng.uniform(-2, 2, 3)
        v[rng.random(3) < .2] = 0
        return v if rng.random() < .8 else np.round(v)
    def v4():
        q = rng.uniform(-1.2, 1.2, 4)
        q[rng.random(4) < .15] = 0
        return q if rng.random() < .8 else np.round(2 * q)
    pairs = [(np.array(c["q"], float), np.array(c["b"], float)) for c in cases]
    for _ in range(rec.n(900, 15000)):
        u, w = v3(), v3()
        rec.ev({"op": "hat", "v": vec(u), "r": res(mat, rox.hat, axis_form(rng, u))})
        rec.ev({"op": "hat", "v": vec(u), "r": res(mat, rox.hat, list(u))})
        rec.ev({"op": "hatmul", "u": vec(u), "w": vec(w), "r": res(lambda v: vec(v, 3), lambda: np.matmul(rox.hat(u), w))})
        rec.ev({"op": "invhat", "v": vec(u), "r": res(lambda v: vec(v, 3), lambda: rox.invhat(lay(rng, rox.hat(u))))})
        q = v4()
        rec.ev({"op": "quatproduct", "q": vec(q), "r": res(lambda v: mat(v, (4, 4)), rox.quatproduct, lay(rng, q))})
        rec.ev({"op": "quatcomplement", "q": vec(q), "r": res(lambda v: vec(v, 4), rox.quatcomplement, lay(rng, q))})
        rec.ev({"op": "quatjacobian", "q": vec(q), "r": res(lambda v: mat(v, (4, 3)), rox.quatjacobian, lay(rng, q))})
        d, d2 = v3(), v3()
        rec.ev({"op": "screw", "d": vec(d), "r": res(lambda v: mat(v, (6, 6)), rox.screw_matrix, axis_form(rng, d))})
        rec.ev({"op": "screwsum", "a": vec(d), "b": vec(d2),
                "r": res(lambda v: mat(v, (6, 6)), lambda: np.matmul(rox.screw_matrix(d), rox.screw_matrix(d2)))})
        W = np.concatenate([v3(), v3()])
        rec.ev({"op": "screwwrench", "d": vec(d), "w": vec(W), "r": res(lambda v: vec(v, 6), lambda: np.matmul(rox.screw_matrix(d), W))})
        pairs.append((unit(rng.normal(size=4)), unit(rng.normal(size=4))))
    for a, b in pairs:
        a, b = unit(a), unit(b)
        def f():
            q = np.matmul(rox.quatproduct(a), b)
            return {"q": q, "R": rox.q2R(q)}
        rec.ev({"op": "quatcompose", "a": vec(a), "b": vec(b), "r": res(lambda v: {"q": vec(v["q"], 4), "R": mat(v["R"])}, f)})
        # complement represents the inverse rotation
        rec.ev({"op": "rchain", "n": 20, "R": mat(mat_of_q(a).T), "r": res(mat, lambda: rox.q2R(rox.quatcomplement(a)))})

def arc_witness(q0, q1):
    a, b = unit(q0), unit(q1)
    d = a.dot(b)
    if d < 0:
        b, d = -b, -d
    o = b - d * a
    o = o - a.dot(o) * a
    n = np.linalg.norm(o)
    phi = math.atan2(n, d)
    if n > 1e-13:
        u = o / n
    else:
        u = np.zeros(4); u[np.argmin(np.abs(a))] = 1
        u = u - a.dot(u) * a
    u = unit(u)
    u = unit(u - a.dot(u) * a)
    return {"a": vec(a), "u": vec(u), "phi": fx(phi)}

def c03(rec, cases):
    rng = rec.rng
    def one(q0, q1, t):
        w = arc_witness(q0, q1)
        rec.ev({"op": "slerp", "q0": vec(q0), "q1": vec(q1), "t": fx(t), "w": w, "r": res(lambda v: vec(v, 4), rox.slerp, lay(rng, q0), lay(rng, q1), t)})
    ts = [0.0, 1.0, .5, .25, 1e-6, 1 - 1e-6, 1 / 3]
    for c in cases:
        a, b = np.array(c["q"], float), np.array(c["b"], float)
        for t in rng.choice(ts, 2, replace=False):
            one(a, b, float(t))
    for i in range(rec.n(2500, 40000)):
        q0 = unit(rng.normal(size=4))
        kind = i % 6
        if kind == 0:
            q1 = unit(rng.normal(size=4))
        elif kind == 1:
            q1 = q0.copy() * rng.choice([-1.0, 1.0])
        elif kind in (2, 3):
            q1 = unit(q0 + 10.0 ** rng.uniform(-12, -1) * rng.normal(size=4)) * rng.choice([-1.0, 1.0])
        elif kind == 4:   # nearly orthogonal in 4-space: a half turn apart
            v = rng.normal(size=4); v -= q0.dot(v) * q0; v = unit(v)
            q1 = unit(v + float(rng.choice([-1, 0, 1])) * 10.0 ** rng.uniform(-12, -2) * q0)
        else:
            q1 = unit(rng.normal(size=4))
        q0 = q0 * rng.uniform(.2, 3)
        q1 = q1 * rng.uniform(.2, 3)
        t = float(rng.choice(ts)) if rng.random() < .4 else rng.random()
        one(q0, q1, t)
    for t in (-.1, 1.1, -1e-6, 1 + 1e-6, 2.0, -3.0):
        one(unit(rng.normal(size=4)), unit(rng.normal(size=4)), t)
    for _ in range(rec.n(150, 2000)):          # exactly equal inputs
        q = unit(rng.normal(size=4))
        one(q, q, rng.random())
        one(q, -q, rng.random())
        one(np.eye(4)[rng.integers(0, 4)], np.eye(4)[rng.integers(0, 4)], rng.random())
