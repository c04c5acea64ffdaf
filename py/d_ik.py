"""Drivers for C12 - C16: closed-form and iterative inverse kinematics, equivalent configurations."""
import math, itertools
import numpy as np
from vlib import *
from d_kin import Rob, rand_aux, rand_T
import general_robotics_toolbox as rox

PI = math.pi
def qlist(v):
    if not isinstance(v, (list, tuple)):
        raise Bad("not a list")
    return [vec(x) for x in v]

def fk(rob, q):
    """float pose, for building inputs"""
    R, p = np.eye(3), np.array(rob.P[0], float)
    for h, t, x, off in zip(rob.H, rob.jt, q, rob.P[1:]):
        if t in (0, 2):
            R = R @ R_of(h, x)
        else:
            p = p + R @ (h * x)
        p = p + R @ off
    for X in (rob.flange, rob.tool):
        if X is not None:
            p = p + R @ X[1]; R = R @ X[0]
    if rob.base is not None:
        p = rob.base[1] + rob.base[0] @ p; R = rob.base[0] @ R
    return R, p

ex, ey, ez = np.eye(3)
def opw_robot(rng, aux=None, lim=None, wrist=None, shape=None):
    s = lambda: float(rng.choice([-1, 1]))
    kind = int(rng.integers(0, 4)) if wrist is None else wrist
    if kind == 0:
        W = [s() * ex, s() * ey, s() * ex]
    elif kind == 1:
        W = [s() * ez, s() * ey, s() * ez]
    elif kind == 2:
        W = [s() * ex, s() * ey, s() * ez]
    else:
        while True:
            W = [unit(rng.normal(size=3)) for _ in range(3)]
            if np.linalg.norm(np.cross(W[0], W[1])) > .5 and np.linalg.norm(np.cross(W[1], W[2])) > .5:
                break
    H = [s() * ez, s() * ey, s() * ey] + W
    l = lambda a, b: s() * rng.uniform(a, b)
    P = [np.array([0, 0, rng.uniform(0, .6)]),
         np.array([l(0, .35), l(0, .2) * rng.integers(0, 2), l(0, .3)]) * rng.integers(0, 2),
         np.array([l(0, .3) * rng.integers(0, 2), l(0, .2) * rng.integers(0, 2), l(.3, .8)]),
         np.array([l(.3, .8), l(0, .2) * rng.integers(0, 2), l(0, .2) * rng.integers(0, 2)]),
         np.zeros(3), np.zeros(3), rng.uniform(-.25, .25, 3)]
    if kind < 3:
        if rng.random() < .35:
            P[4] = W[0] * l(.05, .3)
        if rng.random() < .35:
            P[5] = W[2] * l(.05, .2)
    if kind == 3 or not (P[4].any() or P[5].any()):
        P = small(rng, P)
    if shape is None:
        shape = int(rng.integers(0, 6))
    if shape == 1:              # first axis elsewhere
        P[0] = rng.uniform(-.3, .3, 3)
    elif shape == 2:            # the whole arm mounted in another orientation
        R = gen_R(rng)
        H, P = [R @ h for h in H], [R @ p for p in P]
    elif shape == 3:            # first axis not at a right angle to the second
        while True:
            h = unit(rng.normal(size=3))
            if np.linalg.norm(np.cross(h, H[1])) > .6:
                break
        H[0] = h; P[0] = rng.uniform(-.3, .3, 3)
    return Rob(H, P, [0] * 6, *rand_aux(rng, aux), lim)

def ur_robot(rng, aux=None, lim=None):
    s = lambda: float(rng.choice([-1, 1]))
    y = s() * ey
    H = [ez, y, y, y, -ez, y]
    l = lambda a, b: s() * rng.uniform(a, b)
    P = [np.array([0, 0, rng.uniform(0, .4)]), np.array([0, l(0, .2), 0]), np.array([l(.25, .7), l(0, .2) * rng.integers(0, 2), 0]),
         np.array([l(.25, .6), 0, 0]), np.array([0, l(.02, .2), 0]), np.array([0, l(0, .1) * rng.integers(0, 2), 0]), np.zeros(3)]
    if rng.random() < .4:      # a more general arm of the family
        P[1] = rng.uniform(-.2, .2, 3); P[2] += rng.uniform(-.1, .1, 3); P[3] += rng.uniform(-.1, .1, 3); P[4] += rng.uniform(-.1, .1, 3)
    P[4][2] -= .09 if rng.random() < .7 else 0
    P[6] = rng.uniform(-.2, .2, 3) if rng.random() < .5 else np.array([0, .09, 0])
    if rng.random() < .3:
        P[0] = rng.uniform(-.2, .2, 3)
    if rng.random() < .2:
        P[5][2] = l(.02, .15)
    return Rob(H, small(rng, P), [0] * 6, *rand_aux(rng, aux), lim)

def small(rng, P):
    """now and then some of the entries of the offsets are small"""
    if rng.random() < .15:
        P = [p * np.where(rng.random(3) < .4, 10.0 ** rng.uniform(-3, -1), 1) if j not in (2, 3) else p for j, p in enumerate(P)]
    return P

FAM = {"opw": (opw_robot, lambda r: rox.robot6_sphericalwrist_invkin), "ur": (ur_robot, lambda r: rox.ur_invkin)}
def solver(fam):
    return getattr(rox, {"opw": "robot6_sphericalwrist_invkin", "ur": "ur_invkin"}[fam])

LIMS = [lambda rng: (-PI, PI), lambda rng: (-2 * PI, 2 * PI), lambda rng: (-2.7, 2.7), lambda rng: (0, 2 * PI), lambda rng: (-2 * PI, 0),
        lambda rng: (-3 * PI, 3 * PI), lambda rng: (PI, 3 * PI), lambda rng: (-1.2, 2.0), lambda rng: (lambda a: (a, a + rng.uniform(.5, 9)))(rng.uniform(-6, 1))]
def rand_lim(rng):
    k = int(rng.integers(0, 12))
    pick = [LIMS[k if k < len(LIMS) else int(rng.integers(0, len(LIMS)))] for _ in range(6)]
    if k >= len(LIMS):
        pick = [LIMS[int(rng.integers(0, len(LIMS)))] for _ in range(6)]
    l = [f(rng) for f in pick]
    lo, up = np.array([a for a, _ in l], float), np.array([b for _, b in l], float)
    if rng.random() < .12:      # joints that turn without end
        lo[rng.random(6) < .5] = -np.inf; up[rng.random(6) < .5] = np.inf
    return lo, up

def q_in(rng, lim, margin=2e-3):
    if lim is None:
        return rng.uniform(-PI, PI, 6)
    a = np.where(np.isfinite(lim[0]), lim[0], np.minimum(-PI, lim[1] - 2)); b = np.where(np.isfinite(lim[1]), lim[1], np.maximum(PI, a + 2))
    return a + margin + rng.random(6) * (b - a - 2 * margin)

def pose_of(rob, T):
    return rox.Transform(T[0], T[1] * rob.u)

def pose_arg(rng, rob, T):
    p = T[1] * rob.u
    return rox.Transform(T[0], p if rng.random() < .8 else p.reshape(3, 1))

def last_form(rng, q):
    k = rng.integers(0, 3)
    return [q, q.tolist(), tuple(q.tolist())][k]

def draw(rng, i, limited=None):
    fam = "opw" if i % 2 else "ur"
    lim = rand_lim(rng) if (rng.random() < .6 if limited is None else limited) else None
    rob = FAM[fam][0](rng, aux=(i // 2) % 8 if rng.random() < .6 else 0, lim=lim)
    rob.limform = [None, None, lambda x: x.tolist(), lambda x: tuple(x.tolist())][int(rng.integers(0, 4))]
    if lim is None and rng.random() < .25:      # one side alone is no limit
        rob.half = [None, None]
        rob.half[int(rng.integers(0, 2))] = np.array(rng.uniform(-2, 2, 6))
    q = q_in(rng, lim)
    if rng.random() < .15:      # special values: straight wrists, zero angles
        j = int(rng.integers(0, 6)); v = float(rng.choice([0, PI / 2, -PI / 2]))
        if lim is None or lim[0][j] + 2e-3 < v < lim[1][j] - 2e-3:
            q[j] = v
    return fam, rob.measure(rng), q

def rand_last(rng, rob, q):
    w = 9 if rob.lim is None or np.isfinite(rob.lim).all() else 5
    return np.clip(rand_last0(rng, rob, q), -w, w)

def rand_last0(rng, rob, q):
    k = int(rng.integers(0, 6))
    if k == 0: return q.copy()
    if k == 1: return q + rng.uniform(-.4, .4, 6)
    if k == 2: return q + 2 * PI * rng.integers(-1, 2, 6)
    if k == 3: return rng.uniform(-8, 8, 6)
    if k == 4: return np.zeros(6)
    return q + rng.uniform(-1.5, 1.5, 6)

def T_of(T):
    return {"R": mat(T[0]), "p": vec(T[1])}

def outer(rng, rob):
    """a pose out of reach"""
    reach = sum(np.linalg.norm(p) for p in rob.P)
    d = unit(rng.normal(size=3))
    p = d * (reach * rng.uniform(1.05, 1.4) + .01)
    R = gen_R(rng)
    X = Rob([], [np.zeros(3)], [], rob.base, rob.flange, rob.tool)
    # apply the frames to (R, p)
    X.P = [p]
    X2 = Rob([np.array([0, 0, 1.])], [p, np.zeros(3)], [0], rob.base, rob.flange, rob.tool)
    k, th = axis_of(R)
    X2.H = [k]
    return fk(X2, [th])

def axis_of(R):
    # any axis-angle of R, for building inputs
    w, V = np.linalg.eig(R)
    k = np.real(V[:, np.argmin(abs(w - 1))]); k = k / np.linalg.norm(k)
    c = (np.trace(R) - 1) / 2
    s = k.dot([R[2, 1] - R[1, 2], R[0, 2] - R[2, 0], R[1, 0] - R[0, 1]]) / 2
    return k, math.atan2(s, c)

def spoil(rng, fam, rob):
    k = int(rng.integers(0, 3))
    m = 1 if rng.random() < .5 else 10.0 ** rng.uniform(-2.7, 0)
    if k == 0:                  # joints 2 and 3 not parallel
        rob.H[2] = unit(rob.H[2] + .4 * m * unit(np.cross(rob.H[1], rng.normal(size=3))))
    elif fam == "ur":
        if rng.random() < .3:   # an axis the other way round
            j = int(rng.integers(0, 6)); rob.H[j] = -rob.H[j]
        elif k == 1:
            rob.P[5] = rob.P[5] + m * np.array([float(rng.choice([-.05, .05])), 0, 0])
        else:
            j = int(rng.integers(0, 6))
            rob.H[j] = unit(rng.normal(size=3)) if m == 1 else unit(rob.H[j] + .4 * m * unit(np.cross(rob.H[j], rng.normal(size=3))))
    else:
        j = 4 + int(rng.integers(0, 2))
        rob.P[j] = rob.P[j] + .05 * m * unit(np.cross(rob.H[3 if j == 4 else 5], rng.normal(size=3)))

def endless(rob, s):
    """an answer that uses an endless joint beyond what the fixed point of the specification can hold"""
    try:
        lo, up = rob.lim
        return s[0] == "ok" and any(np.isfinite(x) and (x < -18.9 and l < -100 or x > 18.9 and u > 100) for q in s[1] for x, l, u in zip(np.ravel(q), lo, up))
    except Exception:
        return False

def c12(rec, cases):
    rng = rec.rng
    for i in range(rec.n(1500, 12000)):
        fam, rob, q = draw(rng, i)
        T = fk(rob, q)
        if i % 7 == 5:
            y = nearsing(rng, fam, rob, q)
            if y is not None:
                T = fk(rob, y)
        if i % 9 == 8:
            T = outer(rng, rob) if rng.random() < .3 else (gen_R(rng), rng.uniform(-1, 1, 3))
        if i % 11 == 10:            # an arm outside the family: refused, or solved correctly
            spoil(rng, fam, rob)
            T = fk(rob, q)
        r = rob.make()
        calls = [()]
        if i % 2 == 0 or rng.random() < .5:
            calls.append((rand_last(rng, rob, q),))
        for a in calls:
            A = pose_arg(rng, rob, T)
            s = raw(solver(fam), r, A, *[last_form(rng, x) for x in a])
            if endless(rob, s):
                rec.count("iksound beyond range")
                continue
            rec.ev({"op": "iksound", "fam": fam, "rob": rob.spec(), "lim": rob.limspec(19), "T": T_of(T), "last": [vec(x) for x in a], "r": encode(qlist, s)})

def unlimited(rob):
    r = Rob(rob.H, rob.P, rob.jt, rob.base, rob.flange, rob.tool, None)
    r.u = rob.u
    return r

def complete(rec, rng, fam, rob, q, T, last=None, far=False, extra=True):
    cands = [] if q is None else [vec(q)]
    if extra:
        u = raw(solver(fam), unlimited(rob).make(), pose_of(rob, T))
        if u[0] == "ok":
            try:
                # whole turns do not matter to the judge, but the size of the numbers does
                cands += [vec([math.remainder(float(x), 2 * PI) for x in c]) for c in u[1] if np.size(c) == 6][:12]
            except (Bad, TypeError, ValueError):
                pass
    a = () if last is None else (last_form(rng, last),)
    s = raw(solver(fam), rob.make(), pose_arg(rng, rob, T), *a)
    if endless(rob, s):
        return rec.count("ikcomplete beyond range")
    rec.ev({"op": "ikcomplete", "fam": fam, "rob": rob.spec(), "lim": rob.limspec(), "T": T_of(T), "cands": cands, "far": bool(far),
            "last": [] if last is None else [vec(last)], "r": encode(qlist, s)})

def turn_robot(rng, cs, fam):
    """limits, joints and previous joints of six cases of the whole-turn model"""
    u = PI / 4
    d = rng.uniform(.06, .7, 6)
    g = lambda k: np.array([c[k][0] for c in cs], float) * u + d
    lim = (g("lo") - .01, g("up") + .01)
    return FAM[fam][0](rng, aux=int(rng.integers(0, 8)), lim=lim).measure(rng), g("q"), g("last") + rng.uniform(.02, .05, 6)

def chunks(rng, cases, n):
    cs = [c for c in cases if len(c["q"]) == 1]
    if not cs:
        return
    for _ in range(n):
        yield [cs[k] for k in rng.integers(0, len(cs), 6)]

def c13(rec, cases):
    rng = rec.rng
    for i, cs in enumerate(chunks(rng, cases, rec.n(500, 5000))):
        fam = "opw" if i % 2 else "ur"
        rob, q, last = turn_robot(rng, cs, fam)
        complete(rec, rng, fam, rob, q, fk(rob, q))
    for i in range(rec.n(900, 7000)):
        fam, rob, q = draw(rng, i)
        complete(rec, rng, fam, rob, q, fk(rob, q), extra=rob.lim is not None)
    for i in range(rec.n(800, 6000)):          # where two branches nearly meet both are still there
        fam, rob, q = draw(rng, i)
        q = nearsing(rng, fam, rob, q)
        if q is not None:
            rec.count("next to a singularity")
            complete(rec, rng, fam, rob, q, fk(rob, q))
    # previous joints anywhere: fewer branches may be returned, but not none
    for i in range(rec.n(600, 5000)):
        fam, rob, q = draw(rng, i)
        complete(rec, rng, fam, rob, q, fk(rob, q), last=rng.uniform(-3.5, 3.5, 6), extra=False)
    for i in range(rec.n(250, 2000)):
        fam, rob, q = draw(rng, i)
        if i % 2:
            complete(rec, rng, fam, rob, None, outer(rng, rob), far=True, extra=False)
        complete(rec, rng, fam, rob, None, outer(rng, rob), last=rng.uniform(-3, 3, 6), far=True, extra=False)

def c14(rec, cases):
    rng = rec.rng
    def near(fam, rob, q, last, T):
        r0 = res(qlist, solver(fam), rob.make(), pose_of(rob, T))
        cands = [vec(q)] + (r0["v"][:10] if r0["k"] == "ok" else [])
        if rob.lim is not None and not np.isfinite(rob.lim).all() and any(abs(x) > 11 * S for c in cands for x in c):
            return          # too many turns away for the judge's arithmetic
        rec.ev({"op": "iknear", "fam": fam, "rob": rob.spec(), "lim": rob.limspec(), "T": T_of(T), "cands": cands, "last": [vec(last)],
                "r0": r0, "r": res(qlist, solver(fam), rob.make(), pose_arg(rng, rob, T), last_form(rng, last))})
    for i, cs in enumerate(chunks(rng, cases, rec.n(800, 7000))):
        fam = "opw" if i % 2 else "ur"
        rob, q, last = turn_robot(rng, cs, fam)
        near(fam, rob, q, last, fk(rob, q))
    for i in range(rec.n(1500, 12000)):
        fam, rob, q = draw(rng, i)
        near(fam, rob, q, rand_last(rng, rob, q), fk(rob, q))
    for i in range(rec.n(200, 2000)):
        fam, rob, q = draw(rng, i)
        q = nearsing(rng, fam, rob, q)
        if q is not None:
            near(fam, rob, q, rand_last(rng, rob, q), fk(rob, q))
    # an arm following a path, each answer fed back as the previous joints of the next
    for i in range(rec.n(30, 400)):
        fam, rob, q = draw(rng, i, limited=i % 3 > 0)
        if abs(rob.H[0].dot(rob.H[1])) > 1e-6:      # the two shoulder branches can then be closer than a step
            continue
        path = track_path(rng, fam, rob, q)
        if path is None:
            continue
        evs, last = [], path[0]
        r = rob.make()
        for x in path:
            T = fk(rob, x)
            rr = res(qlist, solver(fam), r, pose_of(rob, T), last)
            evs.append({"op": "iktrack", "q": vec(x), "r": rr})
            if rr["k"] != "ok" or not rr["v"]:
                break
            last = np.array(rr["v"][0], float) / S if i % 2 else np.array(raw(solver(fam), r, pose_of(rob, T), last)[1][0], float)
        rec.count("paths")
        rec.session(evs, stateful=1)

def sing(fam, rob, q):
    """shoulder, elbow and wrist factors of the arm Jacobian, to choose inputs"""
    R3, R2 = R_of(rob.H[2], q[2]), R_of(rob.H[1], q[1])
    far = rob.P[3] + (R_of(rob.H[3], q[3]) @ (rob.P[4] + rob.H[4].dot(rob.P[5]) * rob.H[4]) if fam == "ur" else 0)
    w1 = rob.P[1] + R2 @ (rob.P[2] + R3 @ far)
    pr = lambda v: v - v.dot(rob.H[2]) * rob.H[2]
    a, b = pr(rob.P[2]), R3 @ pr(rob.P[3])
    h6 = R_of(rob.H[4], q[4]) @ rob.H[5]
    return rob.H[1].dot(np.cross(rob.H[0], w1)), rob.H[2].dot(np.cross(a, b)), rob.H[3].dot(np.cross(rob.H[4], h6)), np.linalg.norm(a + b)

def nonsing(fam, rob, q):
    """generous distance from singularities, to choose paths"""
    s, e, w, ab = sing(fam, rob, q)
    return abs(s) > .06 and abs(e) > .04 and ab > .12 and abs(w) > .1

def nearsing(rng, fam, rob, q):
    """the arm moved next to one of its singularities, where two branches nearly meet"""
    k = int(rng.choice([0, 0, 1, 2]))
    j = [1, 2, 4][k]
    def g(x):
        y = q.copy(); y[j] = x
        return sing(fam, rob, y)[k]
    lo, up = (-PI, PI) if rob.lim is None else (max(rob.lim[0][j], -7), min(rob.lim[1][j], 7))
    xs = np.linspace(lo + .01, up - .01, 60)
    gs = [g(x) for x in xs]
    at = [i for i in range(59) if gs[i] * gs[i + 1] < 0]
    if not at:
        return None
    i = at[int(rng.integers(0, len(at)))]
    a, b = xs[i], xs[i + 1]
    for _ in range(50):
        m = (a + b) / 2
        if g(a) * g(m) <= 0: b = m
        else: a = m
    f = 10.0 ** rng.uniform(-2.2, -1)
    x = a + float(rng.choice([-1, 1])) * min(f / max(abs(g(a + 1e-4) - g(a)) * 1e4, 1e-3), .3)
    if not lo + .01 <= x <= up - .01:
        return None
    y = q.copy(); y[j] = x
    return y

def track_path(rng, fam, rob, q0, n=14):
    for _ in range(30):
        q0 = q_in(rng, rob.lim)
        step = rng.uniform(-.12, .12, 6)
        step[[2, 4]] *= .3
        step[int(rng.choice([0, 3, 5]))] = float(rng.choice([-1, 1])) * .45
        path = [q0 + k * step for k in range(n)]
        # stay inside the limits: stop where they are reached
        if rob.lim is not None:
            keep = []
            for x in path:
                if (x > rob.lim[0] + .003).all() and (x < rob.lim[1] - .003).all():
                    keep.append(x)
                else:
                    break
            path = keep
        path = list(itertools.takewhile(lambda x: nonsing(fam, rob, x), path))
        if len(path) >= 4:
            return path
    return None

# ------------------------------------------------------------------ C15
def equiv(rec, rng, lim, jt, qs, last, exact=False):
    n = len(jt)
    H = [unit(rng.normal(size=3)) for _ in range(n)]
    rob = Rob(H, [np.zeros(3)] * (n + 1), jt, lim=(np.array(lim[0], float), np.array(lim[1], float)))
    rob.limform = [None, None, lambda x: x.tolist(), lambda x: tuple(x.tolist())][int(rng.integers(0, 4))]
    a = () if last is None else (last_form(rng, np.asarray(last, float)),)
    arg = [last_form(rng, np.array(q, float)) for q in qs]
    if rng.random() < .2: arg = tuple(arg)
    rec.ev({"op": "equiv", "lim": [vec(lim[0]), vec(lim[1])], "jt": list(jt), "qs": [vec(q) for q in qs], "last": [] if last is None else [vec(last)],
            "exact": bool(exact), "r": res(qlist, rox.equivalent_configurations, rob.make(), arg, *a)})

def distinct(qs):
    return all(np.abs(np.subtract(a, b)).max() > 3.9e-4 for a, b in itertools.combinations(qs, 2))

def c15(rec, cases):
    rng = rec.rng
    u = PI / 4
    for c in [c for c in cases if len(c["q"]) > 1]:
        n = len(c["q"])
        d = rng.uniform(.06, .7, n)
        q, lo, up, last = [np.array(c[k], float) * u + d for k in ("q", "lo", "up", "last")]
        jt = [0 if r else 1 for r in c["rot"]]
        lo, up = lo - .01, up + .01
        qs = [q]
        # more given configurations, sometimes of the same class
        for _ in range(int(rng.integers(0, 3))):
            x = q.copy()
            for j in range(n):
                if jt[j] == 0 and rng.random() < .5:
                    k = float(rng.choice([-1, 1])) * 2 * PI
                    if lo[j] < x[j] + k < up[j]:
                        x[j] += k
                if rng.random() < .3:
                    x[j] = rng.uniform(lo[j], up[j])
            qs.append(x)
        if rng.random() < .2:               # two given configurations close to each other
            x = q.copy(); j = int(rng.integers(0, n))
            x[j] += float(rng.choice([-1, 1])) * 10.0 ** rng.uniform(-3.4, -2)
            qs.append(x)
        if not distinct(qs):
            qs = [q]
        equiv(rec, rng, (lo, up), jt, qs, None if rng.random() < .4 else last)
    t = 2 * PI
    for i in range(rec.n(60, 400)):        # limits that are whole turns away, reached exactly
        n = int(rng.integers(1, 4))
        lo = np.array([float(rng.choice([-2, -1, 0])) * t for _ in range(n)])
        up = np.array([float(rng.choice([0, 1, 2])) * t for _ in range(n)])
        up = np.where(up - lo > 3.5 * t, t, up)
        equiv(rec, rng, (lo, up), [int(rng.random() < .25) for _ in range(n)], [np.zeros(n)], None if i % 2 else rng.uniform(-7, 7, n), exact=True)
    for i in range(rec.n(300, 4000)):
        n = int(rng.integers(1, 7))
        lo = rng.uniform(-9, 0, n); up = rng.uniform(0, 9, n)
        if n > 3:
            lo[3:] = rng.uniform(-3, 0, n - 3); up[3:] = rng.uniform(0, 3.2, n - 3)
        jt = [int(rng.random() < .25) for _ in range(n)]
        qs = [lo + rng.random(n) * (up - lo) for _ in range(int(rng.integers(0, 4)))]
        if distinct(qs):
            equiv(rec, rng, (lo, up), jt, qs, None if i % 2 else rng.uniform(-7, 7, n))
    # the solutions of an arm, and then their equivalents
    for i in range(rec.n(60, 600)):
        fam, rob, q = draw(rng, i, limited=True)
        rob.lim = np.clip(rob.lim[0], -6, 6), np.clip(rob.lim[1], -5, 9)
        rob.lim = (rob.lim[0], np.minimum(rob.lim[1], rob.lim[0] + np.where(np.arange(6) % 2, 3 * PI, 6)))
        q = q_in(rng, rob.lim)
        s = raw(solver(fam), rob.make(), pose_of(rob, fk(rob, q)))
        if s[0] == "ok" and 0 < len(s[1]) <= 3 and distinct(s[1]):
            equiv(rec, rng, rob.lim, [0] * 6, s[1], None if i % 2 else q)

# ------------------------------------------------------------------ C16
def itres(v, rob):
    c, q = v
    q = [rob.unper(np.ravel(x)) for x in q]
    if not isinstance(c, (bool, np.bool_)):
        raise Bad("convergence is not a truth value")
    if not c and len(q) == 1:      # a sliding joint may run away; any finite value is fine then
        q = [[math.copysign(19.0, x) if math.isfinite(x) and abs(x) > 19 else x for x in np.ravel(q[0]).tolist()]]
    return {"conv": bool(c), "qs": qlist(q)}

def njac(rob, q):
    """numerical Jacobian of the joint chain, to choose regular configurations"""
    J = []
    R0, p0 = fk(rob, q)
    for j in range(len(q)):
        x = q.copy(); x[j] += 1e-6
        R, p = fk(rob, x)
        E = (R - R0) @ R0.T / 1e-6
        J.append([E[2, 1], E[0, 2], E[1, 0], *((p - p0) / 1e-6)])
    return np.array(J).T

def it_robot(rng, n, aux=None):
    jt = [int(rng.random() < .3) for _ in range(n)]
    H = [rand_axis(rng) for _ in range(n)]
    P = [rng.uniform(-.5, .5, 3) for _ in range(n + 1)]
    return Rob(H, P, jt, *rand_aux(rng, aux))

def seed_form(rng, q):
    return [q, q.tolist(), tuple(q.tolist()), q.reshape(-1, 1)][int(rng.integers(0, 4))]

def c16(rec, cases):
    rng = rec.rng
    def one(rob, T, seed, kind, **kw):
        rec.count("itik " + kind)
        seed = np.array(seed, float)
        if rng.random() < .3:
            rob.u = float(rng.choice([1 / 4, 4]))
        if rng.random() < .4:           # joint limits play no part, wherever they are
            c = seed + rng.normal(size=len(seed)) * rng.choice([.1, 1, 4])
            w = 10.0 ** rng.uniform(-3, .5, len(seed))
            rob.lim = [c - w, c + w]
            rob.limform = [None, lambda x: x.tolist(), lambda x: tuple(x.tolist())][int(rng.integers(0, 3))]
            if rng.random() < .2: rob.lim[int(rng.integers(0, 2))] = None
            rec.count("itik with joint limits")
        # sliding joints may travel beyond what the fixed point of the specification can hold; nothing is judged then
        s = raw(rox.iterative_invkin, rob.make(), pose_of(rob, T), seed_form(rng, rob.per(seed.copy())), _timeout=30, **kw)
        try:
            q = rob.unper(np.ravel(s[1][1][0]))
            if s[1][0] and all(t == 1 for x, t in zip(q, rob.jt) if not abs(x) < 19.9) and np.all(np.isfinite(q)) and np.any(np.abs(q) >= 19.9):
                return rec.count("itik beyond range")
        except Exception:
            pass
        rec.ev({"op": "itik", "rob": rob.spec(), "T": T_of(T), "seed": vec(seed), "kind": kind, "tol": fx(kw.get("tol", 1e-4)), "tolp": fx(kw.get("tol", 1e-4) / rob.u), "budget": kw.get("max_steps", 200),
                "r": encode(lambda v: itres(v, rob), s)})
    def rq(rob, w=3):
        return np.array([rng.uniform(-w, w) if t == 0 else rng.uniform(-1, 1) for t in rob.jt])
    for k, c in enumerate(cases):           # every starting situation of the protocol model
        rob = it_robot(rng, len(c["jt"]), aux=k % 8)
        rob.jt = list(c["jt"])
        q = rq(rob, 3)
        seed = q + 2 * PI * np.array(c["turn"])
        if c["err"]:
            seed = seed + rng.choice([-1, 1], len(q)) * rng.uniform(.05, .2, len(q)) * (1 if c["err"] == 1 else 5)
        kw = {} if k % 3 else {"Kp": np.eye(3) * rng.uniform(.1, 1), "KR": np.eye(3) * rng.uniform(.1, 1)}
        one(rob, fk(rob, q), seed, "any" if c["err"] else "solved", max_steps=c["budget"], **kw)
    for i in range(rec.n(160, 2500)):       # start from a solution
        rob = it_robot(rng, int(rng.integers(1, 8)), aux=i % 8)
        q = rq(rob, 6)
        one(rob, fk(rob, q), q, "solved", **({} if i % 3 else {"tol": float(rng.choice([1e-5, 1e-3]))}))
    i = 0
    tries = 0
    while i < rec.n(110, 1500) and tries < 20000:          # start next to a regular solution
        tries += 1
        n = int(rng.integers(1, 8))
        rob = it_robot(rng, n, aux=i % 8)
        q = rq(rob, 3)
        sv = np.linalg.svd(njac(rob, q), compute_uv=False)
        if sv.min() < (.15 if n > 3 else .3):
            continue
        i += 1
        seed = q + rng.uniform(-.03, .03, n)
        if n > 6:
            pass
        kw = {} if i % 3 else {"tol": float(rng.choice([1e-3, 1e-5]))}
        if i % 2:
            g = lambda: np.diag(np.full(3, rng.uniform(.15, .9)) if rng.random() < .5 else rng.uniform(.15, .9, 3))
            kw = dict(kw, **dict([("Kp", g()), ("KR", g())][int(rng.integers(0, 2)):][:int(rng.integers(1, 3))]))
        one(rob, fk(rob, q), seed, "near", **kw)
    for i in range(rec.n(90, 1200)):        # further away: whatever it says must be true
        rob = it_robot(rng, int(rng.integers(1, 8)), aux=i % 8)
        if i % 4 == 0:                      # long strokes on sliding joints
            rob.jt = [1 if j % 2 else t for j, t in enumerate(rob.jt)] if len(rob.jt) > 1 else [1]
        q = rq(rob, 3)
        seed = rq(rob, 7)
        if i % 4 == 0:
            q = np.array([x if t == 0 else rng.choice([-1, 1]) * rng.uniform(3.3, 5) for x, t in zip(q, rob.jt)])
            seed = np.where(np.array(rob.jt) == 0, q + rng.uniform(-.3, .3, len(q)), 0.0)
        one(rob, fk(rob, q), seed, "any", max_steps=60 if i % 2 else 200)
    for i in range(rec.n(40, 500)):
        rob = it_robot(rng, int(rng.integers(1, 8)), aux=i % 8)
        rob.jt = [0] * len(rob.jt)
        one(rob, outer(rng, rob), rq(rob), "far", max_steps=40)
    for i in range(rec.n(40, 400)):
        rob = it_robot(rng, int(rng.integers(1, 8)), aux=i % 8)
        q = rq(rob)
        one(rob, fk(rob, q), q if i % 2 else rq(rob, 6), "nosteps", max_steps=0)
    for i in range(rec.n(40, 400)):         # the step budget runs out
        rob = it_robot(rng, int(rng.integers(1, 8)), aux=i % 8)
        q = rq(rob)
        one(rob, fk(rob, q), q + rng.uniform(.2, .6, len(q)), "any", max_steps=int(rng.integers(1, 4)))
