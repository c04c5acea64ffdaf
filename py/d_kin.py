"""Drivers for C04 - C09: transforms, robot construction, forward kinematics, limits, Jacobian, auxiliary frames."""
import math, itertools
import numpy as np
from vlib import *
import general_robotics_toolbox as rox

# ------------------------------------------------------------------ C04
def bank(regs, u=1.0):
    return [dict(tf(T, u), pa=name(T.parent_frame_id), ch=name(T.child_frame_id)) for T in regs]

def c04(rec, cases):
    rng = rec.rng
    names = [None, "world", "base", "tool", "cam"]
    def leaf(kind):
        p = rng.uniform(-1, 1, 3)
        if kind == 0:
            p = rng.integers(-1, 2, 3).astype(float)
        R = rand_R(rng) if kind else R_of(np.eye(3)[rng.integers(0, 3)], math.pi / 2 * rng.integers(0, 4)).round()
        return R, p, names[rng.integers(0, 5)], names[rng.integers(0, 5)]
    def run(hist, kind):
        lv = [leaf(kind) for _ in range(3)]
        regs = [None] * 3
        shape = rng.integers(0, 3)
        u = len_unit(rng, .2)
        bank_ = lambda r: bank(r, u)
        def build():
            for i, (R, p, a, c) in enumerate(lv):
                p = p * u
                pp = p if shape == 0 else (p.reshape(3, 1) if shape == 1 else p.tolist())
                RR = R if shape != 2 else R.tolist()
                if kind == 0 and shape == 1 and u >= 1:
                    RR, pp = RR.astype(int), pp.astype(int)
                regs[i] = rox.Transform(RR, pp, a, c)
            return regs
        given = [dict(R=mat(R), p=vec(p), pa=name(a), ch=name(c)) for R, p, a, c in lv]
        evs = [{"op": "x_init", "regs": given, "r": res(bank_, build)}]
        if evs[0]["r"]["k"] == "ok":
            for h in hist:
                o, d, a, b = h[0], h[1] - 1, h[2] - 1, h[3] - 1
                def f():
                    if o == "mul":
                        T = regs[a] * regs[b]
                    elif o == "inv":
                        T = regs[a].inv()
                    else:
                        T = rox.identity_transform()
                    if np.abs(np.asarray(T.p)).max() > 6 * u:
                        raise OverflowError
                    regs[d] = T
                    return regs
                r = res(bank_, f)
                if r["k"] == "exc" and r["t"] == "OverflowError":
                    break
                evs.append({"op": {"mul": "x_mul", "inv": "x_inv", "id": "x_id"}[o], "d": d + 1, "a": a + 1, "b": b + 1, "r": r})
                if rng.random() < .5 and u == 1:
                    cmp(evs, regs, int(rng.integers(0, 3)), int(rng.integers(0, 3)))
                if rng.random() < .25 and not poke(evs, regs, u, d if rng.random() < .7 else int(rng.integers(0, 3))):
                    break
        rec.count("histories")
        rec.session(evs, stateful=1)
    def poke(evs, regs, u, d):
        # the user moves the frame of one transform by writing into it
        T, what = regs[d], int(rng.integers(0, 3))
        R2, p2 = rand_R(rng) if what != 1 else np.array(T.R, float), rng.uniform(-1, 1, 3) * u if what != 0 else np.array(T.p, float).reshape(3)
        if kinds(T, what):
            R2, p2 = R2.round(), p2.round()
            if abs(np.linalg.det(R2) - 1) > 1e-9 or np.abs(R2 @ R2.T - np.eye(3)).max() > 1e-9:
                R2 = np.eye(3)
        def f():
            if what != 1:
                T.R[...] = R2
            if what != 0:
                T.p[...] = p2.reshape(T.p.shape)
            return regs
        try:
            f()
        except (ValueError, TypeError):
            return False                    # arrays that cannot be written hold no surprise
        rec.count("rewritten in place")
        evs.append({"op": "x_poke", "d": d + 1, "R": mat(R2), "p": vec(p2 / u), "r": res(lambda v: bank(v, u), lambda: regs)})
        return evs[-1]["r"]["k"] == "ok"
    def kinds(T, what):
        return (what != 1 and np.asarray(T.R).dtype.kind in "iu") or (what != 0 and np.asarray(T.p).dtype.kind in "iu")
    def cmp(evs, regs, a, b):
        def f():
            eq, ne = regs[a] == regs[b], regs[a] != regs[b]
            return {"eq": bool(eq), "ne": bool(ne), "neq": bool(regs[a].__neq__(regs[b])) if hasattr(regs[a], "__neq__") else bool(ne), "bank": regs}
        evs.append({"op": "x_eq", "a": a + 1, "b": b + 1, "r": res(lambda v: dict(v, bank=bank(v["bank"])), f)})
        tol = float(rng.choice([1e-6, 1e-3, .1]))
        def g():
            c = regs[a].isclose(regs[b]) if tol == 1e-6 else regs[a].isclose(regs[b], tol)
            return {"c": bool(c), "bank": regs}
        evs.append({"op": "x_close", "a": a + 1, "b": b + 1, "tol": fx(tol), "r": res(lambda v: dict(v, bank=bank(v["bank"])), g)})
    for c in cases:
        run(c["h"], int(rng.integers(0, 3)))
    for _ in range(rec.n(60, 1500)):       # longer histories
        hist = []
        for _ in range(12):
            o = ["mul", "inv", "mul", "id"][rng.choice(4, p=[.4, .35, .15, .1])]
            hist.append([o] + [int(x) for x in rng.integers(1, 4, 3)])
        run(hist, int(rng.integers(0, 3)))
    # equality and closeness around the tolerance, each entry in turn
    for i in range(rec.n(400, 6000)):
        R, p = gen_R(rng), rng.uniform(-1, 1, 3)
        if i % 5 == 0:
            R, p = np.eye(3), np.zeros(3)
        R2, p2 = R.copy(), p.copy()
        mag = float(rng.choice([0, 1e-12, 1e-7, 5e-5, 5e-4, 2e-3, .05, .2, 1.0, -1e-12, -5e-5, -5e-4, -2e-3, -.2, -1.0]))
        j = int(rng.integers(0, 12))
        if j < 9:
            R2[j // 3, j % 3] += mag
        else:
            p2[j - 9] += mag
        regs = []
        def build():
            regs[:] = [rox.Transform(R, p, "a", "b"), rox.Transform(R2, p2, "b", "a")]
            return regs
        evs = [{"op": "x_init", "regs": [dict(R=mat(R), p=vec(p), pa="a", ch="b"), dict(R=mat(R2), p=vec(p2), pa="b", ch="a")], "r": res(bank, build)}]
        if evs[0]["r"]["k"] == "ok":
            for a, b in ((0, 1), (1, 0), (0, 0)):
                cmp(evs, regs, a, b)
        rec.session(evs, stateful=1)

# ------------------------------------------------------------------ C05
def c05(rec, cases):
    rng = rec.rng
    for cs in cases:
        n, c = cs["n"], cs["c"]
        H = np.array([unit(rng.normal(size=3)) if rng.random() < .5 else np.eye(3)[rng.integers(0, 3)] for _ in range(n)]).reshape(n, 3).T.copy()
        if n and rng.random() < .3:
            H[:, 0] *= 1 + 1e-9
        P = rng.uniform(-1, 1, (3, n + 1))
        if c["hrows"] == "two":
            H = np.array([[1.0, 0.0]] * n).reshape(n, 2).T
        if c["hrows"] == "four":
            H = np.vstack([H, np.zeros((1, n))])
        if c["hnorm"] != "ok" and n:
            H[:, rng.integers(0, n)] *= {"long": 1 + float(rng.choice([1e-3, 1.0])), "short": 1 - float(rng.choice([1e-3, .5])), "zero": 0}[c["hnorm"]]
        if c["pcols"] == "short":
            P = P[:, :-1]
        if c["pcols"] == "long":
            P = np.hstack([P, np.ones((3, 1))])
        if c["prows"] == "two":
            P = P[:2, :]
        jt = [int(x) for x in rng.integers(0, 4, n)]
        if c["jt"] == "four":
            jt[rng.integers(0, n)] = 4
        if c["jt"] == "minus":
            jt[rng.integers(0, n)] = -1
        if c["jt"] == "short":
            jt = jt[:-1]
        if c["jt"] == "long":
            jt = jt + [0]
        if rng.random() < .5:
            jt = np.array(jt, dtype=float if rng.random() < .5 else int)
        def per(kind, mk):
            if kind == "none":
                return None
            m = {"ok": n, "short": n - 1, "long": n + 1}[kind]
            v = [mk() for _ in range(m)]
            return v
        lo, up = per(c["lo"], lambda: -rng.random()), per(c["up"], lambda: rng.random())
        vel, acc = per(c["vel"], rng.random), per(c["acc"], rng.random)
        if rng.random() < .5:
            lo, up, vel, acc = [None if x is None else np.array(x) for x in (lo, up, vel, acc)]
        M = None
        if c["M"] != "none":
            m = {"ok": n + 1, "short": n, "long": n + 2, "shape": n + 1}[c["M"]]
            M = [np.eye(6) * (i + 1) for i in range(m)]
            if c["M"] == "shape":
                M[rng.integers(0, m)] = np.eye(5) if rng.random() < .5 else np.zeros((6, 5))
        Rt = gen_R(rng) if c["tool"] in ("both", "R") else None
        pt = rng.uniform(-1, 1, 3) if c["tool"] in ("both", "p") else None
        names = per(c["names"], lambda: "j%d" % rng.integers(0, 1000))
        root, tip = ("root", "tip") if rng.random() < .5 else (None, None)
        fl = rox.Transform(gen_R(rng), rng.uniform(-1, 1, 3)) if rng.random() < .5 else None
        ba = rox.Transform(gen_R(rng), rng.uniform(-1, 1, 3)) if rng.random() < .5 else None
        snap = [None if x is None else (x.copy() if hasattr(x, "copy") else x) for x in (H, P, jt, lo, up, vel, acc, M, Rt, pt, names)]
        def f():
            return rox.Robot(H, P, jt, lo, up, vel, acc, M, Rt, pt, names, root, tip, fl, ba)
        def same(a, g):
            if a is None:
                return "none" if g is not None else "same"
            try:
                return "same" if g is not None and len(a) == len(g) and all(np.array_equal(np.asarray(x), np.asarray(y)) for x, y in zip(a, g)) else "other"
            except Exception:
                return "other"
        def rep(a, g):
            return "none" if a is None else same(a, g)
        def obj(a, g):
            if g is None:
                return "same" if a is None else "other"
            if isinstance(g, str):
                return "same" if a == g else "other"
            return "same" if a is not None and np.array_equal(a.R, g.R) and np.array_equal(a.p, g.p) else "other"
        def conv(r):
            H0, P0, jt0, lo0, up0, vel0, acc0, M0, Rt0, pt0, names0 = snap
            return {"H": same(r.H, H0), "P": same(r.P, P0), "jt": same(r.joint_type, jt0), "lo": rep(r.joint_lower_limit, lo0), "up": rep(r.joint_upper_limit, up0),
                    "vel": rep(r.joint_vel_limit, vel0), "acc": rep(r.joint_acc_limit, acc0), "M": rep(r.M, M0), "Rt": rep(r.R_tool, Rt0), "pt": rep(r.p_tool, pt0),
                    "names": rep(r.joint_names, names0), "root": obj(r.root_link_name, root), "tip": obj(r.tip_link_name, tip),
                    "flange": obj(r.T_flange, fl), "base": obj(r.T_base, ba)}
        rec.ev({"op": "robot", "n": n, "c": c, "r": res(conv, f)})

# ------------------------------------------------------------------ robots
class Rob:
    """description kept by the driver; .spec() is what the judge sees, .make() the implementation's object"""
    def __init__(self, H, P, jt, base=None, flange=None, tool=None, lim=None):
        self.H, self.P, self.jt = [np.asarray(h, float) for h in H], [np.asarray(p, float) for p in P], list(jt)
        self.base, self.flange, self.tool, self.lim, self.limform, self.ints = base, flange, tool, lim, None, False
        self.half = None    # limits on one side only, which are none
        self.u = 1.0        # the unit of length the implementation is given the arm in; the judge sees it in its own
    def spec(self):
        o = lambda T: [] if T is None else [{"R": mat(T[0]), "p": vec(T[1])}]
        return {"H": [vec(h) for h in self.H], "P": [vec(p) for p in self.P], "jt": self.jt, "base": o(self.base), "flange": o(self.flange), "tool": o(self.tool)}
    def limspec(self, w=9.9):
        # no limit on one side: further out than anything the calls can reach
        return [] if self.lim is None else [vec(np.clip(self.lim[0], -w, w)), vec(np.clip(self.lim[1], -w, w))]
    def measure(self, rng):
        # the same arm measured in another unit of length
        if rng.random() < .35:
            self.u = float(rng.choice(UNITS))
        return self
    def per(self, q):
        # joint values as the implementation counts them: sliding joints in its unit of length
        return np.asarray(q, float) * np.where(np.isin(self.jt, (1, 3)), self.u, 1.0) if self.u != 1 else q
    def unper(self, q):
        a = np.asarray(q, float)
        return a if self.u == 1 or a.shape != (len(self.jt),) else a / np.where(np.isin(self.jt, (1, 3)), self.u, 1.0)
    def tf(self, T):
        if self.u == 1: return tf(T)
        p = np.asarray(T.p)
        if p.shape not in ((3,), (3, 1)):
            raise Bad("wrong position shape")
        return {"R": mat(T.R), "p": vec(p / self.u, 3)}
    def side(self, k):
        return [] if self.lim is None or self.lim[k] is None else [vec(np.clip(self.lim[k], -19.5, 19.5))]
    def make(self, **kw):
        n = len(self.jt)
        H = np.array(self.H, float).reshape(n, 3).T.copy()
        P = np.array(self.P, float).reshape(n + 1, 3).T.copy()
        if self.u != 1: P *= self.u
        if self.ints and (H == H.round()).all() and (P == P.round()).all():
            H, P = H.round().astype(int), P.round().astype(int)
        T = lambda t: None if t is None else rox.Transform(t[0], np.array(t[1], float) * self.u if self.u != 1 else t[1])
        L = lambda x: x if self.u == 1 or x is None else type(x)(self.per(x)) if not isinstance(x, np.ndarray) else self.per(x)
        F = lambda x: x if self.limform is None or x is None else self.limform(x)
        lo, up = (None, None) if self.lim is None and self.half is None else map(L, map(F, self.lim or self.half))
        a = dict(joint_lower_limit=lo, joint_upper_limit=up, T_flange=T(self.flange), T_base=T(self.base))
        if self.tool is not None:
            a["R_tool"], a["p_tool"] = self.tool[0].copy(), np.array(self.tool[1], float) * self.u
        k = int(np.abs(P).sum() * 1e7 + n)      # any of the guises of the same description
        if self.tool is not None and k % 5 == 1: a["p_tool"] = a["p_tool"].reshape(3, 1)
        jt = [list, tuple, lambda x: np.array(x, int), lambda x: np.array(x, float), list][k // 5 % 5](self.jt)
        if k // 25 % 4 == 1: H, P = np.asfortranarray(H), np.asfortranarray(P)
        if k // 25 % 4 == 2: H.flags.writeable = P.flags.writeable = False
        a.update(kw)
        r = rox.Robot(H, P, jt, **a)
        if self.tool is None and k // 100 % 8 == 1:      # half a tool is no tool
            if k // 800 % 2: r.p_tool = np.array([.3, -.2, .1])
            else: r.R_tool = R_of([0, .6, .8], 1.1)
        return r

def rand_T(rng, s=.5):
    return (mount_R(rng), rand_p(rng, s))

def rand_aux(rng, which=None, s=.4):
    if which is None:
        which = rng.integers(0, 8)
    return [rand_T(rng, s) if which & (1 << i) else None for i in range(3)]

def rand_robot(rng, n=None, aux=None, mobile=False, prism=True, anytype=False):
    if n is None:
        n = int(rng.integers(0, 8))
    jt = [int(rng.random() < .3) if prism else 0 for _ in range(n)]
    if anytype:
        jt = [int(x) for x in rng.integers(0, 4, n)]
    H = [rand_axis(rng) for _ in range(n)]
    P = [rand_p(rng) for _ in range(n + 1)]
    if mobile:
        B = gen_R(rng) if rng.random() < .5 else np.eye(3)
        at = 0 if rng.random() < .6 else int(rng.integers(0, n + 1))
        H[at:at] = [B[:, 0], B[:, 1], B[:, 2]]
        jt[at:at] = [3, 3, 2]
        P[at:at] = [np.zeros(3) if rng.random() < .5 else rng.uniform(-.2, .2, 3) for _ in range(3)]
    b, f, t = rand_aux(rng, aux)
    return Rob(H, P, jt, b, f, t)

def rand_q(rng, rob, wide=True):
    return np.array([rand_angle(rng, wide) if t in (0, 2) else rng.uniform(-.8, .8) for t in rob.jt], float)

def lat_robot(c):
    """a robot and joint vector of the lattice model as floats"""
    r = c["rob"]
    def T(o):
        return None if not o else (np.array(o[0]["R"], float).reshape(3, 3), np.array(o[0]["p"], float) * .5)
    rob = Rob(r["H"], [np.array(p, float) * .5 for p in r["P"]], r["jt"], T(r["base"]), T(r["flange"]), T(r["tool"]))
    q = np.array([x * (math.pi / 2 if t in (0, 2) else .5) for x, t in zip(c["q"], r["jt"])], float)
    return rob, q

def claimed_types(jt):
    """types 2 and 3 only as complete mobile bases 3, 3, 2"""
    return not set(" ".join(map(str, jt)).replace("3 3 2", "").split()) & {"2", "3"}

def jac(v, rob=None):
    a = np.asarray(v)
    if a.ndim != 2 or a.shape[0] != 6:
        raise Bad("wrong shape %s" % (a.shape,))
    if rob is not None and rob.u != 1:      # lengths per radian
        a = np.array(a, float)
        jt, k = list(rob.jt), 0
        while jt and k < a.shape[1]:
            if jt[:3] == [3, 3, 2]: jt[:3] = [3, 2]
            if jt.pop(0) in (0, 2): a[3:, k] /= rob.u
            k += 1
    return {"cols": int(a.shape[1]), "J": vec(a)}

def ev_fwd(rec, rob, q, r=None, ign=None, qarg=None):
    r = rob.make() if r is None else r
    a = rob.per(q) if qarg is None else qarg
    x = (r, a) if ign is None else (r, a, ign)
    rec.ev({"op": "fwd", "rob": rob.spec(), "q": vec(q), "lo": rob.side(0), "up": rob.side(1), "ign": bool(ign), "r": res(rob.tf, rox.fwdkin, *x)})

def ev_jac(rec, rob, q, r=None, ign=None, qarg=None):
    r = rob.make() if r is None else r
    a = rob.per(q) if qarg is None else qarg
    x = (r, a) if ign is None else (r, a, ign)
    rec.ev({"op": "jac", "rob": rob.spec(), "q": vec(q), "lo": rob.side(0), "up": rob.side(1), "ign": bool(ign), "r": res(lambda v: jac(v, rob), rox.robotjacobian, *x)})

def spun(rng, rob, q):
    return np.array([x + (turns(rng) if t in (0, 2) else 0) for x, t in zip(q, rob.jt)], float)

def qform(rng, q):
    k = rng.integers(0, 4)
    return [q, q.tolist(), tuple(q.tolist()), q.reshape(-1, 1)][k]

def ints(rng, rob, q, ev, rec):
    """the same robot scaled to whole numbers, described by integer arrays"""
    if rng.random() < .25 and all(h.any() and np.abs(h).sum() == 1 for h in rob.H):
        R = Rob(rob.H, [p * 2 for p in rob.P], rob.jt, rob.base, rob.flange, rob.tool)
        R.ints = True
        q = np.array([int(x) if t in (1, 3) else x for x, t in zip(q, R.jt)])
        ev(rec, R, q, qarg=[int(x) if t in (1, 3) else x for x, t in zip(q, R.jt)])

def c06(rec, cases):
    rng = rec.rng
    for c in cases:
        rob, q = lat_robot(c)
        ev_fwd(rec, rob, q)
        ints(rng, rob, q, ev_fwd, rec)
    for i in range(rec.n(1500, 30000)):
        rob = rand_robot(rng, aux=i % 8, mobile=(i % 6 == 0), anytype=(i % 6 in (1, 4)))
        if i % 50 == 1:
            rob = rand_robot(rng, n=0, aux=(i // 50) % 8)
        if i % 25 == 3:             # long chains
            rob = rand_robot(rng, n=int(rng.integers(8, 17)), aux=(i // 25) % 8)
            rob.P = [p * .5 for p in rob.P]
        q = rand_q(rng, rob.measure(rng))
        ev_fwd(rec, rob, q, qarg=qform(rng, spun(rng, rob, rob.per(q))))

def c08(rec, cases):
    rng = rec.rng
    for c in cases:
        rob, q = lat_robot(c)
        if claimed_types(rob.jt):
            ev_jac(rec, rob, q)
            ints(rng, rob, q, ev_jac, rec)
    for i in range(rec.n(900, 12000)):
        rob = rand_robot(rng, n=int(rng.integers(0, 7)), aux=i % 8) if i % 4 else rand_robot(rng, n=int(rng.integers(0, 4)), aux=(i // 4) % 8, mobile=True)
        if i % 25 == 3:             # long chains
            rob = rand_robot(rng, n=int(rng.integers(7, 13)), aux=(i // 25) % 8)
            rob.P = [p * .5 for p in rob.P]
        q = rand_q(rng, rob.measure(rng))
        ev_jac(rec, rob, q, qarg=qform(rng, spun(rng, rob, rob.per(q))))

def c09(rec, cases):
    rng = rec.rng
    def one(rob, T):
        r = rob.make()
        X = rox.Transform(T[0], T[1] * rob.u)
        for mode, f in (("apply", rox.apply_robot_aux_transforms), ("unapply", rox.unapply_robot_aux_transforms),
                        ("ua", lambda r, X: rox.unapply_robot_aux_transforms(r, rox.apply_robot_aux_transforms(r, X))),
                        ("au", lambda r, X: rox.apply_robot_aux_transforms(r, rox.unapply_robot_aux_transforms(r, X)))):
            rec.ev({"op": "aux", "rob": rob.spec(), "T": {"R": mat(T[0]), "p": vec(T[1])}, "mode": mode, "r": res(rob.tf, f, r, X)})
    for c in cases:
        rob, q = lat_robot(c)
        one(rob, rand_T(rng))
    for i in range(rec.n(800, 20000)):
        rob = rand_robot(rng, n=int(rng.integers(0, 3)), aux=i % 8)
        one(rob.measure(rng), rand_T(rng, 1.5))

def c07(rec, cases):
    rng = rec.rng
    def go(rob, qf, ign, form):
        rob.measure(rng)
        r = rob.make()
        a = qform(rng, rob.per(qf))
        ev_fwd(rec, rob, qf, r, ign, qarg=a)
        if claimed_types(rob.jt):
            ev_jac(rec, rob, qf, r, ign, qarg=a)
        return r
    form = lambda v: [lambda x: x, lambda x: x.tolist(), lambda x: tuple(x.tolist())][int(rng.integers(0, 3))](v)
    for c in cases:
        n = len(c["q"])
        rob = rand_robot(rng, n=n, aux=int(rng.integers(0, 8)))
        rob.jt = list(c["jt"])
        # units: distances of one stand for anything down to the resolution
        lo, up, q = [np.array(c[k]) * (S // 2) for k in ("lo", "up", "q")]
        fine = int(rng.choice([1, 3, 1000, S // 2]))
        for j in range(n):
            if q[j] < lo[j]: q[j] = lo[j] - fine
            if q[j] > up[j]: q[j] = up[j] + fine
        both = [form(lo / S), form(up / S)]
        rob.lim = {"both": both, "lower": [both[0], None], "upper": [None, both[1]], "none": None}[c["has"]]
        go(rob, q / S, c["ign"] if rng.random() < .8 or c["ign"] else None, form)
    for i in range(rec.n(700, 12000)):
        n = int(rng.integers(1, 9))
        rob = rand_robot(rng, n=n, aux=int(rng.integers(0, 8)))
        if i % 6 == 5:              # mobile bases have limits too
            rob = rand_robot(rng, n=int(rng.integers(0, 4)), mobile=True)
            n = len(rob.jt)
        # limits and joints are whole multiples of 1e-8, so that the gate is decided exactly
        lo = rng.integers(-3 * S, S, n)
        up = lo + rng.choice([0, 1, S // 2, 2 * S, 4 * S], n)
        if i % 8 == 3:              # a range starting or ending at zero
            j = int(rng.integers(0, n))
            lo[j], up[j] = [(0, S), (-S, 0), (0, 0)][int(rng.integers(0, 3))]
        q = np.array([rng.integers(a, b + 1) for a, b in zip(lo, up)])
        for j in range(n):
            k = rng.random()
            if k < .15: q[j] = lo[j]
            elif k < .3: q[j] = up[j]
        kind = i % 5
        if kind in (1, 2):          # exactly one joint outside, on one side
            j = int(rng.integers(0, n))
            d = int(rng.choice([1, 2, 1000, S]))
            q[j] = up[j] + d if rng.random() < .5 else lo[j] - d
        elif kind == 3:
            j = int(rng.integers(0, n)); q[j] = up[j] if rng.random() < .5 else lo[j]
        qf = q / S
        rob.lim = [form(lo / S), form(up / S)]
        if i % 9 == 4:              # joints without a limit on one side or both
            for k, v in ((0, -np.inf), (1, np.inf)):
                if rng.random() < .7:
                    a = np.array(rob.lim[k], float); a[rng.random(n) < .5] = v; rob.lim[k] = form(a)
        if i % 7 == 6:              # an incomplete pair is no limit at all
            rob.lim[i % 2] = None
        ign = [None, False, True][int(rng.integers(0, 3))]
        r = go(rob, qf, ign, form)
        if ign is None and i % 3 == 0:
            ev_fwd(rec, rob, qf, r, True)
            ev_jac(rec, rob, qf, r, True)
            ev_fwd(rec, rob, qf, r)     # the override is for one call only
