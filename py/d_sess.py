"""Driver for C17: sessions of calls on robots that share arrays."""
import math
import numpy as np
from vlib import *
from d_kin import Rob, rand_T, rand_robot, rand_q
import d_ros
from d_ik import opw_robot, ur_robot, fk, T_of
import general_robotics_toolbox as rox
from general_robotics_toolbox import tesseract as tt

PI = math.pi
def flat(v):
    """any numeric answer as shape string and numbers"""
    out, shape = [], []
    def walk(x):
        if x is None or isinstance(x, (str, bool, np.bool_)):
            shape.append(str(x)); return
        if isinstance(x, (list, tuple)):
            shape.append("[")
            for y in x: walk(y)
            shape.append("]"); return
        if hasattr(x, "R") and hasattr(x, "p"):
            shape.append("T%s,%s" % (name(x.parent_frame_id), name(x.child_frame_id)))
            out.extend(mat(x.R)); out.extend(vec(x.p, 3)); return
        a = np.asarray(x)
        if a.dtype == bool:
            shape.append(str(a.tolist())); return
        shape.append(str(a.shape)); out.extend(vec(a))
    walk(v)
    return {"s": "".join(shape), "f": out}

def fwdflat(T):
    return {"s": "T", "f": mat(T.R) + vec(T.p, 3)}
def jacflat(v):
    v = np.asarray(v)
    if v.ndim != 2 or v.shape[0] != 6:
        raise Bad("not six rows")
    return {"s": str(v.shape), "f": vec(v)}
def ikflat(v):
    if not isinstance(v, list):
        raise Bad("not a list")
    o = []
    for x in v: o += vec(x, 6)
    return {"s": str(len(v)), "f": o}

def c17(rec, cases):
    rng = rec.rng
    d_ros.install()
    for c in cases:
        run(rec, rng, c["h"])
    allq = ["fwd", "jac", "ik", "iklast", "itik", "equiv", "apply", "unapply", "conv", "sub", "xf", "ops", "tess", "msg"]
    for _ in range(rec.n(40, 600)):        # longer histories
        h = []
        for _ in range(int(rng.integers(8, 20))):
            u = rng.random()
            if u < .2:
                h.append([["tool", "flange", "base"][rng.integers(0, 3)], "ABCD"[rng.integers(0, 4)], int(rng.choice([0, 4, 5]))])
            elif u < .3:
                h.append(["poke " + ["tool", "flange", "base"][rng.integers(0, 3)], "ABCD"[rng.integers(0, 4)], 0])
            else:
                h.append([allq[rng.integers(0, len(allq))], "ABCD"[rng.integers(0, 4)], 0])
        run(rec, rng, h)

def arrays(x, out):
    if isinstance(x, np.ndarray): out.append(x)
    elif isinstance(x, (list, tuple)):
        for y in x: arrays(y, out)
    elif isinstance(x, dict):
        for y in x.values(): arrays(y, out)
    elif hasattr(x, "R") and hasattr(x, "p") and hasattr(x, "parent_frame_id"):
        arrays([x.R, x.p], out)
    return out

def sgflat(sg):
    """the joints of a scene graph, as text and numbers"""
    s, f = [sg.getName(), sg.getRoot()], []
    for j in sorted(sg.getJoints(), key=lambda j: j.getName()):
        I = np.asarray(j.parent_to_joint_origin_transform.matrix())
        s += [j.getName(), j.parent_link_name, j.child_link_name, str(j.type)]
        f += vec(I) + vec(j.axis, 3)
        if j.limits is not None:
            f += [fx(j.limits.lower), fx(j.limits.upper), fx(j.limits.velocity)]
    return {"s": "/".join(s), "f": f}
def parflat(p):
    d = p._asdict() if hasattr(p, "_asdict") else dict(enumerate(p))
    return {"s": "/".join(str(k) for k in d), "f": [x for k in d for x in vec(d[k])]}
def msgflat(m):
    f, s = [], []
    def walk(x, at):
        if hasattr(x, "__slots__"):
            for n in x.__slots__: walk(getattr(x, n), at + "." + n)
        elif isinstance(x, str): s.append(at + "=" + x)
        elif isinstance(x, (int, float, np.number)): s.append(at); f.append(fx(x))
        else: s.append(at)
    walk(m, "")
    return {"s": "/".join(s), "f": f}

def run(rec, rng, hist):
    # A and B are the same arm and share their arrays; C is another family
    while True:
        a = opw_robot(rng, aux=0, wrist=int(rng.integers(0, 3)))
        if rng.random() < .3 or a.P[4].any() or a.P[5].any():
            break
    lim = (np.full(6, -3.3), np.full(6, 3.4))
    cfr = ur_robot(rng, aux=0)
    H, P = np.array(a.H).T.copy(), np.array(a.P).T.copy()
    jt, names = [0] * 6, ["j%d" % i for i in range(6)]
    frames = {i: rand_T(rng, .3) for i in range(1, 6)}
    frames[0] = None
    TX = lambda t: None if t is None else rox.Transform(t[0], t[1])
    shared_flange, shared_base = TX(frames[2]), TX(frames[3])
    objT = {0: None, 4: TX(frames[4]), 5: TX(frames[5])}
    # a tool may be the very arrays of a flange or base
    toolR = {1: frames[1][0].copy(), 4: objT[4].R, 5: objT[5].R}
    toolp = {1: frames[1][1].copy(), 4: objT[4].p, 5: objT[5].p}
    while True:
        d = rand_robot(rng, n=int(rng.integers(1, 8)), aux=0, mobile=rng.random() < .2)
        if len(d.jt) < 8: break
    nd = len(d.jt)
    limD = ([-3.0] * nd, [3.1] * nd)
    robD = dict(joint_lower_limit=limD[0], joint_upper_limit=limD[1], joint_vel_limit=[1.0] * nd, joint_acc_limit=[2.0] * nd) if rng.random() < .6 else {}
    robots = {
        "A": rox.Robot(H, P, jt, lim[0], lim[1], joint_names=names, T_flange=shared_flange, T_base=shared_base),
        "B": rox.Robot(H, P, jt, lim[0], lim[1], joint_names=names, T_flange=shared_flange, T_base=shared_base),
        "C": rox.Robot(np.array(cfr.H).T.copy(), np.array(cfr.P).T.copy(), jt, R_tool=toolR[1], p_tool=toolp[1], T_base=shared_base),
        "D": rox.Robot(np.array(d.H).T.copy(), np.array(d.P).T.copy(), list(d.jt), **robD)}
    slots = {"A": {"tool": 0, "flange": 2, "base": 3}, "B": {"tool": 0, "flange": 2, "base": 3}, "C": {"tool": 1, "flange": 0, "base": 3}, "D": {"tool": 0, "flange": 0, "base": 0}}
    geo = {"A": a, "B": a, "C": cfr, "D": d}
    pokes = {r: 0 for r in "ABCD"}
    def rob(r):
        s, g = slots[r], geo[r]
        return Rob(g.H, g.P, g.jt, frames[s["base"]], frames[s["flange"]], frames[s["tool"]])
    ver = lambda r: "%(tool)d/%(flange)d/%(base)d" % slots[r] + "/%d" % pokes[r]
    # the objects of the session
    q = {r: rng.uniform(-3, 3, 6) for r in "ABC"}
    q["D"] = np.clip(rand_q(rng, d), -2.9, 2.9)
    ql = {r: q[r].tolist() for r in "ABCD"}
    qc = {r: q[r].reshape(-1, 1).copy() for r in "ABCD"}
    qh = {r: .5 * q[r] for r in "ABCD"}
    last = {r: q[r] + rng.uniform(-.3, .3, len(q[r])) for r in "ABCD"}
    lastl = {r: last[r].tolist() for r in "ABCD"}
    pose = {r: rox.Transform(*fk(rob(r), q[r])) for r in "ABCD"}
    confD = [np.clip(q["D"], -3, 3)]
    scrib = rng.random() < .5
    X, Y = rox.Transform(*rand_T(rng), "w", "x"), rox.Transform(*rand_T(rng), "x", "y")
    v = [rng.uniform(-1, 1, 3) for _ in range(3)]
    k, k2 = unit(rng.normal(size=3)), unit(rng.normal(size=3))
    pk = v[0] - v[0].dot(k) * k; qk = R_of(k, .7) @ pk
    qa, qb = unit(rng.normal(size=4)), unit(rng.normal(size=4)) * 1.2
    R1, rpy = gen_R(rng), rng.uniform(-1, 1, 3)
    confs = [np.clip(q["A"], -3, 3), np.array([-3.2, 3.2, 3.1, -3.15, 0, 1.])]
    Kp, KR = .3 * np.eye(3), .25 * np.eye(3)
    seed1 = q["A"] + .02
    objs = {"array H": H, "array P": P, "list joint types": jt, "limits": [lim, limD], "names": names, "flange": shared_flange, "base": shared_base,
            "frame 4": objT[4], "frame 5": objT[5], "tool rotations": list(toolR.values()), "tool positions": list(toolp.values()),
            "joint vector": list(q.values()), "half joints": list(qh.values()), "joint list": list(ql.values()), "joint column": list(qc.values()), "previous joints": list(last.values()), "previous joint list": list(lastl.values()), "pose": list(pose.values()),
            "transforms": [X, Y], "vectors": v + [k, k2, pk, qk], "quaternions": [qa, qb], "matrix": [R1, rpy], "configurations": [confs, confD], "gains": [Kp, KR], "seed": seed1}
    answers = []
    def rdig(r):
        return digest(r.H, r.P, list(r.joint_type), r.joint_lower_limit, r.joint_upper_limit, r.joint_vel_limit, r.joint_acc_limit, r.R_tool, r.p_tool,
                      r.joint_names, r.root_link_name, r.tip_link_name, r.T_flange, r.T_base)
    def post():
        d = {n: digest(o) for n, o in objs.items()}
        d.update({n: rdig(r) for n, r in robots.items()})
        d.update({"answer %d given earlier" % i: digest(*a) for i, a in enumerate(answers)})
        return d
    robs = {r: rob(r).spec() for r in "ABCD"}
    evs = [{"op": "s_init", "robs": robs, "post": post()}]
    ref = {r: {"tool": None, "flange": None, "base": None} for r in "ABCD"}
    variant = {}
    convs = [lambda: rox.rot(k, .5), lambda: rox.R2rot(R1), lambda: rox.R2q(R1), lambda: rox.q2R(qa), lambda: rox.q2rot(qa), lambda: rox.rot2q(k, 1.1),
             lambda: rox.quatproduct(qa), lambda: rox.quatcomplement(qa), lambda: rox.quatjacobian(qa), lambda: rox.slerp(qa, qb, .3), lambda: rox.rpy2R(rpy),
             lambda: rox.R2rpy(R1), lambda: rox.hat(v[0]), lambda: rox.invhat(rox.hat(v[1])), lambda: rox.screw_matrix(v[0])]
    subs = [lambda: rox.subproblem0(pk, qk, k), lambda: rox.subproblem1(v[0], v[1], k), lambda: rox.subproblem2(v[0], R_of(k, .4) @ R_of(k2, .9) @ v[0], k, k2),
            lambda: rox.subproblem3(v[0], v[1], k, float(np.linalg.norm(v[1] + R_of(k, .3) @ v[0]))), lambda: rox.subproblem4(v[0], v[1], k, float(v[0] @ R_of(k, .3) @ v[1]))]
    xfs = [lambda: X * Y, lambda: X.inv(), lambda: Y.inv() * X.inv(), lambda: [bool(X == Y), bool(X == X)], lambda: X.isclose(Y, .1), lambda: str(X) is not None]
    solve = lambda r: rox.ur_invkin if r == "C" else rox.robot6_sphericalwrist_invkin
    from general_robotics_toolbox import ros_msg as rm
    m1, m2 = rm.transform2transform_stamped_msg(X), rm.transform2pose_msg(Y)
    tw = rng.uniform(-1, 1, 6)
    objs.update({"messages": [str(msgflat(m)) for m in (m1, m2)], "twist": tw})
    msgs = [lambda: rm.transform2msg(X), lambda: rm.transform2pose_msg(X), lambda: rm.transform2transform_stamped_msg(X), lambda: rm.transform2pose_stamped_msg(Y),
            lambda: rm.q2msg(qa), lambda: rm.R2msg(R1), lambda: rm.p2msg(v[0]), lambda: rm.p2point_msg(v[1]), lambda: rm.twist2msg(tw), lambda: rm.wrench2msg(tw)]
    unmsgs = [lambda: rm.msg2transform(m1), lambda: rm.msg2transform(m2), lambda: rm.msg2R(m2.orientation), lambda: rm.msg2q(m2.orientation), lambda: rm.msg2p(m1.transform.translation)]
    def mine():
        return arrays(list(objs.values()), []) + arrays([[getattr(R, k) for k in ("H", "P", "joint_type", "joint_lower_limit", "joint_upper_limit", "R_tool", "p_tool", "T_flange", "T_base")] for R in robots.values()], [])
    def scribble(x):
        """what a caller may do with an answer that is its own"""
        m = mine()
        for a in arrays(x, []):
            if a.flags.writeable and a.dtype.kind == "f" and not any(np.may_share_memory(a, b) for b in m):
                a *= 0; a += 7
    def keep(x):
        """from now on an answer is an object of the session like any other"""
        m = mine()
        a = [y for y in arrays(x, []) if not any(np.may_share_memory(y, b) for b in m)]
        if a:
            answers.append(a)
            rec.count("answers kept to the end of the session")
    def call(o, r):
        i = variant.setdefault((o, r), int(rng.integers(0, 1000)))
        if o in ("fwd", "jac"):        # two configurations in turn
            i = variant[(o, r)] = (i + 3) % 6000
        R = robots[r]
        what, robot, conv, extra = "-", r, flat, {}
        if o == "fwd":
            what, conv, extra = "fwd", fwdflat, {"q": vec(qh[r] if i % 6 > 2 else q[r])}
            f = [lambda: rox.fwdkin(R, q[r]), lambda: rox.fwdkin(R, ql[r]), lambda: rox.fwdkin(R, qc[r])][i % 3]
            if i % 6 > 2: f = lambda: rox.fwdkin(R, qh[r])
            i %= 6
        elif o == "jac" or (r == "D" and o in ("itik", "tess") and 2 in d.jt):
            what, conv, extra = "jac", jacflat, {"q": vec(qh[r] if i % 6 > 2 else q[r])}
            f = [lambda: rox.robotjacobian(R, q[r]), lambda: rox.robotjacobian(R, ql[r]), lambda: rox.robotjacobian(R, qc[r])][i % 3]
            if i % 6 > 2: f = lambda: rox.robotjacobian(R, qh[r])
            i %= 6
            o = "jac"
        elif r == "D" and o in ("ik", "iklast"):
            f = [lambda: rox.iterative_invkin(R, pose[r], lastl[r], max_steps=4), lambda: rox.iterative_invkin(R, pose[r], qc[r], max_steps=3)][i % 2]
            if 2 in d.jt:
                f = lambda: rox.fwdkin(R, last[r], True)
            o = "itik2"
        elif o == "tess":
            L = [(lambda: tt.robot_to_scene_graph(R), sgflat), (lambda: tt.robot_to_ur_inv_kin_parameters(R) if r == "C" else tt.robot_to_opw_inv_kin_parameters(R), parflat)]
            f, conv = L[i % 2]
        elif o == "ik":
            what, conv, extra = "ik", ikflat, {"T": T_of((pose[r].R, pose[r].p))}
            f = lambda: solve(r)(R, pose[r])
        elif o == "iklast":
            what, conv, extra = "ik", ikflat, {"T": T_of((pose[r].R, pose[r].p))}
            f = lambda: solve(r)(R, pose[r], last[r] if i % 2 else lastl[r])
        elif o == "itik":
            f = [lambda: rox.iterative_invkin(R, pose[r], last[r], max_steps=6), lambda: rox.iterative_invkin(R, pose[r], last[r] if r == "D" else seed1, 5, Kp, KR)][i % 2]
        elif o == "equiv":
            if r == "C":
                f, robot = (lambda: rox.equivalent_configurations(robots["A"], confs, last["A"])), "A"
            elif r == "D":
                f = lambda: rox.equivalent_configurations(R, confD, last[r])
            else:
                f = [lambda: rox.equivalent_configurations(R, confs), lambda: rox.equivalent_configurations(R, confs, last[r])][i % 2]
        elif o == "apply":
            what, extra = "apply", {"T": T_of((X.R, X.p))}
            f = lambda: rox.apply_robot_aux_transforms(R, X)
        elif o == "unapply":
            what, extra = "unapply", {"T": T_of((X.R, X.p))}
            f = lambda: rox.unapply_robot_aux_transforms(R, X)
        else:
            robot = "-"
            if o == "msg":
                i = variant[(o, r)] = (i + 1) % (len(msgs) + len(unmsgs))
                f, conv = (msgs[i], msgflat) if i < len(msgs) else (unmsgs[i - len(msgs)], flat)
            elif o == "ops":
                i = variant[(o, r)] = i + 1   # keep moving through the conversions
                f = convs[i % len(convs)]; o = "conv"
            else:
                L = {"conv": convs, "sub": subs, "xf": xfs}[o]
                f = L[i % len(L)]
            i %= {"conv": len(convs), "sub": len(subs), "xf": len(xfs), "msg": 1000}[o]
        got = []
        def g():
            got.append(f())
            return got[0]
        rr = res(conv, g)
        twin = []
        if robot == r:              # a robot made anew with the same description
            R = rox.Robot(np.array(R.H), np.array(R.P), list(R.joint_type), *[None if x is None else np.array(x) for x in (R.joint_lower_limit, R.joint_upper_limit, R.joint_vel_limit, R.joint_acc_limit)],
                          R_tool=None if R.R_tool is None else np.array(R.R_tool), p_tool=None if R.p_tool is None else np.array(R.p_tool),
                          joint_names=None if R.joint_names is None else list(R.joint_names), root_link_name=R.root_link_name, tip_link_name=R.tip_link_name,
                          **{k: None if T is None else rox.Transform(np.array(T.R), np.array(T.p)) for k, T in (("T_flange", R.T_flange), ("T_base", R.T_base))})
            twin = [res(conv, f)]
        if scrib and got:
            scribble(got[0])
        elif got and rr["k"] == "ok":
            keep(got[0])
        e = {"op": "s_call", "what": what, "robot": robot, "key": "%s/%s/%d" % (o, r if robot != "-" else "-", i), "r": rr, "twin": twin, "post": post()}
        e.update(extra)
        rec.count("query " + o)
        evs.append(e)
    def mount(s, r, c):
        R = robots[r]
        slots[r][s] = c
        if s == "tool":
            R.R_tool, R.p_tool = (toolR[c], toolp[c]) if c else (None, None)
        elif s == "flange":
            R.T_flange = objT[c]
        else:
            R.T_base = objT[c]
        rec.count("mount " + s)
        evs.append({"op": "s_set", "robot": r, "slot": s, "now": rob(r).spec(), "ver": ver(r), "post": post()})
    def read(r):
        R, g = robots[r], geo[r]
        F = lambda T: None if T is None else (np.array(T.R), np.array(T.p).reshape(3))
        return Rob(g.H, g.P, g.jt, F(R.T_base), F(R.T_flange), None if R.R_tool is None else (np.array(R.R_tool), np.array(R.p_tool).reshape(3))).spec()
    def poke(s, r):
        R = robots[r]
        c = slots[r][s]
        if not c: return
        A, b = (R.R_tool, R.p_tool) if s == "tool" else (R.T_flange.R, R.T_flange.p) if s == "flange" else (R.T_base.R, R.T_base.p)
        T = rand_T(rng, .3)
        try:
            A[...] = T[0]; b.reshape(3)[...] = T[1]
        except (ValueError, TypeError):
            return
        frames[c] = T
        shared = [x for x in "ABCD" if c in slots[x].values()]
        for x in shared: pokes[x] += 1
        rec.count("poke " + s)
        evs.append({"op": "s_poke", "robot": r, "now": {x: read(x) for x in "ABCD"}, "want": {x: rob(x).spec() for x in "ABCD"}, "ver": {x: ver(x) for x in "ABCD"},
                    "allowed": shared + ["flange", "base", "frame 4", "frame 5", "tool rotations", "tool positions"], "post": post()})
    # the initial versions are named by the specification; give them their real name
    for r in "ABCD":
        evs.append({"op": "s_set", "robot": r, "slot": "-", "now": robs[r], "ver": ver(r), "post": post()})
    steps = list(hist) + list(hist[:2]) + [["fwd", "A", 0], ["fwd", "B", 0]]
    for o, r, c in steps:
        if o.startswith("poke"):
            poke(o[5:], r)
        elif o in ("tool", "flange", "base"):
            if slots[r][o] != c:
                mount(o, r, c)
        else:
            call(o, r)
    rec.count("histories")
    rec.session(evs, stateful=1)
