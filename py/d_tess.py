"""Drivers for C21 - C23: the Tesseract module."""
import math
import numpy as np
import yaml
from vlib import *
from d_kin import Rob, rand_robot, rand_T, rand_q, jac
from d_ik import fk, qlist
import general_robotics_toolbox as rox
from general_robotics_toolbox import tesseract as tt
from general_robotics_toolbox import robotraconteur as rr
from tesseract_robotics.tesseract_scene_graph import JointType_FIXED, JointType_REVOLUTE, JointType_PRISMATIC
from tesseract_robotics.tesseract_environment import Environment

PI = math.pi
TY = {JointType_FIXED: "fixed", JointType_REVOLUTE: "revolute", JointType_PRISMATIC: "prismatic"}

def iso(I, u=1.0):
    M = np.asarray(I.matrix())
    if M.shape != (4, 4):
        raise Bad("not a 4x4 matrix")
    return {"R": mat(M[:3, :3]), "p": vec(M[:3, 3] / u)}

def joint(j, u=1.0):
    l = j.limits
    ty = TY.get(j.type, "other")
    d = {"n": j.getName(), "pa": j.parent_link_name, "ch": j.child_link_name, "type": ty, "o": iso(j.parent_to_joint_origin_transform, u),
         "axis": vec(j.axis, 3), "lim": {"lo": 0, "up": 0, "vel": 0, "acc": 0}}
    if ty != "fixed":
        d["lim"] = {"lo": fx(l.lower), "up": fx(l.upper), "vel": fx(l.velocity), "acc": fx(l.acceleration)}
    return d

class TRob:
    """a robot with limits and optional joint names"""
    def __init__(self, rng, rob, names=None, lim=None, listlim=None):
        self.rob, self.names = rob, names
        n = len(rob.jt)
        if lim is None:
            lo = rng.uniform(-3.5, -.2, n); up = rng.uniform(.2, 3.5, n)
        else:
            lo, up = lim
        vel, acc = rng.uniform(.1, 5, n), rng.uniform(.1, 9, n)
        self.lim = [lo, up, vel, acc]
        if lim is None and rng.random() < .15:       # whole numbers
            self.lim = [x.astype(int) for x in (np.floor(lo), np.ceil(up), np.ceil(vel), np.ceil(acc))]
        l = [x.tolist() for x in self.lim] if (rng.random() < .3 if listlim is None else listlim) else self.lim
        rob.lim = None
        self.obj = rob.make(joint_lower_limit=l[0], joint_upper_limit=l[1], joint_vel_limit=l[2], joint_acc_limit=l[3], joint_names=None if names is None else list(names))
    def spec(self):
        return self.rob.spec()
    def nspec(self):
        return [] if self.names is None else [list(self.names)]
    def lspec(self):
        return [{"lo": fx(a), "up": fx(b), "vel": fx(c), "acc": fx(d)} for a, b, c, d in zip(*self.lim)]
    def state(self):
        r = self.obj
        return digest(r.H, r.P, r.joint_type, r.joint_lower_limit, r.joint_upper_limit, r.joint_vel_limit, r.joint_acc_limit, r.R_tool, r.p_tool,
                      r.joint_names, r.T_flange, r.T_base, r.root_link_name, r.tip_link_name)

    def become(self, rng, o):
        """the same robot object, its description rewritten to that of another robot with as many joints"""
        a, b = self.obj, o.obj
        for k in ("H", "P", "joint_lower_limit", "joint_upper_limit", "joint_vel_limit", "joint_acc_limit"):
            x, y = getattr(a, k), getattr(b, k)
            if isinstance(x, np.ndarray) and isinstance(y, np.ndarray) and x.dtype == y.dtype and x.flags.writeable and rng.random() < .7:
                x[...] = y
            else:
                setattr(a, k, y)
        for k in ("R_tool", "p_tool", "T_flange", "T_base", "joint_type", "joint_names"):
            setattr(a, k, getattr(b, k))
        self.rob, self.names, self.lim = o.rob, o.names, o.lim

def jnames(rng, n):
    u = rng.random()
    if u < .4:
        return None
    pool = ["shoulder", "elbow", "a1", "joint_2", "joint_1", "wrist_1", "link_1", "x", "right_j0", "base"]
    rng.shuffle(pool)
    if rng.random() < .2:       # names that look prefixed already
        return [pick(rng, *RN, "world", "chain") + "_" + s for s in (pool + ["k%d" % i for i in range(n)])[:n]]
    if n > len(pool) or rng.random() < .2:
        return ["joint_%d" % i for i in rng.permutation(n + 3)[:n]]
    return pool[:n]

def some(rng, n=None, which=None, u=1.0):
    if n is None:
        n = int(rng.integers(1, 8)) if rng.random() < .93 else int(rng.integers(8, 15))
    r = rand_robot(rng, n=n, aux=which)
    if n > 7:
        r.P = [p * .5 for p in r.P]
    if rng.random() < .12:      # all of whole numbers
        r.H = [np.eye(3)[rng.integers(0, 3)] * float(rng.choice([-1, 1])) for _ in r.H]
        r.P = [rng.integers(-1, 2, 3).astype(float) for _ in r.P]
        r.ints = rng.random() < .7
        W = lambda o: None if o is None else (R_of(np.eye(3)[rng.integers(0, 3)], PI / 2 * rng.integers(0, 4)).round().astype(int), rng.integers(-1, 2, 3))
        r.base, r.flange, r.tool = W(r.base), W(r.flange), W(r.tool)
    r.u = u
    return TRob(rng, r, jnames(rng, len(r.jt)))

def case_env(rng, c):
    """robots of a model case, lengths halved; -> [(name, TRob, q)]"""
    out, k = [], 0
    for r in c["env"]:
        b = r["rob"]
        T = lambda o: None if not o else (np.array(o[0]["R"], float).reshape(3, 3), np.array(o[0]["p"], float) * .5)
        rob = Rob(b["H"], [np.array(p, float) * .5 for p in b["P"]], b["jt"], T(b["base"]), T(b["flange"]), T(b["tool"]))
        n = len(b["jt"])
        q = np.array([x * (PI / 2 if t == 0 else .5) for x, t in zip(c["q"][k:k + n], b["jt"])], float); k += n
        out.append((r["name"], TRob(rng, rob, r["names"][0] if r["names"] else None), q))
    return out

RN = ["robot", "r", "left_arm", "my robot", "UR5e", "abb_1200"]

# ------------------------------------------------------------------ C22
def ev_sg(rec, t):
    before = t.state()
    def f():
        return tt.robot_to_scene_graph(t.obj, True), tt.robot_to_scene_graph(t.obj)
    def conv(v):
        (sg, links, joints, chain), sg2 = v
        L = sg2.getLinks(); J = sg.getJoints()
        return {"links": [L[i].getName() for i in range(len(L))], "joints": [joint(J[i], t.rob.u) for i in range(len(J))],
                "linknames": [str(x) for x in links], "jointnames": [str(x) for x in joints], "chain": [str(x) for x in chain], "same": t.state() == before}
    rec.ev({"op": "sg", "rob": t.spec(), "names": t.nspec(), "lim": t.lspec(), "r": res(conv, f)})

def ev_env(rec, rng, robs):
    """robs: [(name, TRob, q)]; built one after the other in one environment"""
    before = [t.state() for _, t, _ in robs]
    solver = [None, "KDLInvKinChainLMA", "KDLInvKinChainNR"]
    ret = []
    def f():
        n0, t0, _ = robs[0]
        s = solver[rng.integers(0, 3)]
        way = rng.integers(0, 3)
        # the name may be left to its default
        a0, k0 = ((), {"return_names": True, "invkin_solver": s}) if n0 == "robot" and rng.random() < .7 else ((n0, True, True, s), {})
        if way == 0:
            env, l, j = tt.robot_to_tesseract_env(t0.obj, *a0, **k0)
        else:
            cmd, l, j = tt.robot_to_tesseract_env_commands(t0.obj, *a0, **k0)
            env = Environment()
            if not env.init(cmd if way == 1 else tt.robot_to_tesseract_env_commands(t0.obj, n0, invkin_solver=s)):
                raise RuntimeError("environment cannot be initialized")
        ret.append((l, j))
        for nm, t, _ in robs[1:]:
            cmd, l, j = tt.robot_to_tesseract_env_commands(t.obj, nm, False, True, s)
            if not env.applyCommands(cmd):
                raise RuntimeError("robot cannot be added")
            ret.append((l, j))
        return env
    def conv(env):
        out = []
        ki = env.getKinematicsInformation()
        cg = dict(ki.chain_groups)
        for (nm, t, q), (l, j) in zip(robs, ret):
            kg = env.getKinematicGroup(nm)
            out.append({"links": [str(x) for x in l], "joints": [str(x) for x in j], "group": [[a, b] for a, b in cg[nm]], "gjoints": [str(x) for x in kg.getJointNames()],
                        "q": vec(q), "T": t.rob.tf(tt.TesseractRobot(None, nm, tesseract_env=env).fwdkin(t.rob.per(q)))})
        return {"links": [str(x) for x in env.getLinkNames()], "joints": [joint(env.getJoint(x), robs[0][1].rob.u) for x in env.getJointNames()], "ret": out,
                "same": before == [t.state() for _, t, _ in robs]}
    rec.ev({"op": "envg", "env": [{"name": nm, "rob": t.spec(), "names": t.nspec(), "lim": t.lspec()} for nm, t, _ in robs], "r": res(conv, f)})

def pick(rng, *a):
    return a[rng.integers(0, len(a))]

def ev_plugin(rec, rng, t, name, solver, params=None):
    _, links, joints, chain = tt.robot_to_scene_graph(t.obj, True)
    if rng.random() < .5:
        links, joints, chain = [[name + "_" + x for x in s] for s in (links, joints, chain)]
    base = None if rng.random() < .5 else pick(rng, "world", "base_link", "my_base")
    tip = None if rng.random() < .5 else pick(rng, "tool0", "some_tip")
    custom = None
    if rng.random() < .1:
        custom = ({"inv_kin_plugins": {name: {"default": "MySolver", "plugins": {"MySolver": {"class": "MyFactory", "config": {"base_link": "a", "tip_link": "b"}}}}}}, ["custom_lib"])
    a = (t.obj, name, links, joints, chain, solver, custom, base, tip)
    form = rng.integers(0, 2)
    def f():
        if form == 0:
            return tt.kinematics_plugin_info_dict(*a)
        return yaml.safe_load(tt.kinematics_plugin_info_string(*a))
    def conv(d):
        k = d["kinematic_plugins"]
        fw, iv = k["fwd_kin_plugins"], k["inv_kin_plugins"]
        if list(fw) != [name] or list(iv) != [name]:
            raise Bad("not for the group of the robot")
        fw, iv = fw[name], iv[name]
        def par(c):
            p = c.get("params")
            if p is None:
                return {}
            return {x: (vec(y) if isinstance(y, list) else fx(y)) for x, y in p.items()}
        fp = fw["plugins"]
        if list(fp) != ["KDLFwdKinChain"]:
            raise Bad("other forward solvers")
        fp = fp["KDLFwdKinChain"]
        return {"fwd": {"default": fw["default"], "class": fp["class"], "base": fp["config"]["base_link"], "tip": fp["config"]["tip_link"]},
                "inv": {"default": iv["default"], "plugins": [{"n": n, "class": p["class"], "base": p["config"]["base_link"], "tip": p["config"]["tip_link"], "params": par(p["config"])} for n, p in iv["plugins"].items()]},
                "libs": list(k["search_libraries"])}
    P = {}
    if params is not None:
        P = {k: (vec(v) if isinstance(v, (list, np.ndarray)) else fx(v)) for k, v in params.items()}
    rec.ev({"op": "plugin", "name": name, "links": list(links), "chain": list(chain), "solver": solver or "-", "base": base or "-", "tip": tip or "-",
            "custom": "MySolver" if custom else "-", "params": P, "r": res(conv, f)})

def groups(k):
    return [{"n": str(n), "chain": [[str(a), str(b)] for a, b in k.chain_groups[n]]} for n in k.chain_groups]

def ev_kinfo(rec, rng, t, nm):
    """the kinematics information of one robot, and that of the environment of several"""
    _, links, joints, chain = tt.robot_to_scene_graph(t.obj, True)
    links, joints, chain = [[nm + "_" + x for x in s] for s in (links, joints, chain)]
    base = None if rng.random() < .5 else pick(rng, "world", "base_link", "my_base")
    tip = None if rng.random() < .5 else pick(rng, "tool0", "some_tip")
    solver = pick(rng, None, "KDLInvKinChainLMA", "KDLInvKinChainNR")
    a = (solver, None, base, tip) if rng.random() < .5 else ()
    kw = {} if a else dict(([("base_link", base)] if base else []) + ([("tip_link", tip)] if tip else []))
    rec.ev({"op": "kinfo", "want": [{"n": nm, "chain": [[base or links[0], tip or links[-1]]]}],
            "r": res(lambda k: groups(k), lambda: tt.tesseract_kinematics_information(t.obj, nm, links, joints, chain, *a, **kw))})
    t2 = some(rng)
    two = rng.random() < .5
    nm2 = nm + "2"
    def f():
        env = tt.robot_to_tesseract_env(t.obj, nm)
        if two:
            env.applyCommands(tt.robot_to_tesseract_env_commands(t2.obj, nm2, include_world=False))
        return env.getKinematicsInformation()
    tip2 = lambda o, n: n + "_" + tt.robot_to_scene_graph(o, True)[1][-1]
    rec.ev({"op": "kinfo", "want": [{"n": nm, "chain": [["world", tip2(t.obj, nm)]]}] + ([{"n": nm2, "chain": [["world", tip2(t2.obj, nm2)]]}] if two else []),
            "r": res(lambda k: groups(k), f)})

def opw_par(t):
    p = tt.robot_to_opw_inv_kin_parameters(t.obj)
    return {"a1": p.a1, "a2": p.a2, "b": p.b, "c1": p.c1, "c2": p.c2, "c3": p.c3, "c4": p.c4, "offsets": np.asarray(p.offsets), "sign_corrections": np.asarray(p.sign_corrections)}
def ur_par(t):
    p = tt.robot_to_ur_inv_kin_parameters(t.obj)
    return {k: getattr(p, k) for k in ("d1", "a2", "a3", "d4", "d5", "d6")}

def c22(rec, cases):
    rng = rec.rng
    for i in range(rec.n(500, 8000)):
        R, p = mount_R(rng), rand_p(rng, 2)
        if i % 9 == 4:
            R = R_of(np.eye(3)[rng.integers(0, 3)], PI / 2 * rng.integers(0, 4)).round() + 0.0
        if i % 6 == 4:
            p = rng.integers(-9, 10, 3).astype(float)
        u = len_unit(rng, .2)
        p0, p = p, p * u
        T = rox.Transform(lay(rng, R), pick(rng, lay(rng, p), lay(rng, p.reshape(3, 1)), p.tolist(), [int(x) if x == int(x) else x for x in p]), *pick(rng, (), ("a", "b")))
        def f():
            I = tt.transform_to_isometry3d(T)
            return I, tt.isometry3d_to_transform(I)
        rec.ev({"op": "iso", "T": {"R": mat(R), "p": vec(p0)}, "r": res(lambda v: {"iso": iso(v[0], u), "row": vec(v[0].matrix()[3, :]), "back": tf(v[1], u)}, f)})
    for i in range(rec.n(200, 3000)):
        h, p, R = rand_axis(rng), rand_p(rng, 1), gen_R(rng)
        ty = int(rng.integers(-1, 5))
        lim = [rng.uniform(-4, 0), rng.uniform(0, 4), rng.uniform(.1, 9), rng.uniform(.1, 9), rng.uniform(.1, 15)]
        ln, jn, pn = "link%d" % i, "joint%d" % i, "parent%d" % rng.integers(0, 5)
        if ty == -1:
            f = lambda: tt.get_fixed_link_and_joint(rox.Transform(R, p), ln, jn, pn)
        else:
            f = lambda: tt.get_link_and_joint(h, p, ty, lim[0], lim[1], lim[2], lim[3], lim[4], ln, jn, pn)
        def conv(v):
            j = joint(v[1])
            if ty != -1:
                j["lim"]["eff"] = fx(v[1].limits.effort)
            return {"link": v[0].getName(), "j": j}
        rec.ev({"op": "lj", "type": ty, "link": ln, "joint": jn, "pa": pn, "o": {"R": mat(R if ty == -1 else np.eye(3)), "p": vec(p)}, "axis": vec(h),
                "lim": dict(zip(("lo", "up", "vel", "acc", "eff"), map(fx, lim))), "r": res(conv, f)})
    for c in cases:
        if c["_m"] != "MC_Sg":
            continue
        e = case_env(rng, c)
        ev_env(rec, rng, e)
        ev_sg(rec, e[-1][1])
    for i in range(rec.n(250, 4000)):
        u = len_unit(rng, .2)
        t = some(rng, which=i % 8, u=u)
        ev_sg(rec, t)
        nm = pick(rng, *RN)
        robs = [(nm, t, rand_q(rng, t.rob, False))]
        if i % 3 == 0:
            for k in range(int(rng.integers(1, 3))):
                t2 = some(rng, u=u)
                robs.append(("other%d" % k, t2, rand_q(rng, t2.rob, False)))
        ev_env(rec, rng, robs)
        if i % 4 == 1:              # the description is rewritten afterwards
            t.become(rng, some(rng, n=len(t.rob.jt), which=int(rng.integers(0, 8)), u=u))
            ev_sg(rec, t)
            ev_env(rec, rng, [(nm, t, rand_q(rng, t.rob, False))])
            rec.count("descriptions rewritten between calls")
    for i in range(rec.n(60, 800)):
        ev_kinfo(rec, rng, some(rng), pick(rng, *RN))
    for i in range(rec.n(300, 3000)):
        k = i % 6
        nm = pick(rng, *RN)
        if k == 4:
            t = opw_member(rng)[0]; par = raw(opw_par, t)
            if par[0] == "ok":
                ev_plugin(rec, rng, t, nm, "OPWInvKin", par[1])
        elif k == 5:
            t = ur_member(rng)[0]; par = raw(ur_par, t)
            if par[0] == "ok":
                ev_plugin(rec, rng, t, nm, "URInvKin", par[1])
        else:
            ev_plugin(rec, rng, some(rng), nm, [None, "KDLInvKinChainLMA", "KDLInvKinChainNR", pick(rng, "KDL", "opw", "KDLInvKinChainLM")][k])

# ------------------------------------------------------------------ families
ex, ey, ez = np.eye(3)
UP = dict(up=(0, 0), bend2=(PI / 2, 0), bend3=(0, PI / 2))

def rehome(rob, th, sg):
    """the same mechanism from another zero position (Arms!ReHome)"""
    R = np.eye(3); H, P = [], []
    for i in range(len(rob.jt)):
        P.append(R @ rob.P[i])
        R = R @ R_of(rob.H[i], th[i])
        H.append(sg[i] * (R @ rob.H[i]))
    P.append(R @ rob.P[-1])
    clean = lambda v: np.where(np.abs(v) < 1e-14, 0.0, np.where(np.abs(np.abs(v) - 1) < 1e-14, np.sign(v), v))
    F = R if rob.flange is None else R @ rob.flange[0]
    return Rob([clean(h) for h in H], [clean(p) for p in P], rob.jt, rob.base, (clean(F), np.zeros(3)), rob.tool)

def wide_lim(rng):
    a = pick(rng, PI, 2 * PI - 1e-3, 6.9, 3.3)
    return -a * np.ones(6), a * np.ones(6)

def opw_whole(rng):
    """an arm of the family with whole-number offsets, the upper arm leaning freely"""
    out, k = rng.random() < .6, lambda a, b: float(rng.integers(a, b))
    u, z = (ex, ez) if out else (ez, ez)
    lean, fore, a2 = ex * k(-2, 3) + ez * k(1, 4), k(1, 4), k(-1, 2)
    sg = [int(rng.choice([-1, 1])) for _ in range(6)]
    # outstretched: the forearm points along x
    w = (ex * fore - ez * a2) if out else (ez * fore + ex * a2)
    P = [ez * k(0, 3), ex * k(-1, 2) + ey * k(-1, 2), lean, w, 0 * ez, u * k(0, 2), 0 * ez]
    H = [a * b for a, b in zip([ez, ey, ey, u, ey, u], sg)]
    F = (R_of(ey, PI / 2) if out else np.eye(3), np.zeros(3))
    r = Rob(H, P, [0] * 6, None, F, None)
    r.ints = True
    return TRob(rng, r, None, wide_lim(rng), False)

def opw_lens(rng):
    s = lambda: float(rng.choice([-1, 1]))
    z = lambda: 0.0 if rng.random() < .3 else (1.0 if rng.random() < .8 else .005)
    return dict(a1=s() * rng.uniform(0, .3) * z(), a2=s() * rng.uniform(0, .3) * z(), b=s() * rng.uniform(0, .2) * z(), c1=rng.uniform(0, .6),
                c2=rng.uniform(.25, .9), c3=rng.uniform(.25, .9), c4=rng.uniform(0, .3) * z())

def opw_member(rng, home=None, sg=None, tilt=None, u=1.0):
    o = opw_lens(rng)
    home = pick(rng, "up", "bend2", "bend3") if home is None else home
    sg = [int(rng.choice([-1, 1])) for _ in range(6)] if sg is None else sg
    tilt = rng.uniform(-1.4, 1.4) * float(rng.random() < .4) if tilt is None else tilt
    b1, b2 = rng.uniform(0, o["b"], 2) if o["b"] > 0 else rng.uniform(min(o["b"], -1e-12), 0, 2)
    if rng.random() < .5:
        b1 = b2 = 0
    z = rng.uniform(0, 1, 3) * (rng.random(3) < .5)
    # lengths spread over the offsets that they may be spread over
    P = [ez * o["c1"] * (1 - z[0]), ex * o["a1"] + ey * (o["b"] - b1 - b2) + ez * o["c1"] * z[0], ez * o["c2"] + ey * b1, ex * o["a2"] + ez * o["c3"] * (1 - z[1]) + ey * b2,
         ez * o["c3"] * z[1], ez * o["c4"] * z[2], ez * o["c4"] * (1 - z[2])]
    arm = Rob([ez, ey, ey, ez, ey, ez], P, [0] * 6)
    th = [0, UP[home][0] + tilt, UP[home][1] - tilt, 0, 0, 0]
    m = rehome(arm, th, sg)
    if rng.random() < .5:
        m.base = rand_T(rng)
    if rng.random() < .4:
        m.tool = rand_T(rng, .3)
    m.u = u
    return TRob(rng, m, jnames(rng, 6), wide_lim(rng), False), (o, home, sg, tilt)

def rz(t): return np.round(R_of(ez, t), 15)
def ur_member(rng, home=None, u=1.0):
    s = lambda: float(rng.choice([-1, 1]))
    home = pick(rng, "minus", "plus") if home is None else home
    d = dict(d1=rng.uniform(0, .3), a2=s() * rng.uniform(.2, .7), a3=s() * rng.uniform(.2, .6), d4=rng.uniform(.05, .25), d5=rng.uniform(.05, .15), d6=rng.uniform(.05, .15))
    k = rng.dirichlet(np.ones(4)) if rng.random() < .5 else np.array([0, 0, 1.0, 0])
    w = rng.random() if rng.random() < .5 else 1.0
    P = [ez * d["d1"], -ey * d["d4"] * k[0], ex * d["a2"] - ey * d["d4"] * k[1], ex * d["a3"] - ey * d["d4"] * k[2], -ez * d["d5"] - ey * d["d4"] * k[3],
         -ey * d["d6"] * w, -ey * d["d6"] * (1 - w)]
    H = [ez, -ey, -ey, -ey, -ez, -ey]
    F = np.array([ex, ez, -ey]).T
    Z = np.diag([-1.0, -1.0, 1.0])
    base = (Z, np.zeros(3))
    if home == "plus":
        H, P, F = [Z @ h for h in H], [Z @ p for p in P], Z @ F
        base = None if rng.random() < .5 else (np.eye(3), np.zeros(3))
    tool = rand_T(rng, .3) if rng.random() < .4 else None
    m = Rob(H, P, [0] * 6, base, (F, np.zeros(3)), tool)
    m.u = u
    return TRob(rng, m, jnames(rng, 6), wide_lim(rng), False), (d, home)

def yaml_robot(rng, f):
    r = rr.load_robot_info_yaml_to_robot(open("/repo/test/%s_robot_default_config.yml" % f))
    o = lambda T: None if T is None else (np.asarray(T.R, float), np.asarray(T.p, float).reshape(3))
    P = np.asarray(r.P) * (1e-3 if np.abs(r.P).max() > 15 else 1)      # one file is in millimetres
    rob = Rob(list(np.asarray(r.H).T), list(P.T), [int(x) for x in r.joint_type], o(r.T_base), o(r.T_flange), None if r.R_tool is None else (r.R_tool, r.p_tool))
    return TRob(rng, rob, None, (np.asarray(r.joint_lower_limit, float), np.asarray(r.joint_upper_limit, float)), False)

# ------------------------------------------------------------------ C23
def par_conv(fam, t, before):
    def c(p):
        if fam == "opw":
            d = {k: fx(getattr(p, k) / t.rob.u) for k in ("a1", "a2", "b", "c1", "c2", "c3", "c4")}
            d["off"] = vec(p.offsets, 6); d["sg"] = [int(x) for x in np.asarray(p.sign_corrections).reshape(6)]
        else:
            d = {k: fx(getattr(p, k) / t.rob.u) for k in ("d1", "a2", "a3", "d4", "d5", "d6")}
        d["same"] = t.state() == before
        return d
    return c

def ev_par(rec, rng, fam, t, fits, nq=3):
    before = t.state()
    f = tt.robot_to_opw_inv_kin_parameters if fam == "opw" else tt.robot_to_ur_inv_kin_parameters
    n = len(t.rob.jt)
    qs = [vec(rng.uniform(-3, 3, n)) for _ in range(nq)]
    if rng.random() < .5:
        qs.append(vec(np.zeros(n)))
    rec.ev({"op": "par", "fam": fam, "rob": t.spec(), "fits": fits, "qs": qs, "r": res(par_conv(fam, t, before), f, t.obj)})

def spoil(rng, fam, t):
    """a robot outside the family, differing in one place; -> TRob"""
    r = t.rob
    H, P, jt = [h.copy() for h in r.H], [p.copy() for p in r.P], list(r.jt)
    base, flange, tool = r.base, r.flange, r.tool
    d = float(rng.choice([-1, 1])) * (rng.uniform(.02, .2) if rng.random() < .5 else 10 ** rng.uniform(-3, -1))
    if fam == "opw":
        k = int(rng.integers(0, 9))
        out = abs(H[5][0]) > .5           # outstretched
        along, across = (ex, ez) if out else (ez, ex)
        if k == 0: jt[int(rng.integers(0, 6))] = 1
        elif k == 1: flange = None
        elif k == 2: flange = (flange[0], d * np.eye(3)[rng.integers(0, 3)])
        elif k == 3: flange = (flange[0] @ R_of(np.eye(3)[rng.integers(0, 3)], pick(rng, PI / 2, -PI / 2, PI, d)), flange[1])
        elif k == 4: H[int(rng.integers(0, 6))] = unit(rng.normal(size=3))
        elif k == 5: P[0] = P[0] + d * pick(rng, ex, ey)
        elif k == 6: P[4] = P[4] + d * pick(rng, across, ey)
        elif k == 7: P[5] = P[5] + d * pick(rng, across, ey)
        else: P[6] = P[6] + d * pick(rng, across, ey)
    else:
        k = int(rng.integers(0, 11))
        if k == 0: jt[int(rng.integers(0, 6))] = 1
        elif k == 1: flange = None
        elif k == 2: flange = (flange[0], d * np.eye(3)[rng.integers(0, 3)])
        elif k == 3: flange = (flange[0] @ R_of(np.eye(3)[rng.integers(0, 3)], pick(rng, PI / 2, -PI / 2, PI, d)), flange[1])
        elif k == 4: j = int(rng.integers(0, 6)); H[j] = -H[j]
        elif k == 5: P[0] = P[0] + d * pick(rng, ex, ey)
        elif k == 6: P[4] = P[4] + d * ex
        elif k == 7: j = int(rng.integers(5, 7)); P[j] = P[j] + d * pick(rng, ex, ez)
        elif k == 8: base = (np.eye(3) if base is None else base[0], d * np.eye(3)[rng.integers(0, 3)])
        elif k == 9: base = ((np.eye(3) if base is None else base[0]) @ R_of(np.eye(3)[rng.integers(0, 3)], pick(rng, PI / 2, d)), np.zeros(3))
        else: H[int(rng.integers(0, 6))] = unit(rng.normal(size=3))
    m = Rob(H, P, jt, base, flange, tool)
    m.u = r.u
    return TRob(rng, m, None, wide_lim(rng), False)

def big(rng):
    """a unit of length: metres, or smaller ones (parameters are rounded to six digits)"""
    return float(rng.choice([4, 64, 1024])) if rng.random() < .25 else 1.0

def c23(rec, cases):
    rng = rec.rng
    for c in cases:
        if c["_m"] != "MC_Fam":
            continue
        if c["fam"] == "opw":
            ev_par(rec, rng, "opw", opw_member(rng, c["home"], c["sg"])[0], True, 2)
        else:
            for _ in range(15):
                ev_par(rec, rng, "ur", ur_member(rng, c["home"])[0], True, 2)
    for i in range(rec.n(250, 5000)):
        ev_par(rec, rng, "opw", opw_member(rng, tilt=rng.uniform(-1.5, 1.5), u=big(rng))[0], True, 2)
    for i in range(rec.n(60, 2000)):
        ev_par(rec, rng, "ur", ur_member(rng, u=big(rng))[0], True, 2)
    for i in range(rec.n(60, 1000)):
        ev_par(rec, rng, "opw", opw_whole(rng), True, 2)
    for i in range(rec.n(200, 3000)):
        fam = "opw" if i % 2 else "ur"
        t = (opw_member if i % 2 else ur_member)(rng, u=big(rng))[0]
        ev_par(rec, rng, fam, spoil(rng, fam, t), False, 1)
        if i % 4 > 1:       # one robot object, rewritten between the extractions
            ev_par(rec, rng, fam, t, True, 1)
            for _ in range(2):
                if rng.random() < .5:
                    t.become(rng, spoil(rng, fam, t)); ev_par(rec, rng, fam, t, False, 1)
                t.become(rng, (opw_member if i % 2 else ur_member)(rng, u=big(rng))[0]); ev_par(rec, rng, fam, t, True, 2)
    for i in range(rec.n(10, 60)):           # other arms altogether
        ev_par(rec, rng, pick(rng, "opw", "ur"), some(rng, which=i % 8), False, 1)
        ev_par(rec, rng, "ur", opw_member(rng)[0], False, 1)
        ev_par(rec, rng, "opw", ur_member(rng)[0], False, 1)
    for f in ("abb_1200_5_90", "rp260", "FANUC_m10ia"):
        ev_par(rec, rng, "opw", yaml_robot(rng, f), True, 6)
    ev_par(rec, rng, "ur", yaml_robot(rng, "ur5e"), True, 6)

# ------------------------------------------------------------------ C21
def links_of(t):
    r = t.rob
    return ["base_link"] + ["link_%d" % (i + 1) for i in range(len(r.jt))] + ["chain_tip"] + (["flange"] if r.flange else []) + (["tool_tcp"] if r.tool else [])

def ev_fk(rec, rng, tr, nm, t, q):
    L = [nm + "_" + x for x in links_of(t)] + ["world"]
    a = None if rng.random() < .4 else pick(rng, *L)
    b = None if rng.random() < .4 else pick(rng, *L)
    how = rng.integers(0, 2)
    x = t.rob.per(q)
    f = lambda: tr.fwdkin(x, a, b) if how else tr.fwdkin(x, base_link_name=a, tip_link_name=b)
    rec.ev({"op": "tfwd", "name": nm, "rob": t.spec(), "q": vec(q), "a": a or "-", "b": b or "-", "r": res(t.rob.tf, f)})

def ev_tjac(rec, rng, tr, nm, t, q):
    L = links_of(t)
    k = len(L) if rng.random() < .5 else int(rng.integers(1, len(L) + 1))
    b = int(rng.random() < .3)
    base = (nm + "_base_link") if b else pick(rng, None, "world")
    link = None if (k == len(L) and rng.random() < .7) else nm + "_" + L[k - 1]
    rec.ev({"op": "tjac", "name": nm, "rob": t.spec(), "q": vec(q), "k": k, "base": b, "r": res(lambda v: jac(v, t.rob), lambda: tr.jacobian(t.rob.per(q), base, link))})

def rel(t, nm, a, b, q):
    """float pose of link b in link a for building requests"""
    r = t.rob
    def upto(name):
        if name == "world":
            return np.eye(3), np.zeros(3)
        L = links_of(t); k = L.index(name[len(nm) + 1:]); n = len(r.jt)
        m = min(k, n)
        s = Rob(r.H[:m], list(r.P[:m]) + [np.zeros(3) if k <= n else r.P[n]], r.jt[:m], r.base, r.flange if k > n + 1 and L[k] in ("flange", "tool_tcp") else None, r.tool if L[k] == "tool_tcp" else None)
        return fk(s, q[:m])
    Ra, pa = upto(a); Rb, pb = upto(b)
    return Ra.T @ Rb, Ra.T @ (pb - pa)

def ev_ik(rec, rng, tr, nm, t, q, solver, seed=None, find=True, T=None):
    L = links_of(t)
    a = pick(rng, None, None, "world", nm + "_base_link")
    b = pick(rng, None, nm + "_" + L[-1])
    aa, bb = a or "world", b or nm + "_" + L[-1]
    if T is None:
        T = rel(t, nm, aa, bb, q)
    tol = 500000 if solver.startswith("KDL") else 10000
    X = rox.Transform(T[0], T[1])
    rec.ev({"op": "tik", "name": nm, "rob": t.spec(), "T": {"R": mat(T[0]), "p": vec(T[1])}, "a": a or "-", "b": b or "-", "tol": tol, "find": bool(find),
            "r": res(qlist, lambda: tr.invkin(X, q if seed is None else seed, a, b))})

def ev_red(rec, rng, tr, t, q):
    lo, up = t.lim[:2]
    rec.ev({"op": "tred", "rob": t.spec(), "q": vec(q), "lo": vec(lo), "up": vec(up), "r": res(qlist, lambda: tr.redundant_solutions(q))})

def c21(rec, cases):
    rng = rec.rng
    for c in cases:
        robs = case_env(rng, c)
        def build():
            env = tt.robot_to_tesseract_env(robs[0][1].obj, robs[0][0])
            for nm, t, _ in robs[1:]:
                if not env.applyCommands(tt.robot_to_tesseract_env_commands(t.obj, nm, False)):
                    raise RuntimeError("robot cannot be added")
            return env
        env = build()
        for nm, t, q in robs:
            tr = tt.TesseractRobot(None, nm, tesseract_env=env) if len(robs) > 1 or rng.random() < .5 else tt.TesseractRobot(t.obj, nm)
            ev_fk(rec, rng, tr, nm, t, q)
            ev_tjac(rec, rng, tr, nm, t, q)
    for i in range(rec.n(40, 600)):         # measured in other units of length
        t = some(rng, which=i % 8, u=float(rng.choice(UNITS)))
        nm = pick(rng, *RN)
        tr = tt.TesseractRobot(t.obj, nm)
        q = rand_q(rng, t.rob, False)
        ev_fk(rec, rng, tr, nm, t, q)
        ev_tjac(rec, rng, tr, nm, t, q)
    for i in range(rec.n(200, 4000)):
        t = some(rng, which=i % 8)
        nm = pick(rng, *RN)
        sv = pick(rng, "KDLInvKinChainLMA", "KDLInvKinChainNR")
        tr = tt.TesseractRobot(t.obj, invkin_solver=sv) if i % 2 and nm == "robot" else tt.TesseractRobot(t.obj, nm, sv) if i % 2 else tt.TesseractRobot(None, nm, tesseract_env=tt.robot_to_tesseract_env(t.obj, nm, invkin_solver=sv))
        for _ in range(3):
            q = rand_q(rng, t.rob, False)
            ev_fk(rec, rng, tr, nm, t, q)
        ev_tjac(rec, rng, tr, nm, t, q)
        ev_tjac(rec, rng, tr, nm, t, rand_q(rng, t.rob, False))
        qi = t.lim[0] + .05 + rng.random(len(t.rob.jt)) * (t.lim[1] - t.lim[0] - .1)
        ev_ik(rec, rng, tr, nm, t, qi, sv, None, True)
        ev_ik(rec, rng, tr, nm, t, qi, sv, np.clip(qi + rng.uniform(-.3, .3, len(qi)), *t.lim[:2]), False)
        ev_red(rec, rng, tr, t, qi)
    # the same robots asked again and again: one array written anew between calls, neighbouring vectors, frames replaced, two robots taking turns
    for i in range(rec.n(30, 500)):
        nm = pick(rng, *RN)
        t, t2 = some(rng, which=i % 8), some(rng)
        if i % 3 == 0:
            t2 = some(rng, n=len(t.rob.jt))
        tr = tt.TesseractRobot(t.obj, nm)
        tr2 = tt.TesseractRobot(t2.obj, nm if i % 2 else "second")
        q = rand_q(rng, t.rob, False)
        for k in range(5):
            if k:
                if k % 2: q[:] = rand_q(rng, t.rob, False)
                else: q += 10.0 ** rng.uniform(-4.3, -3) * rng.choice([-1, 0, 1], len(q))
            u = rng.random()
            if u < .8: ev_fk(rec, rng, tr, nm, t, q)
            if u > .4: ev_tjac(rec, rng, tr, nm, t, q)
            if k == 2:
                ev_fk(rec, rng, tr2, nm if i % 2 else "second", t2, q if len(t2.rob.jt) == len(q) else rand_q(rng, t2.rob, False))
        # the description changes; a robot made from it afterwards is the new one
        T = rand_T(rng)
        which = pick(rng, "tool", "base", "flange", "P")
        if which == "P":
            P = np.array(t.obj.P, float); j = int(rng.integers(0, P.shape[1])); d = rand_p(rng, .3)
            P[:, j] += d; t.rob.P[j] = t.rob.P[j] + d; t.obj.P = P
        elif which == "tool":
            t.rob.tool = T; t.obj.R_tool, t.obj.p_tool = T[0].copy(), T[1].copy()
        elif which == "base":
            t.rob.base = T; t.obj.T_base = rox.Transform(*T)
        else:
            t.rob.flange = T; t.obj.T_flange = rox.Transform(*T)
        tr = tt.TesseractRobot(t.obj, nm)
        ev_fk(rec, rng, tr, nm, t, q); ev_tjac(rec, rng, tr, nm, t, q)
    for i in range(rec.n(80, 2000)):
        fam = "OPWInvKin" if i % 2 else "URInvKin"
        t = (opw_member if i % 2 else ur_member)(rng)[0]
        if i < 12:
            t = yaml_robot(rng, pick(rng, "abb_1200_5_90", "rp260", "FANUC_m10ia") if i % 2 else "ur5e")
        nm = pick(rng, *RN)
        r = raw(tt.TesseractRobot, t.obj, nm, fam)
        if r[0] != "ok":
            rec.ev({"op": "tik", "name": nm, "rob": t.spec(), "T": {"R": mat(np.eye(3)), "p": [0, 0, 0]}, "a": "-", "b": "-", "tol": 0, "find": False, "r": {"k": "exc", "t": r[1], "m": r[2]}})
            continue
        tr = r[1]
        lo, up = t.lim[:2]
        for _ in range(3):
            while True:
                q = lo + .01 + rng.random(6) * (up - lo - .02)
                if regular(t, fam, q):
                    break
            ev_ik(rec, rng, tr, nm, t, q, fam, rng.uniform(lo, up), True)
        ev_fk(rec, rng, tr, nm, t, q)
        ev_tjac(rec, rng, tr, nm, t, q)
        if np.all(up - lo < 11):
            ev_red(rec, rng, tr, t, q)

def regular(t, fam, q):
    """away from the singularities of the arm, by the smallest singular value of a numerical Jacobian"""
    r = t.rob
    s = Rob(r.H, r.P, r.jt)
    R0, p0 = fk(s, q)
    J = []
    for k in range(6):
        d = np.zeros(6); d[k] = 1e-6
        R, p = fk(s, q + d)
        W = (R @ R0.T - np.eye(3)) / 1e-6
        J.append([W[2, 1], W[0, 2], W[1, 0], *((p - p0) / 1e-6)])
    return np.linalg.svd(np.array(J))[1][-1] > .03
