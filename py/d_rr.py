"""Driver for C20: robots loaded from Robot Raconteur robot information."""
import tempfile, copy, io, json, math
import numpy as np
import yaml
from vlib import *
import general_robotics_toolbox as rox
from general_robotics_toolbox import robotraconteur as rr

def plain(x):
    """as a YAML reader gives it: whole numbers may come as integers"""
    x = float(x)
    return int(x) if x == int(x) and int(x * 7) % 2 == 0 else x
def v3(v): return dict(zip("xyz", map(plain, v)))
def quat(rng):
    if rng.random() < .15:      # exact components
        q = np.array([[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1], [0, .6, .8, 0], [.6, 0, 0, .8], [.5, .5, -.5, .5]][int(rng.integers(0, 7))], float)
        return q * float(rng.choice([-1, 1])) + 0.0
    q = unit(rng.normal(size=4)) if rng.random() < .7 else q_of(rand_axis(rng), float(rng.choice([0, math.pi / 2, math.pi, -math.pi / 2])))
    return q * float(rng.choice([-1, 1]))
def pose(rng, q, p):
    Q = dict(zip("wxyz", map(plain, q)))
    return {"orientation": Q, "position": v3(p)} if rng.random() < .5 else {"rotation": Q, "translation": v3(p)}
def ident_of(rng, n):
    return n if rng.random() < .5 else {"name": n, "uuid": "e14a3241-159d-4c25-81fb-19eff378d5b3"}
LEN = [1.0]         # the unit of length the description is written in
def rpose(rng):
    q, p = quat(rng), rand_p(rng, 1) + 0.0
    return pose(rng, q, p * LEN[0]), {"q": vec(q), "p": vec(p)}

def info(rng, joints, chains):
    """-> (description as a plain dictionary, the same for the judge)"""
    d, s = {"robot_type": "serial"}, {"joints": [], "chains": [], "origin": []}
    d["joint_info"] = []
    for i, j in enumerate(joints):
        lim = {k: plain(rng.uniform(a, b)) for k, a, b in (("lower", -6, 0), ("upper", 0, 6), ("velocity", .1, 9), ("acceleration", .1, 15))}
        if rng.random() < .15:
            lim["lower" if rng.random() < .5 else "upper"] = 0
        if rng.random() < .05:
            lim["velocity" if rng.random() < .5 else "acceleration"] = 0
        u = rng.random()
        nm = "joint_%d_%d" % (i, rng.integers(0, 100))
        d["joint_info"].append({"joint_identifier": None if u < .12 else ident_of(rng, nm), "joint_type": j["type"],
                                "joint_limits": dict(lim, effort=1.0) if j["lim"] else None})
        if not j["lim"] and rng.random() < .5:      # limits with one of their values missing
            part = dict(lim, effort=1.0)
            k = ["lower", "upper", "velocity", "acceleration"][int(rng.integers(0, 4))]
            if rng.random() < .5: part[k] = None
            else: del part[k]
            d["joint_info"][-1]["joint_limits"] = part
        s["joints"].append({"type": j["type"], "lim": [{k: fx(x) for k, x in lim.items()}] if j["lim"] else [], "name": "" if u < .12 else nm})
    d["chains"] = []
    for c, ch in enumerate(chains):
        n = len(ch["jn"])
        H = [rand_axis(rng) for _ in range(ch["h"])]
        P = [rand_p(rng, 1) for _ in range(ch["p"])]
        fp, fs = rpose(rng)
        x = {"kin_chain_identifier": "arm%d" % c, "H": [v3(h) for h in H], "P": [v3(p * LEN[0]) for p in P], "joint_numbers": [int(k) for k in ch["jn"]], "flange_pose": fp}
        y = {"jn": x["joint_numbers"], "H": [vec(h) for h in H], "P": [vec(p) for p in P], "pose": fs, "root": "-", "flange": "-", "tool": []}
        u = rng.random()
        if u < .4:
            y["root"] = "base_%d" % c
            x["link_identifiers"] = [ident_of(rng, y["root"])] + [ident_of(rng, "l%d" % k) for k in range(n)]
        elif u < .6:
            x["link_identifiers"] = [] if rng.random() < .5 else [None, "l1"]
        if rng.random() < .75:
            y["flange"] = "tool0_%d" % c
            x["flange_identifier"] = ident_of(rng, y["flange"])
        else:
            x["flange_identifier"] = None
        u = rng.random()
        if u < .45:
            t, ts = rpose(rng)
            dev = "gripper_%d" % c if rng.random() < .6 else "-"
            tool = {"tcp": t}
            if dev != "-":
                tool["device_info"] = {"device": ident_of(rng, dev)}
            x["current_tool"] = tool
            y["tool"] = [{"tcp": [ts], "dev": dev}]
        elif u < .6:
            x["current_tool"] = {"tcp": None, "device_info": {"device": ident_of(rng, "nothing")}} if rng.random() < .5 else None
        d["chains"].append(x); s["chains"].append(y)
    if rng.random() < .7:
        d["device_info"] = {"device": {"name": "robot"}, "manufacturer": {"name": "maker"}, "serial_number": "17", "user_description": "an arm"}
        for x in list(d["device_info"]):            # none of these has a say in the kinematics
            if rng.random() < .25: del d["device_info"][x]
            elif rng.random() < .1: d["device_info"][x] = None
        if rng.random() < .7:
            p, ps = rpose(rng)
            d["device_info"]["device_origin_pose"] = {"pose": p, "parent_frame": "world"}
            s["origin"] = [ps]
    return d, s

def report(v):
    r, same = v
    T = lambda t: [] if t is None else [tf(t, LEN[0])]
    return {"H": [vec(h, 3) for h in np.asarray(r.H).T], "P": [vec(p / LEN[0], 3) for p in np.asarray(r.P).T], "jt": [int(t) for t in r.joint_type], "names": [str(n) for n in r.joint_names],
            "lo": vec(r.joint_lower_limit), "up": vec(r.joint_upper_limit), "vel": vec(r.joint_vel_limit), "acc": vec(r.joint_acc_limit), "root": name(r.root_link_name), "tip": name(r.tip_link_name),
            "flange": T(r.T_flange), "base": T(r.T_base), "tool": [] if r.R_tool is None else [{"R": mat(r.R_tool), "p": vec(np.asarray(r.p_tool) / LEN[0], 3)}], "same": bool(same)}

DIR = tempfile.TemporaryDirectory()
SAME = {"robot": {}, "tool": {}}

def c20(rec, cases):
    rng = rec.rng
    def one(joints, chains, k):
        LEN[0] = len_unit(rng, .2)
        d, s = info(rng, joints, chains)
        tool, ts = None, []
        if rng.random() < .35:
            t, tq = rpose(rng)
            tool = {"tcp": t, "device_info": {"device": ident_of(rng, "extra")}}
            ts = [{"tcp": tq, "dev": "extra"}]
        style = [{}, {"default_flow_style": True}, {"default_flow_style": False, "sort_keys": False}, {"indent": 4, "explicit_start": True}, None][int(rng.integers(0, 5))]
        text = lambda x: json.dumps(x) if style is None else yaml.safe_dump(x, **style)
        txt = text(d); ttxt = None if tool is None else text(tool)
        # files under one name, edited between the loads; one dictionary filled anew for every load
        disk = rng.random() < .5
        opened = []
        def given(x, text, n):
            if x is None: return None
            if text is None:
                if not disk: return copy.deepcopy(x)
                SAME[n].clear(); SAME[n].update(copy.deepcopy(x))
                return SAME[n]
            if not disk: return io.StringIO(text)
            with open("%s/%s.yml" % (DIR.name, n), "w") as h: h.write(text)
            opened.append(open("%s/%s.yml" % (DIR.name, n)))
            return opened[-1]
        for form in ("dict", "file"):
            kw0 = () if k == 0 and rng.random() < .5 else (k,)
            def f():
                if rng.random() < .2 and tool is None:      # loaded before, and the first robot written to
                    scribble(rr.load_robot_info_yaml_to_robot(given(d, None if form == "dict" else txt, "robot"), *kw0))
                    rec.count("loaded twice, the first robot written to")
                a = given(d, None if form == "dict" else txt, "robot")
                b = given(tool, None if (form == "dict") == (rng.random() < .8) else ttxt, "tool")
                kw = () if k == 0 and rng.random() < .5 else (k,)
                if tool is None:
                    r = rr.load_robot_info_yaml_to_robot(a, *kw)
                else:
                    r = rr.load_robot_and_tool_info_yaml_to_robot(a, b, *kw)
                return r, (form == "file" or a == d) and (not isinstance(b, dict) or b == tool)
            rec.count("loads from one path or dictionary", int(disk))
            rec.ev({"op": "rr", "d": s, "chain": int(k), "tool2": ts, "r": res(report, f)})
        for h in opened: h.close()
    for c in cases:
        one(c["joints"], c["chains"], c["k"])
    for i in range(rec.n(250, 4000)):
        n = int(rng.integers(1, 9))
        joints = [dict(type=str(rng.choice(["revolute", "prismatic"])), lim=[0]) for _ in range(n)]
        chains = []
        for _ in range(int(rng.integers(1, 4))):
            m = int(rng.integers(1, n + 1))
            jn = sorted(rng.choice(n, m, replace=False).tolist())
            chains.append({"jn": jn, "h": m, "p": m + 1})
        k = int(rng.integers(0, len(chains)))
        u = rng.integers(0, 12)
        if u == 0: k = int(rng.choice([-1, -2, len(chains), len(chains) + 3]))
        if u == 1: joints[int(rng.integers(0, n))]["type"] = str(rng.choice(["continuous", "floating", "fixed"]))
        if u == 2: joints[int(rng.integers(0, n))]["lim"] = []
        if u == 3: chains[k]["jn"][int(rng.integers(0, len(chains[k]["jn"])))] = int(rng.choice([n, n + 2, -1]))
        if u == 4: chains[k]["jn"] = chains[k]["jn"][::-1]
        if u == 5: chains[k].update(h=max(0, len(chains[k]["jn"]) + int(rng.choice([-1, 1, 2]))))
        if u == 6: chains[k].update(p=len(chains[k]["jn"]) + int(rng.choice([-1, 0, 2, 3])))
        if u == 7:          # a chain without joints
            chains[k] = {"jn": [], "h": int(rng.choice([0, 0, 1, 2])), "p": int(rng.choice([1, 1, 0, 2]))}
        one(joints, chains, k)
