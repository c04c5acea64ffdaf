"""Drivers for C18 and C19: robots loaded from URDF trees."""
import contextlib, math, os, sys, tempfile, types, xml.dom.minidom
import numpy as np
from vlib import *
import general_robotics_toolbox as rox

# ROS is not installed: stand-ins for packages, xacro and the parameter server, with the documented interface
PACKAGES, PARAMS = {}, {}
class RosPack(object):
    def get_path(self, name):
        return PACKAGES[name]
def process_file(path, **kw):
    """xacro: properties are substituted, the document is returned"""
    d = xml.dom.minidom.parse(path)
    props = {}
    for e in list(d.getElementsByTagName("xacro:property")):
        props["${%s}" % e.getAttribute("name")] = e.getAttribute("value")
        e.parentNode.removeChild(e)
    for e in d.getElementsByTagName("*"):
        for k in list(e.attributes.keys()):
            for a, b in props.items():
                e.setAttribute(k, e.getAttribute(k).replace(a, b))
    return d
for nm, kw in (("rospkg", {"RosPack": RosPack}), ("xacro", {"process_file": process_file}), ("rospy", {"get_param": lambda k: PARAMS[k]})):
    sys.modules[nm] = types.ModuleType(nm)
    sys.modules[nm].__dict__.update(kw)
import general_robotics_toolbox.urdf as U

_form = 0
def num(x):
    """the same number in one of the ways it may be written"""
    global _form
    x = float(x) + 0.0
    _form += 1
    if x == int(x) and _form % 2:
        return str(int(x))
    return [repr(x), "%.17e" % x, "%.18f" % x, ("+" if x >= 0 else "") + repr(x)][_form % 7 % 4] if _form % 3 == 0 else repr(x)

EXTRA_LINK = ['<visual><origin xyz="1 2 3" rpy="1 0 0"/><geometry><box size="1 1 1"/></geometry></visual>',
              '<collision><origin xyz="0 0 4"/><geometry><cylinder radius="1" length="2"/></geometry></collision>']
EXTRA_JOINT = ['<dynamics damping="0.5" friction="2"/>', '<safety_controller k_velocity="3" k_position="4" soft_lower_limit="-.2" soft_upper_limit=".3"/>',
               '<calibration rising="0.7"/>']

def build(rng, links, joints, allmove=False, scale=1.0):
    """attach geometry, lengths in the document in units of 1/scale; -> (xml, tree for the judge)"""
    js = []
    gap = lambda: " " if rng.random() < .8 else "  "
    for j in joints:
        d = dict(n=j["n"], type=j["type"], pa=j["pa"], ch=j["ch"], xyz=[], rpy=[], axis=[], lim=[])
        if rng.random() < .85:
            if rng.random() < .9: d["xyz"] = [rand_p(rng)]
            if rng.random() < .8:
                k = rng.random()
                d["rpy"] = [rng.uniform(-3, 3, 3) if k < .4 else rng.choice([0, math.pi / 2, -math.pi / 2, math.pi], 3) if k < .7 else
                            rng.uniform(-1, 1, 3) * 10.0 ** rng.uniform(-4, 0, 3) if k < .85 else rng.uniform(-3, 3, 3) * rng.integers(0, 2, 3)]
        if rng.random() < .8:
            d["axis"] = [rand_axis(rng)]
        if rng.random() < .93:
            l, u = (rng.uniform(-6, 0), rng.uniform(0, 6)) if rng.random() < .8 else (rng.integers(-5, 1), rng.integers(0, 5))
            d["lim"] = [dict(lower=[l] if rng.random() < .9 else [], upper=[u] if rng.random() < .9 else [], velocity=rng.uniform(.1, 9), effort=rng.uniform(1, 19))]
        js.append(d)
    x = ['<?xml version="1.0"?><robot name="r">']
    lk = list(links); rng.shuffle(lk)
    order = list(rng.permutation(len(js)))
    body = []
    for l in lk:
        if rng.random() < .4:
            body.append('<link name="%s"><inertial><origin xyz="0.1 0 0.2" rpy="0 0.3 0"/><mass value="2"/><inertia ixx="1" ixy="0.1" ixz="0" iyy="1" iyz="0" izz="1"/></inertial></link>' % l)
        elif rng.random() < .3:
            body.append('<link name="%s">%s</link>' % (l, rng.choice(EXTRA_LINK)))
        else:
            body.append('<link name="%s"/>' % l)
    for k in order:
        d = js[k]
        s = '<joint name="%s" type="%s">' % (d["n"], d["type"])
        parts = ['<parent link="%s"/>' % d["pa"], '<child link="%s"/>' % d["ch"]]
        if d["xyz"] or d["rpy"]:
            parts.append("<origin%s%s/>" % (' xyz="%s"' % gap().join(map(num, d["xyz"][0] * scale)) if d["xyz"] else "", ' rpy="%s"' % gap().join(map(num, d["rpy"][0])) if d["rpy"] else ""))
        if d["axis"]:
            parts.append('<axis xyz="%s"/>' % gap().join(map(num, d["axis"][0])))
        if d["lim"]:
            m = d["lim"][0]
            parts.append('<limit%s%s velocity="%s" effort="%s"/>' % (' lower="%s"' % num(m["lower"][0]) if m["lower"] else "", ' upper="%s"' % num(m["upper"][0]) if m["upper"] else "",
                                                                    num(m["velocity"]), num(m["effort"])))
        if rng.random() < .2:
            parts.append(str(rng.choice(EXTRA_JOINT)))
        rng.shuffle(parts)
        body.append(s + "".join(parts) + "</joint>")
    rng.shuffle(body)
    if rng.random() < .2:
        body.append('<material name="grey"><color rgba="1 1 1 1"/></material><!-- the end -->')
    x += body + ["</robot>"]
    sep = "" if rng.random() < .5 else "\n\t "
    o = lambda v: [vec(v[0])] if v else []
    tree = {"links": lk, "joints": [dict(n=d["n"], type=d["type"], pa=d["pa"], ch=d["ch"], xyz=o(d["xyz"]), rpy=o(d["rpy"]), axis=o(d["axis"]),
            lim=[dict(lower=vec(d["lim"][0]["lower"]), upper=vec(d["lim"][0]["upper"]), velocity=fx(d["lim"][0]["velocity"]), effort=fx(d["lim"][0]["effort"]))] if d["lim"] else []) for d in js]}
    return sep.join(x), tree

DIR = tempfile.TemporaryDirectory()

def load(rng, xml, root, tip):
    f = load_(rng, xml, root, tip)
    if rng.random() < .8:
        return f
    def g():            # loaded before, and the first robot written to
        scribble(f())
        return f()
    return g

def load_(rng, xml, root, tip):
    kw = {}
    if root != "-": kw["root_link"] = root
    if tip != "-": kw["tip_link"] = tip
    u = rng.random()
    if u < .25:
        # a file, by its name or relative to a package; plain or xacro
        pkg, xac = rng.random() < .4, rng.random() < .4
        x, same = xml, rng.random() < .5        # one file, edited between the loads, or a file of its own
        if xac:
            x = x.replace("<robot ", '<robot xmlns:xacro="http://www.ros.org/wiki/xacro" ', 1)
            x = x.replace("</robot>", '<xacro:property name="kind" value="revolute"/></robot>').replace('type="revolute"', 'type="${kind}"')
        def f():
            with contextlib.nullcontext(DIR.name) if same else tempfile.TemporaryDirectory() as d:
                os.makedirs(d + "/urdf", exist_ok=True)
                with open(d + "/urdf/r.urdf", "w") as h:
                    h.write(x)
                PACKAGES["my_robot"] = d
                g = U.robot_from_xacro_file if xac else U.robot_from_xml_file
                if pkg:
                    return g("urdf/r.urdf", "my_robot", **kw) if len(kw) else g("urdf/r.urdf", package="my_robot")
                return g(d + "/urdf/r.urdf", **kw)
        return f
    if u < .33:
        key = "robot_description" if u < .29 else "other"
        def f():
            PARAMS.clear()
            PARAMS[key] = xml
            return U.robot_from_parameter_server(**dict(kw, **({} if key == "robot_description" else {"key": key})))
        return f
    if "root_link" in kw and "tip_link" in kw and rng.random() < .3:
        return lambda: U.robot_from_xml_string(xml, root, tip)
    return lambda: U.robot_from_xml_string(xml, **kw)

def data(r):
    o = lambda v: [] if v is None else [vec(v)]
    return {"names": [str(n) for n in r.joint_names], "types": [int(t) for t in r.joint_type], "root": name(r.root_link_name), "tip": name(r.tip_link_name),
            "lo": o(r.joint_lower_limit), "up": o(r.joint_upper_limit), "vel": o(r.joint_vel_limit), "eff": o(getattr(r, "joint_effort_limit", None))}

def rand_tree(rng, n, bad=.1, fixed=.3, branch=.25):
    """n joints; branches appear at random links"""
    links = ["L%d" % i if rng.random() < .5 else "link_%d" % i for i in range(n + 1)]
    if rng.random() < .3:
        links[0] = "world"
    joints = []
    for i in range(n):
        pa = links[i] if rng.random() > branch else links[int(rng.integers(0, i + 1))]
        u = rng.random()
        t = str(rng.choice(["continuous", "floating", "planar"])) if u < bad else ("fixed" if u < bad + fixed else str(rng.choice(["revolute", "prismatic"], p=[.7, .3])))
        joints.append(dict(n="joint_%d" % (100 - i if rng.random() < .5 else i), type=t, pa=pa, ch=links[i + 1]))
    if len({j["n"] for j in joints}) < n:
        for i, j in enumerate(joints):
            j["n"] = "q%d" % i
    return links, joints

def c19(rec, cases):
    rng = rec.rng
    for c in cases:
        xml, tree = build(rng, c["links"], c["joints"])
        rec.ev({"op": "urdf", "tree": tree, "root": c["root"], "tip": c["tip"], "r": res(data, load(rng, xml, c["root"], c["tip"]))})
    for i in range(rec.n(500, 6000)):
        n = int(rng.integers(1, 11))
        links, joints = rand_tree(rng, n, bad=.1 * (i % 3 == 0), branch=[0, .1, .4][i % 3])
        xml, tree = build(rng, links, joints)
        ends = ["-"] * 3 + links
        root = str(rng.choice(ends)) if rng.random() < .5 else "-"
        tip = str(rng.choice(ends)) if rng.random() < .6 else "-"
        rec.ev({"op": "urdf", "tree": tree, "root": root, "tip": tip, "r": res(data, load(rng, xml, root, tip))})

def path(joints, root, tip):
    by = {j["ch"]: j for j in joints}
    p = []
    while tip != root:
        if tip not in by:
            return None
        p.insert(0, by[tip]); tip = by[tip]["pa"]
    return p

def c18(rec, cases):
    rng = rec.rng
    def one(links, joints, root, tip):
        by = {j["ch"] for j in joints}
        r0 = root if root != "-" else [l for l in links if l not in by][0]
        t0 = tip
        if tip == "-":
            ps = {j["pa"] for j in joints}
            leaves = [l for l in links if l not in ps and path(joints, r0, l) and any(j["type"] != "fixed" for j in path(joints, r0, l)) and not any(j["type"] == "floating" for j in path(joints, r0, l))]
            if len(leaves) != 1:
                return False
            t0 = leaves[0]
        p = path(joints, r0, t0)
        if not p or any(j["type"] not in ("revolute", "prismatic", "fixed") for j in p):
            return False
        mv = [j for j in p if j["type"] != "fixed"]
        if not mv or len(p) > 9:
            return False
        u = len_unit(rng, .2)
        xml, tree = build(rng, links, joints, scale=u)
        f = load(rng, xml, root, tip)
        for _ in range(2):
            q = np.array([rand_angle(rng, True) if j["type"] == "revolute" else rng.uniform(-.6, .6) for j in mv])
            def g():
                r = f()
                n = r.H.shape[1]
                return n, (rox.fwdkin(r, q * np.array([1.0 if j["type"] == "revolute" else u for j in mv]), True) if n == len(q) else rox.identity_transform())
            rec.ev({"op": "urdffwd", "tree": tree, "root": root, "tip": tip, "q": vec(q), "r": res(lambda v: {"n": int(v[0]), "T": tf(v[1], u)}, g)})
        return True
    for c in cases:
        one(c["links"], c["joints"], c["root"], c["tip"])
    k = 0
    while k < rec.n(500, 8000):
        links, joints = rand_tree(rng, int(rng.integers(1, 9)), bad=.03, branch=[0, .1, .3][k % 3])
        tip = links[-1] if rng.random() < .6 else ("-" if rng.random() < .5 else str(rng.choice(links)))
        root = "-" if rng.random() < .6 else str(rng.choice(links[:3]))
        if one(links, joints, root, tip):
            k += 1
