"""Drivers for C24 (ROS messages) and C25 (ROS TF listener).  ROS itself is not installed: the message
classes, time classes and the TF buffer are stand-ins with the documented interface."""
import sys, types, math
import numpy as np
from vlib import *

# ------------------------------------------------------------------ geometry_msgs stand-in
class Message(object):
    """genpy.Message: all fields positionally, or any by keyword, or none"""
    __slots__ = []
    _d = ()
    def __init__(self, *args, **kw):
        if args and len(args) != len(self._d):
            raise TypeError("invalid number of args %d" % len(args))
        for k in kw:
            if k not in self.__slots__:
                raise AttributeError("%s is not an attribute of %s" % (k, type(self).__name__))
        for i, (n, d) in enumerate(self._d):
            v = args[i] if args else kw.get(n)
            setattr(self, n, d() if v is None else v)

def _msg(nm, *fields):
    return type(nm, (Message,), {"__slots__": [f for f, _ in fields], "_d": fields})

class Time(object):
    def __init__(self, secs=0, nsecs=0):
        self.secs, self.nsecs = int(secs), int(round((secs - int(secs)) * 1e9)) + nsecs
    def to_sec(self): return self.secs + self.nsecs * 1e-9
    def to_nsec(self): return self.secs * 10**9 + self.nsecs
    def __eq__(self, o): return type(o) is type(self) and o.to_nsec() == self.to_nsec()
    def __hash__(self): return hash(self.to_nsec())
class Duration(Time):
    pass

Header = _msg("Header", ("seq", int), ("stamp", Time), ("frame_id", str))
Quaternion = _msg("Quaternion", ("x", float), ("y", float), ("z", float), ("w", float))
Point = _msg("Point", ("x", float), ("y", float), ("z", float))
Vector3 = _msg("Vector3", ("x", float), ("y", float), ("z", float))
Pose = _msg("Pose", ("position", Point), ("orientation", Quaternion))
Twist = _msg("Twist", ("linear", Vector3), ("angular", Vector3))
Wrench = _msg("Wrench", ("force", Vector3), ("torque", Vector3))
Transform = _msg("Transform", ("translation", Vector3), ("rotation", Quaternion))
TransformStamped = _msg("TransformStamped", ("header", Header), ("child_frame_id", str), ("transform", Transform))
PoseStamped = _msg("PoseStamped", ("header", Header), ("pose", Pose))
def _list(): return [0.0] * 36
PoseWithCovariance = _msg("PoseWithCovariance", ("pose", Pose), ("covariance", _list))
PoseWithCovarianceStamped = _msg("PoseWithCovarianceStamped", ("header", Header), ("pose", PoseWithCovariance))
TwistStamped = _msg("TwistStamped", ("header", Header), ("twist", Twist))
Vector3Stamped = _msg("Vector3Stamped", ("header", Header), ("vector", Vector3))
QuaternionStamped = _msg("QuaternionStamped", ("header", Header), ("quaternion", Quaternion))
ALL = [Quaternion, Point, Vector3, Pose, Twist, Wrench, Transform, TransformStamped, PoseStamped, PoseWithCovariance,
       PoseWithCovarianceStamped, TwistStamped, Vector3Stamped, QuaternionStamped]

def install():
    m = types.ModuleType("geometry_msgs"); mm = types.ModuleType("geometry_msgs.msg")
    for c in ALL: setattr(mm, c.__name__, c)
    m.msg = mm
    s = types.ModuleType("std_msgs"); sm = types.ModuleType("std_msgs.msg"); sm.Header = Header; s.msg = sm
    sys.modules.update({"geometry_msgs": m, "geometry_msgs.msg": mm, "std_msgs": s, "std_msgs.msg": sm})

# ------------------------------------------------------------------ encoders
def num(x):
    if isinstance(x, (bool, str)) or not np.isscalar(x) and not (isinstance(x, np.ndarray) and x.shape == ()):
        raise Bad("component is not a number")
    return float(x)
def tok(x): return num(x).hex()
def toks(a, n):
    a = np.asarray(a)
    if a.shape not in ((n,), (n, 1)): raise Bad("wrong shape %s" % (a.shape,))
    return [tok(v) for v in a.reshape(-1).tolist()]
def text(x):
    if not isinstance(x, str): raise Bad("name is not a text")
    return x
def wire(m, exactq=False):
    """what a subscriber would receive"""
    t = type(m).__name__
    if t == "Quaternion": return {"type": t, **{f: (tok if exactq else lambda v: fx(num(v)))(getattr(m, f)) for f in "wxyz"}}
    if t in ("Vector3", "Point"): return {"type": t, **{f: tok(getattr(m, f)) for f in "xyz"}}
    if t in ("TransformStamped", "PoseStamped"):
        if type(m.header).__name__ != "Header": raise Bad("header is not a Header")
        d = {"type": t, "frame_id": text(m.header.frame_id)}
        if t[0] == "T": d.update(child_frame_id=text(m.child_frame_id), transform=wire(m.transform))
        else: d.update(pose=wire(m.pose))
        return d
    if t in ("Pose", "Transform", "Twist", "Wrench"): return {"type": t, **{f: wire(getattr(m, f)) for f in m.__slots__}}
    raise Bad("not a message: " + t)
def xf(T):
    p = np.asarray(T.p)
    return {"R": mat(T.R), "p": toks(p, 3), "pa": name(T.parent_frame_id), "ch": name(T.child_frame_id)}

PACK = {"Transform": "transform2msg", "Pose": "transform2pose_msg", "TransformStamped": "transform2transform_stamped_msg", "PoseStamped": "transform2pose_stamped_msg"}

def c24(rec, cases):
    install()
    import general_robotics_toolbox as rox
    from general_robotics_toolbox import ros_msg as rm
    rng = rec.rng
    pend = []
    def later(e, r, conv, kept):
        """results are read only after further conversions have been made"""
        pend.append((e, r, conv, kept))
        if len(pend) >= 12: settle()
    def settle():
        for e, r, conv, kept in pend:
            if r[0] == "ok":
                try: e["r"] = {"k": "ok", "v": dict(conv(r[1]), kept=bool(kept()))}
                except Bad as x: e["r"] = {"k": "bad", "m": str(x)}
                except Exception as x: e["r"] = {"k": "bad", "m": "%s %s" % (type(x).__name__, x)}
            else: e["r"] = {"k": "exc", "t": r[1], "m": r[2]} if r[0] == "exc" else {"k": "bad", "m": r[2]}
            rec.ev(e)
        del pend[:]
    def value(n):
        k = rng.integers(0, 6)
        if k == 0: return rng.integers(-3, 4, n).astype(float)
        if k == 1: return 10.0 ** rng.uniform(-300, 300, n) * rng.choice([-1, 1], n)
        if k == 2: v = np.zeros(n); v[rng.integers(0, n)] = rng.choice([-1, 1]); return v
        if k == 3: return np.array([0.0, -0.0] * 4)[:n]
        return rng.normal(size=n) * 10 ** rng.uniform(-2, 4)
    def shape(v):
        k = rng.integers(0, 5); n = len(v)
        if k == 0: return v.reshape(n, 1)
        if k == 1: return v.tolist()
        if k == 2: return v.reshape(1, n)
        if k == 3 and np.all(v == np.floor(v)) and np.all(np.abs(v) < 9) and not np.any(np.signbit(v) & (v == 0)): return v.astype(int)
        return v.copy()
    def vm(cls, v): return cls(*[float(x) for x in v])
    def qm(q): return Quaternion(float(q[1]), float(q[2]), float(q[3]), float(q[0]))
    def kept_arr(a):
        d = digest(a); return lambda: digest(a) == d
    def kept_msg(m, ex=False):
        d = wire(m, ex) ; return lambda: wire(m, ex) == d
    def uq():
        k = rng.integers(0, 4)
        if k == 0:
            q = np.zeros(4); q[rng.integers(0, 4)] = rng.choice([-1, 1]); return q
        if k == 1: return q_of(rand_axis(rng), rand_angle(rng)) * rng.choice([-1, 1])
        return unit(rng.normal(size=4))
    def rand_x(pa=None, ch=None, R=None, p=None):
        R = R if R is not None else (rand_R(rng) if rng.random() < .5 else gen_R(rng))
        p = value(3) if p is None else p
        T = rox.Transform(R.copy(), p.copy(), None if pa == "-" else pa, None if ch == "-" else ch)
        return T, {"R": mat(R), "p": toks(p, 3), "pa": pa, "ch": ch}
    def kept_x(T):
        d = digest(T); return lambda: digest(T) == d
    names = ["-", "-", "a", "base_link", "tool0", "map/b", "é", ""]
    def pick(): return str(rng.choice(names))
    def packs(T, x, path):
        ty = path[0]
        later({"op": "msg", "fn": "pack", "ty": ty, "x": x}, raw(getattr(rm, PACK[ty]), T), lambda m: {"m": wire(m)}, kept_x(T))
        def trip():
            t = T
            for y in path: t = rm.msg2transform(getattr(rm, PACK[y])(t))
            return t
        later({"op": "msg", "fn": "trip", "path": list(path), "x": x}, raw(trip), lambda t: {"x": xf(t)}, kept_x(T))
    def unpack(ty, pa, ch):
        p, q = value(3), uq()
        ors = qm(q)
        if ty == "Transform": m = Transform(vm(Vector3, p), ors)
        elif ty == "Pose": m = Pose(vm(Point, p), ors)
        elif ty == "TransformStamped": m = TransformStamped(Header(3, Time(1.5), pa), ch, Transform(vm(Vector3, p), ors))
        else: m = PoseStamped(Header(4, Time(2), pa), Pose(vm(Point, p), ors))
        later({"op": "msg", "fn": "unpack", "m": wire(m)}, raw(rm.msg2transform, m), lambda t: {"x": xf(t)}, kept_msg(m))
    def simple():
        v3, v4, v6 = value(3), (uq() if rng.random() < .7 else value(4)), value(6)
        for fn, v in (("p2msg", v3), ("p2point_msg", v3), ("q2msg", v4), ("twist2msg", v6), ("wrench2msg", v6)):
            a = shape(v)
            later({"op": "msg", "fn": fn, "a": toks(v, len(v))}, raw(getattr(rm, fn), a), lambda m: {"m": wire(m, True)}, kept_arr(a))
        for fn, m in (("msg2p", vm(Vector3, v3)), ("point_msg2p", vm(Point, v3)), ("msg2q", qm(v4)),
                      ("msg2twist", Twist(vm(Vector3, v6[:3]), vm(Vector3, v6[3:]))), ("msg2wrench", Wrench(vm(Vector3, v6[:3]), vm(Vector3, v6[3:])))):
            n = {"msg2p": 3, "point_msg2p": 3, "msg2q": 4}.get(fn, 6)
            later({"op": "msg", "fn": fn, "m": wire(m, True)}, raw(getattr(rm, fn), m), lambda a, n=n: {"a": toks(a, n)}, kept_msg(m, True))
        for to, fro, v in (("p2msg", "msg2p", v3), ("p2point_msg", "point_msg2p", v3), ("q2msg", "msg2q", v4), ("twist2msg", "msg2twist", v6), ("wrench2msg", "msg2wrench", v6)):
            a = shape(v)
            later({"op": "msg", "fn": "vtrip", "via": to, "a": toks(v, len(v))}, raw(lambda to=to, fro=fro, a=a: getattr(rm, fro)(getattr(rm, to)(a))),
                  lambda r, n=len(v): {"a": toks(r, n)}, kept_arr(a))
        R = rand_R(rng) if rng.random() < .6 else gen_R(rng)
        later({"op": "msg", "fn": "R2msg", "R": mat(R)}, raw(rm.R2msg, R), lambda m: {"m": wire(m)}, kept_arr(R))
        q = qm(uq())
        later({"op": "msg", "fn": "msg2R", "m": wire(q)}, raw(rm.msg2R, q), lambda R: {"R": mat(R)}, kept_msg(q))
    grid = {-7: .3, **{i: i * 0.25 for i in range(-6, 8)}}
    for c in cases:
        v = c["val"]
        q = np.array([grid[x] for x in v["q"]]); q = unit(q) if q.any() else np.array([1.0, 0, 0, 0])
        R = R_of(unit(q[1:]), 2 * math.atan2(np.linalg.norm(q[1:]), q[0])) if np.abs(q[1:]).max() > 1e-9 else np.eye(3)
        T, x = rand_x(v["pa"], v["ch"], R, np.array([grid[k] for k in v["p"]]))
        packs(T, x, c["path"])
    for i in range(rec.n(150, 2500)):
        simple()
        T, x = rand_x(pick(), pick())
        packs(T, x, [str(k) for k in rng.choice(sorted(PACK), int(rng.integers(1, 4)))])
        for ty in PACK: unpack(ty, str(rng.choice(["", "a", "world", "map/b"])), str(rng.choice(["", "b", "tool0"])))
    for bad in [Quaternion(), Point(), Vector3(), Twist(), Wrench(), PoseWithCovariance(), PoseWithCovarianceStamped(), TwistStamped(), Vector3Stamped(), QuaternionStamped(),
                Header(), None, 3.0, "pose", np.eye(4), [1, 2, 3], {}, object(), rox.Transform(np.eye(3), np.zeros(3))]:
        later({"op": "msg", "fn": "refuse", "what": type(bad).__name__}, raw(rm.msg2transform, bad), lambda m: {}, lambda: True)
    settle()

# ------------------------------------------------------------------ tf, tf2_ros, rospy stand-ins
class TransformException(Exception): pass
class LookupException(TransformException): pass
class ConnectivityException(TransformException): pass
class ExtrapolationException(TransformException): pass

def _q_of_R(R):
    """Shepperd's method; only used to build the buffer's answers"""
    m = [np.trace(R), R[0, 0], R[1, 1], R[2, 2]]; i = int(np.argmax(m))
    if i == 0: q = np.array([1 + m[0], R[2, 1] - R[1, 2], R[0, 2] - R[2, 0], R[1, 0] - R[0, 1]])
    elif i == 1: q = np.array([R[2, 1] - R[1, 2], 1 + R[0, 0] - R[1, 1] - R[2, 2], R[0, 1] + R[1, 0], R[0, 2] + R[2, 0]])
    elif i == 2: q = np.array([R[0, 2] - R[2, 0], R[0, 1] + R[1, 0], 1 - R[0, 0] + R[1, 1] - R[2, 2], R[1, 2] + R[2, 1]])
    else: q = np.array([R[1, 0] - R[0, 1], R[0, 2] + R[2, 0], R[1, 2] + R[2, 1], 1 - R[0, 0] - R[1, 1] + R[2, 2]])
    return q / np.linalg.norm(q)

class Buffer(object):
    """the transform buffer of the specification (Tf.tla): samples hold until the next one"""
    def __init__(self, rng): self.log, self.pend, self.rng = [], [], rng
    def sample(self, f, t):
        a = [u for u in self.log if u[0] == f]
        if not a: return None
        o = [(u[2], i, u) for i, u in enumerate(a) if t == 0 or u[2] <= t]
        if not o: raise ExtrapolationException("%s at %s" % (f, t))
        return max(o, key=lambda x: x[:2])[2]
    def up(self, f, t):
        R, p = np.eye(3), np.zeros(3)
        while True:
            u = self.sample(f, t)
            if u is None: return f, R, p
            R, p, f = u[3].dot(R), u[4] + u[3].dot(p), u[1]
    def look(self, to, tt, src, ft, via):
        ks = {u[0] for u in self.log} | {u[1] for u in self.log}
        for f in (to, src, via):
            if f not in ks: raise LookupException(f)
        a, va, vb, b = self.up(to, tt), self.up(via, tt), self.up(via, ft), self.up(src, ft)
        if a[0] != va[0] or b[0] != vb[0]: raise ConnectivityException(to + src)
        inv = lambda x: (x[1].T, -x[1].T.dot(x[2]))
        mul = lambda x, y: (x[0].dot(y[0]), x[1] + x[0].dot(y[1]))
        R, p = mul(mul(inv(a), va[1:]), mul(inv(vb), b[1:]))
        q = _q_of_R(R) * self.rng.choice([-1.0, 1.0])
        return [float(x) for x in p], [float(q[1]), float(q[2]), float(q[3]), float(q[0])]

def secs(t):
    if type(t) not in (Time, Duration): raise TypeError("not a time: %r" % (t,))
    return t.to_sec()
def show(*a):
    def s(x):
        if x is None: return "None"
        if isinstance(x, Time): return "%s(%d)" % (type(x).__name__, x.to_nsec())
        return repr(x)
    return ",".join(s(x) for x in a)

class StubListener(object):
    """tf.TransformListener"""
    made = []
    rng = None
    def __init__(self, *args, **kw):
        self.args = [str(a) for a in args] + ["%s=%s" % (k, kw[k]) for k in sorted(kw)]
        self.b = Buffer(StubListener.rng); self.seen = []
        StubListener.made.append(self)
    def _can(self, *x):
        try: self.b.look(*x); return True
        except TransformException: return False
    def _wait(self, timeout, *x):
        left = secs(timeout)
        while not self._can(*x):
            if not self.b.pend or self.b.pend[0][0] > left: raise TransformException("timeout")
            d, u = self.b.pend.pop(0); left -= d; self.b.log.append(u)
    def canTransform(self, target_frame, source_frame, time):
        self.seen.append("can:" + show(target_frame, source_frame, time))
        return self._can(target_frame, secs(time), source_frame, secs(time), target_frame)
    def canTransformFull(self, target_frame, target_time, source_frame, source_time, fixed_frame):
        self.seen.append("canfull:" + show(target_frame, target_time, source_frame, source_time, fixed_frame))
        return self._can(target_frame, secs(target_time), source_frame, secs(source_time), fixed_frame)
    def waitForTransform(self, target_frame, source_frame, time, timeout, polling_sleep_duration=None):
        self.seen.append("wait:" + show(target_frame, source_frame, time, timeout, polling_sleep_duration))
        return self._wait(timeout, target_frame, secs(time), source_frame, secs(time), target_frame)
    def waitForTransformFull(self, target_frame, target_time, source_frame, source_time, fixed_frame, timeout, polling_sleep_duration=None):
        self.seen.append("waitfull:" + show(target_frame, target_time, source_frame, source_time, fixed_frame, timeout, polling_sleep_duration))
        return self._wait(timeout, target_frame, secs(target_time), source_frame, secs(source_time), fixed_frame)
    def clear(self):
        self.seen.append("clear:"); del self.b.log[:]
    def lookupTransform(self, target_frame, source_frame, time):
        return self.b.look(target_frame, secs(time), source_frame, secs(time), target_frame)
    def lookupTransformFull(self, target_frame, target_time, source_frame, source_time, fixed_frame):
        return self.b.look(target_frame, secs(target_time), source_frame, secs(source_time), fixed_frame)

def install_tf():
    install()
    t, r, t2 = types.ModuleType("tf"), types.ModuleType("rospy"), types.ModuleType("tf2_ros")
    t.TransformListener = StubListener
    r.Time, r.Duration = Time, Duration
    for c in (TransformException, LookupException, ConnectivityException, ExtrapolationException): setattr(t2, c.__name__, c); setattr(t, c.__name__, c)
    t.Exception = TransformException
    sys.modules.update({"tf": t, "rospy": r, "tf2_ros": t2})

def c25(rec, cases):
    install_tf()
    from general_robotics_toolbox import ros_tf
    rng = StubListener.rng = rec.rng
    H = lambda t: secs(t)
    UN = [1.0]          # the unit of length of the buffer
    def xt(T):
        d = tf(T, UN[0]); d["pa"], d["ch"] = name(T.parent_frame_id), name(T.child_frame_id); return d
    def boolean(v):
        if type(v) not in (bool, np.bool_): raise Bad("not a truth value")
        return bool(v)
    class Run(object):
        def __init__(self, n):
            self.ev, self.L, self.old = [], [], []
            UN[0] = len_unit(rng, .2)
            del StubListener.made[:]
            given = [str(x) for x in rng.choice(["10.0", "True", "cache"], int(rng.integers(0, 3)))]
            kw = {"interpolate": "True"} if rng.random() < .5 else {}
            def make():
                self.L = [ros_tf.TransformListener(*given, **kw) for _ in range(n)]
                return [s.args for s in StubListener.made]
            want = [given + ["%s=%s" % i for i in kw.items()]] * n
            self.ev.append({"op": "tf_init", "n": n, "given": want, "r": res(lambda v: v, make)})
            self.ok = self.ev[-1]["r"].get("v") == want
            self.S = list(StubListener.made)
        def upd(self, f, pa, t, R, p): return (f, pa, t, R, p * UN[0]), {"f": f, "pa": pa, "t": t, "T": {"R": mat(R), "p": vec(p)}}
        def set(self, i, *a):
            u, j = self.upd(*a); self.S[i].b.log.append(u); self.ev.append({"op": "tf_set", "i": i + 1, "u": j})
        def pend(self, i, d, *a):
            u, j = self.upd(*a); self.S[i].b.pend.append((d, u)); self.ev.append({"op": "tf_pend", "i": i + 1, "d": d, "u": j})
        def call(self, op, i, conv, m, args, kw=None, want=None, **e):
            del self.S[i].seen[:]
            fn = getattr(self.L[i], m)
            r = raw(fn, *args, **(kw or {}))
            if r[0] == "ok":
                try: rr = {"k": "ok", "v": conv(r[1])}
                except Exception as x: rr = {"k": "bad", "m": str(x)}
                if op == "tf_look" and rr["k"] == "ok": self.old.append((r[1], rr["v"]))
            else: rr = {"k": "exc", "t": r[1], "m": r[2]} if r[0] == "exc" else {"k": "bad", "m": r[2]}
            d = dict(e, op=op, i=i + 1, r=rr)
            if want is not None: d["seen"], d["want"] = list(self.S[i].seen), want
            self.ev.append(d)
        def X(self, to, tt, src, ft, via): return {"to": to, "tt": tt, "from": src, "ft": ft, "via": via}
        def style(self, names, vals):
            """positional or by keyword"""
            k = int(rng.integers(0, len(names) + 1)) if rng.random() < .3 else len(names)
            return list(vals[:k]), dict(zip(names[k:], vals[k:]))
        def can(self, i, to, src, t):
            T = Time(t); a, k = self.style(("target_frame", "source_frame", "time"), (to, src, T))
            if t == 0 and rng.random() < .6: a, k = [to, src], {}
            self.call("tf_can", i, boolean, "canTransform", a, k, "can:" + show(to, src, T), x=self.X(to, t, src, t, "-"))
        def canfull(self, i, to, tt, src, ft, via):
            v = (to, Time(tt), src, Time(ft), via); a, k = self.style(("target_frame", "target_time", "source_frame", "source_time", "fixed_frame"), v)
            self.call("tf_can", i, boolean, "canTransformFull", a, k, "canfull:" + show(*v), x=self.X(to, tt, src, ft, via))
        def look(self, i, to, src, t):
            a, k = self.style(("target_frame", "source_frame", "time"), (to, src, Time(t)))
            if t == 0 and rng.random() < .6: a, k = [to, src], {}
            self.call("tf_look", i, xt, "lookupTransform", a, k, x=self.X(to, t, src, t, "-"))
        def full(self, i, to, tt, src, ft, via):
            a, k = self.style(("target_frame", "target_time", "source_frame", "source_time", "fixed_frame"), (to, Time(tt), src, Time(ft), via))
            self.call("tf_look", i, xt, "lookupTransformFull", a, k, x=self.X(to, tt, src, ft, via))
        def wait(self, i, to, src, t, d):
            D = Duration(d); u = rng.random(); P = None if u < .3 else Duration(float(rng.choice([.01, .25, 7])))
            v, nm = (to, src, Time(t), D), ("target_frame", "source_frame", "time", "timeout")
            a, k = self.style(nm + ("polling_sleep_duration",), v + (P,)) if P is not None or u < .1 else self.style(nm, v)
            self.call("tf_wait", i, lambda v: 0, "waitForTransform", a, k, "wait:" + show(*v, P), x=self.X(to, t, src, t, "-"), timeout=d)
        def waitfull(self, i, to, tt, src, ft, via, d):
            D = Duration(d); P = None if rng.random() < .4 else Duration(float(rng.choice([.01, .5])))
            v, nm = (to, Time(tt), src, Time(ft), via, D), ("target_frame", "target_time", "source_frame", "source_time", "fixed_frame", "timeout")
            a, k = self.style(nm + ("polling_sleep_duration",), v + (P,)) if P is not None else self.style(nm, v)
            self.call("tf_wait", i, lambda v: 0, "waitForTransformFull", a, k, "waitfull:" + show(*v, P), x=self.X(to, tt, src, ft, via), timeout=d)
        def clear(self, i): self.call("tf_clear", i, lambda v: 0, "clear", [], None, "clear:")
        def done(self):
            for T, was in self.old[:6]:
                try: now = xt(T)
                except Exception as x: now = str(x)
                self.ev.append({"op": "tf_again", "was": json.dumps(was), "now": json.dumps(now)})
            for e in self.ev: rec.count("op " + e["op"])
            rec.session(self.ev, stateful=1)
        def queries(self, i, fs, k):
            for _ in range(k):
                a, b, c = [str(x) for x in rng.choice(fs, 3)]
                s, t = int(rng.integers(0, 4)), int(rng.integers(0, 4))
                u = rng.integers(0, 8)
                if u < 3: self.look(i, a, b, s)
                elif u < 5: self.full(i, a, s, b, t, c)
                elif u == 5: self.canfull(i, a, s, b, t, c)
                else: self.can(i, a, b, s)
    lat = [(R_of([0, 0, 1.], math.pi / 2), np.array([1., 0, 2])), (R_of([1., 0, 0], -math.pi / 2), np.array([0., -1, 1]))]
    for c in cases:
        r = Run(1)
        if not r.ok: r.done(); continue
        for k, a, b, t, x in c["h"]:
            if k == "set": r.set(0, a, b, t, *lat[x - 1])
            elif k == "pend": r.pend(0, x, a, b, t, *lat[0])
            elif k == "wait": r.wait(0, a, b, t, x)
            else: r.clear(0)
            r.queries(0, ["w", "a", "b"], 3)
        r.queries(0, ["w", "a", "b", "w", "a", "b", "ghost"], 5)
        r.done()
    for _ in range(rec.n(60, 900)):
        r = Run(2)
        if not r.ok: r.done(); continue
        order = [str(x) for x in rng.permutation(["map", "odom", "base_link", "tool0", "camera"])]
        def upd():
            k = int(rng.integers(1, 5)); j = int(rng.integers(0, k)) if rng.random() < .5 else k - 1
            R = mount_R(rng)
            p = rand_p(rng) if rng.random() < .7 else rng.integers(-1, 2, 3) * .5
            return order[k], order[j], int(rng.integers(1, 4)), R, p
        for k in range(1, 5):
            if rng.random() < .85: r.set(int(rng.integers(0, 2)) if rng.random() < .2 else 0, order[k], order[int(rng.integers(0, k))], int(rng.integers(1, 3)), gen_R(rng), rng.uniform(-.5, .5, 3))
        fs = order + ([] if rng.random() < .7 else ["ghost"])
        for _ in range(int(rng.integers(4, 14))):
            i = 0 if rng.random() < .75 else 1
            u = rng.integers(0, 12)
            if u < 4: r.set(i, *upd())
            elif u < 6: r.pend(i, int(rng.integers(1, 4)), *upd())
            elif u < 8:
                a, b, v = [str(x) for x in rng.choice(fs, 3)]
                s, t = [int(x) for x in rng.integers(0, 4, 2)]
                d = int(rng.integers(0, 5))
                if u == 6: r.wait(i, a, b, s, d)
                else: r.waitfull(i, a, s, b, t, v, d)
            elif u == 8 and rng.random() < .6: r.clear(i)
            r.queries(i, fs, int(rng.integers(1, 4)))
        r.done()
