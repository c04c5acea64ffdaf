"""Recording harness: calls the implementation, encodes what it did as fixed-point JSON
sessions, and lets TLC judge them.  No verdict is taken here."""
import json, math, os, signal, sys, warnings, hashlib, time, random
import numpy as np

S = 10 ** 8
LIM = 2.0e9            # 20.0: beyond this a value cannot be represented for the judge

class Bad(Exception):
    pass

class CallTimeout(BaseException):
    pass

def fx(x):
    """one real -> fixed-point integer"""
    try:
        x = float(x)
    except Exception:
        raise Bad("not a number: %s" % type(x).__name__)
    if not math.isfinite(x):
        raise Bad("not finite")
    y = x * S
    if abs(y) >= LIM:
        raise Bad("out of range")
    return int(round(y))

def vec(x, n=None):
    a = np.asarray(x)
    if a.dtype == object or a.dtype.kind not in "fiub":
        try:
            a = np.array(x, dtype=float)
        except Exception:
            raise Bad("not a numeric array")
    a = a.reshape(-1)
    if n is not None and a.size != n:
        raise Bad("wrong length %d" % a.size)
    return [fx(v) for v in a.tolist()]

def mat(x, shape=(3, 3)):
    a = np.asarray(x)
    if a.shape != shape:
        raise Bad("wrong shape %s" % (a.shape,))
    return vec(a)

def tf(T, u=1.0):
    """a transform whose lengths are given in units of 1/u"""
    p = np.asarray(T.p)
    if p.shape not in ((3,), (3, 1)):
        raise Bad("wrong position shape")
    return {"R": mat(T.R), "p": vec(p / u if u != 1.0 else p, 3)}

def name(x):
    if x is None:
        return "-"
    if not isinstance(x, str):
        raise Bad("frame name is not a string")
    return x

def kth(r):
    k, th = r
    return {"k": vec(k, 3), "th": fx(th)}

def ident(x):
    return x

_CALL_TIMEOUT = 10

class Hung(Exception):
    pass

_HUNG = [0]

def _alarm(sig, frame):
    raise CallTimeout()

# An answer must depend on the arguments of the call only.  Some calls are therefore preceded by the same call on
# neighbouring values held in the very same arrays and objects, which then get their true values back.  What the
# neighbouring call answers is not looked at; the judged call follows it.
_WARM = {"rng": None, "n": 0}

def _spots(a):
    """(write neighbouring values, restore) pairs for everything mutable in an argument"""
    rng = _WARM["rng"]
    e = 10.0 ** rng.uniform(-5, -1.5)
    def arr(x):
        if not (isinstance(x, np.ndarray) and x.dtype.kind == "f" and x.flags.writeable and x.size):
            return
        keep = x.copy()
        how = rng.integers(0, 3)
        def go():
            if how == 0: x[...] = keep * (1 + e)
            elif how == 1: x[...] = keep + e * rng.uniform(-1, 1, x.shape)
            else:
                y = keep.copy().reshape(-1); y[rng.integers(0, y.size)] += e; x[...] = y.reshape(x.shape)
        def back(): x[...] = keep
        yield go, back
    def attr(o, k, f):
        v = getattr(o, k, None)
        if v is None: return
        def go(): setattr(o, k, f(v))
        def back(): setattr(o, k, v)
        yield go, back
    if isinstance(a, np.ndarray):
        yield from arr(a)
    elif isinstance(a, (list, tuple)):
        for x in a:
            if isinstance(x, np.ndarray): yield from arr(x)
    elif type(a).__name__ == "Transform" and hasattr(a, "R"):
        yield from arr(a.p)
        Q = R_of(unit(rng.normal(size=3)), e)
        if isinstance(a.R, np.ndarray) and a.R.shape == (3, 3) and a.R.dtype.kind == "f" and a.R.flags.writeable:
            keep = a.R.copy()
            def go(): a.R[...] = keep @ Q
            def back(): a.R[...] = keep
            yield go, back
        yield from attr(a, "p", lambda v: np.array(v, float) + e)
    elif type(a).__name__ == "Robot" and hasattr(a, "joint_type"):
        yield from arr(a.P)
        yield from attr(a, "P", lambda v: np.array(v, float) + e * rng.uniform(-1, 1, np.shape(v)))
        for k, s in (("joint_lower_limit", -1), ("joint_upper_limit", 1)):
            yield from attr(a, k, lambda v, s=s: np.array(v, float) + s * rng.choice([-1, 1]) * e)
            yield from attr(a, k, lambda v: np.array(v, float) * 3)
            yield from attr(a, k, lambda v: None)
            v = getattr(a, k, None)
            yield from arr(v)
        for k in ("T_base", "T_flange"):
            v = getattr(a, k, None)
            if v is not None:
                yield from _spots(v)
            yield from attr(a, k, lambda v: None)
        yield from arr(getattr(a, "p_tool", None))
        yield from attr(a, "p_tool", lambda v: np.array(v, float) + e)
        yield from attr(a, "R_tool", lambda v: None)
        Q2 = R_of(unit(rng.normal(size=3)), e)
        def tilt(v):
            return Q2 @ np.array(v, float)
        if np.shape(getattr(a, "H", None))[:1] == (3,) and np.size(a.H):
            yield from attr(a, "H", tilt)

def _warm(fn, a, kw, t):
    rng = _WARM["rng"]
    spots = [s for x in list(a) + list(kw.values()) for s in _spots(x)]
    swap = [i for i, x in enumerate(a) if type(x) is float and math.isfinite(x)]
    if not spots and not swap:
        return
    a2 = list(a)
    if swap and (not spots or rng.random() < .5):
        i = swap[rng.integers(0, len(swap))]
        a2[i] = a2[i] + float(rng.choice([-1, 1])) * 10.0 ** rng.uniform(-5, -1.5)
        spots = []
    pick = [spots[i] for i in rng.permutation(len(spots))[:1 if rng.random() < .7 else 2]]
    try:
        try:
            for go, back in pick: go()
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                signal.setitimer(signal.ITIMER_REAL, t)
                fn(*a2, **kw)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            for go, back in reversed(pick): back()
    except (Exception, CallTimeout):
        pass
    _WARM["n"] += 1

def raw(fn, *a, **kw):
    """-> ("ok", value) or ("exc", type, message)"""
    if _HUNG[0] >= 4:      # the implementation does not come back: what is recorded so far is judged
        raise Hung()
    t = kw.pop("_timeout", _CALL_TIMEOUT)
    if _WARM["rng"] is not None and a and (getattr(fn, "__module__", "") or "").startswith("general_robotics_toolbox") \
            and _WARM["rng"].random() < _WARM["p"]:
        old = signal.signal(signal.SIGALRM, _alarm)
        try:
            _warm(fn, a, kw, t)
        finally:
            signal.signal(signal.SIGALRM, old)
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, t)
    try:
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                v = fn(*a, **kw)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)
        if _KEPT["on"]:
            _KEPT["v"], _KEPT["a"] = v, list(a) + list(kw.values())
            if a and (getattr(fn, "__module__", "") or "").startswith("general_robotics_toolbox") and _WARM["rng"].random() < .15:
                # and by a call of the same function right after it
                arrs = own_arrays(v)
                was = [x.tobytes() for x in arrs]
                if arrs:
                    signal.signal(signal.SIGALRM, _alarm)
                    try:
                        _warm(fn, a, kw, t)
                    finally:
                        signal.signal(signal.SIGALRM, old)
                    if [x.tobytes() for x in arrs] != was:
                        return ("hang", "changed", "this answer was changed by a later call")
        return ("ok", v)
    except CallTimeout:
        _HUNG[0] += 1
        return ("hang", "timeout", "no answer within %gs" % t)
    except RecursionError as e:
        return ("exc", "RecursionError", "")
    except Exception as e:
        return ("exc", type(e).__name__, str(e)[:120])

def res(conv, fn, *a, **kw):
    """call and encode"""
    return encode(conv, raw(fn, *a, **kw))

# Answers given a few calls ago: they belong to their caller and no later call may
# change them.  An answer found changed turns into a bad one, which no contract
# allows.  (Answers that are views of what the caller passed in are left out.)
_KEPT = {"on": False, "d": []}
def _arrays(x, out):
    if isinstance(x, np.ndarray):
        out.append(x)
    elif isinstance(x, (list, tuple)):
        for y in x: _arrays(y, out)
    elif hasattr(x, "R") and hasattr(x, "p") and hasattr(x, "parent_frame_id"):
        _arrays([x.R, x.p], out)
    elif hasattr(x, "H") and hasattr(x, "joint_type"):
        _arrays([getattr(x, k, None) for k in ("H", "P", "R_tool", "p_tool", "T_flange", "T_base",
            "joint_lower_limit", "joint_upper_limit")], out)
    return out

def own_arrays(v):
    mine = _arrays(list(_KEPT["a"]), [])
    return [a for a in _arrays(v, []) if a.dtype.kind in "fiu" and not any(np.may_share_memory(a, b) for b in mine)]

def _still(d):
    for ans, arrs, was in list(_KEPT["d"]):
        if ans.get("k") == "ok" and [a.tobytes() for a in arrs] != was:
            ans.clear()
            ans.update({"k": "bad", "m": "this answer was changed by a later call"})

def encode(conv, r):
    d = _encode(conv, r)
    if _KEPT["on"]:
        _still(d)
        if d["k"] == "ok" and _KEPT.get("v") is r[1]:
            arrs = own_arrays(r[1])
            if arrs:
                _KEPT["d"] = (_KEPT["d"] + [(d, arrs, [a.tobytes() for a in arrs])])[-4:]
                _KEPT["n"] = _KEPT.get("n", 0) + 1
    return d

def _encode(conv, r):
    if r[0] == "exc":
        return {"k": "exc", "t": r[1], "m": r[2]}
    if r[0] == "hang":
        return {"k": "bad", "m": r[2]}
    try:
        return {"k": "ok", "v": conv(r[1])}
    except Bad as e:
        return {"k": "bad", "m": str(e)}
    except Exception as e:
        return {"k": "bad", "m": "%s: %s" % (type(e).__name__, str(e)[:100])}

def digest(*arrs):
    h = hashlib.sha1()
    for a in arrs:
        if a is None:
            h.update(b"None")
        elif isinstance(a, (str, bool, int, float)):
            h.update(repr(a).encode())
        elif isinstance(a, (list, tuple)):
            h.update(b"L%d" % len(a))
            for x in a:
                h.update(digest(x).encode())
        elif hasattr(a, "R") and hasattr(a, "p"):
            h.update(digest(a.R, a.p, a.parent_frame_id, a.child_frame_id).encode())
        else:
            n = np.asarray(a)
            h.update(str(n.shape).encode() + str(n.dtype).encode() + n.tobytes())
    return h.hexdigest()[:16]

class Recorder:
    def __init__(self, path, prop, tier, seed):
        self.f = open(path, "w")
        self.prop, self.tier, self.seed = prop, tier, seed
        self.rng = np.random.default_rng([seed & 0x7fffffff, int(prop[1:])])
        self.nsess = self.nev = 0
        self.batch = []
        self.stats = {}
        self.thorough = tier == "thorough"
        _KEPT.update(on=prop in ("C01", "C02", "C03", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C21"), d=[])
        _WARM.update(rng=np.random.default_rng([seed & 0x7fffffff, int(prop[1:]), 7]), n=0, p=.25)

    def n(self, quick, thorough=None):
        return quick if not self.thorough else (thorough if thorough is not None else quick * 10)

    def count(self, key, k=1):
        self.stats[key] = self.stats.get(key, 0) + k

    def ev(self, e):
        """a stateless event; batched into sessions"""
        self.count("op " + e["op"])
        self.batch.append(e)
        if len(self.batch) >= 25:
            self.flush()

    def flush(self):
        if self.batch:
            self.session(self.batch)
            self.batch = []

    def session(self, evs, **extra):
        d = {"ev": evs}
        d.update(extra)
        self.f.write(json.dumps(d) + "\n")
        self.f.flush()
        self.nsess += 1
        self.nev += len(evs)

    def close(self):
        if _WARM["n"]:
            self.count("calls preceded by one on neighbouring values in the same arrays", _WARM["n"])
        if _KEPT.get("n"):
            self.count("answers looked at again after the next calls", _KEPT["n"])
        self.flush()
        self.f.close()

def turns(rng, p=.1):
    # whole turns that change nothing
    return 2 * math.pi * float(rng.integers(-1000, 1001)) if rng.random() < p else 0.0

# units of length: powers of two, so that lengths convert without rounding
UNITS = [1 / 16, 1 / 4, 4, 64, 1024]
def len_unit(rng, p=.3):
    return float(rng.choice(UNITS)) if rng.random() < p else 1.0

# ---------------------------------------------------------------- geometry used to build inputs
# (never used to judge)
def unit(v):
    v = np.asarray(v, float)
    return v / np.linalg.norm(v)

def R_of(k, th):
    k = np.asarray(k, float)
    K = np.array([[0, -k[2], k[1]], [k[2], 0, -k[0]], [-k[1], k[0], 0]])
    return np.eye(3) + math.sin(th) * K + 2 * math.sin(th / 2) ** 2 * (np.outer(k, k) - np.eye(3) * k.dot(k))

def q_of(k, th):
    return np.concatenate([[math.cos(th / 2)], math.sin(th / 2) * np.asarray(k, float)])

def rand_axis(rng):
    kind = rng.integers(0, 10)
    if kind == 0:
        k = np.zeros(3); k[rng.integers(0, 3)] = rng.choice([-1.0, 1.0]); return k
    if kind == 1:
        while True:
            k = rng.integers(-1, 2, 3).astype(float)
            if k.any():
                return unit(k)
    if kind == 2:
        k = np.array([1.0, 2.0, 2.0]) / 3
        rng.shuffle(k)
        return k * rng.choice([-1.0, 1.0], 3)
    if kind == 3:
        k = np.array([0, 0.6, 0.8]); rng.shuffle(k); return k * rng.choice([-1.0, 1.0], 3)
    if kind == 4:      # nearly a coordinate axis or plane
        k = unit(rng.normal(size=3)); k[rng.integers(0, 3)] *= 10.0 ** rng.uniform(-9, -1); return unit(k)
    return unit(rng.normal(size=3))

def rand_angle(rng, wide=False):
    kind = rng.integers(0, 8)
    if kind == 0:
        return float(rng.choice([0, 0.5, 1, 1.5, -0.5, -1, 2, -2])) * math.pi
    if kind == 1:
        return float(rng.choice([-1, 1])) * 10.0 ** rng.uniform(-12, -2)
    if kind == 2:
        return float(rng.choice([-1, 1])) * (math.pi + float(rng.choice([-1, 1])) * 10.0 ** rng.uniform(-12, -2))
    if kind == 3 and wide:
        return rng.uniform(-18, 18)
    return rng.uniform(-math.pi, math.pi)

def rand_R(rng):
    return R_of(rand_axis(rng), rand_angle(rng))

def gen_R(rng):
    q = unit(rng.normal(size=4))
    w, x, y, z = q
    return np.array([[1-2*(y*y+z*z), 2*(x*y-w*z), 2*(x*z+w*y)],
                     [2*(x*y+w*z), 1-2*(x*x+z*z), 2*(y*z-w*x)],
                     [2*(x*z-w*y), 2*(y*z+w*x), 1-2*(x*x+y*y)]])

def rand_p(rng, s=.5):
    """an offset; entries may be tiny or missing"""
    p = rng.uniform(-s, s, 3)
    k = rng.integers(0, 8)
    if k == 0:
        return np.zeros(3)
    if k == 1:      # along one coordinate
        p[rng.permutation(3)[:2]] = 0
    elif k == 2:
        p[rng.integers(0, 3)] = 0
    elif k == 3:
        p *= 10.0 ** rng.uniform(-4, 0)
    elif k == 4:
        p *= 10.0 ** rng.uniform(-4, 0, 3)
    return p

def mount_R(rng):
    """the rotation of a frame: any, special, none, or small"""
    k = rng.integers(0, 8)
    if k == 0:
        return np.eye(3)
    if k == 1:
        return R_of(rand_axis(rng), float(rng.choice([-1, 1])) * 10.0 ** rng.uniform(-4, -.5))
    return rand_R(rng) if k < 5 else gen_R(rng)

def lay(rng, x):
    """the same array in another guise: integer typed where its values are whole, a view with gaps, column-major, read-only"""
    x = np.asarray(x)
    k = int(rng.integers(0, 6))
    if k == 1 and np.all(x == np.round(x)): return x.astype(int)
    if k == 2:
        y = np.zeros(tuple(2 * n for n in x.shape)); y[tuple(slice(None, None, 2) for _ in x.shape)] = x
        return y[tuple(slice(None, None, 2) for _ in x.shape)]
    if k == 3: return np.asfortranarray(x)
    if k == 4:
        y = x.copy(); y.flags.writeable = False
        return y
    return x
def axis_form(rng, k):
    """a joint axis as row, column, or any of the guises"""
    return lay(rng, np.reshape(k, (3, 1)) if rng.random() < .3 else k)

def scribble(r):
    """the owner of a loaded robot goes on to use it as it likes"""
    import general_robotics_toolbox as rox_
    for x in (r.H, r.P, r.joint_lower_limit, r.joint_upper_limit, r.joint_vel_limit, r.R_tool, r.p_tool):
        if isinstance(x, np.ndarray) and x.flags.writeable and x.dtype.kind == "f":
            x *= -.5
    if isinstance(r.joint_names, list):
        r.joint_names[:] = ["mine"] * len(r.joint_names)
    if isinstance(r.joint_type, np.ndarray): r.joint_type[...] = 1
    r.T_base = r.T_flange = rox_.Transform(rox_.rot([0, 0, 1], 1.), [1., 2., 3.])
    r.root_link_name = r.tip_link_name = "mine"
