#!/usr/bin/env python3
"""Sensitivity campaign (not a check; nothing here decides a property).
   mutate.py list FILE                -> number of mutants
   mutate.py run OUT.json [-j N] [--files a,b] [--stride K] [--offset O]
Every mutant is a small edit of one source file of the library.  It runs in a mount namespace of its own,
with a mutated copy bound over /repo/src, against the checks of the properties its function belongs to.
Mutants no check notices are run against the repository's own tests; those that pass them are listed."""
import ast, os, sys, json, subprocess, tempfile, shutil, time, concurrent.futures as cf
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE); sys.path.insert(0, os.path.join(HERE, "py"))
SRC = "/repo/src/general_robotics_toolbox"
P = {
 "general_robotics_toolbox.py": {"hat": "C02", "invhat": "C02", "rot": "C01", "R2rot": "C01", "screw_matrix": "C02", "q2R": "C01", "R2q": "C01", "q2rot": "C01", "rot2q": "C01",
   "quatcomplement": "C02", "quatproduct": "C02", "quatjacobian": "C02", "rpy2R": "C01", "R2rpy": "C01", "slerp": "C03", "Robot.__init__": "C05", "Transform": "C04",
   "fwdkin": "C06,C07", "robotjacobian": "C08,C07", "subproblem0": "C10", "subproblem1": "C10", "subproblem2": "C10", "subproblem3": "C11", "subproblem4": "C11",
   "apply_robot_aux_transforms": "C09", "unapply_robot_aux_transforms": "C09", "identity_transform": "C04"},
 "general_robotics_toolbox_invkin.py": {"normalize_joints": "C14,C12,C13", "robot6_sphericalwrist_invkin": "C12,C13,C14,C17", "ur_invkin": "C12,C13,C14", "equivalent_configurations": "C15", "iterative_invkin": "C16"},
 "robotraconteur.py": {"": "C20"}, "ros_msg.py": {"": "C24"}, "ros_tf.py": {"": "C25"}, "urdf.py": {"": "C18,C19"},
 "tesseract.py": {"transform_to_isometry3d": "C22,C21", "isometry3d_to_transform": "C22,C21", "OPWInvKinParameters": "C23", "robot_to_opw_inv_kin_parameters": "C23", "URInvKinParameters": "C23",
   "robot_to_ur_inv_kin_parameters": "C23", "TesseractRobot": "C21", "redundant_solutions": "C21", "": "C22,C21,C23"},
}
CMP = {ast.Lt: ["<=", ">"], ast.LtE: ["<", ">"], ast.Gt: [">=", "<"], ast.GtE: [">", "<"], ast.Eq: ["!="], ast.NotEq: ["=="], ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*"}
FN = {"sin": "cos", "cos": "sin", "arccos": "arcsin", "arcsin": "arccos", "vstack": "hstack", "min": "max", "max": "min", "argmax": "argmin", "argmin": "argmax", "any": "all", "all": "any", "ceil": "floor", "floor": "ceil"}

def mutants(fname):
    text = open(os.path.join(SRC, fname)).read()
    lines = text.splitlines(True)
    off = [0]
    for l in lines: off.append(off[-1] + len(l.encode()))
    raw = text.encode()
    at = lambda n: (off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset)
    out = []
    def add(fn, n, new, what, span=None):
        a, b = span or at(n)
        if raw[a:b].decode() != new: out.append((fn, n.lineno, a, b, new, what))
    def seg(n): a, b = at(n); return raw[a:b].decode()
    def walk(n, fn):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            fn = (fn + "." if fn else "") + n.name
            body = [b for b in n.body if not (isinstance(b, ast.Expr) and isinstance(b.value, ast.Constant) and isinstance(b.value.value, str))]
            if isinstance(n, ast.FunctionDef):
                for d in n.args.defaults + [x for x in n.args.kw_defaults if x]: walk(d, fn)
            for b in body: walk(b, fn)
            return
        if fn:
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                for o in CMP.get(type(n.ops[0]), []):
                    add(fn, n, "%s %s %s" % (seg(n.left), o, seg(n.comparators[0])), "cmp")
            elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
                add(fn, n, "%s %s %s" % (seg(n.left), BIN[type(n.op)], seg(n.right)), "bin")
            elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
                add(fn, n, "(" + seg(n.operand) + ")", "usub")
            elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
                add(fn, n, "bool(" + seg(n.operand) + ")", "not")
            elif isinstance(n, ast.BoolOp):
                j = " and " if isinstance(n.op, ast.Or) else " or "
                add(fn, n, "(" + j.join("(" + seg(v) + ")" for v in n.values) + ")", "bool")
                for k in range(len(n.values)): add(fn, n, "(" + seg(n.values[k]) + ")", "bool1")
            elif isinstance(n, ast.Constant):
                v = n.value
                if v is True or v is False: add(fn, n, str(not v), "const")
                elif isinstance(v, int): add(fn, n, str(v + 1), "const"); add(fn, n, str(v - 1) if v else "2", "const")
                elif isinstance(v, float): add(fn, n, repr(v * 1000 if abs(v) < 1e-2 else v * 1.5), "const"); add(fn, n, repr(v / 1000 if abs(v) < 1e-2 else -v), "const")
                elif isinstance(v, str) and v and " " not in v: add(fn, n, repr(v + "x"), "const")
                elif v is None: pass
            elif isinstance(n, ast.Attribute) and n.attr in FN: add(fn, n, seg(n.value) + "." + FN[n.attr], "fn")
            elif isinstance(n, ast.Attribute) and n.attr == "T": add(fn, n, seg(n.value), "transpose")
            elif isinstance(n, ast.Call):
                f = n.func
                if isinstance(f, ast.Attribute) and f.attr in ("transpose", "copy") and not n.args: add(fn, n, seg(f.value), "drop." + f.attr)
                elif isinstance(f, ast.Attribute) and f.attr == "dot" and len(n.args) == 1: add(fn, n, "(%s).dot(%s)" % (seg(n.args[0]), seg(f.value)), "dotswap")
                elif isinstance(f, ast.Attribute) and f.attr in ("array", "copy", "abs", "deepcopy", "clip", "flatten") and len(n.args) >= 1 and f.attr != "array": add(fn, n, seg(n.args[0]), "drop." + f.attr)
                if len(n.args) >= 2 and not (isinstance(f, ast.Name) and f.id in ("hasattr", "getattr", "isinstance")):
                    for k in range(len(n.args) - 1):
                        a, b = at(n.args[k])[0], at(n.args[k + 1])[1]
                        add(fn, n, seg(n.args[k + 1]) + ", " + seg(n.args[k]), "argswap", (a, b))
                for k in n.keywords:
                    if k.arg and isinstance(k.value, ast.Name): add(fn, k.value, "None", "kwnone")
            elif isinstance(n, ast.If):
                add(fn, n.test, "True", "iftrue"); add(fn, n.test, "False", "iffalse")
            elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Raise, ast.Assert, ast.Return, ast.Continue, ast.Break)):
                if isinstance(n, ast.Return): add(fn, n, "return None", "ret")
                else: add(fn, n, "pass", "del")
                if isinstance(n, ast.AugAssign): add(fn, n, seg(n.target) + " = " + seg(n.value), "aug")
            elif isinstance(n, ast.IfExp): add(fn, n, seg(n.body), "ife"); add(fn, n, seg(n.orelse), "ife")
            elif isinstance(n, (ast.Tuple, ast.List)) and 2 <= len(n.elts) <= 4 and isinstance(n.ctx, ast.Load):
                for k in range(len(n.elts) - 1):
                    a, b = at(n.elts[k])[0], at(n.elts[k + 1])[1]
                    add(fn, n, seg(n.elts[k + 1]) + ", " + seg(n.elts[k]), "eltswap", (a, b))
        for c in ast.iter_child_nodes(n): walk(c, fn)
    walk(ast.parse(text), "")
    seen, res = set(), []
    for fn, ln, a, b, new, what in out:
        t = raw[:a] + new.encode() + raw[b:]
        if t in seen: continue
        try: compile(t, fname, "exec")
        except SyntaxError: continue
        seen.add(t)
        res.append({"file": fname, "fn": fn, "line": ln, "what": what, "old": raw[a:b].decode()[:120], "new": new[:120], "text": t.decode()})
    return res

def props(m):
    d = P.get(m["file"], {})
    best = ""
    for k, v in d.items():
        if (m["fn"] == k or m["fn"].startswith(k + ".") or m["fn"].split(".")[0] == k.split(".")[0] and k in m["fn"]) and (not best or len(k) > len(best[0])): best = (k, v)
    if best: return best[1].split(",")
    return d[""].split(",") if "" in d else []

def one(m, casedir):
    d = tempfile.mkdtemp(prefix="mut_", dir="/tmp")
    try:
        shutil.copytree("/repo/src", d + "/src", ignore=shutil.ignore_patterns("__pycache__"))
        open("%s/src/general_robotics_toolbox/%s" % (d, m["file"]), "w").write(m["text"])
        json.dump({"props": m["props"], "cases": casedir}, open(d + "/job", "w"))
        # a mutant the repository's own tests notice says nothing about the checks
        q = subprocess.run(["unshare", "-m", "bash", "-c", "mount --bind %s/src /repo/src && cd /repo && PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1 timeout 400 /opt/venv/bin/python -m pytest -x -q -p no:cacheprovider -p no:warnings --timeout=200 test 2>&1 | tail -5" % d],
                           stdout=subprocess.PIPE, text=True)
        if "46 passed" not in q.stdout:
            return {"killed": "tests"}
        p = subprocess.run(["unshare", "-m", "bash", "-c", "mount --bind %s/src /repo/src && exec python3 %s worker %s/job" % (d, os.path.abspath(__file__), d)],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=4000)
        r = [l for l in p.stdout.splitlines() if l.startswith("RESULT ")]
        out = json.loads(r[-1][7:]) if r else {"error": p.stdout[-1500:]}
        out["tests_pass"] = not out.get("killed")
        return out
    except Exception as e:
        return {"error": repr(e)}
    finally:
        shutil.rmtree(d, ignore_errors=True)

def worker(job):
    import check
    j = json.load(open(job))
    for pid in j["props"]:
        spec = check.REG[pid]
        scratch = tempfile.mkdtemp(prefix="mw_", dir="/tmp")
        try:
            cases = json.load(open(os.path.join(j["cases"], pid + ".json")))
            try: rc, log, out = check.run_driver(pid, spec, "quick", 1, cases, scratch)
            except subprocess.TimeoutExpired:
                print("RESULT " + json.dumps({"killed": pid, "how": "driver timeout"})); return
            if rc != 0:
                how = "broken" if ("IMPL-BROKEN" in log or rc < 0) else "HARNESS " + log[-600:]
                print("RESULT " + json.dumps({"killed": pid, "how": how})); return
            try: rej, _, _ = check.judge(out, scratch, "quick", "Trace")
            except check.Machinery as e:
                print("RESULT " + json.dumps({"killed": pid, "how": "MACHINERY " + str(e)[-500:]})); return
            h = [r for r in rej if any(c.startswith("HARNESS") for c in r[2])]
            if rej:
                print("RESULT " + json.dumps({"killed": pid, "how": ("HARNESS " if len(h) == len(rej) else "") + rej[0][2][0], "n": len(rej)})); return
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
    print("RESULT " + json.dumps({"killed": None}))

def main():
    if sys.argv[1] == "list":
        ms = mutants(sys.argv[2]); print(len(ms)); 
        return
    if sys.argv[1] == "worker": return worker(sys.argv[2])
    import argparse
    a = argparse.ArgumentParser(); a.add_argument("cmd"); a.add_argument("out"); a.add_argument("-j", type=int, default=4); a.add_argument("--files", default=",".join(P)); a.add_argument("--stride", type=int, default=1); a.add_argument("--offset", type=int, default=0); a.add_argument("--fn", default="")
    a = a.parse_args()
    import check
    check.os.cpu_count = lambda: 8
    ms = []
    for f in a.files.split(","):
        x = [dict(m, props=props(m)) for m in mutants(f)]
        ms += [m for m in x if m["props"] and (not a.fn or m["fn"].startswith(a.fn))]
    ms = ms[a.offset::a.stride]
    cd = tempfile.mkdtemp(prefix="mcases_", dir="/tmp")
    for pid in sorted({p for m in ms for p in m["props"]}):
        s = tempfile.mkdtemp(prefix="mm_", dir="/tmp")
        c, _, _, _ = check.run_models(check.REG[pid], "quick", 1, s); shutil.rmtree(s)
        json.dump(c, open("%s/%s.json" % (cd, pid), "w"))
    print(len(ms), "mutants", flush=True)
    os.environ["MUT_WORKERS"] = "2"
    t0, res = time.time(), []
    with cf.ThreadPoolExecutor(a.j) as ex:
        fs = {ex.submit(one, m, cd): m for m in ms}
        for i, f in enumerate(cf.as_completed(fs)):
            m = fs[f]; r = dict({k: m[k] for k in ("file", "fn", "line", "what", "old", "new", "props")}, **f.result()); res.append(r)
            if not r.get("killed"): print("SURVIVES" if r.get("tests_pass") else "survives-but-tests-fail", json.dumps(r), flush=True)
            elif "HARNESS" in r.get("how", "") or "MACHINERY" in r.get("how", ""): print("NOANSWER", json.dumps(r), flush=True)
            if i % 50 == 0: print("...", i, round(time.time() - t0), flush=True)
            json.dump(res, open(a.out, "w"))
    shutil.rmtree(cd)
    print("tests kill %d" % sum(1 for r in res if r.get("killed") == "tests"))
    k = sum(1 for r in res if r.get("killed")); s = sum(1 for r in res if r.get("tests_pass"))
    print("done: %d mutants, %d killed, %d survive and pass the tests, %d others" % (len(res), k, s, len(res) - k - s))
main()
