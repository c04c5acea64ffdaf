#!/usr/bin/env python3
"""check.py <property> [--replay FILE]

Decides one property:
  1. TLC explores the models of the property (exhaustively, within the constants of the tier); a model
     prints the cases it reached for the driver;
  2. the driver runs the implementation in /repo/src on those and on seeded cases and records what it did;
  3. TLC validates the recorded sessions against the specification (spec/Trace.tla).
Exit 0: held; 1: VIOLATION line; 2: the machinery failed."""
import os, sys, json, re, subprocess, tempfile, shutil, time, hashlib

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(HERE, "spec")
PY = "/opt/venv/bin/python"
sys.path.insert(0, os.path.join(HERE, "py"))
from registry import REG

JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

class Machinery(Exception):
    pass

def tlc(module, cfg_text, scratch, env=None, workers=None, timeout=800, tag=""):
    cfg = os.path.join(scratch, module + tag + ".cfg")
    with open(cfg, "w") as f:
        f.write(cfg_text)
    meta = tempfile.mkdtemp(dir=scratch)
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", "-Xss32m", "-Xmx12g", "-Djava.io.tmpdir=" + scratch, "-cp", JAR, "tlc2.TLC",
           "-workers", str(workers or int(os.environ.get("MUT_WORKERS", 0)) or min(8, os.cpu_count() or 4)), "-metadir", meta, "-noGenerateSpecTE", "-config", cfg,
           os.path.join(SPEC, module + ".tla")]
    out = os.path.join(scratch, module + tag + ".out")
    with open(out, "w") as f:
        try:
            rc = subprocess.run(cmd, cwd=SPEC, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout).returncode
        except subprocess.TimeoutExpired:
            raise Machinery("TLC on %s ran out of %d s" % (module, timeout))
    shutil.rmtree(meta, ignore_errors=True)
    text = open(out, errors="replace").read()
    m = re.search(r"(\d+) states generated, (\d+) distinct states found, 0 states left", text)
    ok = rc == 0 and "No error has been found" in text and m
    return ok, text, (int(m.group(1)), int(m.group(2))) if m else (0, 0)

def cfg_with(module, consts, invs=None):
    t = open(os.path.join(SPEC, module + ".cfg")).read()
    for k, v in consts.items():
        t, n = re.subn(r"(?m)^(\s*(?:CONSTANTS?\s+)?)%s\s*=.*$" % re.escape(k), lambda m: m.group(1) + "%s = %s" % (k, v), t)
        if n != 1:
            raise Machinery("constant %s not in %s.cfg" % (k, module))
    return t

def run_models(spec, tier, seed, scratch):
    cases, st, tr, info = [], 0, 0, []
    for i, m in enumerate(spec.get("models", [])):
        consts = dict(m.get("const", {}))
        if tier == "thorough":
            consts.update(m.get("thorough", {}))
        t0 = time.time()
        ok, text, (g, d) = tlc(m["module"], cfg_with(m["module"], consts), scratch, timeout=850 if tier == "quick" else 7200, tag="_%d" % i,
                               workers=m.get("workers"))
        if not ok:
            tail = "\n".join(l for l in text.splitlines() if not l.startswith('"CASE'))[-2500:]
            raise Machinery("model %s failed:\n%s" % (m["module"], tail))
        st += d; tr += g
        seen = set()
        for l in text.splitlines():
            if l.startswith('"CASE '):
                seen.add(json.loads(l)[5:])
        got = [json.loads(x) for x in sorted(seen)]
        for c in got:
            c["_m"] = m["module"]
        cases += got
        info.append({"model": m["module"], "constants": consts, "states": d, "transitions": g, "cases": len(got), "s": round(time.time() - t0, 1)})
    return cases, st, tr, info

def run_driver(pid, spec, tier, seed, cases, scratch):
    cf, out = os.path.join(scratch, "cases.json"), os.path.join(scratch, "trace.ndjson")
    json.dump(cases, open(cf, "w"))
    e = dict(os.environ)
    e.update({"PYTHONPATH": "/repo/src:" + os.path.join(HERE, "py"), "PYTHONPYCACHEPREFIX": os.path.join(scratch, "pyc"),
              "PYTHONDONTWRITEBYTECODE": "1", "OPENBLAS_NUM_THREADS": "1", "PYTHONHASHSEED": "0", "TMPDIR": scratch, "HOME": scratch})
    mod, fn = spec["driver"].split(":")
    p = subprocess.run([PY, "-B", os.path.join(HERE, "py", "drive.py"), pid, mod, fn, tier, str(seed), cf, out],
                       cwd=scratch, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                       timeout=700 if tier == "quick" else 6000)
    return p.returncode, p.stdout, out

TRACE_CFG = "SPECIFICATION Spec\nPOSTCONDITION AllConsumed\nCHECK_DEADLOCK FALSE\n"

def judge(path, scratch, tier, module, depth=0):
    """-> (rejects [(session index, event index, clauses)], states, generated)"""
    lines = open(path).read().splitlines()
    if not lines:
        return [], 0, 0
    ok, text, (g, d) = tlc(module, TRACE_CFG, scratch, env={"TRACE": path}, tag="_j%d" % depth, timeout=850 if tier == "quick" else 7200)
    rej = []
    for l in text.splitlines():
        if l.startswith('"REJECT '):
            _, s, i, cl = json.loads(l).split(" ", 3)
            rej.append((int(s) - 1, int(i) - 1, json.loads(cl)))
    if ok:
        return sorted(set((s, i, tuple(c)) for s, i, c in rej)), d, g
    # a recorded value no correct answer can have leaves the judge without a meaning for it; anything
    # else that goes wrong here is the machinery's fault
    if not re.search(r"[Oo]verflow|out of the range|Attempted to |index out of bounds|non-enumerable|outside its domain", text) \
            or "Parsing or semantic analysis failed" in text:
        raise Machinery("trace validation failed:\n" + "\n".join(l for l in text.splitlines() if not l.startswith('"REJECT'))[-2500:])
    # isolate it
    if len(lines) == 1:
        ev = json.loads(lines[0])["ev"]
        if len(ev) == 1 or depth > 40:
            return [(0, 0, ("answer is outside any meaningful range",))], 0, 0
        half = None
    res, D, G = [], 0, 0
    if len(lines) > 1:
        n = max(1, len(lines) // 4)
        parts = [(k, lines[k:k + n]) for k in range(0, len(lines), n)]
        for k, part in parts:
            p2 = os.path.join(scratch, "part%d_%d.ndjson" % (depth, k))
            open(p2, "w").write("\n".join(part) + "\n")
            r, d, g = judge(p2, scratch, tier, module, depth + 1)
            res += [(s + k, i, c) for s, i, c in r]; D += d; G += g
            if len(res) > 30:
                break
    else:
        sess = json.loads(lines[0])
        if sess.get("stateful"):
            return [(0, 0, ("session leaves the meaningful range",))], 0, 0
        for k, one in enumerate(sess["ev"]):
            p2 = os.path.join(scratch, "one%d.ndjson" % depth)
            open(p2, "w").write(json.dumps(dict(sess, ev=[one])) + "\n")
            r, d, g = judge(p2, scratch, tier, module, depth + 1)
            res += [(0, k, c) for s, i, c in r]; D += d; G += g
            if res:
                break
    return res, D, G

def input_key(e):
    return hashlib.sha1(json.dumps({k: v for k, v in e.items() if k not in ("r", "post")}, sort_keys=True).encode()).hexdigest()[:12]

def known(pid):
    out = {}
    f = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"finding: property=(\S+) input=(\S+) (.*)", l)
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3).strip()
    return out

def main():
    pid = sys.argv[1]
    spec = REG[pid]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="vc_%s_" % pid, dir="/tmp")
    evdir = os.path.join(HERE, "evidence")
    os.makedirs(os.path.join(evdir, "replay"), exist_ok=True)
    try:
        module = spec.get("trace", "Trace")
        if "--replay" in sys.argv:
            rp = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
            p = os.path.join(scratch, "replay.ndjson")
            with open(p, "w") as f:
                for r in rp["rejects"]:
                    f.write(json.dumps(r["session"] if "session" in r else {"ev": [r["event"]]}) + "\n")
            rej, _, _ = judge(p, scratch, tier, module)
            for r in rej:
                print("REJECT", r)
            return 1 if rej else 0
        cases, st, tr, info = run_models(spec, tier, seed, scratch)
        rc, log, out = run_driver(pid, spec, tier, seed, cases, scratch)
        viol = []
        stats = {}
        m = re.search(r"(?m)^STATS (.*)$", log)
        if m:
            stats = json.loads(m.group(1))
        if rc != 0:
            if "IMPL-BROKEN" in log or rc < 0 or rc >= 128:
                viol.append({"clauses": ["the implementation could not be driven"], "log": log[-3000:], "rc": rc})
            else:
                raise Machinery("driver failed (%d):\n%s" % (rc, log[-3000:]))
        # what was recorded is judged even if the driver was cut short
        if os.path.exists(out) and rc != 0:
            good = []
            for l in open(out):
                try:
                    json.loads(l); good.append(l.rstrip("\n"))
                except Exception:
                    pass
            open(out, "w").write("".join(g + "\n" for g in good))
        rej, jst, jtr = judge(out, scratch, tier, module) if os.path.exists(out) else ([], 0, 0)
        lines = open(out).read().splitlines() if os.path.exists(out) else []
        kn = known(pid)
        harness = [r for r in rej if any(c.startswith("HARNESS") for c in r[2])]
        if harness and not [r for r in rej if not any(c.startswith("HARNESS") for c in r[2])]:
            s, i, c = harness[0]
            raise Machinery("%s: %s" % (c, json.dumps(json.loads(lines[s])["ev"][i])[:1500]))
        for s, i, c in rej:
            sess = json.loads(lines[s]); e = sess["ev"][i]
            k = input_key(e)
            if k in kn:
                print("KNOWN-FINDING: property=%s %s" % (pid, kn[k]))
                continue
            d = {"clauses": list(c), "key": k, "event": e}
            if sess.get("stateful"):
                d["session"] = dict(sess, ev=sess["ev"][:i + 1])
            viol.append(d)
        samples = []
        for l in lines[:: max(1, len(lines) // 4)][:4]:
            ev = json.loads(l)["ev"]
            samples.append(ev[len(ev) // 2])
        evidence = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking",
                    "coverage": {"states": st + jst, "transitions": tr + jtr, "traces_validated_against_impl": len(lines),
                                 "recorded_calls": sum(len(json.loads(l)["ev"]) for l in lines), "model_cases_replayed": len(cases),
                                 "models": info, "operations": stats, "samples": samples},
                    "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
        json.dump(evidence, open(os.path.join(evdir, pid + ".json"), "w"), indent=1)
        if viol:
            rp = os.path.join(evdir, "replay", "%s.json" % pid)
            json.dump({"property": pid, "tier": tier, "seed": seed, "module": module, "rejects": viol[:40], "total": len(viol)}, open(rp, "w"), indent=1)
            seen = {}
            for v in viol:
                for c in v["clauses"]:
                    kk = (v.get("event", {}).get("op", "-"), c)
                    seen[kk] = seen.get(kk, 0) + 1
            for (op, c), n in sorted(seen.items(), key=lambda x: -x[1])[:12]:
                print("  %s: %s (%d)" % (op, c, n))
            print("VIOLATION property=%s replay=%s" % (pid, rp))
            return 1
        print("%s held: %d model states, %d sessions, %d recorded calls judged, %.1f s" % (pid, st, len(lines), evidence["coverage"]["recorded_calls"], time.time() - t0))
        return 0
    except Machinery as e:
        print("ERROR property=%s %s" % (pid, e))
        return 2
    except subprocess.TimeoutExpired as e:
        print("VIOLATION property=%s replay=%s" % (pid, "driver-timeout") if False else "ERROR property=%s driver ran out of time" % pid)
        return 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

if __name__ == "__main__":
    sys.exit(main())
