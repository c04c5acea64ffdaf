"""Run the checks against the planted bugs, each in a mount namespace of its own (root, unshare -m): /repo is not touched.
usage: seedrun.py [-j N] [--demo] [id ...]"""
import sys, os, json, subprocess, shutil, argparse
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def one(i, demo):
    d = V + "/seeded/" + i
    c = "/tmp/seedrun/" + i
    shutil.rmtree(c, ignore_errors=True)
    os.makedirs(c)
    subprocess.run(["cp", "-a", "/repo/.", c + "/repo"], check=True)
    r = subprocess.run(["git", "apply", d + "/patch.diff"], cwd=c + "/repo", capture_output=True, text=True)
    if r.returncode:
        return i, "DOES NOT APPLY " + r.stderr
    prop = json.load(open(d + "/meta.json"))["property"]
    e = dict(os.environ, MUT_WORKERS="3", CHECK_OUT=c)
    def ns(cmd):
        return subprocess.run(["unshare", "-m", "sh", "-c", "mount --bind %s/repo/src /repo/src && %s" % (c, cmd)], capture_output=True, text=True, env=e)
    out = ""
    if demo:
        a = subprocess.run("cd /repo && bash %s/demo.sh" % d, shell=True, capture_output=True).returncode
        b = ns("cd /repo && bash %s/demo.sh" % d).returncode
        t = ns("cd /repo && /opt/venv/bin/python -m pytest -q test 2>&1 | tail -1").stdout.strip()
        out = " demo %d/%d tests %s" % (a, b, t)
    r = ns("python3 %s/check.py %s" % (V, prop))
    shutil.rmtree(c)
    v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
    return i, ("caught" if r.returncode == 1 and v else "MISSED rc=%d %s" % (r.returncode, (r.stdout + r.stderr)[-300:])) + " by " + prop + out
ap = argparse.ArgumentParser()
ap.add_argument("-j", type=int, default=3); ap.add_argument("--demo", action="store_true"); ap.add_argument("ids", nargs="*")
a = ap.parse_args()
ids = a.ids or sorted(os.listdir(V + "/seeded"))
with ThreadPoolExecutor(a.j) as ex:
    for r in ex.map(lambda i: one(i, a.demo), ids):
        print(*r, flush=True)
