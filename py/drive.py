"""drive.py <pid> <module> <function> <tier> <seed> <cases.json> <out.ndjson>"""
import sys, json, traceback, importlib, faulthandler
faulthandler.enable()
class Hung(Exception): pass
pid, mod, fn, tier, seed, cf, out = sys.argv[1:8]
try:
    import general_robotics_toolbox as rox
    assert rox.__file__.startswith("/repo/src/"), rox.__file__
    from vlib import Recorder, Hung
    import warnings
    warnings.simplefilter("ignore")
    import numpy as np
    np.seterr(all="ignore")
    m = importlib.import_module(mod)
    rec = Recorder(out, pid, tier, int(seed))
    try:
        getattr(m, fn)(rec, json.load(open(cf)))
    finally:
        rec.close()
    print("STATS " + json.dumps(rec.stats))
except Hung:
    print("IMPL-BROKEN calls do not come back")
    sys.stdout.flush()
    sys.exit(3)
except Exception as e:
    tb = traceback.extract_tb(e.__traceback__)
    traceback.print_exc(file=sys.stdout)
    if any(f.filename.startswith("/repo/src/") for f in tb) or isinstance(e, (SyntaxError,)):
        print("IMPL-BROKEN")
    elif isinstance(e, ImportError):
        print("IMPL-BROKEN import")
    sys.stdout.flush()
    sys.exit(3)
