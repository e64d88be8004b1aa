"""One fresh interpreter: runs cases of a property and prints one JSON line per case.

  worker.py PROP batch SEED TIER START STEP END DEADLINE     cases START, START+STEP, ...
  worker.py PROP serve                                       cases read from stdin
"""
import importlib
import json
import os
import random
import resource
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path = [p for p in sys.path if os.path.abspath(p or ".") != os.path.join(HERE, "sim")]


def case_for(prop, seed, tier, idx):
    r = random.Random()
    r.seed("%s/%s/%s" % (prop.ID, seed, idx))
    c = prop.gen(r, idx, tier)
    c["seed"] = "%s-%s-%s" % (prop.ID, seed, idx)
    return json.loads(json.dumps(c))


def main():
    out = os.fdopen(os.dup(1), "w", buffering=1)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    sys.stdout = os.fdopen(1, "w")
    sys.setswitchinterval(1.0)
    threading.stack_size(4 << 20)       # hundreds of simulated processes at once
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    name, mode = sys.argv[1], sys.argv[2]
    repo = os.environ.get("CTBN_REPO", "/repo")
    scratch = tempfile.mkdtemp(prefix="ctbn-")
    from sim import seams, simfs, case as C, kernel as K

    def emit(o):
        out.write(json.dumps(o) + "\n")
        out.flush()
    try:
        try:
            simfs.install()
            seams.load_package(repo)
        except BaseException as e:
            import traceback
            emit({"fatal": "import: %s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-2000:])})
            return
        prop = importlib.import_module("props." + name.lower())
        emit({"ready": True})
        if mode == "serve":
            for line in sys.stdin:
                emit(C.run_case(prop, json.loads(line), scratch))
            return
        seed, tier, start, step, end, deadline = (sys.argv[3], sys.argv[4], *map(int, sys.argv[5:8]),
                                                  float(sys.argv[8]))
        i = start
        while i < end and time.time() < deadline:
            c = case_for(prop, seed, tier, i)
            emit({"begin": i})
            r = C.run_case(prop, c, scratch)
            r["idx"] = i
            if not r["ok"] or i < 3:
                r["case"] = c
            emit(r)
            i += step
        emit({"finished": True})
    finally:
        os.chdir("/")
        import shutil
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    main()
