#!/usr/bin/env python3
"""replay.py FILE [repetitions]: executes the script of a reported violation again on the code in
/repo (or VERIF_REPO) and lets TLC validate the new histories.  Concurrent scripts with a plan are
deterministic; others are repeated (default 20).  Exit 1: violated again, 0: not seen again."""
import glob, json, shutil, sys, tempfile, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import *


def main():
    r = json.load(open(sys.argv[1]))
    script = r.get("script")
    print("recorded:", r["what"])
    if not script:
        raise SystemExit("no script is recorded")
    sub = r.get("sub") or {"bulk": "bulk", "trace": "script"}.get(r["kind"], "conc")
    sub = {"ctl": "conc", "seq": "script"}.get(sub, sub)
    reps = sys.argv[2] if len(sys.argv) > 2 else "1" if sub == "script" else "20"
    d = tempfile.mkdtemp(prefix="verif-replay")
    try:
        print("build:", build(d))
        f = d + "/x.in"
        open(f, "w").write(json.dumps(script) + "\n")
        p = Proc([d + "/drv", sub, "-prop", r["property"], "-in", f, "-dir", d, "-name", "x", "-reps", reps, "-limit", "60s"],
                 env=goenv_run(), timeout=900)
        if p.rc or '"hung"' in p.out:
            print("violated again:", "a call does not return" if p.rc == 0 else p.err[:3000])
            return 1
        rc = 0
        for t in glob.glob(d + "/x*.ndjson"):
            if not os.path.getsize(t):
                continue
            spec = "TraceBulk" if sub == "bulk" else "TraceLin" if ".lin." in t else "TraceSeq"
            q = tlc(spec + ".tla", spec + ".cfg", env=dict(TRACEFILE=t), workers=4, timeout=900)
            print(spec, sum(1 for _ in open(t)), "histories:", "accepted" if tlc_ok(q) else "REJECTED")
            if not tlc_ok(q):
                print("\n".join(l for l in q.out.split("\n") if l.startswith("/\\"))[-1500:])
                rc = 1
        return rc
    finally:
        shutil.rmtree(d, ignore_errors=True)


sys.exit(main())
