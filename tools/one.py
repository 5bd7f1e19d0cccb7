"""Runs one family against the client and prints what the observer says:
tools/one.py FAMILY NUMBER [SEED] [only SCENARIO]"""
import collections
import json
import os
import sys
import time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import runner
import scen
fam, n = sys.argv[1], int(sys.argv[2])
seed = int(sys.argv[3]) if len(sys.argv) > 3 else 1
w = runner.Work()
try:
    wire = runner.gen_wire(w) if fam.startswith(("wire", "fuzz", "cuts", "end")) else None
    ctx = scen.Ctx(seed, os.environ.get("VERIF_TIER", "quick"), {}, wire)
    ctx.connect = runner.gen_connect(w, False) if fam == "connect" else None
    scs = scen.FAMS[fam](ctx, n)
    if len(sys.argv) > 4:
        scs = [s for s in scs if s["id"] == sys.argv[4]]
    b = runner.build()
    p, tr = w.path("s.ndjson"), "/tmp/one-%s.ndjson" % fam
    scen.dump(scs, p)
    t = time.time()
    c = runner.run_harness(b, p, tr, len(scs))
    t1 = time.time()
    v, k = runner.judge(w, tr)
    cnt = collections.Counter(json.loads(l)["e"] for l in open(tr))
    kb = max([json.loads(l)["kb"] for l in open(tr) if '"e":"Settle"' in l] + [0])
    print(fam, len(scs), "crashes", c, "run %.1f judge %.1f" % (t1 - t, time.time() - t1), "events", k, "max kb", kb, dict(cnt))
    for x in v:
        print("VIOL", x)
finally:
    w.close()
