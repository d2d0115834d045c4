"""Run the check of each planted bug's property on a scratch copy with the bug: python3 tools/runseeds.py [ids...] [--prop Cxx]"""
import json, os, subprocess, sys, time
SCR = os.environ.get("SEED_SCR", "/tmp/seedscratch")
ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(x for x in os.listdir("/verif/seeded") if os.path.exists("/verif/seeded/%s/meta.json" % x))
if not os.path.exists(SCR):
    subprocess.check_call(["cp", "-a", "/repo", SCR])
for i in ids:
    d = "/verif/seeded/" + i
    prop = json.load(open(d + "/meta.json"))["property"]
    subprocess.run("git checkout -q -- . && git fetch -q /repo && git reset -q --hard FETCH_HEAD && git apply %s/patch.diff" % d, shell=True, cwd=SCR, check=True)
    t = time.time()
    r = subprocess.run(["python3", "-m", "sa.main", prop, "--tier", "quick"], cwd="/verif", env=dict(os.environ, FIXNUM_REPO=SCR), text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    hit = "VIOLATION property=%s " % prop in r.stdout
    R = "/verif/tools/seed_results.json"
    res = json.load(open(R)) if os.path.exists(R) else {}
    res[i] = "caught" if hit and r.returncode == 1 else "missed"
    json.dump(res, open(R, "w"), indent=0, sort_keys=True)
    print(i, prop, "CAUGHT" if hit and r.returncode == 1 else "missed rc=%d" % r.returncode, "%.0fs" % (time.time() - t))
    for l in r.stdout.splitlines()[:40]:
        if l.startswith("  ") or "quick:" in l:
            print("     ", l[:220])
            if "undecided" not in l and l.startswith("  at"):
                break
subprocess.run("git checkout -q -- .", shell=True, cwd=SCR)
