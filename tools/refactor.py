"""Behaviour-preserving edits: apply each to a scratch copy and demand silence.

usage: refactor.py [ids...]     results in tools/refactor_results.json
Each spec in refactors/*.py: CHECKS = [...], EDITS = [(file, old, new), ...]
"""
import json, os, re, shutil, subprocess, sys, importlib.util, glob
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
COPY = "/tmp/refscratch"

def load(p):
    s = importlib.util.spec_from_file_location("r", p)
    m = importlib.util.module_from_spec(s); s.loader.exec_module(m); return m

def main():
    ids = sys.argv[1:]
    if not os.path.isdir(COPY):
        subprocess.run(["cp", "-a", "/repo", COPY], check=True)
    subprocess.run(["git", "-C", COPY, "fetch", "-q", "/repo"], check=True)
    subprocess.run(["git", "-C", COPY, "reset", "-q", "--hard", "FETCH_HEAD"], check=True)
    resp = os.path.join(HERE, "refactor_results.json")
    res = json.load(open(resp)) if os.path.exists(resp) else {}
    for p in sorted(glob.glob(os.path.join(HERE, "refactors", "*.py"))):
        i = os.path.basename(p)[:-3]
        if ids and i not in ids: continue
        m = load(p)
        subprocess.run(["git", "-C", COPY, "checkout", "-q", "--", "."], check=True)
        bad = False
        for f, old, new in m.EDITS:
            fp = os.path.join(COPY, f); t = open(fp).read()
            n = t.count(old)
            if n < 1: print(i, "EDIT DOES NOT APPLY:", f, old[:60]); bad = True; break
            open(fp, "w").write(t.replace(old, new))
        if bad: continue
        if getattr(m, "BUILD", True):
            r = subprocess.run(["cargo", "check", "-q", "--offline", "--all-features"], cwd=COPY, capture_output=True, text=True)
            if r.returncode:
                print(i, "DOES NOT BUILD", r.stderr[-1500:]); continue
        for c in m.CHECKS:
            env = dict(os.environ, FIXNUM_REPO=COPY, VERIF_SEED="1")
            r = subprocess.run([sys.executable, "-m", "sa.main", c, "--tier", "quick"], cwd=ROOT, env=env, capture_output=True, text=True)
            out = (r.stdout + r.stderr).strip().split("\n")
            last = next((l for l in out if "obligations discharged" in l), out[-1])[:200]
            und = [l for l in out if "undecided: {" in l]
            if und: last += "  FIRST " + und[0][:300]
            flag = "" if r.returncode == 0 else "  <<<<<< ALARM"
            print(f"{i} {c} rc={r.returncode} {last}{flag}", flush=True)
            if r.returncode:
                print("   ", "\n    ".join(l[:300] for l in out if "VIOLATION" in l or "counter" in l or "rror" in l)[:1500], flush=True)
            res.setdefault(i, {})[c] = [r.returncode, last]
            json.dump(res, open(resp, "w"), indent=1, sort_keys=True)
    subprocess.run(["git", "-C", COPY, "checkout", "-q", "--", "."], check=True)
main()
