"""Runs every check of the registry and prints one line each: python3 tools/all.py [tier] [Cxx...]"""
import subprocess, sys
sys.path.insert(0, "/verif")
tier = next((a for a in sys.argv[1:] if a in ("quick", "thorough")), "quick")
from sa.props.registry import PROPS
for p in [a for a in sys.argv[1:] if a[0] == "C"] or sorted(PROPS):
    r = subprocess.run([sys.executable, "-m", "sa.main", p, "--tier", tier], cwd="/verif", text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    print(r.returncode, [l for l in r.stdout.splitlines() if ("%s: " % tier) in l or "VIOLATION" in l or "KNOWN" in l], flush=True)
