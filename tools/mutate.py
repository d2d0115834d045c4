"""Systematic small mutations of /repo's sources, to look for gaps: those that compile and pass the stable tests are put to the checks.

usage: mutate.py gen SEED > list.json;  mutate.py run LIST WORKER WORKERS OUT.jsonl   (scratch copy /tmp/mutWORKER)"""
import json, os, random, re, subprocess, sys, shutil
FILES = {"src/lib.rs": None, "src/float.rs": ["C14"], "src/string.rs": ["C16", "C17", "C18"], "src/serde.rs": ["C19", "C20"], "src/const_fn.rs": ["C25", "C28"],
         "src/macros.rs": ["C26", "C25"], "src/ops/mod.rs": ["C01", "C02", "C05", "C28"], "src/ops/sqrt.rs": ["C08", "C13"], "src/i256/mod.rs": ["C13"], "src/i256/u256.rs": ["C13"],
         "src/power_table.rs": ["C09", "C14"], "src/parity.rs": ["C21"], "src/errors.rs": ["C22"]}
LIB = [(r"COEF|PRECISION|EPSILON|ZERO|ONE\b|MIN|MAX", ["C28"]), ("fn rmul", ["C03"]), ("fn rdiv", ["C04"]), ("RoundingDiv<", ["C05"]), ("CheckedAdd|CheckedSub|CheckedMul", ["C01", "C02"]), ("fn signum", ["C27"]), ("fn recip", ["C05"]),
       ("fn cneg|fn abs", ["C01"]), ("fn half_sum", ["C07"]), ("fn integral|fn floor|fn ceil|fn round\\(", ["C06"]), ("fn round_towards", ["C10"]), ("fn next_power", ["C09"]), ("fn rsqrt", ["C08"]),
       ("fmt::Debug|fmt::Display", ["C17"]), ("fn from_decimal|fn to_decimal", ["C11"]), ("for f64 \\{", ["C15"]), ("TryFrom<\\$try_from>", ["C12"]), ("derive\\(", ["C27"]), ("fn from_bits|fn as_bits|fn into_bits", ["C27"])]
OPS = [(r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "), (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r" / ", " * "), (r" % ", " / "),
       (r" && ", " || "), (r" \|\| ", " && "), (r"\+= ", "-= "), (r"-= ", "+= "), (r"\bmin\b", "max"), (r"\bmax\b", "min"), (r"<<", ">>"), (r">>", "<<"), (r" & ", " | "), (r" \| ", " & "), (r" < ", " > "), (r" >= ", " < "),
       (r"leading_zeros", "trailing_zeros"), (r"trailing_zeros", "leading_zeros"), (r"if !", "if "), (r"return Err\(([^;]*)\);", r";"), (r"true", "false"), (r"false", "true"), (r"Floor", "Ceil"), (r"Ceil", "Floor"), (r"Nearest", "Floor"),
       (r"MAX\b", "MIN"), (r"MIN\b", "MAX"), (r"\.abs\(\)", ""), (r"unsigned_abs\(\)", "wrapping_abs() as _"), (r"checked_add\((\w+)\)", r"wrapping_add(\1).into()"), (r"-1\b", "1"), (r"\.rev\(\)", ""), (r"signum\(\)", "abs()"), (r" as i32", " as i8 as i32"), (r" as u32", " as u8 as u32"),
       (r" as i64\b", " as i32 as i64"), (r" as u64\b", " as u32 as u64"), (r" as u128\b", " as u64 as u128"), (r" as f64\b", " as f32 as f64"), (r"wrapping_", "saturating_"), (r"saturating_", "wrapping_"), (r"\.trim\(\)", ""), (r"cneg\(\)\?", "abs()?"), (r"i128", "i64"), (r"u128", "u64")]


def gen(seed):
    out = []
    for f in FILES:
        lines = open("/repo/" + f).read().split("\n")
        props, intest, comment = FILES[f], False, False
        for n, l in enumerate(lines):
            s = l.strip()
            if s.startswith("/*") and "*/" not in s:
                comment = True
            if comment:
                comment = "*/" not in s
                continue
            if s in ("};", "}") or s.startswith("impl_") or " - Clone" in l:
                continue
            if "#[cfg(test)]" in l or "#[test]" in l:
                intest = True
            if intest or s.startswith(("//", "#", "use ", "pub use", "///", "mod ")) or not s:
                continue
            if f == "src/lib.rs":
                for p, ps in LIB:
                    if re.search(p, l):
                        props = ps
                        break
                if props is None:
                    continue
            if f == "src/power_table.rs" and re.match(r"\s*/\*", l) and random.Random(l).random() > 0.05:
                continue
            seen = set()

            def add(new, what):
                strip = lambda x: re.sub(r"/\*.*?\*/|//.*", "", x).strip()
                if what != "statement removed" and strip(new) == strip(l):
                    return
                if "<" in what and re.search(r">>|<<", what) and "Self" in l or " - " in new and " + " in l and re.search(r"[a-z]: |TryFrom", l) and "let" not in l:
                    return
                if new != l and new not in seen:
                    seen.add(new)
                    out.append({"f": f, "n": n, "old": l, "new": new, "what": what, "props": props})
            for a, b in OPS:
                for m in re.finditer(a, l):
                    add(l[:m.start()] + re.sub(a, b, m.group()) + l[m.end():], a.strip() + " -> " + b.strip())
            code = re.sub(r"^\s*/\*.*?\*/", lambda m: " " * len(m.group()), l)
            for m in re.finditer(r"(?<![\w.])\d[\d_]*(?![\w.])", code):
                v = int(m.group().replace("_", ""))
                add(l[:m.start()] + str(v + 1) + l[m.end():], "constant + 1")
                if v:
                    add(l[:m.start()] + str(v - 1) + l[m.end():], "constant - 1")
            if s.endswith(";") and not s.startswith(("let", "const", "static", "type", "return", "pub")) and "(" + ")" not in s[:2]:
                add("/* " + s.replace("/*", "").replace("*/", "") + " */", "statement removed")
    random.Random(seed).shuffle(out)
    json.dump(out, sys.stdout, indent=0)


def sh(c, **k):
    return subprocess.run(c, shell=True, executable='/bin/bash', text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


def run(lst, w, ws, outp):
    L = json.load(open(lst))
    scr = "/tmp/mut%d" % w
    if not os.path.exists(scr):
        subprocess.check_call(["cp", "-a", "/repo", scr])
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    done = set()
    if os.path.exists(outp):
        done = {json.loads(x)["i"] for x in open(outp)}
    env = dict(os.environ)
    for nm in ("env", "build", "test"):
        t = open("/opt/vp/%s.sh" % nm).read().replace("/repo", scr).replace("/opt/vp/env.sh", "/tmp/mut%denv.sh" % w)
        open("/tmp/mut%d%s.sh" % (w, nm), "w").write(t)
    res = "/tmp/mut%dout.json" % w
    ver = "/tmp/vmut%d" % w                # the checks as committed, with a work folder of their own
    if not os.path.exists(ver):
        subprocess.check_call(["git", "clone", "-q", "/verif", ver])
        sh("python3 -m sa.setup", cwd=ver)
    for i, m in enumerate(L):
        if i % ws != w or i in done:
            continue
        sh("git -C %s checkout -q -- ." % scr)
        p = os.path.join(scr, m["f"])
        ls = open(p).read().split("\n")
        assert ls[m["n"]] == m["old"]
        ls[m["n"]] = m["new"]
        open(p, "w").write("\n".join(ls))
        r = dict(m, i=i)
        # the library, then the fastest set of tests, then all of them
        if sh(". /tmp/mut%denv.sh; cargo check --offline --all-features --lib" % w).returncode:
            r["r"] = "does not compile"
        elif sh(". /tmp/mut%denv.sh; timeout 120 cargo test --offline --all-features --lib --test it -- --skip const_ctor" % w).returncode:
            r["r"] = "tests"
        else:
            if os.path.exists(res):
                os.unlink(res)
            sh("bash /tmp/mut%dbuild.sh && bash /tmp/mut%dtest.sh %s" % (w, w, res))
            got = set(json.load(open(res))["passed"]) if os.path.exists(res) else set()
            if base - got:
                r["r"] = "tests"
            else:
                r["r"] = "MISSED"
                r["checks"] = {}
                for c in m["props"]:
                    x = sh("python3 -m sa.main %s --tier quick" % c, cwd=ver, env=dict(os.environ, FIXNUM_REPO=scr))
                    last = [y for y in x.stdout.splitlines() if " quick:" in y]
                    r["checks"][c] = [x.returncode, last[-1][-120:] if last else x.stdout[-200:]]
                    if x.returncode == 1 and "VIOLATION" in x.stdout:
                        r["r"] = "caught"
                        r["by"] = c
                        break
        open(outp, "a").write(json.dumps(r) + "\n")
    sh("git -C %s checkout -q -- ." % scr)


if __name__ == "__main__":
    if sys.argv[1] == "gen":
        gen(int(sys.argv[2]))
    else:
        run(sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), sys.argv[5])
