"""Plant a bug: python3 tools/seed.py <dir with spec.py>... Each spec.py defines PROP, NEEDS, BREAKS, EDITS=[(file, old, new)],
MAIN (Rust program), optional FEATURES, DEPS. Confirms it in a scratch copy and writes /verif/seeded/<id>/."""
import json, os, subprocess, sys, shutil
SCR = os.environ.get("SEED_SCR", "/tmp/seedscratch")
DEMO = '''#!/bin/bash
# builds and runs the small program beside this file against the crate in the current directory
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d /tmp/demo.XXXXXX)
trap 'find "$d" -delete' EXIT
mkdir "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cp "$repo/Cargo.lock" "$d/Cargo.lock" 2> /dev/null || true
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
fixnum = { path = "$repo", default-features = %(default)s, features = [%(features)s] }
%(deps)s
[workspace]
%(profile)s
T
cd "$d"
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$d/target"
cargo %(tool)sbuild --offline --quiet %(rel)s 2> "$d/log" || { cat "$d/log"; exit %(buildfail)s; }
timeout 60 "$d/target/%(kind)s/demo"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def run(id, spec, tests=True):
    g = {}
    exec(open(spec).read(), g)
    out = "/verif/seeded/" + id
    os.makedirs(out, exist_ok=True)
    rel = g.get("RELEASE", False)
    demo = DEMO % dict(default="true" if g.get("DEFAULT", True) else "false", features=", ".join('"%s"' % f for f in g.get("FEATURES", ["i16", "i32", "i64", "i128"])),
                       deps=g.get("DEPS", ""), rel="--release" if rel else "", kind="release" if rel else "debug", tool="", buildfail=g.get("BUILDFAIL", 2), profile=g.get("PROFILE", ""))
    open(out + "/demo.sh", "w").write(g.get("DEMO") or demo)
    os.chmod(out + "/demo.sh", 0o755)
    if "MAIN" in g:
        open(out + "/main.rs", "w").write(g["MAIN"])
    json.dump({"property": g["PROP"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(out + "/meta.json", "w"), indent=1)
    if not os.path.exists(SCR):
        subprocess.check_call(["cp", "-a", "/repo", SCR])
    sh("git -C %s checkout -q -- . && git -C %s fetch -q /repo && git -C %s reset -q --hard FETCH_HEAD" % (SCR, SCR, SCR))
    for f, a, b in g["EDITS"]:
        p = os.path.join(SCR, f)
        s = open(p).read()
        n = g.get("COUNT", 1)
        assert s.count(a) == n, (id, f, a, s.count(a))
        open(p, "w").write(s.replace(a, b))
    patch = sh("git -C %s diff" % SCR).stdout
    open(out + "/patch.diff", "w").write(patch)
    r = sh("bash %s/demo.sh" % out, cwd="/repo")
    ok1 = r.returncode == 0
    if not ok1:
        print(id, "demo on the unchanged tree:", r.returncode, r.stdout[-1500:])
    r = sh("bash %s/demo.sh" % out, cwd=SCR)
    ok2 = r.returncode != 0
    print(id, "demo clean", ok1, "demo patched fails", ok2, r.stdout[-200:].replace("\n", " | "))
    ok3 = True
    if tests:
        if os.path.exists("/tmp/seedout.json"):
            os.unlink("/tmp/seedout.json")
        t = sh("sed -e 's#/repo#%s#g' /opt/vp/env.sh > /tmp/seedenv.sh; sed -e 's#/repo#%s#g' -e 's#/opt/vp/env.sh#/tmp/seedenv.sh#' /opt/vp/build.sh > /tmp/seedbuild.sh; sed -e 's#/repo#%s#g' -e 's#/opt/vp/env.sh#/tmp/seedenv.sh#' /opt/vp/test.sh > /tmp/seedtest.sh; bash /tmp/seedbuild.sh && bash /tmp/seedtest.sh /tmp/seedout.json" % (SCR, SCR, SCR))
        base = json.load(open("/opt/vp/BASELINE.json"))
        want = set(base["stable"] if "stable" in base else base.get("passed", base) if isinstance(base, dict) else base)
        try:
            got = set(json.load(open("/tmp/seedout.json"))["passed"])
            missing = want - got
        except Exception as e:
            missing = {"?" + str(e) + t.stdout[-800:]}
        ok3 = not missing
        print(id, "stable tests", "pass" if ok3 else "FAIL %s" % list(missing)[:4])
    sh("git -C %s checkout -q -- ." % SCR)
    if not (ok1 and ok2 and ok3):
        print("REJECTED", id)
        shutil.rmtree(out)
        return False
    return True


if __name__ == "__main__":
    for s in sys.argv[1:]:
        run(os.path.basename(s)[:-3], s)
