"""Build the driver and the harness crates, and produce MIR dumps of the current /repo tree.

Nothing of /repo is executed: cargo *checks* (type-checks) the harness crate, which names the
public API of fixnum at concrete types, and the mirdump driver writes the type-checked program."""
import hashlib, json, os, re, shutil, subprocess, sys, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("FIXNUM_REPO", "/repo")
WORK = os.path.join(VERIF, "work")
NIGHTLY = "nightly"


def env():
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "RUSTDOCFLAGS", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "CARGO_TARGET_DIR",
              "CARGO_BUILD_TARGET", "RUSTUP_TOOLCHAIN", "CARGO_INCREMENTAL"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    e["RUSTUP_AUTO_INSTALL"] = "0"
    e["CARGO_TERM_COLOR"] = "never"
    return e


def sysroot():
    return subprocess.run(["rustc", "+" + NIGHTLY, "--print", "sysroot"], check=True, text=True,
                          stdout=subprocess.PIPE, env=env()).stdout.strip()


class Lock:
    def __init__(self, name):
        os.makedirs(WORK, exist_ok=True)
        self.f = open(os.path.join(WORK, name + ".lock"), "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)


def driver():
    src = os.path.join(VERIF, "driver", "mirdump.rs")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    out = os.path.join(WORK, "bin", "mirdump-" + h)
    with Lock("driver"):
        if not os.path.exists(out):
            os.makedirs(os.path.dirname(out), exist_ok=True)
            r = subprocess.run(["rustc", "+" + NIGHTLY, "--edition", "2021", "-O", "-Awarnings", src, "-o", out + ".tmp"],
                               env=env(), text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode:
                raise SystemExit("driver build failed:\n" + r.stdout)
            os.rename(out + ".tmp", out)
    return out


def repo_hash():
    h = hashlib.sha256()
    for base in ("src", "Cargo.toml"):
        p = os.path.join(REPO, base)
        files = []
        if os.path.isfile(p):
            files = [p]
        else:
            for d, _, fs in os.walk(p):
                files += [os.path.join(d, f) for f in fs]
        for f in sorted(files):
            h.update(f.encode() + b"\0" + open(f, "rb").read() + b"\0")
    return h.hexdigest()[:16]


class BuildError(Exception):
    pass


def cargo_toml(name, features, deps, default_features):
    fx = 'fixnum = {{ path = "{}", default-features = {}, features = [{}] }}'.format(
        REPO, "true" if default_features else "false", ", ".join('"%s"' % f for f in features))
    return ("[package]\nname = \"%s\"\nversion = \"0.0.0\"\nedition = \"2021\"\n\n[lib]\npath = \"lib.rs\"\n\n"
            "[dependencies]\n%s\n%s\n\n[workspace]\n\n[profile.dev]\nincremental = false\ndebug = 1\n" % (name, fx, "\n".join(deps)))


def forget(target):
    """Never trust cargo's freshness cache for the code under analysis."""
    for sub in ("debug/.fingerprint", "debug/build", "debug/deps"):
        fp = os.path.join(target, sub)
        for x in os.listdir(fp) if os.path.isdir(fp) else ():
            if re.match(r"(lib)?(fixnum|vharness)", x):
                p = os.path.join(fp, x)
                shutil.rmtree(p, ignore_errors=True) if os.path.isdir(p) else os.remove(p)


def dump(name, source, features, deps=(), default_features=True, keep=False, release=False):
    """Type-check harness `name` against the current /repo and return the directory with its MIR."""
    drv = driver()
    assert name.startswith("vharness")
    d = os.path.join(WORK, "harness", name)
    out = os.path.join(WORK, "mir", name)
    target = os.path.join(WORK, "target-rel" if release else "target")
    with Lock("cargo"):
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(d)
        os.makedirs(out)
        open(os.path.join(d, "Cargo.toml"), "w").write(cargo_toml(name, features, deps, default_features))
        open(os.path.join(d, "lib.rs"), "w").write(source)
        lock = os.path.join(VERIF, "driver", "Cargo.lock.harness")
        if os.path.exists(lock):
            shutil.copy(lock, os.path.join(d, "Cargo.lock"))
        forget(target)
        e = env()
        e["CARGO_TARGET_DIR"] = target
        e["RUSTFLAGS"] = "-Zalways-encode-mir -Zmir-opt-level=0 -Coverflow-checks=%s -Cdebug-assertions=%s -Awarnings" % (("off",) * 2 if release else ("on",) * 2)
        e["RUSTC_WORKSPACE_WRAPPER"] = drv
        e["MIRDUMP_OUT"] = out
        e["LD_LIBRARY_PATH"] = os.path.join(sysroot(), "lib") + ":" + e.get("LD_LIBRARY_PATH", "")
        r = subprocess.run(["cargo", "+" + NIGHTLY, "check", "--offline", "--quiet"], cwd=d, env=e, text=True,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode or not os.path.exists(os.path.join(out, "roots.jsonl")):
            raise BuildError(r.stdout[-6000:])
    return out
