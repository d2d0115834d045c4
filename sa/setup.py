"""setup_cmd: builds the MIR driver and warms the dependency build (offline)."""
from . import build
if __name__ == "__main__":
    print("driver", build.driver())
    for cfg, (f, d) in __import__("sa.main", fromlist=["CFG"]).CFG.items():
        try:
            print(cfg, build.dump("vharness_setup", "#![allow(unused_imports)]\nuse fixnum as _;\n", f, default_features=d))
        except build.BuildError as e:
            print("note: configuration %s does not type-check: %s" % (cfg, str(e)[-500:]))
    from .props import types
    try:
        print("types", types.check("vharness_setup_types", []))
    except Exception as e:
        print("note:", e)
