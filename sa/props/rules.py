"""Rules over the dumped program (queries that are not path analyses)."""
import re
from . import common


class RuleResult:
    def __init__(self):
        self.sites, self.violations, self.undecided = [], [], []
        self.n = self.ok = 0

    def site(self, what, good):
        self.n += 1
        self.ok += bool(good)
        self.sites.append(what)


UNSAFE = re.compile(r"get_unchecked|from_utf8_unchecked|transmute|mut_ptr::.*::(offset|add|sub|write|read|copy\w*)|const_ptr::.*::(offset|add|sub|read)|ptr::(read|write|copy)|from_raw_parts|unwrap_unchecked|unchecked_(add|sub|mul|shl|shr|neg|div|rem)|assume_init|unreachable_unchecked|set_len")


def derefs(fn, d, x, out):
    """Dereferences of raw pointers inside places of a statement or terminator."""
    if isinstance(x, list):
        for y in x:
            derefs(fn, d, y, out)
    elif isinstance(x, dict):
        for y in x.values():
            derefs(fn, d, y, out)


def unsafe_sites(dumps, tier):
    """Every call of an unsafe standard function below the library's own code lies in a function that was
    analysed completely (all paths, all inputs of the cases) without an out-of-bounds outcome."""
    r = RuleResult()
    covered = common.COVERED
    seen = set()
    for cfg, d in dumps.items():
        for m in list(d.raw):
            if "fixnum" not in d.raw[m]:
                continue
            f = d.fn(m)
            if not re.match(r"^<?(&mut |&)?fixnum::", f["n"]) and "for fixnum::" not in f["n"] and not re.search(r"/src/(string|parity|i256/\w+|lib|float|const_fn|macros|ops/\w+|serde)\.rs", str(f.get("span"))):
                continue
            if f["body"] is None or "vharness" in f["n"]:
                continue
            for b in f["body"]:
                t = b["t"]
                if t[0] != "call" or not isinstance(t[1], str):
                    continue
                g = d.fn(t[1])
                if g is None or not UNSAFE.search(g["n"]):
                    continue
                key = (cfg, f["n"], g["n"])
                if key in seen:
                    continue
                seen.add(key)
                good = (cfg, f["n"]) in covered
                r.site("%s: %s in %s" % (cfg, g["n"], f["n"]), good)
                if not good:
                    r.undecided.append({"rule": "unsafe_sites", "why": "not covered by a proved case", "site": "%s in %s (%s)" % (g["n"], f["n"], cfg)})
    return r
