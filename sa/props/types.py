"""C24: what the type system must reject, and what it must accept.

Each entry is a pair of functions that differ in one aspect.  The negative one must be rejected by the compiler's
type checker (or by constant evaluation), the positive one must be accepted: a negative witness alone could be
rejected for a reason that has nothing to do with the rule (a renamed method, say)."""
import json, os, re, shutil, subprocess
from .. import build
from .rules import RuleResult
from .common import LAYOUTS, MAXP

HEAD = """#![allow(dead_code, unused, clippy::all)] #![deny(improper_ctypes_definitions)]
use fixnum::{*, ops::*, typenum::consts::*}; use fixnum::ops::{Zero, One, Bounded}; use core::convert::{TryFrom, TryInto};
type E<T> = core::result::Result<T, ArithmeticError>;
pub struct Fs(pub FixedPoint<i64, U9>); impl From<FixedPoint<i64, U9>> for Fs { fn from(x: FixedPoint<i64, U9>) -> Self { Fs(x) } }
#[derive(Clone, Copy)] pub struct Size(pub i32); impl From<i32> for Size { fn from(x: i32) -> Self { Size(x) } }
#[derive(Clone, Copy)] pub struct Price(pub FixedPoint<i64, U9>); impl From<FixedPoint<i64, U9>> for Price { fn from(x: FixedPoint<i64, U9>) -> Self { Price(x) } }
#[derive(Clone, Copy)] pub struct Delta(pub FixedPoint<i64, U9>); impl From<FixedPoint<i64, U9>> for Delta { fn from(x: FixedPoint<i64, U9>) -> Self { Delta(x) } }
#[derive(Clone, Copy)] pub struct Amount(pub FixedPoint<i64, U9>); impl From<FixedPoint<i64, U9>> for Amount { fn from(x: FixedPoint<i64, U9>) -> Self { Amount(x) } }
impl_op!(Size [cmul] Price = Amount);
impl_op!(Price [csub] Price = Delta);
impl_op!(Price [cadd] Delta = Price);
impl_op!(Price [rmul] Delta = Amount);
impl_op!(Amount [rdiv] Price = Delta);
fn needs_add<T: CheckedAdd<Output = T, Error = ArithmeticError> + CheckedSub<Output = T, Error = ArithmeticError> + Zero + One + Bounded>() {}
fn needs_mul<T: RoundingMul<Output = T, Error = ArithmeticError> + RoundingDiv<Output = T, Error = ArithmeticError>>() {}
fn plain<T: Copy + Clone + Eq + Ord + core::hash::Hash + Default + Send + Sync + Unpin + core::fmt::Debug + core::fmt::Display + core::str::FromStr<Err = ConvertError> + core::panic::UnwindSafe + 'static>() {}
fn err<T: Clone + Eq + Send + Sync + core::fmt::Debug + core::fmt::Display + std::error::Error + 'static>() {}
"""


def fp(lay, p):
    return "FixedPoint<%s, U%d>" % (lay, p)


def pairs(tier):
    """(name, rule, accepted function, rejected function)"""
    out = []

    def add(name, rule, good, bad):
        out.append((name, rule, good, bad))
    lays = list(LAYOUTS)
    for lay in lays:
        m = MAXP[lay]
        ps = sorted({0, m // 2, m}) if tier == "quick" else range(m + 1)
        for p in ps:
            a = fp(lay, p)
            near = [q for q in ((p + 1) if p < m else p - 1, 0 if p != 0 else m) if q != p]
            others = [(fp(lay, q), "precision") for q in (sorted(set(near)) if tier == "quick" else [q for q in range(m + 1) if q != p])]
            others += [(fp(l2, p), "layout") for l2 in lays if l2 != lay and p <= MAXP[l2]]

            def sig(b, body, res, suffix):
                return "pub fn %s_%s_%d_%%s(a: %s, b: %s, m: RoundMode) -> %s { %s }" % (suffix, lay, p, a, b, res, body)

            def both(op, body, res, rule, b):
                f = sig("%s", body, res, re.sub(r"\W+", "_", op))
                add("%s %s %s" % (a, op, b), rule, f % ("ok", a), f % ("no", b))
            for b, what in others:
                ru = "operands of different %s are not mixed" % what
                for op, body in (("cadd", "a.cadd(b)"), ("csub", "a.csub(b)"), ("rmul", "a.rmul(b, m)"), ("rdiv", "a.rdiv(b, m)")):
                    both(op, body, "E<%s>" % a, ru, b)
                for op, body in (("saturating_add", "a.saturating_add(b)"), ("saturating_sub", "a.saturating_sub(b)"), ("saturating_rmul", "a.saturating_rmul(b, m)"),
                                 ("half_sum", "FixedPoint::<%s, _>::half_sum(a, b, m)" % lay), ("round_towards_zero_by", "a.round_towards_zero_by(b)"), ("max", "a.max(b)")):
                    both(op, body, a, ru, b)
                for op, body in (("eq", "a == b"), ("lt", "a < b"), ("ge", "a >= b"), ("partial_cmp", "a.partial_cmp(&b).is_some()")):
                    both(op, body, "bool", "numbers of different %s are not compared" % what, b)
                both("assign", "let x: %s = b; x" % a, a, "a number is not taken as one of another %s" % what, b)
                if what == "precision" or LAYOUTS[b.split("<")[1].split(",")[0]] > LAYOUTS[lay]:      # others lose nothing
                    both("into", "b.into()", a, "a number is not converted to one of another %s without a check" % what, b)
                add("into bits %s from %s" % (a, b), "a number is not taken as one of another %s" % what,
                    "pub fn ib_%s_%d_ok(b: %s) -> %s { FixedPoint::from_bits(b.into_bits()) }" % (lay, p, a, a),
                    "pub fn ib_%s_%d_no(b: %s) -> %s { b.clone() }" % (lay, p, b, a))
            # integers
            add("%s cadd int" % a, "an integer is not added to a number", "pub fn ai_%s_%d_ok(a: %s, b: %s) -> E<%s> { a.cadd(b) }" % (lay, p, a, a, a), "pub fn ai_%s_%d_no(a: %s, b: %s) -> E<%s> { a.cadd(b) }" % (lay, p, a, lay, a))
            add("%s csub int" % a, "an integer is not subtracted from a number", "pub fn si_%s_%d_ok(a: %s, b: %s) -> E<%s> { a.csub(b) }" % (lay, p, a, a, a), "pub fn si_%s_%d_no(a: %s, b: %s) -> E<%s> { a.csub(b) }" % (lay, p, a, lay, a))
            add("%s eq int" % a, "an integer is not compared with a number", "pub fn ei_%s_%d_ok(a: %s, b: %s) -> bool { a == b }" % (lay, p, a, a), "pub fn ei_%s_%d_no(a: %s, b: %s) -> bool { a == b }" % (lay, p, a, lay))
            for op in ("cmul", "saturating_mul"):
                res = "E<%s>" % a if op == "cmul" else a
                add("%s %s number" % (a, op), "multiplication of two numbers needs a rounding mode", "pub fn %s_n_%s_%d_ok(a: %s, b: %s) -> %s { a.%s(b) }" % (op, lay, p, a, lay, res, op), "pub fn %s_n_%s_%d_no(a: %s, b: %s) -> %s { a.%s(b) }" % (op, lay, p, a, a, res, op))
            for op in ("rmul", "rdiv"):
                add("%s %s without a mode" % (a, op), "rounding is explicit", "pub fn %s_m_%s_%d_ok(a: %s, b: %s) -> E<%s> { a.%s(b, RoundMode::Floor) }" % (op, lay, p, a, a, a, op), "pub fn %s_m_%s_%d_no(a: %s, b: %s) -> E<%s> { a.%s(b) }" % (op, lay, p, a, a, a, op))
                add("%s %s with a number as the mode" % (a, op), "rounding is explicit", "pub fn %s_k_%s_%d_ok(a: %s) -> E<%s> { a.%s(a, RoundMode::Ceil) }" % (op, lay, p, a, a, op), "pub fn %s_k_%s_%d_no(a: %s) -> E<%s> { a.%s(a, 1) }" % (op, lay, p, a, a, op))
            add("%s integral without a mode" % a, "rounding is explicit", "pub fn in_m_%s_%d_ok(a: %s) -> %s { a.integral(RoundMode::Floor) }" % (lay, p, a, lay), "pub fn in_m_%s_%d_no(a: %s) -> %s { a.integral() }" % (lay, p, a, lay))
            add("%s rsqrt without a mode" % a, "rounding is explicit", "pub fn sq_m_%s_%d_ok(a: %s) -> E<%s> { a.rsqrt(RoundMode::Floor) }" % (lay, p, a, a), "pub fn sq_m_%s_%d_no(a: %s) -> E<%s> { a.rsqrt() }" % (lay, p, a, a))
            for op, sym in (("cadd", "+"), ("csub", "-")):
                add("%s %s" % (a, sym), "there are no unchecked operators", "pub fn o_%s_%s_%d_ok(a: %s, b: %s) -> E<%s> { a.%s(b) }" % (op, lay, p, a, a, a, op), "pub fn o_%s_%s_%d_no(a: %s, b: %s) -> %s { a %s b }" % (op, lay, p, a, a, a, sym))
                add("%s %s=" % (a, sym), "there are no unchecked operators", "pub fn p_%s_%s_%d_ok(a: %s, b: %s) -> %s { a.saturating_%s(b) }" % (op, lay, p, a, a, a, op[1:]), "pub fn p_%s_%s_%d_no(mut a: %s, b: %s) -> %s { a %s= b; a }" % (op, lay, p, a, a, a, sym))
            for op, sym in (("rmul", "*"), ("rdiv", "/"), ("rdiv", "%")):
                add("%s %s" % (a, sym), "there are no unchecked operators", "pub fn o%d_%s_%s_%d_ok(a: %s, b: %s) -> E<%s> { a.%s(b, RoundMode::Nearest) }" % (ord(sym), op, lay, p, a, a, a, op), "pub fn o%d_%s_%s_%d_no(a: %s, b: %s) -> %s { a %s b }" % (ord(sym), op, lay, p, a, a, a, sym))
            add("%s * int" % a, "there are no unchecked operators", "pub fn ti_%s_%d_ok(a: %s, b: %s) -> E<%s> { a.cmul(b) }" % (lay, p, a, lay, a), "pub fn ti_%s_%d_no(a: %s, b: %s) -> %s { a * b }" % (lay, p, a, lay, a))
            add("-%s" % a, "there are no unchecked operators", "pub fn ng_%s_%d_ok(a: %s) -> E<%s> { a.cneg() }" % (lay, p, a, a), "pub fn ng_%s_%d_no(a: %s) -> %s { -a }" % (lay, p, a, a))
            for op, call in (("cadd", "a.cadd(a)"), ("csub", "a.csub(a)"), ("cmul", "a.cmul(k)"), ("rmul", "a.rmul(a, m)"), ("rdiv", "a.rdiv(a, m)"), ("rsqrt", "a.rsqrt(m)"), ("cneg", "a.cneg()"), ("abs", "a.abs()"), ("recip", "a.recip(m)"), ("next_power_of_ten", "a.next_power_of_ten()")):
                add("%s %s unchecked" % (a, op), "the result of an operation that can fail is a Result", "pub fn r_%s_%s_%d_ok(a: %s, k: %s, m: RoundMode) -> E<%s> { %s }" % (op, lay, p, a, lay, a, call), "pub fn r_%s_%s_%d_no(a: %s, k: %s, m: RoundMode) -> %s { %s }" % (op, lay, p, a, lay, a, call))
            # conversions without a check
            for ty in (lay, "u128", "i128", "f64", "&'static str"):
                if ty.startswith("&"):
                    add("%s from text" % a, "a text is not converted without a check", "pub fn ft_%s_%d_ok(x: %s) -> core::result::Result<%s, ConvertError> { x.parse() }" % (lay, p, ty, a), "pub fn ft_%s_%d_no(x: %s) -> %s { x.into() }" % (lay, p, ty, a))
                else:
                    add("%s from %s" % (a, ty), "an integer or float is not converted without a check", "pub fn ft_%s_%s_%d_ok(x: %s) -> core::result::Result<%s, ConvertError> { %s::try_from(x) }" % (ty, lay, p, ty, a, a.replace("<", "::<", 1)), "pub fn ft_%s_%s_%d_no(x: %s) -> %s { x.into() }" % (ty, lay, p, ty, a))
            add("%s as int" % a, "raw bits are only taken explicitly", "pub fn as_%s_%d_ok(x: %s) -> %s { x.into_bits() }" % (lay, p, a, lay), "pub fn as_%s_%d_no(x: %s) -> %s { x as %s }" % (lay, p, a, lay, lay))
            add("%s into int" % a, "raw bits are only taken explicitly", "pub fn io_%s_%d_ok(x: %s) -> %s { x.into_bits() }" % (lay, p, a, lay), "pub fn io_%s_%d_no(x: %s) -> %s { x.into() }" % (lay, p, a, lay))
            add("int as %s" % a, "raw bits are only given explicitly", "pub fn oi_%s_%d_ok(x: %s) -> %s { FixedPoint::from_bits(x) }" % (lay, p, lay, a), "pub fn oi_%s_%d_no(x: %s) -> %s { x }" % (lay, p, lay, a))
        a = fp(lay, 1)
        for nm, ty in (("unsigned layout", "FixedPoint<u64, U1>"), ("float layout", "FixedPoint<f64, U1>"), ("signed precision", "FixedPoint<%s, P1>" % lay), ("no precision", "FixedPoint<%s, %s>" % (lay, lay))):
            n = re.sub(r"\W", "_", nm)
            add("%s %s" % (lay, nm), "only signed layouts and unsigned precisions make numbers", "pub fn lp_%s_%s_ok() -> %s { <%s as One>::ONE }" % (n, lay, a, a), "pub fn lp_%s_%s_no() -> %s { <%s as One>::ONE }" % (n, lay, ty, ty))
    # wrappers: only what is declared, with the declared types
    decl = [("Size", "cmul", "Price", "Amount", "l.cmul(r)"), ("Price", "csub", "Price", "Delta", "l.csub(r)"), ("Price", "cadd", "Delta", "Price", "l.cadd(r)"),
            ("Price", "rmul", "Delta", "Amount", "l.rmul(r, RoundMode::Floor)"), ("Amount", "rdiv", "Price", "Delta", "l.rdiv(r, RoundMode::Floor)")]
    wr = ("Size", "Price", "Delta", "Amount")
    for l, op, r, o, call in decl:
        ok = "pub fn w_%s_ok(l: %s, r: %s) -> E<%s> { %s }" % (op, l, r, o, call)
        for o2 in wr:
            if o2 != o:
                add("%s [%s] %s = %s" % (l, op, r, o2), "an operation has the declared result type", ok, "pub fn w_%s_%s_o_no(l: %s, r: %s) -> E<%s> { %s }" % (op, o2, l, r, o2, call))
            if o2 != r:
                add("%s [%s] %s" % (l, op, o2), "undeclared operations do not exist", ok, "pub fn w_%s_%s_r_no(l: %s, r: %s) -> E<%s> { %s }" % (op, o2, l, o2, o, call))
            if o2 != l:
                add("%s [%s] %s" % (o2, op, r), "undeclared operations do not exist", ok, "pub fn w_%s_%s_l_no(l: %s, r: %s) -> E<%s> { %s }" % (op, o2, o2, r, o, call))
        for raw in (fp("i64", 9), "i32"):
            n = "f" if raw[0] == "F" else "i"
            add("%s [%s] %s" % (l, op, raw), "a wrapper is not mixed with what it wraps", ok, "pub fn w_%s_%s_x_no(l: %s, r: %s) -> E<%s> { %s }" % (op, n, l, raw, o, call))
    add("fixnum! of another type", "a literal has the type that is asked for", "pub fn lit_ok() -> Fs { fixnum!(1.5, 9) }", "pub fn lit_no() -> Size { let f: FixedPoint<i64, U9> = fixnum_const!(1.5, 9); f.into() }")
    return out


def must_compile(tier):
    """(name, rule, items)"""
    out = []
    for lay, bits in LAYOUTS.items():
        m = MAXP[lay]
        for p in sorted({0, 1, m // 2, m}) if tier == "quick" else range(m + 1):
            a = fp(lay, p)
            t = a.replace("<", "::<", 1)
            n = "%s_%d" % (lay, p)
            out.append(("%s layout" % a, "a number has the size and alignment of its layout", "const _: () = assert!(core::mem::size_of::<%s>() == %d && core::mem::align_of::<%s>() == core::mem::align_of::<%s>());" % (a, bits // 8, a, lay)))
            if bits <= 64:
                out.append(("%s representation" % a, "the representation is transparent (usable where the layout is)", "pub extern \"C\" fn c_%s(x: %s) -> %s { x }" % (n, a, a)))
            out.append(("%s traits" % a, "a number is plain data", "pub fn pl_%s() { plain::<%s>(); needs_add::<%s>(); needs_mul::<%s>(); }" % (n, a, a, a)))
            out.append(("%s constants" % a, "construction, raw bits and the constants are usable in constants", "const K_%s: %s = %s::from_bits(7); const _: () = assert!(*K_%s.as_bits() == 7 && %s::PRECISION == %d && *%s::EPSILON.as_bits() == 1 && *<%s as One>::ONE.as_bits() == %d && *<%s as Bounded>::MAX.as_bits() == %s::MAX);" % (
                n.upper(), a, t, n.upper(), t, p, t, a, 10 ** p, a, lay)))
            for ty in ("i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "i128", "u128", "isize", "usize", "f64"):
                out.append(("%s from %s" % (a, ty), "checked conversions exist", "pub fn cv_%s_%s(x: %s) -> core::result::Result<%s, ConvertError> { x.try_into() }" % (n, ty, ty, a)))
            out.append(("f64 from %s" % a, "conversion to f64 exists", "pub fn cf_%s(x: %s) -> f64 { x.into() }" % (n, a)))
    out.append(("errors", "errors are errors", "pub fn er() { err::<ArithmeticError>(); err::<ConvertError>(); }"))
    out.append(("modes", "rounding modes are plain data", "pub fn rm(m: RoundMode) -> (RoundMode, bool) { (m, m == RoundMode::Nearest || m == RoundMode::Floor || m == RoundMode::Ceil) }"))
    return out


def consts(tier):
    """precisions that the layout cannot hold must not yield a value"""
    out = []
    for lay in LAYOUTS:
        m = MAXP[lay]
        for q in ([m + 1, m + 2, 2 * m + 3] if tier == "quick" else range(m + 1, 64)):
            if lay == "i128" and q > 60:
                continue
            out.append(("ONE of %s" % fp(lay, q), "a precision that the layout cannot hold is rejected", "const _: %s = <%s as One>::ONE;" % (fp(lay, m), fp(lay, m)), "const _: %s = <%s as One>::ONE;" % (fp(lay, q), fp(lay, q))))
    return out


def check(name, lines, feats=("i16", "i32", "i64", "i128")):
    """Type-check one item per line; returns {line index: [error]} and the errors outside of the lines."""
    d = os.path.join(build.WORK, "harness", name)
    head = HEAD.count("\n")
    with build.Lock("cargo"):
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(os.path.join(d, "Cargo.toml"), "w").write(build.cargo_toml(name, list(feats), (), True))
        open(os.path.join(d, "lib.rs"), "w").write(HEAD + "\n".join(lines) + "\n")
        lock = os.path.join(build.VERIF, "driver", "Cargo.lock.harness")
        if os.path.exists(lock):
            shutil.copy(lock, os.path.join(d, "Cargo.lock"))
        target = os.path.join(build.WORK, "target-types")
        build.forget(target)
        e = build.env()
        e["CARGO_TARGET_DIR"] = target
        p = subprocess.run(["cargo", "+" + build.NIGHTLY, "check", "--offline", "--quiet", "--message-format=json"], cwd=d, env=e, text=True, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    bad, rest, done = {}, [], False
    for l in p.stdout.splitlines():
        try:
            j = json.loads(l)
        except ValueError:
            continue
        if j.get("reason") == "build-finished":
            done = True
        m = j.get("message")
        if j.get("reason") != "compiler-message":
            continue
        why = m.get("level") == "note" and m["message"].startswith("erroneous constant")    # names the user of a constant that fails
        if m.get("level") != "error" and not why:
            continue
        mine = set()

        def spans(x):
            for s in x.get("spans", ()):
                while s:
                    if os.path.basename(s["file_name"]) == "lib.rs" and "/src/" not in s["file_name"]:
                        mine.add(s["line_start"] - 1 - head)
                    s = s["expansion"]["span"] if s.get("expansion") else None
        spans(m)
        own = {x for x in mine if x >= 0}
        if not own:
            for c in m.get("children", ()):
                spans(c)
            own = {x for x in mine if x >= 0}
        text = "%s %s" % ((m.get("code") or {}).get("code") or "", m["message"].splitlines()[0])
        if own and all(x < len(lines) for x in own):
            for x in own:
                bad.setdefault(x, []).append(text)
        elif not why and not text.startswith("E0080") and not text.startswith(" aborting") and "could not compile" not in text:
            rest.append(m.get("rendered") or text)
    if not done:
        raise RuntimeError("cargo check gave no result: " + p.stderr[-1500:])
    return bad, rest


def accepted_by(line):
    """the library functions that an accepted witness resolves to"""
    try:
        from ..mir import Dump
        d = Dump(build.dump("vharness_types_why", HEAD + line, ["i16", "i32", "i64", "i128"]))
        out = []
        for m in list(d.raw):
            f = d.fn(m)
            if f["body"] is not None and "fixnum" in f["n"] and "vharness" not in f["n"]:
                out.append("%s (%s)" % (f["n"], f.get("span")))
        return sorted(out)[:8]
    except Exception as e:
        return ["(not resolved: %s)" % str(e)[:200]]


# mismatched types, missing implementation or method, operator, cast, number of arguments; failing constants
KINDS = re.compile(r"E0308|E0277|E0599|E0369|E0368|E0600|E0604|E0605|E0606|E0061|E0271|E0080| erroneous constant")


def judge(r, name, ps, group):
    goods = sorted({g for _, _, g, _ in ps})
    bad, rest = check(name + "_ok", goods)
    broken = {goods[i]: t for i, t in bad.items()}
    for t in rest[:1]:
        r.violations.append({"key": "witness:%s:head" % group, "what": "the accepted programs do not compile", "where": [], "detail": t[:2000]})
    nos = [re.sub(r"^pub fn \w+", "pub fn n%d" % i, b) for i, (_, _, _, b) in enumerate(ps)]
    bad, rest = check(name + "_no", nos)
    for t in rest[:1]:
        r.undecided.append({"rule": group, "why": "an error outside of the witnesses: " + t[:300]})
    for i, (nm, rule, g, b) in enumerate(ps):
        twin = broken.get(g)
        wrong = [t for t in bad.get(i, ()) if not KINDS.match(t)]
        ok = i in bad and not wrong and not twin and not rest
        r.site("%s: %s [rejected: %s]" % (rule, nm, (bad.get(i) or ["no"])[0][:80]), ok)
        if twin:
            r.violations.append({"key": "witness:%s:%s" % (group, nm), "what": "a program that must be accepted is rejected: %s" % twin[0], "where": [g]})
        elif wrong:
            r.undecided.append({"rule": group, "why": "%s is rejected for another reason: %s" % (nm, wrong[0])})
        elif i not in bad and not rest:
            r.violations.append({"key": "witness:%s:%s" % (group, nm), "what": "%s, but the compiler accepts: %s" % (rule, nm), "where": [b], "functions": accepted_by(b) if len(r.violations) < 3 else []})


def rejected(dumps, tier):
    """Each witness that breaks a typing rule is rejected by the type checker, and its twin that keeps the rule is accepted."""
    r = RuleResult()
    judge(r, "vharness_types", pairs(tier), "types")
    return r


def rejected_consts(dumps, tier):
    """Each constant that needs more digits than the layout holds is rejected by constant evaluation, its twin is accepted."""
    r = RuleResult()
    judge(r, "vharness_types_const", consts(tier), "consts")
    return r


def accepted(dumps, tier):
    """Programs that rely on the documented traits, constants and representation of a number type-check."""
    r = RuleResult()
    ps = must_compile(tier)
    bad, rest = check("vharness_types_must", [x for _, _, x in ps])
    for t in rest[:1]:
        r.violations.append({"key": "witness:must:head", "what": "the accepted programs do not compile", "where": [], "detail": t[:2000]})
    for i, (nm, rule, x) in enumerate(ps):
        r.site("%s: %s" % (rule, nm), i not in bad)
        if i in bad:
            r.violations.append({"key": "witness:must:" + nm, "what": "%s, but %s is rejected: %s" % (rule, nm, bad[i][0]), "where": [x]})
    return r
