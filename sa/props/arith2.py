"""C02 C05 C06 C07 C09 C10 C12 C27 C28: the remaining integer arithmetic of FixedPoint."""
from .common import *
from .arith import quotient, exact_or_overflow, inter
from ..contracts import MODELS


def models(lay):
    return MODELS if lay == "i128" else None


def clamp(cx, r, x, lo, hi, what):
    """r == min(max(x, lo), hi)"""
    if not cx.decide(P.sub(hi, x)):
        cx.eq(P.sub(r, hi), what + ": does not saturate to MAX")
    elif not cx.decide(P.sub(x, lo)):
        cx.eq(P.sub(r, lo), what + ": does not saturate to MIN")
    else:
        cx.eq(P.sub(r, x), what + ": differs from the exact value")


def saturating(expr, lo, hi, what):
    def spec(cx, e, kind, val):
        if no_abnormal(cx, kind, val):
            return
        clamp(cx, val, expr(e), lo, hi, what)
    return spec


def above(cx, N, D, mode, hi):
    """Is the rounded N/D greater than hi (D > 0 constant)?"""
    if mode == "Floor":
        return cx.decide(P.sub(N, P.scale(D, hi + 1)))
    if mode == "Ceil":
        return not cx.decide(P.sub(P.scale(D, hi), N))
    return cx.decide(P.sub(P.scale(N, 2), P.scale(D, 2 * hi + 1)))


def below(cx, N, D, mode, lo):
    if mode == "Floor":
        return not cx.decide(P.sub(N, P.scale(D, lo)))
    if mode == "Ceil":
        return cx.decide(P.sub(P.scale(D, lo - 1), N))
    return cx.decide(P.sub(P.scale(D, 2 * lo - 1), P.scale(N, 2)))


def sat_rounded(num, D, mode, lo, hi, what):
    def spec(cx, e, kind, val):
        if no_abnormal(cx, kind, val):
            return
        N = num(e)
        if above(cx, N, D, mode, hi):
            cx.eq(P.sub(val, hi), what + ": does not saturate to MAX")
        elif below(cx, N, D, mode, lo):
            cx.eq(P.sub(val, lo), what + ": does not saturate to MIN")
        else:
            rounded(cx, val, N, D, mode, what)
    return spec


def c02(tier):
    out = []
    add = lambda e: P.add(e["a"], e["b"])
    sub = lambda e: P.sub(e["a"], e["b"])
    mul = lambda e: P.mul(e["a"], e["b"])
    for lay, bits in LAYOUTS.items():
        lo, hi = lim(bits)
        for p in QUICKP[lay] if tier == "quick" else precisions(lay, tier):
            F = fp(lay, p)
            for op, ex in (("saturating_add", add), ("saturating_sub", sub)):
                fn = "c02_%s_%s_%d" % (op, lay, p)
                if p in (0, MAXP[lay]) or tier != "quick":
                    out.append(Case(fn, fn, "pub fn %s(a: %s, b: %s) -> %s { %s::from_bits(a).%s(FixedPoint::from_bits(b)).into_bits() }" % (fn, lay, lay, lay, F, op),
                                    [sint("a", bits), sint("b", bits)], saturating(ex, lo, hi, op)))
            if p in (0, MAXP[lay]) or tier != "quick":
                fn = "c02_mul_fi_%s_%d" % (lay, p)
                out.append(Case(fn, fn, "pub fn %s(a: %s, b: %s) -> %s { CheckedMul::<%s>::saturating_mul(%s::from_bits(a), b).into_bits() }" % (fn, lay, lay, lay, lay, F),
                                [sint("a", bits), sint("b", bits)], saturating(mul, lo, hi, "saturating_mul (fixed * int)")))
                fn = "c02_mul_if_%s_%d" % (lay, p)
                out.append(Case(fn, fn, "pub fn %s(a: %s, b: %s) -> %s { CheckedMul::<%s>::saturating_mul(a, FixedPoint::from_bits(b)).into_bits() }" % (fn, lay, lay, lay, F),
                                [sint("a", bits), sint("b", bits)], saturating(mul, lo, hi, "saturating_mul (int * fixed)")))
            for m, mv in MODES.items():
                fn = "c02_rmul_%s_%d" % (lay, p)
                out.append(Case(fn + "_" + m, fn, "pub fn %s(a: %s, b: %s, m: RoundMode) -> %s { %s::from_bits(a).saturating_rmul(FixedPoint::from_bits(b), m).into_bits() }" % (fn, lay, lay, lay, F),
                                [sint("a", bits), sint("b", bits), Const(mv)],
                                sat_rounded(mul, 10 ** p, m, lo, hi, "saturating_rmul"), interesting=inter(10 ** p, hi), models=models(lay)))
        # the default methods of the traits, reached through a wrapper type that only defines the checked operation
        W = """pub mod w_%(l)s { use fixnum::{*, ops::*, typenum::*}; use fixnum::ops::{Zero, Bounded};
  #[derive(Clone, Copy, PartialEq, PartialOrd)] pub struct W(pub %(l)s);
  impl Zero for W { const ZERO: Self = W(0); }
  impl Bounded for W { const MIN: Self = W(%(l)s::MIN); const MAX: Self = W(%(l)s::MAX); }
  impl CheckedAdd for W { type Output = W; type Error = ArithmeticError; fn cadd(self, r: W) -> Result<W, ArithmeticError> { self.0.checked_add(r.0).map(W).ok_or(ArithmeticError::Overflow) } }
  impl CheckedSub for W { type Output = W; type Error = ArithmeticError; fn csub(self, r: W) -> Result<W, ArithmeticError> { self.0.checked_sub(r.0).map(W).ok_or(ArithmeticError::Overflow) } }
  impl CheckedMul for W { type Output = W; type Error = ArithmeticError; fn cmul(self, r: W) -> Result<W, ArithmeticError> { self.0.checked_mul(r.0).map(W).ok_or(ArithmeticError::Overflow) } }
  impl RoundingMul for W { type Output = W; type Error = ArithmeticError; fn rmul(self, r: W, _: RoundMode) -> Result<W, ArithmeticError> { self.0.checked_mul(r.0).map(W).ok_or(ArithmeticError::Overflow) } }
}""" % {"l": lay}
        for op, ex, extra in (("saturating_add", add, ""), ("saturating_sub", sub, ""), ("saturating_mul", mul, ""), ("saturating_rmul", mul, ", RoundMode::Floor")):
            fn = "c02_default_%s_%s" % (op, lay)
            out.append(Case(fn, fn, W + "\x00pub fn %s(a: %s, b: %s) -> %s { w_%s::W(a).%s(w_%s::W(b)%s).0 }" % (fn, lay, lay, lay, lay, op, lay, extra),
                            [sint("a", bits), sint("b", bits)], saturating(ex, lo, hi, op + " (default method)")))
    for lay, bits in dict(LAYOUTS, i8=8).items():
        lo, hi = lim(bits)
        for op, ex in (("saturating_add", add), ("saturating_sub", sub), ("saturating_mul", mul)):
            tr = {"saturating_add": "CheckedAdd", "saturating_sub": "CheckedSub", "saturating_mul": "CheckedMul"}[op]
            fn = "c02_int_%s_%s" % (op, lay)
            out.append(Case(fn, fn, "pub fn %s(a: %s, b: %s) -> %s { <%s as %s>::%s(a, b) }" % (fn, lay, lay, lay, lay, tr, op),
                            [sint("a", bits), sint("b", bits)], saturating(ex, lo, hi, op + " on integers")))
    return out


def int_over_fp(num1, num, den, mode, lo, hi):
    """int / fixed: the integer is first converted to the fixed type; if it does not fit, Overflow."""
    q = quotient(num, den, mode, lo, hi, "int rdiv fixed")

    def spec(cx, e, kind, val):
        if kind == "ret" and not is_ok(val) and err_kind(val) == OVERFLOW:
            x = num1(e)
            if not (cx.decide(P.sub(hi, x)) and cx.decide(P.sub(x, lo))):
                return
        q(cx, e, kind, val)
    return spec


def c05(tier):
    out = []
    for lay, bits in dict(LAYOUTS, i8=8).items():
        lo, hi = lim(bits)
        for m, mv in MODES.items():
            fn = "c05_int_%s" % lay
            out.append(Case(fn + "_" + m, fn, "pub fn %s(a: %s, b: %s, m: RoundMode) -> R<%s> { a.rdiv(b, m) }" % (fn, lay, lay, lay),
                            [sint("a", bits), sint("b", bits), Const(mv)], quotient(lambda e: e["a"], lambda e: e["b"], m, lo, hi, "int rdiv int")))
    for lay, bits in LAYOUTS.items():
        lo, hi = lim(bits)
        for p in precisions(lay, tier):
            coef = 10 ** p
            F = fp(lay, p)
            for m, mv in MODES.items():
                if p in (0, 2, MAXP[lay]) or tier != "quick":
                    fn = "c05_fi_%s_%d" % (lay, p)
                    out.append(Case(fn + "_" + m, fn, "pub fn %s(a: %s, b: %s, m: RoundMode) -> R<%s> { %s::from_bits(a).rdiv(b, m).map(|x| x.into_bits()) }" % (fn, lay, lay, lay, F),
                                    [sint("a", bits), sint("b", bits), Const(mv)], quotient(lambda e: e["a"], lambda e: e["b"], m, lo, hi, "fixed rdiv int")))
                fn = "c05_if_%s_%d" % (lay, p)
                out.append(Case(fn + "_" + m, fn, "pub fn %s(a: %s, b: %s, m: RoundMode) -> R<%s> { a.rdiv(%s::from_bits(b), m).map(|x| x.into_bits()) }" % (fn, lay, lay, lay, F),
                                [sint("a", bits), sint("b", bits), Const(mv)],
                                int_over_fp(lambda e, c=coef: P.scale(e["a"], c), lambda e, c=coef: P.scale(e["a"], c * c), lambda e: e["b"], m, lo, hi),
                                interesting=inter(coef, hi), models=models(lay)))
                fn = "c05_recip_%s_%d" % (lay, p)
                out.append(Case(fn + "_" + m, fn, "pub fn %s(b: %s, m: RoundMode) -> R<%s> { %s::from_bits(b).recip(m).map(|x| x.into_bits()) }" % (fn, lay, lay, F),
                                [sint("b", bits), Const(mv)],
                                quotient(lambda e, c=coef: c * c, lambda e: e["b"], m, lo, hi, "recip"), interesting=inter(coef, hi), models=models(lay)))
    return out


def c06(tier):
    out = []
    for lay, bits in LAYOUTS.items():
        lo, hi = lim(bits)
        for p in precisions(lay, tier):
            coef = 10 ** p
            F = fp(lay, p)
            for m, mv in MODES.items():
                def spec(cx, e, kind, val, m=m, coef=coef):
                    if no_abnormal(cx, kind, val):
                        return
                    rounded(cx, val, e["a"], coef, m, "integral")
                fn = "c06_integral_%s_%d" % (lay, p)
                out.append(Case(fn + "_" + m, fn, "pub fn %s(a: %s, m: RoundMode) -> %s { %s::from_bits(a).integral(m) }" % (fn, lay, lay, F),
                                [sint("a", bits), Const(mv)], spec, interesting=inter(coef, hi)))
                name = {"Ceil": "ceil", "Floor": "floor", "Nearest": "round"}[m]

                def spec2(cx, e, kind, val, m=m, coef=coef, name=name, lo=lo, hi=hi):
                    if kind == "panic":
                        # allowed only if the integer result is not representable
                        if above(cx, e["a"], coef, m, hi // coef) or below(cx, e["a"], coef, m, -((-lo) // coef)):
                            return
                        cx.fail(name + " panics although the result is representable")
                        return
                    if no_abnormal(cx, kind, val):
                        return
                    # val == coef * k, k = a/coef rounded
                    q, r = cx.it.tdiv(cx.st, val, coef)
                    cx.eq(r, name + ": the result is not a whole number")
                    rounded(cx, q, e["a"], coef, m, name)
                fn = "c06_%s_%s_%d" % (name, lay, p)
                out.append(Case(fn, fn, "pub fn %s(a: %s) -> %s { %s::from_bits(a).%s().into_bits() }" % (fn, lay, lay, F, name),
                                [sint("a", bits)], spec2, interesting=inter(coef, hi)))
    return out


def c07(tier):
    out = []
    for lay, bits in LAYOUTS.items():
        lo, hi = lim(bits)
        for p in ([0, MAXP[lay]] if tier == "quick" else precisions(lay, tier)):
            F = fp(lay, p)
            for m, mv in MODES.items():
                def spec(cx, e, kind, val, m=m):
                    if no_abnormal(cx, kind, val):
                        return
                    d = P.sub(P.scale(val, 2), P.add(e["a"], e["b"]))     # 2r - (a+b)
                    up, dn = {"Ceil": (1, 0), "Floor": (0, 1), "Nearest": (1, 1)}[m]
                    cx.ge(P.sub(up, d), "half_sum (%s): above the exact value" % m)
                    cx.ge(P.add(d, dn), "half_sum (%s): below the exact value" % m)
                fn = "c07_half_sum_%s_%d" % (lay, p)
                out.append(Case(fn + "_" + m, fn, "pub fn %s(a: %s, b: %s, m: RoundMode) -> %s { %s::half_sum(FixedPoint::from_bits(a), FixedPoint::from_bits(b), m).into_bits() }" % (fn, lay, lay, lay, F),
                                [sint("a", bits), sint("b", bits), Const(mv)], spec))
    return out


def c09(tier):
    out = []
    for lay, bits in LAYOUTS.items():
        lo, hi = lim(bits)
        top = 1
        while top * 10 <= hi:
            top *= 10
        for p in ([0, MAXP[lay]] if tier == "quick" else precisions(lay, tier)):
            F = fp(lay, p)

            def spec(cx, e, kind, val, top=top):
                if no_abnormal(cx, kind, val):
                    return
                a = e["a"]
                neg = not cx.decide(a)
                if neg:
                    a = P.neg(a)
                if is_ok(val):
                    r = val.f[0]
                    if neg:
                        r = P.neg(r)
                    if not isinstance(r, int):
                        cx.fail("the result is not known to be a power of ten")
                        return
                    if r not in [10 ** k for k in range(40)]:
                        cx.fail("the result %d is not a power of ten" % r)
                    cx.ge(P.sub(r, a), "next_power_of_ten is below the number")
                    if r != 1:
                        cx.ge(P.sub(P.sub(P.scale(a, 10), r), 1), "next_power_of_ten is not the next one")
                else:
                    if err_kind(val) != OVERFLOW:
                        cx.fail("wrong error kind")
                    cx.never([("ge", P.sub(top, a))], "overflow reported although the next power of ten is representable")
            fn = "c09_npt_%s_%d" % (lay, p)
            out.append(Case(fn, fn, "pub fn %s(a: %s) -> R<%s> { %s::from_bits(a).next_power_of_ten().map(|x| x.into_bits()) }" % (fn, lay, lay, F),
                            [sint("a", bits)], spec, interesting=[10 ** k for k in range(39) if 10 ** k <= hi]))
    return out


def c10(tier):
    out = []
    for lay, bits in LAYOUTS.items():
        for p in ([0, MAXP[lay]] if tier == "quick" else precisions(lay, tier)):
            F = fp(lay, p)

            def spec(cx, e, kind, val):
                if no_abnormal(cx, kind, val):
                    return
                a, b = e["a"], e["b"]
                if cx.truth(cx.it.cond(cx.st, "eq", b)):
                    cx.eq(P.sub(val, a), "a zero step changes the number")
                    return
                q, r = cx.it.tdiv(cx.st, a, cx.st.simp(b))
                cx.eq(P.sub(P.add(val, r), a), "not the multiple of the step nearest towards zero")
            fn = "c10_rtz_%s_%d" % (lay, p)
            out.append(Case(fn, fn, "pub fn %s(a: %s, b: %s) -> %s { %s::from_bits(a).round_towards_zero_by(FixedPoint::from_bits(b)).into_bits() }" % (fn, lay, lay, lay, F),
                            [sint("a", bits), sint("b", bits)], spec))
    return out


INTS = {"i8": (1, 8), "u8": (0, 8), "i16": (1, 16), "u16": (0, 16), "i32": (1, 32), "u32": (0, 32), "i64": (1, 64), "u64": (0, 64), "i128": (1, 128), "u128": (0, 128), "isize": (1, 64), "usize": (0, 64)}


def exact_or_err(expr, lo, hi, what):
    def spec(cx, e, kind, val):
        if no_abnormal(cx, kind, val):
            return
        x = expr(e)
        if is_ok(val):
            cx.eq(P.sub(val.f[0], x), what + ": result differs from the exact value")
        else:
            cx.never([("ge", P.sub(x, lo)), ("ge", P.sub(hi, x))], what + ": error although the exact result is representable")
    return spec


def c12(tier):
    out = []
    for lay, bits in LAYOUTS.items():
        lo, hi = lim(bits)
        for p in precisions(lay, tier):
            for t, (s, b) in INTS.items():
                if tier == "quick" and p not in (0, 2, MAXP[lay]):
                    continue
                fn = "c12_%s_%s_%d" % (t, lay, p)
                out.append(Case(fn, fn, "pub fn %s(a: %s) -> C<%s> { %s::try_from(a).map(|x| x.into_bits()) }" % (fn, t, lay, fp(lay, p)),
                                [sint("a", b) if s else uint("a", b)], exact_or_err(lambda e, c=10 ** p: P.scale(e["a"], c), lo, hi, "TryFrom<%s>" % t), interesting=[hi // 10 ** p, -(lo // 10 ** p)]))
    return out


HASHER = """
#[derive(Clone, Copy)] pub struct RawHasher { pub calls: u32, pub value: i128 }
impl core::hash::Hasher for RawHasher {
    fn finish(&self) -> u64 { 0 }
    fn write(&mut self, _: &[u8]) { self.calls += 1000; }
    fn write_i16(&mut self, v: i16) { self.calls += 1; self.value = v as i128; }
    fn write_i32(&mut self, v: i32) { self.calls += 1; self.value = v as i128; }
    fn write_i64(&mut self, v: i64) { self.calls += 1; self.value = v as i128; }
    fn write_i128(&mut self, v: i128) { self.calls += 1; self.value = v; }
}
"""


def c27(tier):
    out = []
    for lay, bits in LAYOUTS.items():
        for p in ([0, MAXP[lay]] if tier == "quick" else precisions(lay, tier)):
            F = fp(lay, p)
            args = [sint("a", bits), sint("b", bits)]

            def case(name, ret, expr, spec, args=args, pre=""):
                fn = "c27_%s_%s_%d" % (name, lay, p)
                ps = "a: %s, b: %s" % (lay, lay) if len(args) == 2 else "a: %s" % lay
                out.append(Case(fn, fn, pre + "pub fn %s(%s) -> %s { %s }" % (fn, ps, ret, expr.replace("FP", F)), args, spec))

            def ordspec(cx, e, kind, val):
                if no_abnormal(cx, kind, val):
                    return
                d = P.sub(e["a"], e["b"])
                v = val.v - 1
                if v == 0:
                    cx.eq(d, "cmp: Equal for different numbers")
                else:
                    cx.ge(P.sub(d if v > 0 else P.neg(d), 1), "cmp: wrong order")

            def pordspec(cx, e, kind, val):
                if kind == "ret" and not (isinstance(val, Agg) and val.v == 1):
                    cx.fail("partial_cmp: None")
                    return
                ordspec(cx, e, kind, val.f[0] if kind == "ret" else val)

            def relspec(rel):
                def f(cx, e, kind, val):
                    if no_abnormal(cx, kind, val):
                        return
                    d = P.sub(e["a"], e["b"])
                    got = cx.truth(val)
                    if rel in ("eq", "ne"):
                        if got == (rel == "eq"):
                            cx.eq(d, rel + ": wrong for different numbers")
                        else:
                            cx.never([("eq", d)], rel + ": wrong for equal numbers")
                        return
                    p_ = {"lt": P.sub(P.neg(d), 1), "le": P.neg(d), "gt": P.sub(d, 1), "ge": d}[rel]
                    cx.ge(p_ if got else P.sub(-1, p_), "%s is wrong" % rel)
                return f
            case("cmp", "core::cmp::Ordering", "FP::from_bits(a).cmp(&FP::from_bits(b))", ordspec)
            case("pcmp", "Option<core::cmp::Ordering>", "FP::from_bits(a).partial_cmp(&FP::from_bits(b))", pordspec)
            for rel, op in (("lt", "<"), ("le", "<="), ("gt", ">"), ("ge", ">="), ("eq", "=="), ("ne", "!=")):
                case(rel, "bool", "FP::from_bits(a) %s FP::from_bits(b)" % op, relspec(rel))

            def extspec(want):
                def f(cx, e, kind, val):
                    if no_abnormal(cx, kind, val):
                        return
                    ge = cx.decide(P.sub(e["a"], e["b"]))
                    cx.eq(P.sub(val, e["a"] if ge == (want == "max") else e["b"]), "%s is wrong" % want)
                return f
            case("max", lay, "Ord::max(FP::from_bits(a), FP::from_bits(b)).into_bits()", extspec("max"))
            case("min", lay, "Ord::min(FP::from_bits(a), FP::from_bits(b)).into_bits()", extspec("min"))

            def sgn(cx, e, kind, val):
                if no_abnormal(cx, kind, val):
                    return
                a = e["a"]
                if cx.decide(P.sub(a, 1)):
                    cx.eq(P.sub(val, 1), "signum of a positive number")
                elif cx.decide(a):
                    cx.eq(val, "signum of zero")
                else:
                    cx.eq(P.add(val, 1), "signum of a negative number")
            case("signum", lay, "FP::from_bits(a).signum()", sgn, args=[sint("a", bits)])

            def same(cx, e, kind, val):
                if no_abnormal(cx, kind, val):
                    return
                cx.eq(P.sub(val, e["a"]), "the raw representation is not preserved")
            case("bits", lay, "*FP::from_bits(FP::from_bits(a).into_bits()).as_bits()", same, args=[sint("a", bits)])
            case("clone", lay, "let x = FP::from_bits(a); #[allow(clippy::clone_on_copy)] x.clone().into_bits()", same, args=[sint("a", bits)])

            def hspec(cx, e, kind, val):
                if no_abnormal(cx, kind, val):
                    return
                cx.eq(P.sub(val.f[0], 1), "Hash feeds the hasher other than exactly the raw value")
                cx.eq(P.sub(val.f[1], e["a"]), "Hash feeds another value than the raw representation")
            case("hash", "RawHasher", "use core::hash::Hash; let mut h = RawHasher { calls: 0, value: 0 }; FP::from_bits(a).hash(&mut h); h", hspec, args=[sint("a", bits)],
                 )
    return out


def c28(tier):
    out = []
    for lay, bits in LAYOUTS.items():
        lo, hi = lim(bits)
        for p in range(MAXP[lay] + 1):
            F = fp(lay, p)

            def spec(cx, e, kind, val, p=p, lo=lo, hi=hi):
                if no_abnormal(cx, kind, val):
                    return
                for got, want, n in zip(val.f, (0, 10 ** p, lo, hi, 1, p, 0), ("ZERO", "ONE", "MIN", "MAX", "EPSILON", "PRECISION", "Default")):
                    if not isinstance(got, int):
                        cx.fail(n + " is not a known constant")
                    else:
                        cx.eq(got - want, n + " has the wrong value")
            fn = "c28_%s_%d" % (lay, p)
            out.append(Case(fn, fn, "pub fn %s() -> (%s, %s, %s, %s, %s, i32, %s) { type F = %s; (F::ZERO.into_bits(), F::ONE.into_bits(), F::MIN.into_bits(), F::MAX.into_bits(), F::EPSILON.into_bits(), F::PRECISION, F::default().into_bits()) }" % ((fn,) + (lay,) * 6 + (F,)),
                            [], spec))
    for lay, bits in dict(LAYOUTS, i8=8).items():
        lo, hi = lim(bits)

        def spec(cx, e, kind, val, lo=lo, hi=hi):
            if no_abnormal(cx, kind, val):
                return
            for got, want, n in zip(val.f, (0, 1, lo, hi), ("ZERO", "ONE", "MIN", "MAX")):
                cx.eq(got - want, "%s of the integer has the wrong value" % n)
        fn = "c28_int_%s" % lay
        out.append(Case(fn, fn, "pub fn %s() -> (%s, %s, %s, %s) { (<%s as Zero>::ZERO, <%s as One>::ONE, <%s as Bounded>::MIN, <%s as Bounded>::MAX) }" % ((fn,) + (lay,) * 8), [], spec))
    return out
