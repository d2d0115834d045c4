"""C26: operations defined for user types by impl_op!."""
from .common import *
from .arith import quotient, exact_or_overflow, inter
from .arith2 import saturating, int_over_fp, models
from ..contracts import MODELS

SMALLER = {"i16": ["i8", "i16"], "i32": ["i8", "i16", "i32"], "i64": ["i8", "i16", "i32", "i64"], "i128": ["i16", "i64", "i128"]}
BITS = dict(LAYOUTS, i8=8)


def module(lay, p):
    F = "FixedPoint<%s, U%d>" % (lay, p)
    W = "#[derive(Clone, Copy, Debug, PartialEq, PartialOrd, Eq, Ord)] pub struct %s(pub %s); impl From<%s> for %s { fn from(x: %s) -> Self { %s(x) } }" \
        " impl ops::Zero for %s { const ZERO: Self = %s(<%s as ops::Zero>::ZERO); } impl ops::Bounded for %s { const MIN: Self = %s(<%s as ops::Bounded>::MIN); const MAX: Self = %s(<%s as ops::Bounded>::MAX); }"
    t = ["pub mod wr_%s_%d { use fixnum::{*, ops::*, typenum::*};" % (lay, p)]
    for n in ("Price", "Delta", "Amount", "Ratio"):
        t.append(W % (n, F, F, n, F, n, n, n, F, n, n, F, n, F))
    t += ["impl_op!(Price [cadd] Delta = Price);", "impl_op!(Price [csub] Price = Delta);", "impl_op!(Price [rmul] Ratio = Amount);", "impl_op!(Price [rdiv] Delta = Ratio);"]
    for i in SMALLER[lay]:
        S = "Size" + i.upper()
        t.append(W % (S, i, i, S, i, S, S, S, i, S, S, i, S, i))
        t += ["impl_op!(%s [cmul] Price = Amount);" % S, "impl_op!(Price [cmul] %s = Amount);" % S, "impl_op!(%s [rdiv] %s = Ratio);" % (S, S), "impl_op!(Amount [rdiv] %s = Price);" % S,
              "impl_op!(%s [rdiv] Price = Ratio);" % S]
    t.append("}")
    return "\n".join(t)


INTMOD = """pub mod wr_int { use fixnum::{*, ops::*, typenum::*};
#[derive(Clone, Copy, Debug, PartialEq, PartialOrd)] pub struct A8(pub i8);
#[derive(Clone, Copy, Debug, PartialEq, PartialOrd)] pub struct B16(pub i16);
#[derive(Clone, Copy, Debug, PartialEq, PartialOrd)] pub struct C32(pub i32);
#[derive(Clone, Copy, Debug, PartialEq, PartialOrd)] pub struct D64(pub i64);
#[derive(Clone, Copy, Debug, PartialEq, PartialOrd)] pub struct E128(pub i128);
impl From<i32> for C32 { fn from(x: i32) -> Self { C32(x) } } impl From<i64> for D64 { fn from(x: i64) -> Self { D64(x) } } impl From<i128> for E128 { fn from(x: i128) -> Self { E128(x) } }
macro_rules! zb { ($($w:ident $t:ident),*) => { $(impl ops::Zero for $w { const ZERO: Self = $w(0); } impl ops::Bounded for $w { const MIN: Self = $w($t::MIN); const MAX: Self = $w($t::MAX); })* } }
zb!(A8 i8, B16 i16, C32 i32, D64 i64, E128 i128);
impl_op!(A8 [cadd] B16 = C32); impl_op!(A8 [csub] B16 = C32); impl_op!(B16 [cmul] A8 = C32);
impl_op!(C32 [cadd] B16 = C32); impl_op!(C32 [csub] C32 = C32); impl_op!(C32 [cmul] C32 = C32);
impl_op!(C32 [cadd] D64 = D64); impl_op!(D64 [csub] C32 = D64); impl_op!(D64 [cmul] C32 = D64); impl_op!(C32 [rdiv] D64 = D64);
impl_op!(D64 [cadd] C32 = E128); impl_op!(E128 [csub] D64 = E128); impl_op!(E128 [rdiv] C32 = E128);
}"""


def c26(tier):
    out = []
    add = lambda e: P.add(e["a"], e["b"])
    sub = lambda e: P.sub(e["a"], e["b"])
    mul = lambda e: P.mul(e["a"], e["b"])

    def name(w):
        return {"A8": "i8", "B16": "i16", "C32": "i32", "D64": "i64", "E128": "i128"}[w]
    for l, op, r, res in (("A8", "cadd", "B16", "C32"), ("A8", "csub", "B16", "C32"), ("B16", "cmul", "A8", "C32"), ("C32", "cadd", "B16", "C32"), ("C32", "csub", "C32", "C32"), ("C32", "cmul", "C32", "C32"),
                          ("C32", "cadd", "D64", "D64"), ("D64", "csub", "C32", "D64"), ("D64", "cmul", "C32", "D64"), ("C32", "rdiv", "D64", "D64"), ("D64", "cadd", "C32", "E128"), ("E128", "csub", "D64", "E128"), ("E128", "rdiv", "C32", "E128")):
        lt, rt, tt = name(l), name(r), name(res)
        lo, hi = lim(BITS[tt])
        args = [sint("a", BITS[lt]), sint("b", BITS[rt])]
        fn = "c26_int_%s_%s_%s_%s" % (l, op, r, res)
        if op == "rdiv":
            for m, mv in MODES.items():
                out.append(Case(fn + "_" + m, fn, INTMOD + "\x00pub fn %s(a: %s, b: %s, m: RoundMode) -> R<%s> { use wr_int::*; %s(a).rdiv(%s(b), m).map(|x| x.0) }" % (fn, lt, rt, tt, l, r), args + [Const(mv)],
                                quotient(lambda e: e["a"], lambda e: e["b"], m, lo, hi, "impl_op rdiv")))
            continue
        ex = {"cadd": add, "csub": sub, "cmul": mul}[op]
        out.append(Case(fn, fn, INTMOD + "\x00pub fn %s(a: %s, b: %s) -> R<%s> { use wr_int::*; %s(a).%s(%s(b)).map(|x| x.0) }" % (fn, lt, rt, tt, l, op, r), args, exact_or_overflow(ex, lo, hi)))
        if op != "cmul":
            s = op.replace("c", "saturating_", 1)
            fn = "c26_sat_%s_%s_%s_%s" % (l, op, r, res)
            out.append(Case(fn, fn, INTMOD + "\x00pub fn %s(a: %s, b: %s) -> %s { use wr_int::*; %s(a).%s(%s(b)).0 }" % (fn, lt, rt, tt, l, s, r), args, saturating(ex, lo, hi, "impl_op " + s)))
    for lay, bits in LAYOUTS.items():
        lo, hi = lim(bits)
        for p in (sorted({0, 2, MAXP[lay]}) if tier == "quick" else precisions(lay, tier)):
            coef = 10 ** p
            M = module(lay, p)
            u = "use wr_%s_%d::*; type F = %s;" % (lay, p, fp(lay, p).replace("::<", "<"))
            ff = [sint("a", bits), sint("b", bits)]

            def case(nm, sig, ret, body, args, spec, suffix="", lay=lay, p=p, M=M, u=u):
                fn = "c26_%s_%s_%d" % (nm, lay, p)
                out.append(Case(fn + suffix, fn, M + "\x00pub fn %s(%s) -> %s { %s %s }" % (fn, sig, ret, u, body), args, spec, models=models(lay), interesting=inter(coef, hi)))
            ab = "a: %s, b: %s" % (lay, lay)
            pr, de, ra = "Price(F::from_bits(a))", "Delta(F::from_bits(b))", "Ratio(F::from_bits(b))"
            R, B = "R<%s>" % lay, ".map(|x| x.0.into_bits())"
            case("cadd", ab, R, "%s.cadd(%s)%s" % (pr, de, B), ff, exact_or_overflow(add, lo, hi))
            case("csub", ab, R, "%s.csub(Price(F::from_bits(b)))%s" % (pr, B), ff, exact_or_overflow(sub, lo, hi))
            case("sadd", ab, lay, "%s.saturating_add(%s).0.into_bits()" % (pr, de), ff, saturating(add, lo, hi, "impl_op saturating_add"))
            case("ssub", ab, lay, "%s.saturating_sub(Price(F::from_bits(b))).0.into_bits()" % pr, ff, saturating(sub, lo, hi, "impl_op saturating_sub"))
            for m, mv in MODES.items():
                abm = ab + ", m: RoundMode"
                case("rmul", abm, R, "%s.rmul(%s, m)%s" % (pr, ra, B), ff + [Const(mv)], quotient(mul, lambda e, c=coef: c, m, lo, hi, "impl_op rmul"), "_" + m)
                case("rdiv", abm, R, "%s.rdiv(%s, m)%s" % (pr, de, B), ff + [Const(mv)], quotient(lambda e, c=coef: P.scale(e["a"], c), lambda e: e["b"], m, lo, hi, "impl_op rdiv"), "_" + m)
            for i in SMALLER[lay]:
                if tier == "quick" and i not in (SMALLER[lay][0], SMALLER[lay][-1]):
                    continue
                S = "Size" + i.upper()
                ib = BITS[i]
                fi, if_ = [sint("a", bits), sint("b", ib)], [sint("a", ib), sint("b", bits)]
                case("cmul_if_" + i, "a: %s, b: %s" % (i, lay), R, "%s(a).cmul(Price(F::from_bits(b)))%s" % (S, B), if_, exact_or_overflow(mul, lo, hi))
                case("cmul_fi_" + i, "a: %s, b: %s" % (lay, i), R, "%s.cmul(%s(b))%s" % (pr, S, B), fi, exact_or_overflow(mul, lo, hi))
                for m, mv in MODES.items():
                    case("rdiv_fi_" + i, "a: %s, b: %s, m: RoundMode" % (lay, i), R, "Amount(F::from_bits(a)).rdiv(%s(b), m)%s" % (S, B), fi + [Const(mv)],
                         quotient(lambda e: e["a"], lambda e: e["b"], m, lo, hi, "impl_op rdiv (fixed / int)"), "_" + m)
                    ii = [sint("a", ib), sint("b", ib)]
                    num1 = lambda e, c=coef: P.scale(e["a"], c)
                    case("rdiv_ii_" + i, "a: %s, b: %s, m: RoundMode" % (i, i), R, "%s(a).rdiv(%s(b), m)%s" % (S, S, B), ii + [Const(mv)],
                         int_over_fp(num1, num1, lambda e: e["b"], m, lo, hi), "_" + m)
                    case("rdiv_if_" + i, "a: %s, b: %s, m: RoundMode" % (i, lay), R, "%s(a).rdiv(Price(F::from_bits(b)), m)%s" % (S, B), if_ + [Const(mv)],
                         int_over_fp(num1, lambda e, c=coef: P.scale(e["a"], c * c), lambda e: e["b"], m, lo, hi), "_" + m)
    return out
