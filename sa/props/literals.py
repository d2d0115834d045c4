"""C25: literal macros."""
from .common import *
from .text import Str
from .. import strings
from ..strings import sptr

WRAP = "#[derive(Clone, Copy)] pub struct Lw<I, P>(pub FixedPoint<I, P>); impl<I, P> From<FixedPoint<I, P>> for Lw<I, P> { fn from(x: FixedPoint<I, P>) -> Self { Lw(x) } }"


class Lit(Str):
    """the text of the literal; it takes the place of the text in the macro's expansion"""
    def make(self, st, pins, env):
        env["text"] = Str.make(self, st, pins, env)
        return None


class Val(Int):
    """the value of the constant that the macro declares"""


def subst_text(word):
    want = [ord(c) for c in word]

    def f(it, st, ty, v, env):
        if isinstance(v, Ptr) and v.len is not None and it.d.ty(ty)["s"].endswith("str") and v.base[0] != "t":
            toks = strings.view(it, st, v)
            if len(toks) == len(want) and all(t.k == "c" and t.v == c for t, c in zip(toks, want)):
                st.divs[("substituted",)] = True
                return env["text"]
        return v
    return f


def subst_int(x, tys):
    def f(it, st, ty, v, env):
        if v == x and it.d.ty(ty)["s"] in tys:
            st.divs[("substituted",)] = True
            return env["v"]
        return v
    return f


def need(cx):
    if not cx.st.divs.get(("substituted",)):
        raise Gap("the expansion of the macro has another structure")


class NoArg(Lit):
    pass


def literal(sg, k, f, p, lim_, exact, good=True):
    """a literal with k whole digits and f fractional ones (None: no point)"""
    def spec(cx, e, kind, val):
        need(cx)
        v = 0
        for i in range(k):
            v = P.add(v, P.scale(P.sub(e["i%d" % i], 48), 10 ** (p + k - 1 - i)))
        ok = good and (f or 0) <= p
        unit = 10 ** max(0, (f or 0) - p)       # surplus digits: the value in smaller units
        if good:
            v = P.scale(v, unit)
            for i in range(f or 0):
                v = P.add(v, P.scale(P.sub(e["f%d" % i], 48), unit * 10 ** p // 10 ** (i + 1)))
        v = P.scale(v, sg)
        if kind == "ub":
            default_panic(cx, kind, val)
        elif kind == "panic":
            if ok and exact:
                cx.never([("ge", P.sub(lim_, v)), ("ge", P.add(lim_, v))], "a literal that denotes a number is rejected")
            else:
                cx.ge(0, "does not compile")
        elif not good:
            cx.fail("a text that is not a decimal number is accepted")
        elif not ok:
            cx.eq(P.sub(P.scale(cx.num(val), unit), v), "a literal with more than %d fractional digits is rounded" % p)
        else:
            cx.eq(P.sub(cx.num(val), v), "the literal has another value than its text")
    return spec


def shape(sg, k, f):
    s = ["-"] if sg < 0 else []
    s += [("x", "i%d" % i, (48, 57)) for i in range(k)]
    if f is not None:
        s += ["."] + [("x", "f%d" % i, (48, 57)) for i in range(f)]
    return s


def c25(tier):
    out = []
    quick = tier == "quick"
    for cfg, lay, bits, digs in (("all", "i128", 128, 39), ("s_i64", "i64", 64, 19)):
        m = (1 << (bits - 1)) - 1
        for p in ([0, 1, 2, 9, 18] + ([19, 25, 38] if bits == 128 else []) if quick else range(MAXP[lay] + 1)):
            word = "1.5" if p else "7"
            fn = "c25_text_%d" % p
            src = "pub fn %s() -> %s { let x: %s = fixnum_const!(%s, %d); x.into_bits() }" % (fn, lay, fp(lay, p).replace("::<", "<"), word, p)

            def case(id, parts, spec, fn=fn, src=src, word=word, cfg=cfg):
                out.append(Case("%s:%s_%s" % (cfg, fn, id), "~" + fn + "::", src, [NoArg(*parts)], spec, cfg=cfg, models=strings.MODELS, opts={"subst": subst_text(word), "noargs": True}))
            top = len(str(m // 10 ** p))        # whole digits of the largest number
            for sg, s in ((1, "p"), (-1, "n")):
                ks = sorted({1, 2, (top + 1) // 2, top, top + 1, digs, digs + 1} if quick else set(range(1, digs + 3)))
                fs = [None] + sorted({0, 1, p - 1, p, p + 1, p + 3} if quick else set(range(0, p + 4)))
                for k in ks:
                    for f in fs:
                        if f is not None and (f < 0 or (k > 2 and f not in (0, 1, p) and (quick or f > p))):
                            continue
                        # every digit's power of ten must exist, although leading digits may be zero
                        case("%s%d_%s" % (s, k, f), shape(sg, k, f), literal(sg, k, f, p, m, k <= digs and (f or 0) <= digs - 1))
            bad = literal(1, 1, 0, p, m, False, good=False)
            for i, (a, b) in enumerate(((32, 42), (44, 44), (47, 47), (58, 126))):
                case("bad_first_%d" % i, [("x", "c", (a, b)), ("x", "i0", (48, 57))], bad)
            for i, (a, b) in enumerate(((32, 45), (47, 47), (58, 126))):
                for nm, pre, post in (("second", 1, 1), ("last", 1, 0)):
                    parts = [("x", "i0", (48, 57)), ("x", "c", (a, b))] + [("x", "i1", (48, 57))] * post
                    case("bad_%s_%d" % (nm, i), parts, bad)
                    if p >= 2:
                        case("bad_frac_%s_%d" % (nm, i), ["1."] + parts, bad)
            case("bad_points", [("x", "i0", (48, 57)), ".", ("x", "i1", (48, 57)), "."], bad)
        for lay2, bits2 in LAYOUTS.items():
            if cfg != "all" and lay2 != lay:
                continue
            lo2, hi2 = lim(bits2)
            p = {"i16": 2, "i32": 4, "i64": 9, "i128": 18}[lay2]
            x = 15 * 10 ** (p - 1)

            def cut(cx, e, kind, val, lo2=lo2, hi2=hi2):
                need(cx)
                if kind == "ub":
                    default_panic(cx, kind, val)
                elif kind == "panic":
                    cx.never([("ge", P.sub(hi2, e["v"])), ("ge", P.sub(e["v"], lo2))], "a representable literal is rejected")
                else:
                    cx.eq(P.sub(cx.num(val), e["v"]), "the literal is truncated to the layout")
            for nm, mac, ty, out_ in (("const", "fixnum_const", fp(lay2, p).replace("::<", "<"), "x.into_bits()"), ("into", "fixnum", "Lw<%s, U%d>" % (lay2, p), "x.0.into_bits()")):
                fn = "c25_cut_%s_%s" % (nm, lay2)
                src = WRAP + "\x00pub fn %s() -> %s { let x: %s = %s!(1.5, %d); %s }" % (fn, lay2, ty, mac, p, out_)
                out.append(Case(cfg + ":" + fn, fn, src, [Val("v", -(1 << (bits - 1)), m)], cut, cfg=cfg, opts={"subst": subst_int(x, ("i64", "i128")), "noargs": True}))
            # whole expansions, evaluated by the compiler: the ends of the layout and typical texts
            c10 = 10 ** p
            texts = ["0", "1", "0.0", "-0.5", "3.", "0.%0*d" % (p, 1), "-0.%0*d" % (p, 1), "%d.%0*d" % (hi2 // c10, p, hi2 % c10), "-%d.%0*d" % (hi2 // c10, p, hi2 % c10), "12.5", "-12.05", "0012.50"]
            if bits2 < bits:
                texts.append("-%d.%0*d" % (-lo2 // c10, p, -lo2 % c10))
            for i, t in enumerate(texts):
                neg, t2 = t.startswith("-"), t.lstrip("-")
                a, _, b = t2.partition(".")
                want = (int(a) * c10 + int(b.ljust(p, "0") or 0)) * (-1 if neg else 1)

                def is_const(cx, e, kind, val, want=want):
                    if not no_abnormal(cx, kind, val):
                        cx.eq(P.sub(cx.num(val), want), "the literal has another value than its text")
                for mac in ("fixnum_const", "fixnum"):
                    fn = "c25_%s_%s_%d" % (mac, lay2, i)
                    out.append(Case(cfg + ":" + fn, fn, "pub fn %s() -> %s { let x: %s = %s!(%s, %d); x.into_bits() }" % (fn, lay2, fp(lay2, p).replace("::<", "<"), mac, t, p), [], is_const, cfg=cfg))
    return out
