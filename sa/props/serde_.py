"""C19 C20: serialisation and deserialisation through serde's data model."""
import os, re, struct
from fractions import Fraction
from .common import *
from .. import strings
from ..interp import FExpr
from . import fromf64
from .fromf64 import F64
from .text import Str, value_spec, error_spec, canonical

HARNESS = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "serde_harness.rs")).read()
EV = "Bool I8 I16 I32 I64 I128 U8 U16 U32 U64 U128 F32 F64 Char Str Bytes None Unit Other".split()
DEPS = ['serde = { version = "1", default-features = false }']


def m_rec_str(it, st, fr, fn, vals, t):
    st.effects = st.effects + (("str", tuple(strings.view(it, st, vals[0]))),)
    return UNIT


def m_to_f64(it, st, fr, fn, vals, t):
    """f64::from(number), an uninterpreted function of the number"""
    return FExpr("f64", (it.num(st, vals[0].f[0]),))


def m_from_f64(it, st, fr, fn, vals, t):
    """FixedPoint::try_from(float): accepted with some value, or not"""
    x = vals[0]
    if not (isinstance(x, FExpr) and x.op == "input"):
        # another float than the one of the input: the result is unrelated to the input
        x = None
    key = ("try_from", x is not None)
    c = st.divs.get(key)
    if c is None:
        bits = int(re.search(r"FixedPoint<i(\d+)", fn["n"]).group(1))
        c = st.divs[key] = (st.fresh("accepted", 0, 1), st.fresh("value", -(1 << (bits - 1)), (1 << (bits - 1)) - 1))
    if st.decide_or_fork(P.sub(c[0], 1)):
        return Agg(0, (Agg(None, (c[1], UNIT)),))
    return Agg(1, (Agg(None, (Top("reason"),)),))


from ..mir import Top, UNIT
MODELS = {re.compile(r"^(\w+::)?rec_str$"): m_rec_str,
          re.compile(r"From<fixnum::FixedPoint<.*>> for f64>::from$"): m_to_f64,
          re.compile(r"TryFrom<f64> for fixnum::FixedPoint<.*>::try_from$"): m_from_f64}
MODELS.update(strings.MODELS)


EXACT = {k: v for k, v in MODELS.items() if v is not m_from_f64}
NUMBERS = {k: v for k, v in MODELS.items() if v is not m_to_f64}
FLOATS = (0.0, -0.0, 0.5, -1.5, 0.1, 1e-7, -1e-7, 1e-12, 0.3333333333333333, 2.0 ** -60, 5e-324, 123.456, -3.25, 12345.678, -16777217.0, 4294967296.0, -4294967297.5, 9007199254740993.0, -1e15, 9.3e17,
          2.0 ** 63, -2.0 ** 63, 1e19, -1e20, 2.0 ** 64, 1e25, -1e30, 2.0 ** 127, 1e40, -1.7976931348623157e308, float("inf"), float("-inf"), float("nan"))


def float_spec(spec):
    """spec of fromf64 over Result<raw, _>; None: a float that is not a number"""
    def f(cx, e, kind, val):
        if kind != "ret":
            no_abnormal(cx, kind, val)
        elif spec is None:
            cx.ge(0 if val.v == 1 else -1, "an infinity or NaN is accepted")
        else:
            spec(cx, e, kind, val if val.v == 1 else Agg(0, (Agg(None, (val.f[0], UNIT)),)))
    return f


class Flt:
    def make(self, st, pins, env):
        env["f"] = FExpr("input", ())
        return env["f"]


def as_ev(val, lay):
    """(event name, payload) of an Ok(Ev) outcome"""
    ev = val.f[0].f[0] if isinstance(val.f[0].f, tuple) and val.f[0].v is None else val.f[0]
    return EV[ev.v], (ev.f[0] if ev.f else None)


def c19(tier):
    """serialisation"""
    out = []
    for lay, bits in LAYOUTS.items():
        for p in precisions(lay, tier):
            F = fp(lay, p)

            def case(name, expr, want, some=None, const=None, F=F, lay=lay, p=p, bits=bits):
                fn = "c19_%s_%s_%d" % (name, lay, p)
                src = "pub fn %s(a: %s) -> (Result<Ev, SE>, u32) { let mut somes = 0; let r = { let s = Ser { human: %s, somes: &mut somes }; %s }; (r, somes) }" % (
                    fn, lay, "false" if "bin" in name else "true", expr.replace("FP", F).replace("TY", F.replace("::<", "<")).replace("LAY", lay).replace("PREC", "U%d" % p))

                def spec(cx, e, kind, val):
                    if no_abnormal(cx, kind, val):
                        return
                    r, somes = val.f
                    if r.v != 0:
                        cx.fail("serialisation fails although the serializer does not")
                        return
                    cx.eq(P.sub(cx.num(somes), some or 0), "number of Some layers")
                    ev = r.f[0]
                    nm, pay = EV[ev.v], (ev.f[0] if ev.f else None)
                    if want == "str":
                        if nm != "Str":
                            cx.fail("not serialised as a string")
                        else:
                            canonical(cx, e["a"], p, "serialised string")
                    elif want == "repr":
                        if nm != lay.upper():
                            cx.fail("not serialised as the inner representation (%s)" % nm)
                        else:
                            cx.eq(P.sub(cx.num(pay), e["a"]), "serialised representation differs from the raw bits")
                    elif want == "float":
                        if nm != "F64":
                            cx.fail("not serialised as a float (%s)" % nm)
                        elif isinstance(pay, float) and isinstance(e["a"], int):
                            x = Fraction(e["a"], 10 ** p)
                            if pay != pay or abs(pay) == float("inf") or abs(Fraction(pay) - x) > abs(x) / (1 << 50):
                                cx.fail("the serialised float differs from the number")
                            else:
                                cx.ge(0, "float")
                        elif not (isinstance(pay, FExpr) and pay.op == "f64"):
                            # the cases with particular numbers decide
                            raise Gap("the float is not converted by From<FixedPoint>")
                        else:
                            cx.eq(P.sub(pay.args[0], e["a"]), "the serialised float is not the conversion of the number")
                    elif nm != want:
                        cx.fail("serialised as %s" % nm)
                    else:
                        cx.ge(0, "kind")
                if const is None:
                    out.append(Case(fn, fn, src, [sint("a", bits)], spec, models=MODELS, opts={"cost": bits}))
                else:
                    out.append(Case("%s_%d" % (fn, const), fn, src, [Int("a", const, const)], spec, models=NUMBERS))
            case("human", "FP::from_bits(a).serialize(s)", "str")
            case("bin", "FP::from_bits(a).serialize(s)", "repr")
            T = "_, LAY, PREC, Ser"
            for h in ("", "bin"):
                for mod, want in (("repr", "repr"), ("str", "str"), ("float", "float")):
                    if tier == "quick" and h and mod == "str":
                        continue
                    case(mod + h, "fixnum::serde::%s::serialize::<TY, LAY, PREC, Ser>(&FP::from_bits(a), s)" % mod, want)
                    case(mod + "_some" + h, "fixnum::serde::%s_option::serialize::<TY, LAY, PREC, Ser>(&Some(FP::from_bits(a)), s)" % mod, want, 1)
                    case(mod + "_none" + h, "fixnum::serde::%s_option::serialize::<TY, LAY, PREC, Ser>(&None, s)" % mod, "None")
                    if not h and (mod != "str" or tier != "quick" or p < 10):
                        if mod == "float":
                            lo, hi = lim(bits)
                            for x in sorted({0, 1, -1, lo, hi, lo // 3, hi // 7, 10 ** p // 10, -(10 ** p) - 1, 10 ** p * 12345 + 6789, 123456789012345678, 16777217 * 10 ** p}):
                                if lo <= x <= hi and (tier != "quick" or p in (0, 9, 18)):
                                    case("float", "fixnum::serde::float::serialize::<TY, LAY, PREC, Ser>(&FP::from_bits(a), s)", want, const=x)
                                    case("float_some", "fixnum::serde::float_option::serialize::<TY, LAY, PREC, Ser>(&Some(FP::from_bits(a)), s)", want, 1, const=x)
                        case(mod + "_wrap", "fixnum::serde::%s::serialize::<Wrap<LAY, PREC>, LAY, PREC, Ser>(&Wrap(FP::from_bits(a)), s)" % mod, want)
                        case(mod + "_wrap_some", "fixnum::serde::%s_option::serialize::<Wrap<LAY, PREC>, LAY, PREC, Ser>(&Some(Wrap(FP::from_bits(a))), s)" % mod, want, 1)
    return out


INTS = {"I8": (8, True), "I16": (16, True), "I32": (32, True), "I64": (64, True), "I128": (128, True), "U8": (8, False), "U16": (16, False), "U32": (32, False), "U64": (64, False), "U128": (128, False)}


def c20(tier):
    """deserialisation"""
    out = []
    for lay, bits in LAYOUTS.items():
        lo, hi = lim(bits)
        for p in precisions(lay, tier):
            F = fp(lay, p)
            TY = F.replace("::<", "<")

            def case(name, id, human, how, inp, param, args, spec, option=False, wrap=False, lay=lay, p=p, TY=TY, models=MODELS, opts=None):
                fn = "c20_%s_%s_%d" % (name, lay, p)
                ty = "Wrap<%s, U%d>" % (lay, p) if wrap else TY
                bits_of = ".map(|x| x.0.into_bits())" if wrap else ".map(|x| x.into_bits())"
                if how == "default":
                    call = "<%s as Deserialize>::deserialize(d)" % ty
                else:
                    call = "fixnum::serde::%s::deserialize::<%s, %s, U%d, De>(d)" % (how, ty, lay, p)
                if option:
                    bits_of = ".map(|o| o%s)" % bits_of
                    ret = "Result<Option<%s>, SE>" % lay
                else:
                    ret = "Result<%s, SE>" % lay
                src = "pub fn %s(%s) -> %s { let d = De { human: %s, input: %s }; %s%s }" % (fn, param, ret, "true" if human else "false", inp, call, bits_of)
                if option:
                    def spec2(cx, e, kind, val, spec=spec):
                        if kind == "ret" and is_ok(val):
                            o = val.f[0]
                            if o.v == 0:
                                cx.fail("a present value is read as None")
                                return
                            val = Agg(0, (o.f[0],))
                        spec(cx, e, kind, val)
                else:
                    spec2 = spec
                out.append(Case(fn + id, fn, src, args, spec2, models=models, opts=opts))

            def raw(cx, e, kind, val, lo=lo, hi=hi):
                if no_abnormal(cx, kind, val):
                    return
                if is_ok(val):
                    cx.eq(P.sub(val.f[0], e["v"]), "the number differs from the raw representation")
                else:
                    cx.never([("ge", P.sub(hi, e["v"])), ("ge", P.sub(e["v"], lo))], "a representable raw value is rejected")

            def whole(cx, e, kind, val, lo=lo, hi=hi, p=p):
                if no_abnormal(cx, kind, val):
                    return
                v = P.scale(e["v"], 10 ** p)
                if is_ok(val):
                    cx.eq(P.sub(val.f[0], v), "the number differs from the integer")
                else:
                    cx.never([("ge", P.sub(hi, v)), ("ge", P.sub(v, lo))], "a representable integer is rejected")

            def flt(cx, e, kind, val):
                if no_abnormal(cx, kind, val):
                    return
                c = cx.st.divs.get(("try_from", True))
                if c is None:
                    # the cases with particular floats decide
                    raise Gap("the float is not converted by TryFrom<f64>")
                if is_ok(val):
                    cx.eq(P.sub(c[0], 1), "a float that cannot be converted is accepted")
                    cx.eq(P.sub(val.f[0], c[1]), "the number differs from the conversion of the float")
                else:
                    cx.eq(c[0], "a convertible float is rejected")

            def isnone(cx, e, kind, val):
                if no_abnormal(cx, kind, val):
                    return
                if not is_ok(val) or val.f[0].v != 0:
                    cx.fail("None is not read as None")
                else:
                    cx.ge(0, "None")

            for ev, (b, s) in INTS.items():
                arg = [Int("v", -(1 << (b - 1)), (1 << (b - 1)) - 1) if s else uint("v", b)]
                case("any_" + ev, "", True, "default", "In::%s(v)" % ev, "v: %s" % ev.lower(), arg, whole)
            arg = [sint("v", bits)]
            L = lay.upper()
            case("bin", "", False, "default", "In::%s(v)" % L, "v: " + lay, arg, raw)
            for w in (False, True):
                x = "_wrap" if w else ""
                for human in (True, False):
                    h = x + ("" if human else "_bin")
                    case("repr" + h, "", human, "repr", "In::%s(v)" % L, "v: " + lay, arg, raw, wrap=w)
                    case("repr_some" + h, "", human, "repr_option", "In::%s(v)" % L, "v: " + lay, arg, raw, option=True, wrap=w)
                    case("float" + h, "", human, "float", "In::F64(f)", "f: f64", [Flt()], flt, wrap=w)
                    case("float_some" + h, "", human, "float_option", "In::F64(f)", "f: f64", [Flt()], flt, option=True, wrap=w)
                    for m in ("repr", "str", "float"):
                        fn = "c20_%s_none%s_%s_%d" % (m, h, lay, p)
                        ty = "Wrap<%s, U%d>" % (lay, p) if w else TY
                        out.append(Case(fn, fn, "pub fn %s() -> Result<Option<bool>, SE> { let d = De { human: %s, input: In::Unit }; fixnum::serde::%s_option::deserialize::<%s, %s, U%d, De>(d).map(|o| o.map(|_| true)) }" % (
                            fn, "true" if human else "false", m, ty, lay, p), [], isnone, models=MODELS))
            case("any_f64", "", True, "default", "In::F64(f)", "f: f64", [Flt()], flt)
            if tier != "quick" or p in (0, 9, 18):
                for nm, how, some in (("any_f64", "default", False), ("float", "float", False), ("float_some", "float_option", True)):
                    for i, x in enumerate(FLOATS):
                        if tier == "quick" and (i + p + bits // 16) % 3 and abs(x) < 1e9:
                            continue
                        u = struct.unpack("<Q", struct.pack("<d", x))[0]
                        be, m = u >> 52 & 0x7FF, u & (1 << 52) - 1
                        case(nm, "_%016x" % u, True, how, "In::F64(f)", "f: f64", [F64(u >> 63, be, m, m)],
                             float_spec(fromf64.spec(u >> 63, be, p, bits) if be < 2047 else None), option=some, models=EXACT, opts=dict(fromf64.OPTS))
            V = ("d", "V", None)
            kinds = [("str", True, "default", "Str", False, False), ("borrowed", True, "default", "Borrowed", False, False),
                     ("mstr", True, "str", "Borrowed", False, False), ("mstr_some", True, "str_option", "Borrowed", True, False),
                     ("mstr_t", True, "str", "Str", False, False), ("mstr_some_t", True, "str_option", "Str", True, False),
                     ("mstr_wrap", True, "str", "Borrowed", False, True), ("mstr_some_wrap", True, "str_option", "Borrowed", True, True), ("mstr_bin", False, "str", "Borrowed", False, False), ("mstr_some_bin", False, "str_option", "Borrowed", True, False)]
            for nm, human, how, ev, opt, w in kinds:
                def scase(id, parts, spec, nm=nm, human=human, how=how, ev=ev, opt=opt, w=w):
                    case(nm, id, human, how, "In::%s(s)" % ev, "s: &'static str", [Str(*parts)], spec, option=opt, wrap=w)
                for sname, sg, t in (("", 1, "n"), ("+", 1, "p"), ("-", -1, "m")):
                    scase("_%s_int" % t, [sname, V], value_spec(lambda e, sg=sg, p=p: P.scale(e["V"], sg * 10 ** p), lo, hi, "string"))
                    for k in sorted({k for k in (1, p // 2, p) if 1 <= k <= p}):
                        scase("_%s_frac%d" % (t, k), [sname, V, ".", ("d", "F", k)],
                              value_spec(lambda e, sg=sg, p=p, k=k: P.scale(P.add(P.scale(e["V"], 10 ** p), P.scale(e["F"], 10 ** (p - k))), sg), lo, hi, "string"))
                    for half, rng in (("lo", (0, 4)), ("hi", (5, 9))):
                        scase("_%s_more_%s" % (t, half), [sname, V, "."] + ([("d", "F", p)] if p else []) + [("x", "D", (48 + rng[0], 48 + rng[1])), ("d", "R", None, 0)],
                              value_spec(lambda e, sg=sg, p=p, up=int(half == "hi"): P.scale(P.add(P.add(P.scale(e["V"], 10 ** p), e.get("F", 0)), up), sg), lo, hi, "string"))
                bad = error_spec("string")
                for id, parts in (("empty", [""]), ("letter", [V, ("x", "X", (97, 122))]), ("nofrac", [V, "."]), ("sign", ["-"]), ("noint", [".", V])):
                    scase("_bad_" + id, parts, bad)
            for nm, inp in (("bool", "In::Bool(true)"), ("unit", "In::Unit"), ("char", "In::Char('1')")):
                if nm == "char":
                    continue        # serde forwards characters to visit_str: a digit is a number
                case("any_" + nm, "", True, "default", inp, "", [], error_spec(nm))
    return out


# the form in which quick-xml hands over the text of a tag: a map with the key "$value"
XML = """
pub struct XMap<'de> { pub key: Option<In<'de>>, pub value: In<'de> }
impl<'de> de::MapAccess<'de> for XMap<'de> {
    type Error = SE;
    fn next_key_seed<K: de::DeserializeSeed<'de>>(&mut self, seed: K) -> Result<Option<K::Value>, SE> { match self.key.take() { Some(i) => seed.deserialize(De { human: true, input: i }).map(Some), None => Ok(None) } }
    fn next_value_seed<S: de::DeserializeSeed<'de>>(&mut self, seed: S) -> Result<S::Value, SE> { seed.deserialize(De { human: true, input: self.value }) }
}
pub struct XDe<'de>(pub XMap<'de>);
impl<'de> Deserializer<'de> for XDe<'de> {
    type Error = SE;
    fn is_human_readable(&self) -> bool { true }
    fn deserialize_any<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value, SE> { v.visit_map(self.0) }
    ::serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}
"""


def c20_xml(tier):
    from .misc import SM
    out = []
    M = dict(MODELS)
    M.update({k: v for k, v in SM.items() if not isinstance(k, str) and "tring" in k.pattern})
    for lay, bits in LAYOUTS.items():
        lo, hi = lim(bits)
        for p in precisions(lay, tier):
            TY = fp(lay, p).replace("::<", "<")

            def case(id, key, value, param, args, spec, lay=lay, p=p, TY=TY):
                fn = "c20_xml_%s_%s_%d" % (id, lay, p)
                src = "pub fn %s(%s) -> Result<%s, SE> { let d = XDe(XMap { key: %s, value: %s }); <%s as Deserialize>::deserialize(d).map(|x| x.into_bits()) }" % (fn, param, lay, key, value, TY)
                out.append(Case(fn, fn, src, args, spec, cfg="xml", models=M))
            V = ("d", "V", None)
            KEY = 'Some(In::Borrowed("$value"))'

            def scase(id, parts, spec, key=KEY, how="Str"):
                case(id, key, "In::%s(s)" % how, "s: &'static str", [Str(*parts)], spec)
            for sname, sg, t in (("", 1, "n"), ("-", -1, "m")):
                scase("%s_int" % t, [sname, V], value_spec(lambda e, sg=sg, p=p: P.scale(e["V"], sg * 10 ** p), lo, hi, "tag"))
                scase("%s_int_b" % t, [sname, V], value_spec(lambda e, sg=sg, p=p: P.scale(e["V"], sg * 10 ** p), lo, hi, "tag"), 'Some(In::Str("$value"))', "Borrowed")
                for half, rng in (("lo", (0, 4)), ("hi", (5, 9))):
                    scase("%s_more_%s" % (t, half), [sname, V, "."] + ([("d", "F", p)] if p else []) + [("x", "D", (48 + rng[0], 48 + rng[1])), ("d", "R", None, 0)],
                          value_spec(lambda e, sg=sg, p=p, up=int(half == "hi"): P.scale(P.add(P.add(P.scale(e["V"], 10 ** p), e.get("F", 0)), up), sg), lo, hi, "tag"))
            bad = error_spec("tag")
            for id, parts in (("empty", [""]), ("letter", [V, ("x", "X", (97, 122))]), ("nofrac", [V, "."])):
                scase("bad_" + id, parts, bad)
            for i, key in enumerate(("None", 'Some(In::Str("value"))', 'Some(In::Str(""))', 'Some(In::Str("$value2"))', 'Some(In::Str("$valu"))', 'Some(In::Unit)')):
                scase("key%d" % i, ["1"], bad, key)
            case("unit", KEY, "In::Unit", "", [], bad)
    return out
