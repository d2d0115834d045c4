"""C22: error values and their texts.  C29: the JSON schema."""
import re
from .common import *
from .. import strings
from ..mir import Top, UNIT, Ptr
from .serde_ import m_rec_str

SCHEMA_DEPS = ['schemars = { version = "0.8", default-features = false }']
SCHEMA = """
use schemars::{JsonSchema, gen::SchemaGenerator, schema::{Schema, SingleOrVec, InstanceType}};
#[inline(never)] pub fn rec_text(_: &str) {}
pub fn instance(t: &Option<SingleOrVec<InstanceType>>) -> u32 {
    match t { None => 100, Some(SingleOrVec::Vec(_)) => 101, Some(SingleOrVec::Single(b)) => one(**b) }
}
pub fn one(t: InstanceType) -> u32 {
    match t { InstanceType::String => 1, InstanceType::Null => 2, InstanceType::Boolean => 3, InstanceType::Object => 4, InstanceType::Array => 5, InstanceType::Number => 6, InstanceType::Integer => 7 }
}
pub fn schema_of<T: JsonSchema>(g: &mut SchemaGenerator) -> (u32, u32, u32, u32) {
    let s = core::mem::ManuallyDrop::new(T::json_schema(g));
    match &*s {
        Schema::Bool(true) => (102, 0, 0, u32::MAX),
        Schema::Bool(false) => (103, 0, 0, u32::MAX),
        Schema::Object(o) => {
            let mut r = 0;
            if o.enum_values.is_some() { r |= 1 }
            if o.const_value.is_some() { r |= 2 }
            if o.subschemas.is_some() { r |= 4 }
            if o.reference.is_some() { r |= 16 }
            let (mut lo, mut hi) = (0, u32::MAX);
            if let Some(v) = &o.string {
                if let Some(n) = v.min_length { lo = n }
                if let Some(n) = v.max_length { hi = n }
                if let Some(p) = &v.pattern { r |= 8; rec_text(p.as_str()) }
            }
            (instance(&o.instance_type), r, lo, hi)
        }
    }
}
"""


class Opaque:
    """a reference to something that the code may pass on but not look at"""
    def make(self, st, pins, env):
        k = ("opaque", len(st.heap))
        st.heap[k] = Top("the schema generator")
        return Ptr(("h", k), ())


def m_box(it, st, fr, fn, vals, t):
    k = ("box", len(st.heap))
    st.heap[k] = vals[0]
    return Agg("box", (Ptr(("h", k), ()),))


def m_owned(it, st, fr, fn, vals, t):
    return Agg("string", (vals[0],))


def m_str(it, st, fr, fn, vals, t):
    v = it.load(st, vals[0].base, vals[0].path) if isinstance(vals[0], Ptr) else vals[0]
    if not (isinstance(v, Agg) and v.v == "string"):
        raise Gap("not a modelled string")
    return v.f[0]


def m_map(it, st, fr, fn, vals, t):
    return Agg("map", ())


def m_fmt(it, st, fr, fn, vals, t):
    return m_rec_str(it, st, fr, fn, vals[1:], t) and Agg(0, (UNIT,))


SM = {re.compile(r"^(\w+::)?rec_text$"): m_rec_str,
      re.compile(r"Box::<.*>::new$"): m_box,
      re.compile(r"<impl std::borrow::ToOwned for str>::to_owned$|<str as (std|alloc)::borrow::ToOwned>::to_owned$|From<&str> for (std|alloc)::string::String>::from$|(std|alloc)::string::String as (std|core)::convert::From<&str>>::from$|<str as (std|alloc)::string::ToString>::to_string$"): m_owned,
      re.compile(r"(std|alloc)::string::String as (std|core)::ops::Deref>::deref$|(std|alloc)::string::String::as_str$"): m_str,
      re.compile(r"(BTreeMap|IndexMap).* as (std|core)::default::Default>::default$"): m_map,
      re.compile(r"drop_in_place::<(std|alloc)::string::String>"): lambda it, st, fr, fn, vals, t: UNIT}
SM.update(strings.MODELS)


def canonical_text(x, p):
    """the text of x / 10^p"""
    i, f = divmod(abs(x), 10 ** p)
    return "%s%d.%s" % ("-" if x < 0 else "", i, (str(f).rjust(p, "0").rstrip("0") or "0") if p else "0")


def c29(tier):
    out = []
    for lay, bits in LAYOUTS.items():
        for p in (sorted({0, 2, MAXP[lay]}) if tier == "quick" else precisions(lay, tier)):
            T = fp(lay, p).replace("::<", "<")
            texts = sorted({canonical_text(x, p) for y in list(lim(bits)) + [10 ** p] for x in [s * (y // d + k) for d in (1, 2, 7, 10, 10 ** 5) for k in (-1, 0, 1) for s in (1, -1)] + [0, 1, -1, 10, -10]
                            if lim(bits)[0] <= x <= lim(bits)[1]}, key=lambda t: (len(t), t))

            def spec(cx, e, kind, val, texts=texts):
                if no_abnormal(cx, kind, val):
                    return
                t, r, lo, hi = map(cx.num, val.f)
                cx.eq(P.sub(t, 1), "the schema does not describe a string")
                if not isinstance(r, int):
                    raise Gap("schema that is not constant")
                cx.ge(0 if not r & ~8 else -1, "the schema restricts the strings")
                cx.ge(P.sub(3, lo), "the schema forbids the text of zero, which is short")
                cx.ge(P.sub(hi, max(map(len, texts))), "the schema forbids the longest texts")
                if r & 8:
                    pat = written(cx)
                    try:
                        bad = [x for x in texts if not re.search(pat, x, re.ASCII)]
                    except re.error:
                        raise Gap("pattern %r" % pat)
                    if bad:
                        cx.fail("the schema's pattern does not match the text %s of a number" % bad[0])
                    else:
                        raise Gap("pattern %r" % pat)
            fn = "c29_%s_%d" % (lay, p)
            out.append(Case(fn, fn, "pub fn %s(g: &mut SchemaGenerator) -> (u32, u32, u32, u32) { schema_of::<%s>(g) }" % (fn, T), [Opaque()], spec, models=SM))

            def ref(cx, e, kind, val):
                if no_abnormal(cx, kind, val):
                    return
                cx.eq(P.sub(cx.num(val), 0), "types of all precisions share a name and must not be stored by it")
            fn = "c29_ref_%s_%d" % (lay, p)
            out.append(Case(fn, fn, "pub fn %s() -> bool { <%s as JsonSchema>::is_referenceable() }" % (fn, T), [], ref, models=SM))
    return out


ERRORS = (("Overflow", "overflow"), ("DivisionByZero", "division by zero"), ("DomainViolation", "domain violation"))
TEXT = "#[inline(never)] pub fn rec_text(_: &str) {}\n"


def written(cx):
    """the recorded texts, as one literal"""
    out = ""
    for t in strings.join(cx.it, cx.st, strings.written(cx.st)):
        v, n = t.v, cx.st.simp(t.n)
        v = cx.st.simp(v) if isinstance(v, Poly) else v
        if t.k not in "cpd" or not isinstance(v, int) or t.k == "d" and not isinstance(n, int):
            raise Gap("text that is not a literal")
        out += str(v).rjust(n, "0") if t.k == "d" else chr(v)
    return out


def c22(tier):
    from .text import FMT
    from .fromf64 import F64
    out = []
    M = dict(strings.MODELS)
    M[re.compile(r"^(\w+::)?rec_text$")] = m_rec_str

    def case(fn, src, args, spec):
        out.append(Case(fn, fn, src, args, spec, models=M))
    for var, text in ERRORS:
        def spec(cx, e, kind, val, text=text):
            if no_abnormal(cx, kind, val):
                return
            got = written(cx)
            if got != text + "|" + text:
                cx.fail("as_str and Display give %r, not %r" % (got, text))
            else:
                cx.ge(0, "text")
        fn = "c22_" + var.lower()
        case(fn, "pub fn %s(f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { let e = ArithmeticError::%s; rec_text(e.as_str()); rec_text(\"|\"); core::fmt::Display::fmt(&e, f) }" % (fn, var), [FMT], spec)

        def same(cx, e, kind, val, var=var):
            if not no_abnormal(cx, kind, val):
                r = [cx.truth(x) for x in val.f]
                want = [var == v for v, _ in ERRORS]
                if r != want:
                    cx.fail("equality of errors")
                else:
                    cx.ge(0, "equality")
        fn = "c22_eq_" + var.lower()
        case(fn, "pub fn %s() -> (bool, bool, bool) { let e = ArithmeticError::%s.clone(); (%s) }" % (fn, var, ", ".join("e == ArithmeticError::" + v for v, _ in ERRORS)), [], same)

    def conv(cx, e, kind, val):
        if no_abnormal(cx, kind, val):
            return
        got = written(cx)
        if not got:
            cx.ge(0, "no error")
            return
        a, _, b = got.partition("|")
        if a != b or not a.strip():
            cx.fail("as_str gives %r, Display %r" % (a, b))
        else:
            cx.ge(0, "text")
    body = "match %s { Ok(_) => Ok(()), Err(e) => { rec_text(e.as_str()); rec_text(\"|\"); core::fmt::Display::fmt(&e, f) } }"
    for lay, bits in LAYOUTS.items():
        T = fp(lay, 2)
        fn = "c22_int_" + lay
        case(fn, "pub fn %s(x: i128, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { %s }" % (fn, body % (T + "::try_from(x)")), [sint("x", 128), FMT], conv)
        fn = "c22_f64_" + lay
        case(fn, "pub fn %s(x: f64, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { %s }" % (fn, body % (T + "::try_from(x)")), [F64(0, 2047), FMT], conv)
        fn = "c22_big_" + lay
        case(fn, "pub fn %s(x: f64, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { %s }" % (fn, body % (T + "::try_from(x)")), [F64(0, 1023 + 140), FMT], conv)
        for i, s in enumerate(("", "x", "1.5.", "-", ".5", "9" * 60, "1e5", "--1", "1.")):
            fn = "c22_str%d_%s" % (i, lay)
            case(fn, "pub fn %s(f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { %s }" % (fn, body % ("<%s as core::str::FromStr>::from_str(\"%s\")" % (T.replace("::<", "<"), s))), [FMT], conv)
    return out
