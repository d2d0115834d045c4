"""C21: SCALE encoding."""
import re
from .common import *
from ..mir import Ptr, UNIT

DEPS = ['parity-scale-codec = { version = "3", default-features = false }']
HARNESS = """
use parity_scale_codec::{Encode, Decode, EncodeLike, Input, Output, CompactAs, Compact};
#[inline(never)] pub fn rec_bytes(_b: &[u8]) {}
pub struct Out;
impl Output for Out { fn write(&mut self, b: &[u8]) { rec_bytes(b) } }
pub struct Inp<const N: usize> { pub buf: [u8; N], pub pos: usize }
impl<const N: usize> Input for Inp<N> {
    fn remaining_len(&mut self) -> Result<Option<usize>, parity_scale_codec::Error> { Ok(Some(N - self.pos)) }
    fn read(&mut self, into: &mut [u8]) -> Result<(), parity_scale_codec::Error> {
        if N - self.pos < into.len() { return Err("too short".into()); }
        let mut i = 0;
        while i < into.len() { into[i] = self.buf[self.pos]; self.pos += 1; i += 1; }
        Ok(())
    }
}
"""


def slice_items(it, st, p):
    n = it.num(st, p.len)
    off = it.num(st, p.off)
    if not (isinstance(n, int) and isinstance(off, int)):
        raise Gap("bytes of a slice of unknown length")
    return [it.num(st, it.load(st, p.base, p.path + (off + i,))) for i in range(n)]


def m_rec(it, st, fr, fn, vals, t):
    st.effects = st.effects + (("bytes", tuple(slice_items(it, st, vals[0]))),)
    return UNIT


def m_new(it, st, fr, fn, vals, t):
    k = ("vec", len(st.heap))
    st.heap[k] = Agg(None, ())
    return Agg("vec", (k,))


def vec_of(it, st, p):
    v = it.load(st, p.base, p.path) if isinstance(p, Ptr) else p
    if not (isinstance(v, Agg) and v.v == "vec"):
        raise Gap("not a modelled vector")
    return v.f[0]


def m_extend(it, st, fr, fn, vals, t):
    k = vec_of(it, st, vals[0])
    st.heap[k] = Agg(None, st.heap[k].f + tuple(slice_items(it, st, vals[1])))
    return UNIT


def m_push(it, st, fr, fn, vals, t):
    k = vec_of(it, st, vals[0])
    st.heap[k] = Agg(None, st.heap[k].f + (it.num(st, vals[1]),))
    return UNIT


def m_to_vec(it, st, fr, fn, vals, t):
    v = m_new(it, st, fr, fn, vals, t)
    st.heap[v.f[0]] = Agg(None, tuple(slice_items(it, st, vals[0])))
    return v


def m_slice(it, st, fr, fn, vals, t):
    k = vec_of(it, st, vals[0])
    return Ptr(("h", k), (), 0, len(st.heap[k].f))


def m_len(it, st, fr, fn, vals, t):
    return len(st.heap[vec_of(it, st, vals[0])].f)


def m_unit(it, st, fr, fn, vals, t):
    return UNIT


V = r"^(std|alloc)::vec::Vec::<u8>::"
MODELS = {re.compile(r"^(\w+::)?rec_bytes$"): m_rec,
          re.compile(V + r"(with_capacity|new)$"): m_new,
          re.compile(V + r"extend_from_slice$"): m_extend,
          re.compile(V + r"push$"): m_push,
          re.compile(V + r"len$"): m_len,
          re.compile(V + r"(reserve|reserve_exact|shrink_to_fit)$"): m_unit,
          re.compile(V + r"as_slice$"): m_slice,
          re.compile(r"^<std::vec::Vec<u8> as std::ops::Deref>::deref$|^<std::vec::Vec<u8> as std::convert::AsRef<\[u8\]>>::as_ref$|^<std::vec::Vec<u8> as std::borrow::Borrow<\[u8\]>>::borrow$"): m_slice,
          re.compile(r"^(alloc|std)::slice::<impl \[u8\]>::to_vec$"): m_to_vec,
          re.compile(r"drop_in_place::<(std|alloc)::vec::Vec<u8>>|drop_in_place::<.*\[closure"): m_unit}


class Bytes:
    """an array of n unknown bytes; their little endian value is env[name]"""
    def __init__(self, name, n):
        self.name, self.n = name, n

    def make(self, st, pins, env):
        b = []
        for i in range(self.n):
            k = "%s%d" % (self.name, i)
            v = st.fresh(k, *pinned(pins, k, 0, 255))
            env[k] = v
            b.append(v)
        return Agg(None, tuple(b))


def c21(tier):
    out = []
    for lay, bits in LAYOUTS.items():
        lo, hi = lim(bits)
        N = bits // 8
        un = "u%d" % bits
        for p in (sorted({0, 2, MAXP[lay]}) if tier == "quick" else precisions(lay, tier)):
            F = fp(lay, p)
            TY = F.replace("::<", "<")

            def case(nm, sig, ret, body, args, spec, lay=lay, p=p, F=F, TY=TY):
                fn = "c21_%s_%s_%d" % (nm, lay, p)
                out.append(Case(fn, fn, "pub fn %s(%s) -> %s { %s }" % (fn, sig, ret, body.replace("FP", F).replace("TY", TY)), args, spec, models=MODELS))

            def wrote(cx, e, kind, val, bits=bits, N=N, size=None):
                if no_abnormal(cx, kind, val):
                    return
                b = [x for k, xs in cx.st.effects if k == "bytes" for x in xs]
                if len(b) != N:
                    cx.fail("%d bytes are written instead of %d" % (len(b), N))
                    return
                x = 0
                for i, v in enumerate(b):
                    x = P.add(x, P.scale(v, 256 ** i))
                # two's complement: the bytes denote a modulo 2^bits
                neg = cx.st.decide(e["a"])
                alt = cx.st.decide_or_fork(e["a"]) if neg is None else neg
                cx.eq(P.sub(x, e["a"] if alt else P.add(e["a"], 1 << bits)), "the bytes are not the little endian raw representation")

            A = [sint("a", bits)]
            case("encode_to", "a: " + lay, "()", "FP::from_bits(a).encode_to(&mut Out)", A, wrote)
            case("encode", "a: " + lay, "()", "let v = FP::from_bits(a).encode(); rec_bytes(&v)", A, wrote)
            case("using", "a: " + lay, "()", "FP::from_bits(a).using_encoded(|b| rec_bytes(b))", A, wrote)
            case("ref", "a: " + lay, "()", "Encode::encode_to(&&FP::from_bits(a), &mut Out)", A, wrote)

            def size(cx, e, kind, val, N=N):
                if not no_abnormal(cx, kind, val):
                    cx.eq(P.sub(cx.num(val), N), "encoded_size differs from the number of bytes")
            case("size", "a: " + lay, "usize", "FP::from_bits(a).encoded_size()", A, size)

            def hint(cx, e, kind, val, N=N):
                if not no_abnormal(cx, kind, val):
                    cx.ge(cx.num(val), "size_hint")
            case("hint", "a: " + lay, "usize", "FP::from_bits(a).size_hint()", A, hint)

            def fixed(cx, e, kind, val, N=N):
                if no_abnormal(cx, kind, val):
                    return
                if val.v == 1:
                    cx.eq(P.sub(cx.num(val.f[0]), N), "encoded_fixed_size differs from the number of bytes")
                else:
                    cx.ge(0, "no fixed size is promised")
            case("fixed", "", "Option<usize>", "<TY as Decode>::encoded_fixed_size()", [], fixed)

            def read(n, bits=bits, N=N):
                def spec(cx, e, kind, val):
                    if no_abnormal(cx, kind, val):
                        return
                    r, pos = val.f
                    if not is_ok(r):
                        if n >= N:
                            cx.fail("a complete encoding is rejected")
                        else:
                            cx.ge(0, "rejected")
                        return
                    if n < N:
                        cx.fail("an incomplete encoding is accepted")
                        return
                    x = 0
                    for i in range(N):
                        x = P.add(x, P.scale(e["b%d" % i], 256 ** i))
                    top = cx.st.decide_or_fork(P.sub(e["b%d" % (N - 1)], 128))
                    cx.eq(P.sub(cx.num(r.f[0]), P.sub(x, 1 << bits) if top else x), "the number differs from the encoded raw representation")
                    cx.eq(P.sub(cx.num(pos), N), "number of bytes consumed")
                return spec
            for n in (N, N + 3, N - 1, 0):
                case("decode%d" % n, "b: [u8; %d]" % n, "(Result<%s, ()>, usize)" % lay, "let mut i = Inp { buf: b, pos: 0 }; let r = TY2::decode(&mut i).map(|x| x.into_bits()).map_err(|_| ()); (r, i.pos)".replace("TY2", "<TY as Decode>"), [Bytes("b", n)], read(n))

            def cast(cx, e, kind, val, bits=bits):
                if no_abnormal(cx, kind, val):
                    return
                pos = cx.st.decide_or_fork(e["a"])
                cx.eq(P.sub(cx.num(val), e["a"] if pos else P.add(e["a"], 1 << bits)), "encode_as is not the raw representation")
            case("as", "a: " + lay, un, "*FP::from_bits(a).encode_as()", A, cast)

            def uncast(cx, e, kind, val, bits=bits, hi=hi):
                if no_abnormal(cx, kind, val):
                    return
                if not is_ok(val):
                    cx.fail("a compact value is rejected")
                    return
                small = cx.st.decide_or_fork(P.sub(hi, e["u"]))
                cx.eq(P.sub(cx.num(val.f[0]), e["u"] if small else P.sub(e["u"], 1 << bits)), "decode_from is not the raw representation")
            case("from", "u: " + un, "Result<%s, ()>" % lay, "<TY as CompactAs>::decode_from(u).map(|x| x.into_bits()).map_err(|_| ())", [uint("u", bits)], uncast)

            def same(cx, e, kind, val):
                if not no_abnormal(cx, kind, val):
                    cx.eq(P.sub(cx.num(val), e["a"]), "the compact wrapper changes the number")
            case("compact", "a: " + lay, lay, "TY2::from(Compact(FP::from_bits(a))).into_bits()".replace("TY2", "<TY>"), A, same)
    return out
