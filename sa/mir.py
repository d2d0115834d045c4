"""Loading of a MIR dump: types, functions, constants."""
import json, os


class Ptr:
    """A pointer: object (base), path inside it, and for slices the start and length."""
    __slots__ = ("base", "path", "off", "len", "vt")

    def __init__(self, base, path=(), off=None, len=None, vt=None):
        self.base, self.path, self.off, self.len, self.vt = base, path, off, len, vt

    def __repr__(self):
        return "&%s%s%s" % (self.base, list(self.path), "" if self.off is None else "[%s;%s]" % (self.off, self.len))

    def key(self):
        return (self.base, self.path, self.off)


class Agg:
    """struct / tuple / array / closure (v is None) or enum value (v = variant index)."""
    __slots__ = ("v", "f")

    def __init__(self, v, f):
        self.v, self.f = v, f

    def __repr__(self):
        return "%s(%s)" % ("" if self.v is None else "#%d" % self.v, ", ".join(map(repr, self.f)))


class FnVal:
    __slots__ = ("inst",)

    def __init__(self, inst):
        self.inst = inst


UNIT = Agg(None, ())


class Top:
    """An unknown value."""
    __slots__ = ("why",)

    def __init__(self, why="top"):
        self.why = why

    def __repr__(self):
        return "TOP(%s)" % self.why


class Dump:
    def __init__(self, d):
        self.dir = d
        self.types = {}
        for l in open(os.path.join(d, "types.jsonl")):
            t = json.loads(l)
            self.types[t["id"]] = t
        self.allocs = {}
        for l in open(os.path.join(d, "allocs.jsonl")):
            a = json.loads(l)
            self.allocs[a["id"]] = a
        self.raw = {}
        self.names = {}
        for l in open(os.path.join(d, "fns.jsonl")):
            i = l.index('"m":"') + 5
            m = l[i:l.index('"', i)]
            self.raw[m] = l
        self.fns = {}
        self.roots = {}
        for l in open(os.path.join(d, "roots.jsonl")):
            n, m = json.loads(l)
            self.roots[n.split("::", 1)[1]] = m
        self.alloc_vals = {}
        self.constcache = {}
        self.str_ty = {t["s"]: i for i, t in self.types.items()}

    def fn(self, m):
        f = self.fns.get(m)
        if f is None:
            r = self.raw.get(m)
            if r is None:
                return None
            f = self.fns[m] = json.loads(r)
        return f

    def ty(self, i):
        return self.types[i]

    def by_name(self, name):
        """The mangled name of the only function with this (unmangled) name, or None."""
        if not self.names:
            import re
            for m, l in self.raw.items():
                i = l.find('"n":"')
                n = self.fns[m]["n"] if m in self.fns else json.loads('"' + re.match(r'(?:[^"\\]|\\.)*', l[i + 5:]).group(0) + '"')
                self.names.setdefault(n, []).append(m)
        c = self.names.get(name, [])
        return c[0] if len(c) == 1 else None

    # ---- decoding of compiler-evaluated constants
    def const(self, tyid, a):
        if a is None:
            return self.zst(tyid)
        if a == "unknown":
            return Top("unevaluated constant")
        k = (tyid, a["b"], tuple(map(tuple, a["p"])))
        v = self.constcache.get(k)
        if v is None:
            v = self.constcache[k] = self.decode(tyid, a["b"], {o: r for o, r in a["p"]}, 0)
        return v

    def zst(self, tyid):
        t = self.types[tyid]
        k = t["k"]
        if k == "fndef":
            return FnVal(t["inst"])
        if k == "adt":
            if t["adt"] == "enum":
                return Agg(0, ())
            return Agg(None, tuple(self.zst(f) for f in t["variants"][0]["fields"])) if t["variants"] else UNIT
        if k == "tuple":
            return Agg(None, tuple(self.zst(f) for f in t["fields"]))
        if k == "closure":
            return Agg(None, tuple(self.zst(f) for f in t["upvars"]))
        return UNIT

    def size(self, tyid):
        l = self.types[tyid]["layout"]
        return l["size"] if l else None

    def decode(self, tyid, b, prov, off):
        t = self.types[tyid]
        k = t["k"]

        def num(n, o=off):
            s = b[o * 2:(o + n) * 2]
            if "u" in s:
                return None
            return int.from_bytes(bytes.fromhex(s), "little")

        if k == "bool":
            return num(1)
        if k == "char":
            return num(4)
        if k == "int":
            v = num(t["bits"] // 8)
            if v is not None and t["signed"] and v >> (t["bits"] - 1):
                v -= 1 << t["bits"]
            return v
        if k == "float":
            import struct
            n = t["layout"]["size"]
            return struct.unpack("<d" if n == 8 else "<f", bytes.fromhex(b[off * 2:(off + n) * 2]))[0]
        if k == "pat":
            return self.decode(t["to"], b, prov, off)
        if k in ("ref", "ptr"):
            to = self.types[t["to"]]
            if off in prov:
                o = num(8)
                if to["k"] in ("str", "slice"):
                    return Ptr(("g", prov[off], -1 if to["k"] == "str" else to["elem"]), (), o, num(8, off + 8))
                if to["k"] == "dyn":
                    return Ptr(("g", prov[off], None), (), None, None)
                return Ptr(("g", prov[off], t["to"]), () if o == 0 else ("byteoff", o))
            v = num(8)
            if to["k"] in ("str", "slice"):
                return Ptr(("dangling", v), (), 0, num(8, off + 8))
            return Ptr(("dangling", v), ())
        if k == "fnptr":
            if off in prov:
                a = self.allocs[prov[off]]
                return FnVal(a.get("inst"))
            return Top("fnptr")
        if k == "array":
            n = t["len"]
            sz = self.size(t["elem"])
            return Agg(None, tuple(self.decode(t["elem"], b, prov, off + i * sz) for i in range(n)))
        if k == "tuple":
            offs = t["layout"]["fields"]
            return Agg(None, tuple(self.decode(f, b, prov, off + o) for f, o in zip(t["fields"], offs)))
        if k == "closure":
            offs = t["layout"]["fields"]
            return Agg(None, tuple(self.decode(f, b, prov, off + o) for f, o in zip(t["upvars"], offs)))
        if k == "fndef":
            return FnVal(t["inst"])
        if k == "adt" and t["adt"] == "struct":
            offs = t["layout"]["fields"]
            return Agg(None, tuple(self.decode(f, b, prov, off + o) for f, o in zip(t["variants"][0]["fields"], offs)))
        if k == "adt" and t["adt"] == "enum":
            vs = t["layout"]["variants"]
            if vs == "empty":
                return Top("empty enum")
            if "single" in vs:
                i = vs["single"]
                offs = t["layout"]["fields"]
                return Agg(i, tuple(self.decode(f, b, prov, off + o) for f, o in zip(t["variants"][i]["fields"], offs if isinstance(offs, list) else [])))
            to = off + vs["tag_off"]
            enc = vs["enc"]
            if to in prov:
                i = enc["untagged"]
            else:
                n = vs["tag_size"]
                tag = num(n, to)
                if tag is None:
                    return None
                if enc == "direct":
                    i = None
                    for j, v in enumerate(t["variants"]):
                        if (int(v["discr"]) & ((1 << (8 * n)) - 1)) == tag:
                            i = j
                else:
                    rel = (tag - int(enc["start"])) & ((1 << (8 * n)) - 1)
                    i = enc["lo"] + rel if rel <= enc["hi"] - enc["lo"] else enc["untagged"]
            if i is None:
                return Top("enum tag")
            offs = vs["variants"][i]
            return Agg(i, tuple(self.decode(f, b, prov, off + o) for f, o in zip(t["variants"][i]["fields"], offs)))
        if k == "adt" and t["adt"] == "union":
            return Top("union")
        if k == "never":
            return Top("never")
        return Top("const of kind " + k)

    def global_value(self, aid, tyid):
        """Value of a constant allocation seen as tyid (a slice/str is seen as its byte/elem array)."""
        key = (aid, tyid)
        v = self.alloc_vals.get(key)
        if v is None:
            a = self.allocs[aid]
            if a["k"] in ("mem", "static") and a.get("a"):
                al = a["a"]
                prov = {o: r for o, r in al["p"]}
                if a["k"] == "static" and tyid is not None and tyid >= 0:
                    v = self.decode(a["ty"], al["b"], prov, 0)
                elif tyid == -1:
                    s = al["b"]
                    v = Agg(None, tuple(bytes.fromhex(s)))
                elif tyid is None:
                    v = Top("opaque alloc")
                else:
                    v = None
            else:
                v = Top("alloc " + a["k"])
            if v is None:
                v = self.decode(tyid, al["b"], prov, 0)
            self.alloc_vals[key] = v
        return v

    def slice_global(self, aid, elem):
        key = (aid, "slice", elem)
        v = self.alloc_vals.get(key)
        if v is None:
            al = self.allocs[aid]["a"]
            prov = {o: r for o, r in al["p"]}
            sz = self.size(elem)
            n = len(al["b"]) // 2 // sz if sz else 0
            v = self.alloc_vals[key] = Agg(None, tuple(self.decode(elem, al["b"], prov, i * sz) for i in range(n)))
        return v
