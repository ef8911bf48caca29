"""Values, types and the memory model."""
import terms as tm
from terms import *


class Undecided(Exception):
    pass


class Slice:
    __slots__ = ("ref", "off", "len", "cap")

    def __init__(self, ref, off, ln, cap):
        self.ref, self.off, self.len, self.cap = ref, off, ln, cap

    def __repr__(self):
        return "Slice(%r,%r,%r)" % (self.ref, self.off, self.len)


class Iface:
    __slots__ = ("tag", "val")

    def __init__(self, tag, val):
        self.tag, self.val = tag, val

    def __repr__(self):
        return "Iface(%r,%r)" % (self.tag, self.val)


class StructV:
    __slots__ = ("t", "fs")

    def __init__(self, t, fs):
        self.t, self.fs = t, fs

    def __repr__(self):
        return "StructV(%s,%r)" % (self.t, self.fs)


class ArrV:
    __slots__ = ("t", "ls")

    def __init__(self, t, ls):
        self.t, self.ls = t, ls


class FuncV:
    __slots__ = ("fid", "binds", "term")

    def __init__(self, fid, binds, term):
        self.fid, self.binds, self.term = fid, binds, term


class Addr:
    """interior pointer. kind F: (ptr, structtype, path)  E: (ref, idx, elemtype, path)  G: (name, path)"""
    __slots__ = ("kind", "base", "idx", "bt", "path", "t")

    def __init__(self, kind, base, idx, bt, path, t):
        self.kind, self.base, self.idx, self.bt, self.path, self.t = kind, base, idx, bt, path, t

    def __repr__(self):
        return "Addr(%s,%r,%r,%s,%r)" % (self.kind, self.base, self.idx, self.bt, self.path)


class MapIter:
    __slots__ = ("m", "t", "seq", "n", "pos", "key")

    def __init__(self, m, t, n, pos, key):
        self.m, self.t, self.n, self.pos, self.key = m, t, n, pos, key


class StrIter:
    pass


INTS = {"int": (64, True), "int64": (64, True), "int32": (32, True), "int16": (16, True), "int8": (8, True),
        "uint": (64, False), "uint64": (64, False), "uint32": (32, False), "uint16": (16, False), "uint8": (8, False),
        "uintptr": (64, False), "rune": (32, True), "byte": (8, False), "untyped int": (64, True), "untyped rune": (32, True)}


def irange(b):
    n, s = INTS[b]
    return (-(1 << n - 1), (1 << n - 1) - 1) if s else (0, (1 << n) - 1)


OPAQUE = {"time.Time", "time.Location", "sync.Mutex", "sync.Once", "math/big.Int", "reflect.Value"}
MAXLEN = 1 << 48


class Types:
    def __init__(self, prog):
        self.p = prog
        self.lv = {}
        self.tags = {}
        self.tagname = {}
        self.sub = {}
        self.subr = []

    def kind(self, t):
        if t in OPAQUE:
            return "opaque"
        _, u = self.p.under(t)
        k = u["k"]
        if k == "basic":
            n = u["name"]
            if n in INTS:
                return "int"
            if n in ("bool", "untyped bool"):
                return "bool"
            if n in ("string", "untyped string"):
                return "string"
            return "opaque"
        return k

    def basic(self, t):
        return self.p.under(t)[1]["name"]

    def elem(self, t):
        return self.p.under(t)[1]["elem"]

    def fields(self, t):
        return self.p.under(t)[1].get("fields") or []

    def canon(self, t):
        return self.p.canon(t)

    def tag(self, t):
        t = self.canon(t)
        k = self.tags.get(t)
        if k is None:
            k = len(self.tags) + 1
            self.tags[t] = k
            self.tagname[k] = t
        return k

    def leaves(self, t):
        """list of (path, sort, kind, gotype) for a value of type t"""
        t = self.canon(t)
        r = self.lv.get(t)
        if r is not None:
            return r
        k = self.kind(t)
        if k == "int":
            r = [("", "Int", "int", t)]
        elif k == "bool":
            r = [("", "Bool", "bool", t)]
        elif k == "string":
            r = [("", "Str", "str", t)]
        elif k in ("ptr", "map", "func", "chan"):
            r = [("", "Int", "ref", t)]
        elif k == "slice":
            r = [(".ref", "Int", "sref", t), (".off", "Int", "off", t), (".len", "Int", "len", t), (".cap", "Int", "len", t)]
        elif k == "iface":
            r = [(".tag", "Int", "tag", t), (".val", "Int", "val", t)]
        elif k == "struct":
            self.lv[t] = []
            r = []
            for n, ft, emb in self.fields(t):
                for (p, s, kk, gt) in self.leaves(ft):
                    r.append(("." + n + p, s, kk, gt))
        elif k == "array":
            r = []
            for (p, s, kk, gt) in self.leaves(self.elem(t)):
                r.append(("[]" + p, arr("Int", s), "arr", t))
        else:
            r = [("", "Int", "opaque", t)]
        self.lv[t] = r
        return r

    def flatten(self, v, t):
        k = self.kind(t)
        if k == "slice":
            return [v.ref, v.off, v.len, v.cap]
        if k == "iface":
            return [v.tag, v.val]
        if k == "struct":
            out = []
            for (n, ft, e), x in zip(self.fields(t), v.fs):
                out.extend(self.flatten(x, ft))
            return out
        if k == "array":
            return list(v.ls)
        if isinstance(v, Addr):
            return [self.encode(v)]
        if isinstance(v, FuncV):
            return [v.term]
        return [v]

    def unflatten(self, t, it):
        k = self.kind(t)
        if k == "slice":
            return Slice(next(it), next(it), next(it), next(it))
        if k == "iface":
            return Iface(next(it), next(it))
        if k == "struct":
            return StructV(t, [self.unflatten(ft, it) for n, ft, e in self.fields(t)])
        if k == "array":
            return ArrV(t, [next(it) for _ in self.leaves(t)])
        x = next(it)
        if k == "ptr":
            return self.decode(x)
        return x

    def subk(self, t, path):
        key = (self.canon(t), path)
        k = self.sub.get(key)
        if k is None:
            k = len(self.subr) + 1
            assert k < 4096
            self.sub[key] = k
            self.subr.append(key)
        return k

    def encode(self, a):
        if a.kind == "F":
            return neg(add(scale(4096, a.base), I(self.subk(a.bt, (a.path, a.t)))))
        if a.kind == "E":
            n = "eltptr:%s%s" % (a.bt, a.path)
            declare(n, ["Int", "Int"], "Int")
            t = app(n, a.base, a.idx)
            setrange(t, None, -(1 << 60))
            eltptr[n] = (a.bt, a.path, a.t)
            return t
        raise Undecided("address of global escapes")

    def decode(self, x):
        if x.op == "lin":
            c, d = x.args[0], dict(x.args[1])
            if d and all(k % 4096 == 0 for k in d.values()) and -c % 4096 and all(k < 0 for k in d.values()) and (-c % 4096) <= len(self.subr):
                k = -c % 4096
                bt, (path, t) = self.subr[k - 1]
                return Addr("F", ediv(neg(add(x, I(k))), 4096), None, bt, path, t)
        if x.op == "app" and x.args[0] in eltptr:
            bt, path, t = eltptr[x.args[0]]
            return Addr("E", x.args[1], x.args[2], bt, path, t)
        return x

    def zero(self, t):
        z = []
        for (p, s, k, gt) in self.leaves(t):
            z.append(self.zterm(s))
        return self.unflatten(t, iter(z))

    def zterm(self, s):
        if s == "Int":
            return ZERO
        if s == "Bool":
            return FALSE
        if s == "Str":
            return EMPTY
        k, v = arrparts(s)
        return konst(self.zterm(v), k)


eltptr = {}
