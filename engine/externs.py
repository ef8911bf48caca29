"""Assumed contracts of the standard library and other dependencies.

Everything in this file is trusted: it is what the evidence lists under
trusted_base.  Handlers take (X, st, args, ins) and return [(state, value)].
"""
import re
import terms as tm
from terms import *
from mem import *
import solve
from sym import Dead
from spec import V, Env

H = {}
M = {}     # (type name, method) -> handler
IM = {}    # method of unknown dynamic type: (interface, method) or method -> handler

RP = "github.com/sassoftware/go-rpmutils"
CP = RP + "/cpio"


def model(*names):
    def d(f):
        for n in names:
            H[n] = f
        return f
    return d


def meth(t, *ms):
    def d(f):
        for m in ms:
            M[(t, m)] = f
        return f
    return d


def imeth(*names):
    def d(f):
        for n in names:
            IM[n] = f
        return f
    return d


def handler(fid):
    return H.get(fid)


def method(name, m):
    h = M.get((name, m))
    if h:
        return h
    fid = "(%s).%s" % (name, m)
    return H.get(fid)


def imethod(X, itype, m):
    t = X.types.canon(itype)
    return IM.get(t + "." + m) or IM.get(m)


# ---- spec builtins
B_ = {}


def bi(name):
    def d(f):
        B_[name] = f
        return f
    return d


def asiface(X, v):
    if isinstance(v.v, Iface):
        return v.v
    return Iface(I(X.types.tag(v.t)), X.types.encode(v.v) if isinstance(v.v, Addr) else v.v)


# ---- dynamic types -----------------------------------------------------------------------
IMPL = {
    "*os.File": {"Read", "Write", "Close", "Seek", "Stat", "Name"},
    "*bytes.Buffer": {"Read", "Write", "WriteTo", "ReadFrom", "Bytes", "String", "Len"},
    "*bytes.Reader": {"Read", "ReadByte", "UnreadByte", "ReadAt", "ReadRune", "UnreadRune", "WriteTo", "Seek", "Len", "Size", "Reset"},
    "*io.teeReader": {"Read"},
    "*io.multiReader": {"Read"},
    "*io.multiWriter": {"Write"},
    "io.discard": {"Write"},
    "*hash.digest": {"Write", "Sum", "Reset", "Size", "BlockSize"},
    "*compress/gzip.Reader": {"Read", "Close"},
    "*compress/bzip2.reader": {"Read"},
    "*github.com/DataDog/zstd.reader": {"Read", "Close"},
    "*github.com/klauspost/compress/zstd.Decoder": {"Read", "WriteTo", "Reset", "DecodeAll", "IOReadCloser"},
    "*github.com/ulikunitz/xz/lzma.Reader": {"Read", "ReadByte", "EOSMarker", "Reader"},
    "*github.com/ulikunitz/xz.Reader": {"Read"},
    "*errors.errorString": {"Error"},
    "*fmt.wrapError": {"Error"},
    "*io.LimitedReader": {"Read"},
    "*io.SectionReader": {"Read", "Seek"},
    "*bufio.Reader": {"Read"},
}


def implements(X, name, ms):
    t = X.prog.types.get(name)
    own = set()
    if t and t.get("methods"):
        own = set(t["methods"])
    if name in IMPL:
        return set(ms) <= IMPL[name]
    if t is not None and (own or RP in name):
        em = embedded_methods(X, name)
        return set(ms) <= (own | em)
    if t is not None and t["k"] in ("basic", "slice", "map"):
        return False
    return None


def embedded_methods(X, name):
    # promoted methods of embedded external types are unknown to the dump
    if "zstdCloser" in name:
        return {"Read", "WriteTo", "Reset"}
    return set()


def ttag(X, name):
    T_ = X.types
    k = T_.tags.get(name)
    if k is None:
        k = len(T_.tags) + 1
        T_.tags[name] = k
        T_.tagname[k] = name
    return I(k)


# ---- ghost heap --------------------------------------------------------------------------
AI = arr("Int", "Int")
AS = arr("Int", "Str")
AB = arr("Int", "Bool")


def gget(X, st, n, k, sort=AI):
    X.cur = st
    r = select(X.heap(st, "G:" + n, sort), k)
    return r


def gset(X, st, n, k, v):
    s = arr("Int", v.sort)
    st.heap["G:" + n] = tm.store(X.heap(st, "G:" + n, s), k, v)


declare("rdata", ["Int"], "Str")
declare("rendt", ["Int"], "Int")
declare("rendv", ["Int"], "Int")
declare("wraps", ["Int", "Int"], "Bool")
MAXS = 1 << 61


def EOF(X):
    return Iface(ttag(X, "*errors.errorString"), I(-10))


def UEOF(X):
    return Iface(ttag(X, "*errors.errorString"), I(-11))


NIL = Iface(ZERO, ZERO)


def mkerr(X, st, name="*fmt.wrapError", wraps=False):
    r = X.alloc(st)
    t = ttag(X, name)
    if not wraps:
        st.assume(Not(app("wraps", t, r)))
    return Iface(t, r)


def iteI(c, a, b):
    return Iface(Ite(c, a.tag, b.tag), Ite(c, a.val, b.val))


def anyerr(X, st, name="err"):
    """an arbitrary non-nil error"""
    e = X.freshval(st, "error", name)
    st.assume(Lt(ZERO, e.tag))
    return e


# ---- streams -----------------------------------------------------------------------------

class View:
    """abstract state of a reader: data (all bytes it will ever deliver), position, final error"""
    def locs(self, X, st):
        raise Undecided("stream location")


class Abs(View):
    def __init__(self, X, st, key):
        self.key = key

    def data(self, X, st):
        d = app("rdata", self.key)
        n = slen(d)
        setrange(n, 0, MAXS)
        return d

    def pos(self, X, st):
        p = gget(X, st, "rpos", self.key)
        setrange(p, 0, MAXS)
        st.assume(Le(p, slen(self.data(X, st))))
        return p

    def end(self, X, st):
        t = app("rendt", self.key)
        setrange(t, 1, None)
        v = app("rendv", self.key)
        tm.refbound.setdefault(v, (0, 0))
        tm.refbound.setdefault(t, (0, 0))
        return Iface(t, v)

    def setpos(self, X, st, p):
        gset(X, st, "rpos", self.key, p)

    def frame(self):
        return [("G:rpos", self.key)]


class Ghost(View):
    """reader whose data is the ghost heap value name.data[key]"""
    def __init__(self, name, key):
        self.name, self.key = name, key

    def data(self, X, st):
        d = gget(X, st, self.name, self.key, AS)
        n = slen(d)
        if n.op not in ("int", "lin", "ite"):
            setrange(n, 0, MAXS)
        return d

    def pos(self, X, st):
        p = gget(X, st, self.name + "pos", self.key)
        if p.op in ("select", "var"):
            setrange(p, 0, MAXS)
        c = Le(p, slen(self.data(X, st)))
        st.assume(c)
        return p

    def end(self, X, st):
        return EOF(X)

    def setpos(self, X, st, p):
        gset(X, st, self.name + "pos", self.key, p)

    def frame(self):
        return [("G:" + self.name + "pos", self.key), ("G:" + self.name, self.key)]


class Tee(View):
    def __init__(self, X, st, key):
        g = lambda n: gget(X, st, "tee." + n, key)
        self.r = Iface(g("rt"), g("rv"))
        self.w = Iface(g("wt"), g("wv"))
        self.inner = view(X, st, self.r)

    def data(self, X, st):
        return self.inner.data(X, st)

    def pos(self, X, st):
        return self.inner.pos(X, st)

    def end(self, X, st):
        return self.inner.end(X, st)

    def setpos(self, X, st, p):
        p0 = self.inner.pos(X, st)
        d = self.inner.data(X, st)
        self.inner.setpos(X, st, p)
        X.cur = st
        outs = write(X, st, self.w, ssub(d, p0, p))
        if len(outs) != 1 or outs[0][1] is not None:
            raise Undecided("tee into a writer that can fail")

    def frame(self):
        return self.inner.frame() + wframe(self.w)


class Counting(View):
    """own type: *cpio.countingReader (its Read is verified against this view)"""
    def __init__(self, X, st, ptr, ctype):
        self.ptr = ptr
        self.t = ctype
        self.inner = view(X, st, getf(X, st, ptr, ctype, "stream"))

    def data(self, X, st):
        return self.inner.data(X, st)

    def pos(self, X, st):
        return self.inner.pos(X, st)

    def end(self, X, st):
        return self.inner.end(X, st)

    def setpos(self, X, st, p):
        p0 = self.inner.pos(X, st)
        self.inner.setpos(X, st, p)
        c = getf(X, st, self.ptr, self.t, "curPos")
        setf(X, st, self.ptr, self.t, "curPos", X.wrap(st, add(c, sub(p, p0)), "int64"))

    def frame(self):
        return self.inner.frame() + [("F:%s.curPos" % self.t, self.ptr)]


class FileStream(View):
    """own type: *cpio.file_stream while it is the current entry"""
    def __init__(self, X, st, ptr, t):
        self.ptr, self.t = ptr, t
        self.inner = view(X, st, getf(X, st, ptr, t, "stream"))
        self.sr = getf(X, st, ptr, t, "stream")

    def sync(self, X, st):
        g = lambda n: getf(X, st, self.ptr, self.t, n)
        i = self.inner
        cp = getf(X, st, i.ptr, i.t, "curPos") if isinstance(i, Counting) else i.pos(X, st)
        c = And(Eq(add(g("start_pos"), g("curr_pos")), cp), Le(ZERO, g("curr_pos")), Le(g("curr_pos"), g("size")))
        return c

    def base(self, X, st):
        return sub(self.inner.pos(X, st), getf(X, st, self.ptr, self.t, "curr_pos"))

    def data(self, X, st):
        if not X.known(st, self.sync(X, st)):
            raise Undecided("file_stream not known to be positioned on its entry")
        D = self.inner.data(X, st)
        b = self.base(X, st)
        hi = add(b, getf(X, st, self.ptr, self.t, "size"))
        X.cur = st
        n = slen(D)
        if X.known(st, Le(hi, n)):
            return ssub(D, b, hi)
        return ssub(D, b, Ite(Le(hi, n), hi, n))

    def pos(self, X, st):
        return getf(X, st, self.ptr, self.t, "curr_pos")

    def end(self, X, st):
        D = self.inner.data(X, st)
        b = self.base(X, st)
        hi = add(b, getf(X, st, self.ptr, self.t, "size"))
        e = self.inner.end(X, st)
        eof = EOF(X)
        e2 = iteI(And(Eq(e.tag, eof.tag), Eq(e.val, eof.val)), UEOF(X), e)
        return iteI(Le(hi, slen(D)), eof, e2)

    def setpos(self, X, st, p):
        p0 = self.pos(X, st)
        self.inner.setpos(X, st, add(self.inner.pos(X, st), sub(p, p0)))
        setf(X, st, self.ptr, self.t, "curr_pos", p)

    def frame(self):
        return self.inner.frame() + [("F:%s.curr_pos" % self.t, self.ptr)]


class Multi(View):
    """io.MultiReader"""
    def __init__(self, X, st, key):
        self.key = key
        self.inner = []
        n = gget(X, st, "multi.n", key)
        if not isint(n):
            raise Undecided("io.MultiReader of unknown origin")
        for k in range(n.args[0]):
            i = Iface(gget(X, st, "multi.t%d" % k, key), gget(X, st, "multi.v%d" % k, key))
            self.inner.append(view(X, st, i))

    def data(self, X, st):
        return gget(X, st, "multi", self.key, AS)

    def pos(self, X, st):
        p = gget(X, st, "multipos", self.key)
        setrange(p, 0, MAXS)
        return p

    def end(self, X, st):
        return Iface(gget(X, st, "multiet", self.key), gget(X, st, "multiev", self.key))

    def setpos(self, X, st, p):
        p0 = self.pos(X, st)
        gset(X, st, "multipos", self.key, p)
        for k, v in enumerate(self.inner):
            # how far each reader got
            e = gget(X, st, "multi.e%d" % k, self.key)
            L = slen(v.data(X, st))
            q = fresh("rpos", "Int")
            setrange(q, 0, MAXS)
            st.assume(And(Le(v.pos(X, st), q), Le(q, L)))
            # nothing is read ahead: the last reader that was reached is where the whole is
            if k == len(self.inner) - 1:
                st.assume(Implies(Le(e, p), Eq(q, add(gget(X, st, "multi.p%d" % k, self.key), sub(p, e)))))
            v.setpos(X, st, q)

    def frame(self):
        r = [("G:multipos", self.key)]
        for v in self.inner:
            r += v.frame()
        return r


class Dec(Abs):
    """a decompressor: its output is a function of its kind and of what its source holds"""
    def __init__(self, X, st, key):
        self.key = key
        i = Iface(gget(X, st, "dec.t", key), gget(X, st, "dec.v", key))
        self.inner = view(X, st, i)

    def setpos(self, X, st, p):
        gset(X, st, "rpos", self.key, p)
        # it may read ahead of what it has produced
        D, p0 = self.inner.data(X, st), self.inner.pos(X, st)
        q = fresh("rpos", "Int")
        setrange(q, 0, MAXS)
        st.assume(And(Le(p0, q), Le(q, slen(D))))
        self.inner.setpos(X, st, q)

    def frame(self):
        return [("G:rpos", self.key)] + self.inner.frame()


DECTYPES = ("*compress/gzip.Reader", "*compress/bzip2.reader", "*github.com/ulikunitz/xz/lzma.Reader", "*github.com/ulikunitz/xz.Reader",
            "*github.com/DataDog/zstd.reader", "*github.com/klauspost/compress/zstd.Decoder")
# decompressors that hold resources until they are closed
CLOSABLE = ("*compress/gzip.Reader", "*github.com/DataDog/zstd.reader", "*github.com/klauspost/compress/zstd.Decoder")


def getf(X, st, ptr, t, f):
    for n, ft, e in X.types.fields(t):
        if n == f:
            a = Addr("F", ptr, None, X.types.canon(t), "." + n, X.types.canon(ft))
            return X.load(st, a, ft)
    raise Undecided("field %s.%s is gone" % (t, f))


def setf(X, st, ptr, t, f, v):
    for n, ft, e in X.types.fields(t):
        if n == f:
            a = Addr("F", ptr, None, X.types.canon(t), "." + n, X.types.canon(ft))
            return X.store(st, a, ft, v)
    raise Undecided("field %s.%s is gone" % (t, f))


def view(X, st, i):
    tag = i.tag
    if not isint(tag):
        tag = X.resolve_tag(st, tag)
    if not isint(tag) and tag.op == "select":
        for n in ("*" + CP + ".countingReader", "*" + CP + ".file_stream"):
            if n in X.types.tags and X.known(st, Eq(tag, I(X.types.tags[n]))):
                tag = I(X.types.tags[n])
                break
    if isint(tag):
        if not isint(i.tag) and i.val.op == "select":
            i = Iface(tag, X.resolve_val(st, i.val))
        name = X.types.tagname.get(tag.args[0])
        if name == "*io.teeReader":
            return Tee(X, st, i.val)
        if name == "*bytes.Reader":
            return Ghost("bytesr", i.val)
        if name == "*bytes.Buffer":
            return Ghost("buf", i.val)
        if name == "*io.multiReader":
            return Multi(X, st, i.val)
        if name == "*" + CP + ".countingReader":
            return Counting(X, st, i.val, CP + ".countingReader")
        if name == "*" + CP + ".file_stream":
            return FileStream(X, st, i.val, CP + ".file_stream")
        if name == RP + ".noCloseWrapper":
            v = X.unbox(st, Iface(tag, i.val), name)
            return view(X, st, v.fs[0])
        if name in DECTYPES:
            return Dec(X, st, i.val)
        if name == RP + ".zstdCloser":
            v = X.unbox(st, Iface(tag, i.val), name)
            return Dec(X, st, v.fs[0])
        if name and RP in name:
            raise Undecided("no stream view for " + name)
    return Abs(X, st, i.val)


def read_n(X, st, v, n, cb):
    """full: n bytes available; short: all the rest.  cb(st, data, p, k, full)"""
    D, p = v.data(X, st), v.pos(X, st)
    L = slen(D)
    outs = []
    c = Le(add(p, n), L)
    for full in (True, False):
        cc = c if full else Not(c)
        if not X.feasible(st, cc):
            continue
        s = st.copy()
        try:
            s.assume(cc)
            k = n if full else sub(L, p)
            X.cur = s
            v.setpos(X, s, add(p, k))
            outs.append(cb(s, D, p, k, full))
        except Dead:
            continue
    if not outs:
        raise Dead()
    return outs


def read_full(X, st, rd, sl):
    v = view(X, st, rd)

    def cb(s, D, p, k, full):
        X.cur = s
        row = X.row(s, X.bt(), "", sl.ref)
        X.setrow(s, X.bt(), "", sl.ref, afill(row, sl.off, D, p, k))
        if full:
            return (s, (k, NIL))
        e = v.end(X, s)
        eof = EOF(X)
        ise = And(Eq(e.tag, eof.tag), Eq(e.val, eof.val))
        err = iteI(And(ise, Ne(k, ZERO)), UEOF(X), e)
        return (s, (k, err))
    return read_n(X, st, v, sl.len, cb)


@model("io.ReadFull")
def _readfull(X, st, args, ins):
    return read_full(X, st, args[0], args[1])


@model("io.ReadAtLeast")
def _readatleast(X, st, args, ins):
    rd, sl, mn = args
    if X.known(st, Eq(mn, sl.len)):
        return read_full(X, st, rd, sl)
    raise Undecided("io.ReadAtLeast with a partial minimum")


@model("io.ReadAll")
def _readall(X, st, args, ins):
    v = view(X, st, args[0])
    D, p = v.data(X, st), v.pos(X, st)
    e = v.end(X, st)
    X.cur = st
    content = ssub(D, p, slen(D))
    v.setpos(X, st, slen(D))
    st.assume(Le(slen(content), I(MAXLEN)))
    b = X.newbytes(st, content)
    eof = EOF(X)
    ise = And(Eq(e.tag, eof.tag), Eq(e.val, eof.val))
    return [(st, (b, iteI(ise, NIL, e)))]


@imeth("io.Reader.Read", "io.ReadSeeker.Read", "io.ReadCloser.Read", "io.ReadWriter.Read")
def _iread(X, st, args, ins):
    rd, sl = args
    v = view(X, st, rd)
    return one_read(X, st, v, sl)


def one_read(X, st, v, sl):
    """one Read call: any n <= len(p); an error only together with the last byte or after it"""
    D, p = v.data(X, st), v.pos(X, st)
    L = slen(D)
    n = fresh("n", "Int")
    setrange(n, 0, MAXLEN)
    st.assume(And(Le(n, sl.len), Le(add(p, n), L)))
    e = v.end(X, st)
    err = X.freshval(st, "error", "rerr")
    isend = And(Eq(err.tag, e.tag), Eq(err.val, e.val))
    st.assume(Or(Eq(err.tag, ZERO), And(isend, Eq(add(p, n), L))))
    st.assume(Implies(Eq(err.tag, ZERO), Eq(err.val, ZERO)))
    st.assume(Implies(And(Eq(add(p, n), L), Eq(n, ZERO), Lt(ZERO, sl.len)), Ne(err.tag, ZERO)))
    X.cur = st
    row = X.row(st, X.bt(), "", sl.ref)
    X.setrow(st, X.bt(), "", sl.ref, afill(row, sl.off, D, p, n))
    v.setpos(X, st, add(p, n))
    return [(st, (n, err))]


@imeth("io.ReadSeeker.Seek", "io.Seeker.Seek")
def _iseek(X, st, args, ins):
    rd, off, wh = args
    tag = X.resolve_tag(st, rd.tag)
    if isint(tag):
        nm = X.types.tagname[tag.args[0]]
        if nm == "*os.File":
            return file_seek(X, st, [rd.val, off, wh], ins)
    v = view(X, st, rd)
    if isinstance(v, Abs):
        return abs_seek(X, st, v, off, wh)
    raise Undecided("Seek on this reader")


def file_seek(X, st, args, ins):
    """a file that is read: rdata is all of it and rpos the offset"""
    f, off, wh = args
    v = Abs(X, st, f)
    if not isint(wh) or wh.args[0] != 0:
        raise Undecided("seek whence")
    s = st.copy()
    e = anyerr(X, s, "seekerr")
    D = v.data(X, st)
    st.assume(Le(ZERO, off))
    X.cur = st
    L = slen(D)
    v.setpos(X, st, off if X.known(st, Le(off, L)) else Ite(Le(off, L), off, L))
    return [(st, (off, NIL)), (s, (ZERO, e))]


declare("seekbase", ["Int"], "Int")


def abs_seek(X, st, v, off, wh):
    outs = []
    if not isint(wh):
        raise Undecided("seek whence")
    s = st.copy()
    e = anyerr(X, s, "seekerr")
    if wh.args[0] == 1 and off is ZERO:
        # position query on an abstract ReadSeeker
        b = app("seekbase", v.key)
        r = add(b, v.pos(X, st))
        setrange(b, 0, MAXS)
        return [(st, (r, NIL)), (s, (ZERO, e))]
    outs.append((s, (ZERO, e)))
    if wh.args[0] == 0:
        D = v.data(X, st)
        b = app("seekbase", v.key)
        setrange(b, 0, MAXS)
        X.cur = st
        p = sub(off, b)
        st.assume(Le(ZERO, p))
        L = slen(D)
        v.setpos(X, st, Ite(Le(p, L), p, L) if not X.known(st, Le(p, L)) else p)
        outs.append((st, (off, NIL)))
        return outs
    raise Undecided("seek whence")


@model("io.CopyN")
def _copyn(X, st, args, ins):
    w, rd, n = args
    v = view(X, st, rd)
    res = []
    # n <= 0: nothing is read
    if X.feasible(st, Le(n, ZERO)):
        s = st.copy()
        s.assume(Le(n, ZERO))
        e = iteI(Eq(n, ZERO), NIL, EOF(X))
        res.append((s, (ZERO, e)))
        try:
            st.assume(Lt(ZERO, n))
        except Dead:
            return res

    def cb(s, D, p, k, full):
        X.cur = s
        outs = write(X, s, w, ssub(D, p, add(p, k)))
        if len(outs) != 1 or outs[0][1] is not None:
            raise Undecided("CopyN to a failing writer")
        if full:
            return (s, (k, NIL))
        # a short source ends with its own error (EOF stays EOF)
        return (s, (k, v.end(X, s)))
    try:
        res.extend(read_n(X, st, v, n, cb))
    except Dead:
        if not res:
            raise
    return res


@model("io.Copy", "io.CopyBuffer")
def _copy(X, st, args, ins):
    w, rd = args[0], args[1]
    v = view(X, st, rd)
    D, p = v.data(X, st), v.pos(X, st)
    X.cur = st
    L = slen(D)
    content = ssub(D, p, L)
    e = v.end(X, st)
    eof = EOF(X)
    ise = And(Eq(e.tag, eof.tag), Eq(e.val, eof.val))
    err = iteI(ise, NIL, e)
    v.setpos(X, st, L)
    wt = X.resolve_tag(st, w.tag)
    own = isint(wt) and RP in X.types.tagname[wt.args[0]]
    if own and not isinstance(v, Ghost):
        raise Undecided("io.Copy to own writer in chunks")
    if isinstance(v, Ghost) and v.name == "buf":
        gset(X, st, "buf", v.key, EMPTY)
        gset(X, st, "bufpos", v.key, ZERO)
    res = []
    for s, we in write(X, st, w, content):
        if we is None:
            res.append((s, (sub(L, p), err)))
        else:
            n = fresh("n", "Int")
            setrange(n, 0, None)
            s.assume(Le(n, sub(L, p)))
            # the source may have been read only partly
            q = fresh("rp", "Int")
            s.assume(And(Le(p, q), Le(q, L)))
            v.setpos(X, s, q) if not (isinstance(v, Ghost) and v.name == "buf") else None
            res.append((s, (n, we)))
    return res


@model("io.TeeReader")
def _tee(X, st, args, ins):
    r = X.alloc(st)
    a, b = args
    for n, x in (("rt", a.tag), ("rv", a.val), ("wt", b.tag), ("wv", b.val)):
        gset(X, st, "tee." + n, r, x)
    return [(st, Iface(ttag(X, "*io.teeReader"), r))]


@model("io.MultiReader")
def _multireader(X, st, args, ins):
    sl = args[0]
    if not isint(sl.len):
        raise Undecided("io.MultiReader of unknown length")
    ifs = [load_elem(X, st, sl, k, "io.Reader") for k in range(sl.len.args[0])]
    r = X.alloc(st)
    d = EMPTY
    e = EOF(X)
    for i in ifs:
        v = view(X, st, i)
        D, p = v.data(X, st), v.pos(X, st)
        X.cur = st
        d = scat(d, ssub(D, p, slen(D)))
        e = v.end(X, st)
    gset(X, st, "multi", r, d)
    gset(X, st, "multipos", r, ZERO)
    gset(X, st, "multi.n", r, I(len(ifs)))
    at = ZERO
    for k, i in enumerate(ifs):
        v = view(X, st, i)
        p = v.pos(X, st)
        gset(X, st, "multi.t%d" % k, r, i.tag)
        gset(X, st, "multi.v%d" % k, r, i.val)
        gset(X, st, "multi.e%d" % k, r, at)
        gset(X, st, "multi.p%d" % k, r, p)
        at = add(at, sub(slen(v.data(X, st)), p))
    gset(X, st, "multiet", r, e.tag)
    gset(X, st, "multiev", r, e.val)
    return [(st, Iface(ttag(X, "*io.multiReader"), r))]


def load_elem(X, st, sl, k, t):
    return X.load(st, Addr("E", sl.ref, add(sl.off, I(k) if isinstance(k, int) else k), t, "", t), t)


# ---- writers -----------------------------------------------------------------------------

def wframe(w):
    return [("G:buf", w.val), ("G:wdata", w.val), ("G:hdata", w.val)]


def write(X, st, w, s):
    """append s to the writer; outcomes (state, None or error Iface)"""
    tag = w.tag
    if not isint(tag):
        tag = X.resolve_tag(st, tag)
    X.cur = st
    if isint(tag):
        name = X.types.tagname[tag.args[0]]
        if name == "*bytes.Buffer":
            gset(X, st, "buf", w.val, scat(gget(X, st, "buf", w.val, AS), s))
            return [(st, None)]
        if name == "*hash.digest":
            gset(X, st, "hdata", w.val, scat(gget(X, st, "hdata", w.val, AS), s))
            return [(st, None)]
        if name == "io.discard":
            return [(st, None)]
        if name == "*io.multiWriter":
            return mwrite(X, st, w, s)
        ms = (X.prog.types.get(name) or {}).get("methods") or {}
        if "Write" in ms:
            b = X.newbytes(st, s)
            outs = []
            for s2, v in X.callfn(st, ms["Write"], [X.unbox(st, Iface(tag, w.val), name), b], None):
                if v == "panic!":
                    continue
                n, e = v
                if X.known(s2, Eq(e.tag, ZERO)):
                    outs.append((s2, None))
                else:
                    outs.append((s2, e))
            return outs
    # abstract writer: may fail
    s2 = st.copy()
    old = gget(X, s2, "wdata", w.val, AS)
    gset(X, s2, "wdata", w.val, scat(old, ssub(s, ZERO, fresh("wpart", "Int"))))
    e = anyerr(X, s2, "werr")
    gset(X, st, "wdata", w.val, scat(gget(X, st, "wdata", w.val, AS), s))
    return [(st, None), (s2, e)]


def mwrite(X, st, w, s):
    """io.MultiWriter over a list of hashes: every member receives the data"""
    ref, off, n = gget(X, st, "mw.ref", w.val), gget(X, st, "mw.off", w.val), gget(X, st, "mw.len", w.val)
    if isint(n):
        sl = Slice(ref, off, n, n)
        ifs = [load_elem(X, st, sl, k, "io.Writer") for k in range(n.args[0])]
        outs = [(st, None)]
        for i in ifs:
            o2 = []
            for s1, e in outs:
                if e is None:
                    o2.extend(write(X, s1, i, s))
                else:
                    o2.append((s1, e))
            outs = o2
        return outs
    # unknown number of writers, all known to be hashes: hdata'[h] = hdata[h] + s for the members.
    tg = X.heap(st, "M:io.Writer.tag", X.hsort(2, "Int"))
    vl = X.heap(st, "M:io.Writer.val", X.hsort(2, "Int"))
    tr, vr = select(tg, ref), select(vl, ref)
    k, j = var("?k", "Int"), var("?j", "Int")
    inr = lambda x: And(Le(off, x), Lt(x, add(off, n)))
    hash_t = ttag(X, "*hash.digest")
    allhash = Forall([k], Implies(inr(k), And(Eq(select(tr, k), hash_t))), [(select(tr, k),)])
    dist = Forall([k, j], Implies(And(inr(k), inr(j), Eq(select(vr, k), select(vr, j))), Eq(k, j)), [(select(vr, k), select(vr, j))])
    X.oblige(st, And(allhash, dist), "multiwriter members are distinct hashes", None, "requires")
    st.assume(allhash)
    st.assume(dist)
    old = X.heap(st, "G:hdata", AS)
    new = fresh("M.hdata", AS)
    X.arrs[new] = "G:hdata"
    h = var("?h", "Int")
    declare("mwidx", ["Int", "Int"], "Int")
    mi = app("mwidx", w.val, h)
    ismem = And(inr(mi), Eq(select(vr, mi), h))
    st.assume(Forall([k], Implies(inr(k), And(Eq(app("mwidx", w.val, select(vr, k)), k), Eq(select(new, select(vr, k)), scat(select(old, select(vr, k)), s)))), [(select(vr, k),)]))
    st.assume(Forall([h], Or(ismem, Eq(select(new, h), select(old, h))), [(select(new, h),)]))
    st.heap["G:hdata"] = new
    return [(st, None)]


@imeth("io.Writer.Write", "hash.Hash.Write", "Write")
def _iwrite(X, st, args, ins):
    w, sl = args
    s = X.bytes_of(st, sl)
    res = []
    for s2, e in write(X, st, w, s):
        if e is None:
            res.append((s2, (sl.len, NIL)))
        else:
            n = fresh("n", "Int")
            setrange(n, 0, MAXLEN)
            res.append((s2, (n, e)))
    return res


@model("io.MultiWriter")
def _multiwriter(X, st, args, ins):
    sl = args[0]
    r = X.alloc(st)
    for n, x in (("ref", sl.ref), ("off", sl.off), ("len", sl.len)):
        gset(X, st, "mw." + n, r, x)
    return [(st, Iface(ttag(X, "*io.multiWriter"), r))]


# ---- bytes -------------------------------------------------------------------------------

@model("bytes.NewReader")
def _newreader(X, st, args, ins):
    s = X.bytes_of(st, args[0])
    r = X.alloc(st)
    gset(X, st, "bytesr", r, s)
    gset(X, st, "bytesrpos", r, ZERO)
    return [(st, r)]


@model("(*bytes.Reader).Len")
def _rlen(X, st, args, ins):
    v = Ghost("bytesr", args[0])
    return [(st, sub(slen(v.data(X, st)), v.pos(X, st)))]


@model("bytes.NewBuffer")
def _newbuffer(X, st, args, ins):
    s = X.bytes_of(st, args[0])
    r = X.alloc(st)
    gset(X, st, "buf", r, s)
    gset(X, st, "bufpos", r, ZERO)
    return [(st, r)]


@model("bytes.NewBufferString")
def _newbufferstr(X, st, args, ins):
    r = X.alloc(st)
    gset(X, st, "buf", r, args[0])
    gset(X, st, "bufpos", r, ZERO)
    return [(st, r)]


@model("(*bytes.Buffer).Write")
def _bufwrite(X, st, args, ins):
    b, sl = args
    s = X.bytes_of(st, sl)
    gset(X, st, "buf", b, scat(gget(X, st, "buf", b, AS), s))
    return [(st, (sl.len, NIL))]


@model("(*bytes.Buffer).WriteString")
def _bufwrites(X, st, args, ins):
    b, s = args
    X.cur = st
    gset(X, st, "buf", b, scat(gget(X, st, "buf", b, AS), s))
    return [(st, (slen(s), NIL))]


@model("(*bytes.Buffer).WriteByte")
def _bufwriteb(X, st, args, ins):
    b, c = args
    X.cur = st
    gset(X, st, "buf", b, scat(gget(X, st, "buf", b, AS), sofarr(tm.store(konst(ZERO, "Int"), ZERO, c), ZERO, ONE)))
    return [(st, NIL)]


def bufcontent(X, st, b):
    d = gget(X, st, "buf", b, AS)
    p = gget(X, st, "bufpos", b)
    X.cur = st
    if p.op == "select":
        setrange(p, 0, MAXS)
        st.assume(Le(p, slen(d)))
    return ssub(d, p, slen(d))


@model("(*bytes.Buffer).Len")
def _buflen(X, st, args, ins):
    s = bufcontent(X, st, args[0])
    n = slen(s)
    if n.op not in ("int", "lin", "ite"):
        setrange(n, 0, MAXLEN)
    else:
        st.assume(Le(n, I(MAXLEN)))
    return [(st, n)]


@model("(*bytes.Buffer).Bytes")
def _bufbytes(X, st, args, ins):
    s = bufcontent(X, st, args[0])
    n = slen(s)
    st.assume(Le(n, I(MAXLEN)))
    return [(st, X.newbytes(st, s))]


@model("(*bytes.Buffer).String")
def _bufstring(X, st, args, ins):
    return [(st, bufcontent(X, st, args[0]))]


@model("(*bytes.Buffer).Reset")
def _bufreset(X, st, args, ins):
    gset(X, st, "buf", args[0], EMPTY)
    gset(X, st, "bufpos", args[0], ZERO)
    return [(st, None)]


@model("(*bytes.Buffer).Grow")
def _bufgrow(X, st, args, ins):
    return [(st, None)]


@model("(*bytes.Buffer).WriteTo")
def _bufwriteto(X, st, args, ins):
    s = bufcontent(X, st, args[0])
    n = slen(s)
    gset(X, st, "buf", args[0], EMPTY)
    gset(X, st, "bufpos", args[0], ZERO)
    res = []
    for s2, e in write(X, st, args[1], s):
        if e is None:
            res.append((s2, (n, NIL)))
        else:
            k = fresh("n", "Int")
            res.append((s2, (k, e)))
    return res


@model("bytes.Equal")
def _bytesequal(X, st, args, ins):
    a, b = X.bytes_of(st, args[0]), X.bytes_of(st, args[1])
    return [(st, Eq(a, b))]


declare("fnul", ["Str", "Int"], "Int")


def fnul_axiom():
    s, p, k = var("?s", "Str"), var("?p", "Int"), var("?k", "Int")
    f = app("fnul", s, p)
    L = mk("app", ("slen", s), "Int")
    a = Forall([s, p], Implies(And(Le(ZERO, p), Le(p, L)), And(Le(p, f), Le(f, L), Implies(Lt(f, L), Eq(mk("app", ("sat", s, f), "Int"), ZERO)))), [(f,)])
    b = Forall([s, p, k], Implies(And(Le(ZERO, p), Le(p, k), Lt(k, f)), Ne(mk("app", ("sat", s, k), "Int"), ZERO)), [(f, mk("app", ("sat", s, k), "Int"))])
    # first NUL inside a substring
    lo, hi, q = var("?lo", "Int"), var("?hi", "Int"), var("?q", "Int")
    ss = mk("app", ("ssub", s, lo, hi), "Str")
    c = Forall([s, lo, hi, q], Implies(And(Le(ZERO, lo), Le(lo, hi), Le(hi, L), Le(ZERO, q), Le(q, sub(hi, lo))),
               Eq(app("fnul", ss, q), Ite(Lt(app("fnul", s, add(lo, q)), hi), sub(app("fnul", s, add(lo, q)), lo), sub(hi, lo)))), [(app("fnul", ss, q),)])
    return [a, b, c]


for _a in fnul_axiom():
    solve.user_axioms.append((_a, {"fnul"}))


@model("bytes.IndexByte", "strings.IndexByte")
def _indexbyte(X, st, args, ins):
    x, c = args
    s = x if isinstance(x, T) else X.bytes_of(st, x)
    if c is not ZERO:
        n = fresh("idx", "Int")
        setrange(n, -1, MAXLEN)
        L = slen(s)
        st.assume(Lt(n, L) if L is not ZERO else Eq(n, I(-1)))
        st.assume(Or(Eq(n, I(-1)), Eq(sat(s, n), c)))
        return [(st, n)]
    X.cur = st
    # express through the underlying string when s is a window of it
    if s.op == "app" and s.args[0] == "ssub":
        D, lo, hi = s.args[1:]
        if X.known(st, And(Le(ZERO, lo), Le(lo, hi), Le(hi, slen(D)))):
            f = app("fnul", D, lo)
            setrange(f, 0, MAXS)
            st.assume(And(Le(lo, f), Le(f, slen(D))))
            st.assume(Implies(Lt(f, slen(D)), Eq(sat(D, f), ZERO)))
            return [(st, Ite(Lt(f, hi), sub(f, lo), I(-1)))]
    f = app("fnul", s, ZERO)
    setrange(f, 0, MAXS)
    st.assume(Le(f, slen(s)))
    st.assume(Implies(Lt(f, slen(s)), Eq(sat(s, f), ZERO)))
    return [(st, Ite(Lt(f, slen(s)), f, I(-1)))]


# ---- encoding ----------------------------------------------------------------------------
declare("hexenc", ["Str"], "Str")
for w in (1, 2, 4, 8):
    declare("enc%d" % w, ["Int"], "Str")


def enc_axioms():
    out = []
    v = var("?v", "Int")
    for w in (1, 2, 4, 8):
        e = mk("app", ("enc%d" % w, v), "Str")
        cs = [mk("=", (mk("app", ("slen", e), "Int"), I(w)), "Bool")]
        out.append((Forall([v], And(*cs), [(e,)]), {"enc%d" % w}))
        for k in range(w):
            out.append((Forall([v], Eq(mk("app", ("sat", e, I(k)), "Int"), emod(ediv(v, 256 ** (w - 1 - k)), 256)), [(mk("app", ("sat", e, I(k)), "Int"),)]), {"enc%d" % w}))
        # decoding inverts encoding (modulo 2^(8w))
        out.append((Forall([v], Eq(add(*[scale(256 ** (w - 1 - k), mk("app", ("sat", e, I(k)), "Int")) for k in range(w)]), emod(v, 256 ** w)), [(e,)]), {"enc%d" % w}))
    return out


solve.user_axioms.extend(enc_axioms())


@model("encoding/hex.EncodeToString")
def _hex(X, st, args, ins):
    return [(st, app("hexenc", X.bytes_of(st, args[0])))]


def scalars(X, t):
    """flat list of (path, width, signed) of a fixed-size type"""
    T_ = X.types
    out = []
    for (p, s, k, gt) in T_.leaves(t):
        if k != "int":
            raise Undecided("binary encoding of " + t)
        n, sg = INTS[T_.basic(gt)]
        if T_.basic(gt) in ("int", "uint", "uintptr"):
            raise Undecided("binary encoding of " + t)
        out.append((p, n // 8, sg))
    return out


def signed(u, w):
    return Ite(Lt(u, I(1 << (8 * w - 1))), u, sub(u, I(1 << (8 * w))))


def decode_at(X, D, p, w, sg):
    u = be(D, p, w)
    return signed(u, w) if sg else u


@model("encoding/binary.Read")
def _binread(X, st, args, ins):
    rd, order, data = args
    order_check(X, st, order)
    T_ = X.types
    tag = X.resolve_tag(st, data.tag)
    if not isint(tag):
        raise Undecided("binary.Read into unknown type")
    t = T_.tagname[tag.args[0]]
    k = T_.kind(t)
    v = view(X, st, rd)
    if k == "ptr":
        pt = T_.elem(t)
        fs = scalars(X, pt)
        n = I(sum(w for p, w, s in fs))
        ptr = X.unbox(st, Iface(tag, data.val), t)

        def dec(s, D, p):
            X.cur = s
            vals = []
            q = p
            for (pp, w, sg) in fs:
                vals.append(decode_at(X, D, q, w, sg))
                q = add(q, I(w))
            X.store(s, ptr, pt, T_.unflatten(pt, iter(vals)))
    elif k == "slice":
        et = T_.elem(t)
        (pp, w, sg), = scalars(X, et)
        sl = X.unbox(st, Iface(tag, data.val), t)
        n = scale(w, sl.len)

        def dec(s, D, p):
            X.cur = s
            row = X.row(s, et, "", sl.ref)
            if sg:
                raise Undecided("binary.Read into signed slice")
            X.setrow(s, et, "", sl.ref, adec(row, sl.off, D, p, sl.len, w) if w > 1 else afill(row, sl.off, D, p, sl.len))
    else:
        raise Undecided("binary.Read into " + t)

    def cb(s, D, p, kk, full):
        if full:
            dec(s, D, p)
            return (s, NIL)
        e = v.end(X, s)
        eof = EOF(X)
        ise = And(Eq(e.tag, eof.tag), Eq(e.val, eof.val))
        return (s, iteI(And(ise, Ne(kk, ZERO)), UEOF(X), e))
    return read_n(X, st, v, n, cb)


def order_check(X, st, order):
    be_ = X.types.tags.get("encoding/binary.bigEndian")
    tag = X.resolve_tag(st, order.tag)
    if not (be_ and isint(tag) and tag.args[0] == be_):
        raise Undecided("byte order")


@model("encoding/binary.Write")
def _binwrite(X, st, args, ins):
    w_, order, data = args
    order_check(X, st, order)
    T_ = X.types
    tag = X.resolve_tag(st, data.tag)
    if not isint(tag):
        raise Undecided("binary.Write of unknown type")
    t = T_.tagname[tag.args[0]]
    k = T_.kind(t)
    if k == "ptr":
        pt = T_.elem(t)
        ptr = X.unbox(st, Iface(tag, data.val), t)
        val = X.load(st, ptr, pt)
    else:
        pt = t
        val = X.unbox(st, Iface(tag, data.val), t)
    fs = scalars(X, pt)
    s = EMPTY
    X.cur = st
    for (pp, w, sg), x in zip(fs, T_.flatten(val, pt)):
        s = scat(s, enc(x, w))
    res = []
    for s2, e in write(X, st, w_, s):
        res.append((s2, NIL if e is None else e))
    return res


def enc(x, w):
    if isint(x):
        return strlit((x.args[0] % (1 << 8 * w)).to_bytes(w, "big"))
    return app("enc%d" % w, x)


@model("(encoding/binary.bigEndian).Uint32", "(encoding/binary.bigEndian).Uint16", "(encoding/binary.bigEndian).Uint64")
def _beuint(X, st, args, ins):
    w = {"Uint16": 2, "Uint32": 4, "Uint64": 8}[(ins.get("fn") or {}).get("id", "Uint32").split(".")[-1] if ins.get("fn") else ins["invoke"]]
    sl = args[1]
    X.check(st, Le(I(w), sl.len), "index", ins.get("pos"))
    s = X.bytes_of(st, sl)
    X.cur = st
    if s.op == "app" and s.args[0] == "ssub" and X.known(st, And(Le(ZERO, s.args[2]), Le(s.args[3], slen(s.args[1])))):
        return [(st, be(s.args[1], s.args[2], w))]
    return [(st, be(s, ZERO, w))]


# ---- hashes ------------------------------------------------------------------------------
declare("digest", ["Int", "Str"], "Str")
declare("havail", ["Int"], "Bool")
LINKED = [2, 3, 4, 5, 6, 7]


def newhash(X, st, alg):
    r = X.alloc(st)
    gset(X, st, "hdata", r, EMPTY)
    gset(X, st, "halg", r, alg)
    return Iface(ttag(X, "*hash.digest"), r)


def available(X, h):
    return Or(*[Eq(h, I(k)) for k in LINKED], app("havail", h))


@model("(crypto.Hash).New")
def _hnew(X, st, args, ins):
    h = args[0]
    X.check(st, available(X, h), "unavailable hash", ins.get("pos") if ins else None)
    return [(st, newhash(X, st, h))]


@model("(crypto.Hash).Available")
def _havail(X, st, args, ins):
    return [(st, available(X, args[0]))]


@model("(crypto.Hash).String")
def _hstr(X, st, args, ins):
    return [(st, fresh("hs", "Str"))]


for _n, _a in (("crypto/md5", 2), ("crypto/sha1", 3), ("crypto/sha256", 5), ("crypto/sha512", 7)):
    H[_n + ".New"] = (lambda a: lambda X, st, args, ins: [(st, newhash(X, st, I(a)))])(_a)


@meth("*hash.digest", "Write")
def _hwrite(X, st, args, ins):
    return _iwrite(X, st, [Iface(ttag(X, "*hash.digest"), args[0]), args[1]], ins)


@meth("*hash.digest", "Sum")
def _hsum(X, st, args, ins):
    h, b = args
    alg = gget(X, st, "halg", h)
    d = app("digest", alg, gget(X, st, "hdata", h, AS))
    X.cur = st
    n = slen(d)
    setrange(n, 0, 64)
    if b.len is not ZERO:
        d = scat(X.bytes_of(st, b), d)
    return [(st, X.newbytes(st, d))]


@imeth("hash.Hash.Sum")
def _ihsum(X, st, args, ins):
    return _hsum(X, st, [args[0].val, args[1]], ins)


# ---- strings, strconv, errors, fmt, paths ---------------------------------------------------

@model("errors.New")
def _errnew(X, st, args, ins):
    return [(st, mkerr(X, st, "*errors.errorString"))]


@model("fmt.Errorf")
def _errorf(X, st, args, ins):
    f = args[0]
    w = not (f.op == "strlit" and b"%w" not in f.args[0])
    return [(st, mkerr(X, st, "*fmt.wrapError", w))]


@imeth("error.Error", "Error")
def _error(X, st, args, ins):
    return [(st, fresh("msg", "Str"))]


NST = RP + ".NoSuchTagError"


def nst(X, e):
    return Or(Eq(e.tag, I(X.types.tag(NST))), app("wraps", e.tag, e.val))


@model("errors.As")
def _as(X, st, args, ins):
    e, tgt = args
    tag = X.resolve_tag(st, tgt.tag)
    name = X.types.tagname.get(tag.args[0]) if isint(tag) else None
    if name == "*" + NST:
        b = And(Ne(e.tag, ZERO), nst(X, e))
        # the target receives the error value
        p = X.unbox(st, Iface(tag, tgt.val), name)
        old = X.load(st, p, NST)
        new = X.freshval(st, NST, "as")
        X.store(st, p, NST, X.types.unflatten(NST, iter([Ite(b, x, y) for x, y in zip(X.types.flatten(new, NST), X.types.flatten(old, NST))])))
        return [(st, b)]
    raise Undecided("errors.As with this target")


@model("errors.Is")
def _is(X, st, args, ins):
    a, b = args
    eq = And(Eq(a.tag, b.tag), Eq(a.val, b.val))
    declare("errchain", ["Int", "Int", "Int", "Int"], "Bool")
    st.assume(Implies(Not(app("wraps", a.tag, a.val)), Not(app("errchain", a.tag, a.val, b.tag, b.val))))
    return [(st, Or(eq, app("errchain", a.tag, a.val, b.tag, b.val)))]


declare("fmtuint", ["Int", "Int"], "Str")


@model("strconv.FormatUint", "strconv.FormatInt")
def _fmtuint(X, st, args, ins):
    r = app("fmtuint", args[0], args[1])
    return [(st, r)]


@model("strconv.Itoa")
def _itoa(X, st, args, ins):
    return [(st, app("fmtuint", args[0], I(10)))]


declare("hexval", ["Str"], "Int")
declare("ishex", ["Str"], "Bool")


@model("strconv.ParseUint")
def _parseuint(X, st, args, ins):
    s, b, bits = args
    if not (isint(b) and b.args[0] == 16 and isint(bits)):
        raise Undecided("strconv.ParseUint base")
    n = bits.args[0] or 64
    v = app("hexval", s)
    setrange(v, 0, None)
    for k in (2, 4, 8):
        st.assume(Implies(And(app("ishex", s), Le(slen(s), I(k))), Le(v, I((1 << 4 * k) - 1))))
    ok = And(app("ishex", s), Le(v, I((1 << n) - 1)))
    outs = []
    if X.feasible(st, ok):
        s1 = st.copy()
        s1.assume(ok)
        outs.append((s1, (v, NIL)))
    s2 = st.copy()
    s2.assume(Not(ok))
    e = mkerr(X, s2, "*strconv.NumError")
    r = fresh("pu", "Int")
    setrange(r, 0, (1 << n) - 1)
    outs.append((s2, (r, e)))
    return outs


@model("strconv.ParseInt")
def _parseint(X, st, args, ins):
    s, b, bits = args
    if not (isint(b) and isint(bits)):
        raise Undecided("strconv.ParseInt base")
    n = bits.args[0] or 64
    outs = []
    neg_ = And(Lt(ZERO, slen(s)), Or(Eq(sat(s, ZERO), I(45)), Eq(sat(s, ZERO), I(43))))
    declare("pint", ["Str", "Int"], "Int")
    declare("ispint", ["Str", "Int"], "Bool")
    v = app("pint", s, b)
    st.assume(Implies(And(Not(neg_), Eq(b, I(16))), And(Eq(v, app("hexval", s)), Eq(app("ispint", s, b), app("ishex", s)))))
    ok = And(app("ispint", s, b), Le(v, I((1 << n - 1) - 1)), Le(I(-(1 << n - 1)), v))
    s1 = st.copy()
    s1.assume(ok)
    outs.append((s1, (v, NIL)))
    s2 = st.copy()
    s2.assume(Not(ok))
    e = mkerr(X, s2, "*strconv.NumError")
    r = fresh("pi", "Int")
    setrange(r, -(1 << n - 1), (1 << n - 1) - 1)
    outs.append((s2, (r, e)))
    return outs


@model("strings.HasPrefix")
def _hasprefix(X, st, args, ins):
    s, p = args
    if p.op == "strlit":
        b = p.args[0]
        return [(st, And(Le(I(len(b)), slen(s)), *[Eq(sat(s, I(k)), I(c)) for k, c in enumerate(b)]))]
    X.cur = st
    return [(st, And(Le(slen(p), slen(s)), Eq(ssub(s, ZERO, slen(p)), p)))]


@model("strings.HasSuffix")
def _hassuffix(X, st, args, ins):
    s, p = args
    if p.op == "strlit":
        b = p.args[0]
        n = len(b)
        return [(st, And(Le(I(n), slen(s)), *[Eq(sat(s, add(slen(s), I(k - n))), I(c)) for k, c in enumerate(b)]))]
    X.cur = st
    return [(st, And(Le(slen(p), slen(s)), Eq(ssub(s, sub(slen(s), slen(p)), slen(s)), p)))]


@model("strings.TrimPrefix")
def _trimprefix(X, st, args, ins):
    s, p = args
    (st, c), = _hasprefix(X, st, args, ins)
    outs = []
    for b in (c, Not(c)):
        if X.feasible(st, b):
            s2 = st.copy()
            try:
                s2.assume(b)
            except Dead:
                continue
            X.cur = s2
            outs.append((s2, ssub(s, slen(p), slen(s)) if b is c else s))
    return outs


@model("strings.TrimSuffix")
def _trimsuffix(X, st, args, ins):
    s, p = args
    (st, c), = _hassuffix(X, st, args, ins)
    outs = []
    for b in (c, Not(c)):
        if X.feasible(st, b):
            s2 = st.copy()
            try:
                s2.assume(b)
            except Dead:
                continue
            X.cur = s2
            outs.append((s2, ssub(s, ZERO, sub(slen(s), slen(p))) if b is c else s))
    return outs


@model("strings.TrimLeft")
def _trimleft(X, st, args, ins):
    """cutset is a literal set of ASCII bytes: drop the longest prefix of such bytes"""
    s, c = args
    if c.op != "strlit" or any(x >= 128 for x in c.args[0]):
        raise Undecided("strings.TrimLeft cutset")
    n = skipclass(X, st, s, tuple(sorted(set(c.args[0]))))
    X.cur = st
    return [(st, ssub(s, n, slen(s)))]


def clsname(cls):
    return "skip:" + ",".join("%d" % c for c in cls)


def skipclass(X, st, s, cls):
    """length of the longest prefix of s made of bytes of the class; a pure function of s"""
    n = app(declcls(cls), s)
    setrange(n, 0, MAXLEN)
    X.cur = st
    st.assume(Le(n, slen(s)))
    return n


_cls = {}


def incls(cls, b):
    """byte membership as ranges"""
    rs = []
    for c in cls:
        if rs and rs[-1][1] == c - 1:
            rs[-1][1] = c
        else:
            rs.append([c, c])
    return Or(*[And(Le(I(a), b), Le(b, I(z))) for a, z in rs])


def declcls(cls):
    cls = tuple(sorted(set(cls)))
    n = _cls.get(cls)
    if n is None:
        n = "skip!%d" % len(_cls)
        _cls[cls] = n
        declare(n, ["Str"], "Int")
        s, k = var("?s", "Str"), var("?k", "Int")
        f = mk("app", (n, s), "Int")
        L = mk("app", ("slen", s), "Int")
        at = lambda i: mk("app", ("sat", s, i), "Int")
        solve.user_axioms.append((Forall([s], And(Le(ZERO, f), Le(f, L), Implies(Lt(f, L), Not(incls(cls, at(f))))), [(f,)]), {n}))
        solve.user_axioms.append((Forall([s, k], Implies(And(Le(ZERO, k), Lt(k, f)), incls(cls, at(k))), [(f, at(k))]), {n}))
    return n


@model("strings.Split")
def _split(X, st, args, ins):
    s, sep = args
    if not (sep.op == "strlit" and sep.args[0] == b"\0"):
        raise Undecided("strings.Split separator")
    return [(st, split_nul(X, st, s))]


def split_nul(X, st, s):
    """strings.Split(s, NUL): pieces between NULs"""
    n = fresh("npieces", "Int")
    setrange(n, 1, MAXLEN + 1)
    r = X.alloc(st)
    row = fresh("pieces", AS)
    X.cur = st
    L = slen(s)
    k = var("?k", "Int")
    ni = lambda i: app("nulend", s, i)
    # piece k is s[nulend(k) .. fnul(nulend(k))), where nulend(k) is the offset after k NULs
    st.assume(Forall([k], Implies(And(Le(ZERO, k), Lt(k, n)), And(Le(ni(k), L), Eq(select(row, k), ssub(s, ni(k), app("fnul", s, ni(k)))))), [(select(row, k),)]))
    st.assume(Forall([k], Implies(And(Le(ZERO, k), Lt(k, n)), Le(ni(k), L)), [(ni(k),)]))
    # the last piece is the one that runs to the end of the string
    st.assume(Eq(app("fnul", s, ni(sub(n, ONE))), L))
    st.assume(Lt(L, ni(n)))
    X.setrow(st, "string", "", r, row)
    return Slice(r, ZERO, n, n)


# nulend(s, k): offset just after the k-th NUL of s (0 for k = 0); beyond slen(s) once there are fewer
declare("nulend", ["Str", "Int"], "Int")


def nulend_axioms():
    s, k, j = var("?s", "Str"), var("?k", "Int"), var("?j", "Int")
    f = lambda x: app("nulend", s, x)
    L = mk("app", ("slen", s), "Int")
    out = []
    out.append(Forall([s], Eq(f(ZERO), ZERO), [(f(ZERO),)]))
    step = Implies(And(Le(ZERO, k), Le(f(k), L)), Eq(f(add(k, ONE)), add(app("fnul", s, f(k)), ONE)))
    step2 = Implies(And(Le(ZERO, k), Eq(j, add(k, ONE)), Le(f(k), L)), Eq(f(j), add(app("fnul", s, f(k)), ONE)))
    out.append(Forall([s, k, j], step2, [(f(k), f(j))]))
    out.append(Forall([s, k], step, [(app("fnul", s, f(k)),)]))
    out.append(Forall([s, k], Implies(Le(ZERO, k), Le(k, f(k))), [(f(k),)]))
    # monotone
    out.append(Forall([s, k, j], Implies(And(Le(ZERO, k), Lt(k, j), Le(f(j), L)), And(Lt(f(k), f(j)), Lt(app("fnul", s, f(k)), f(j)))), [(f(k), f(j))]))
    out.append(Forall([s, k, j], Implies(And(Le(ZERO, k), Le(k, j), Gt(f(k), L)), Gt(f(j), L)), [(f(k), f(j))]))
    return out


for _a in nulend_axioms():
    solve.user_axioms.append((_a, {"nulend"}))


declare("pathjoin", ["Str", "Str"], "Str")
declare("pathclean", ["Str"], "Str")


@model("path.Join")
def _join(X, st, args, ins):
    sl = args[0]
    if not isint(sl.len):
        raise Undecided("path.Join")
    r = load_elem(X, st, sl, 0, "string")
    for k in range(1, sl.len.args[0]):
        r = app("pathjoin", r, load_elem(X, st, sl, k, "string"))
    return [(st, r)]


@model("sort.Ints")
def _sortints(X, st, args, ins):
    sl = args[0]
    row = X.row(st, "int", "", sl.ref)
    new = fresh("sorted", AI)
    tm.arng[new] = irange("int")
    k, j = var("?k", "Int"), var("?j", "Int")
    inr = lambda x: And(Le(sl.off, x), Lt(x, add(sl.off, sl.len)))
    st.assume(Forall([k, j], Implies(And(inr(k), inr(j), Lt(k, j)), Le(select(new, k), select(new, j))), [(select(new, k), select(new, j))]))
    sid = fresh("sortid", "Int")
    declare("sortp", ["Int", "Int"], "Int")
    declare("sortq", ["Int", "Int"], "Int")
    p = lambda x: app("sortp", sid, x)
    q = lambda x: app("sortq", sid, x)
    st.assume(Forall([k], Implies(inr(k), And(inr(p(k)), Eq(select(new, k), select(row, p(k))), Eq(q(p(k)), k))), [(select(new, k),), (p(k),)]))
    st.assume(Forall([k], Implies(inr(k), And(inr(q(k)), Eq(select(new, q(k)), select(row, k)), Eq(p(q(k)), k))), [(select(row, k),)] if row.op in ("var", "select") else [(q(k),)]))
    st.assume(Forall([k], Or(inr(k), Eq(select(new, k), select(row, k))), [(select(new, k),)]))
    X.setrow(st, "int", "", sl.ref, new)
    return [(st, None)]


H["slices.Sort[[]int int]"] = _sortints


@model("sort.Sort", "sort.Stable")
def _sortsort(X, st, args, ins):
    """assumed contract of package sort: given that Less, Swap and Len meet their contracts (verified
    separately) and Less is a strict weak order (a lemma), the elements are permuted into ascending order"""
    i = args[0]
    tag = X.resolve_tag(st, i.tag)
    t = X.types.tagname.get(tag.args[0]) if isint(tag) else None
    T_ = X.types
    if t is None or T_.kind(t) != "slice":
        raise Undecided("sort.Sort of " + str(t))
    less = X.c.cons.get("(%s).Less" % t)
    swap = X.c.cons.get("(%s).Swap" % t)
    ln = X.c.cons.get("(%s).Len" % t)
    iff = None
    for cl in (less.ensures if less else ()):
        if X.c.active(cl.tags) and "<==>" in repr(cl.expr):
            iff = cl
    if iff is None or swap is None or ln is None or not any(X.c.active(c.tags) for c in swap.ensures) or not any(X.c.active(c.tags) for c in ln.ensures):
        raise Undecided("sort.Sort of a type without contracts for Len, Less and Swap")
    for c in (less, swap, ln):
        X.used_contracts.add(c.fid)
    sl = X.unbox(st, Iface(tag, i.val), t)
    et = T_.elem(t)
    sid = fresh("sortid", "Int")
    declare("sortp", ["Int", "Int"], "Int")
    declare("sortq", ["Int", "Int"], "Int")
    p = lambda x: app("sortp", sid, x)
    q = lambda x: app("sortq", sid, x)
    k, j = var("?k", "Int"), var("?j", "Int")
    inr = lambda x: And(Le(sl.off, x), Lt(x, add(sl.off, sl.len)))
    st.assume(Forall([k], Implies(inr(k), And(inr(p(k)), Eq(q(p(k)), k))), [(p(k),)]))
    st.assume(Forall([k], Implies(inr(k), And(inr(q(k)), Eq(p(q(k)), k))), [(q(k),)]))
    for lf, sort, kd, gt in T_.leaves(et):
        row = X.row(st, et, lf, sl.ref)
        new = fresh("sorted", row.sort)
        if row in tm.arng:
            tm.arng[new] = tm.arng[row]
        st.assume(Forall([k], Implies(inr(k), Eq(select(new, k), select(row, p(k)))), [(select(new, k),), (p(k),)]))
        st.assume(Forall([k], Or(inr(k), Eq(select(new, k), select(row, k))), [(select(new, k),)]))
        st.assume(Forall([k], Implies(inr(k), Eq(select(row, k), select(new, q(k)))), [(select(row, k),)] if row.op in ("var", "select") else [(q(k),)]))
        X.setrow(st, et, lf, sl.ref, new)
    fn = X.prog.func(less.fid)
    from spec import Env
    # positions are absolute, so that element terms carry no arithmetic
    env = Env(X.c.bindenv(less, [sl, sub(k, sl.off), sub(j, sl.off)], fn), st, st)
    env.vars[less.results[0]] = V(FALSE)
    X.cur = st
    f = X.c.term(iff.expr, env)
    pat = None
    for lf, sort, kd, gt in T_.leaves(et):
        row = X.row(st, et, lf, sl.ref)
        if occurs(f, select(row, k)) and occurs(f, select(row, j)):
            pat = (select(row, k), select(row, j))
            break
    # not Less(k, j) whenever j comes before k
    st.assume(Forall([k, j], Implies(And(inr(k), inr(j), Le(j, k)), f), [pat] if pat else []))
    return [(st, None)]


def occurs(t, x):
    seen = set()

    def go(t):
        if t is x:
            return True
        if not isinstance(t, T) or t in seen:
            return False
        seen.add(t)
        return any(go(a) for a in walkargs(t))
    return go(t)


def walkargs(t):
    for a in t.args:
        if isinstance(a, T):
            yield a
        elif isinstance(a, tuple):
            for b in a:
                if isinstance(b, T):
                    yield b
                elif isinstance(b, tuple):
                    for c in b:
                        if isinstance(c, T):
                            yield c


# ---- regexp: patterns of the form (?s)^([class]{*,+})(.*)$ ------------------------------------
RE_PAT = re.compile(r"^\(\?s\)\^\((\[.*\])([*+])\)\(\.\*\)\$$")


def parse_class(src):
    """ASCII members of a byte class; None if it is not one we understand. negated flag."""
    b = src[1:-1]
    neg_ = b.startswith("^")
    if neg_:
        b = b[1:]
    out = set()
    i = 0
    while i < len(b):
        if b[i] == "\\":
            if i + 1 < len(b) and b[i + 1] == "d":
                out |= set(range(48, 58))
                i += 2
                continue
            if i + 1 < len(b) and b[i + 1] == "w":
                out |= set(range(48, 58)) | set(range(65, 91)) | set(range(97, 123)) | {95}
                i += 2
                continue
            if i + 1 < len(b) and not b[i + 1].isalnum():
                out.add(ord(b[i + 1]))
                i += 2
                continue
            return None
        if b[i] == "[":
            return None
        if i + 2 < len(b) and b[i + 1] == "-":
            out |= set(range(ord(b[i]), ord(b[i + 2]) + 1))
            i += 3
            continue
        out.add(ord(b[i]))
        i += 1
    if any(c >= 128 for c in out):
        return None
    if neg_:
        return tuple(c for c in range(256) if c not in out)
    return tuple(sorted(out))


def recls(X, ref):
    pat = X.regex.get(ref)
    if pat is None:
        raise Undecided("regular expression not known")
    m = RE_PAT.match(pat)
    if not m:
        raise Undecided("regular expression outside the modelled family: " + pat)
    c = parse_class(m.group(1))
    if c is None:
        raise Undecided("regular expression class: " + pat)
    return c, m.group(2) == "+"


@model("(*regexp.Regexp).FindStringSubmatch")
def _findsub(X, st, args, ins):
    ref, s = args
    cls, plus = recls(X, ref)
    n = skipclass(X, st, s, cls)
    outs = []
    ok = Lt(ZERO, n) if plus else TRUE
    if X.feasible(st, ok):
        s1 = st.copy()
        s1.assume(ok)
        X.cur = s1
        r = X.alloc(s1)
        row = konst(EMPTY, "Int")
        row = tm.store(tm.store(tm.store(row, ZERO, s), ONE, ssub(s, ZERO, n)), I(2), ssub(s, n, slen(s)))
        X.setrow(s1, "string", "", r, row)
        outs.append((s1, Slice(r, ZERO, I(3), I(3))))
    if plus and X.feasible(st, Not(ok)):
        s2 = st.copy()
        s2.assume(Not(ok))
        outs.append((s2, Slice(ZERO, ZERO, ZERO, ZERO)))
    if not outs:
        raise Dead()
    return outs


@model("(*regexp.Regexp).MatchString")
def _matchstr(X, st, args, ins):
    ref, s = args
    cls, plus = recls(X, ref)
    n = skipclass(X, st, s, cls)
    return [(st, Lt(ZERO, n) if plus else TRUE)]


@model("regexp.MustCompile")
def _mustcompile(X, st, args, ins):
    r = X.alloc(st)
    if args[0].op == "strlit":
        X.regex[r] = args[0].args[0].decode("utf8", "replace")
    return [(st, r)]


# ---- defaults ----------------------------------------------------------------------------
PURE = ("fmt.", "strings.", "bytes.", "strconv.", "errors.", "path.", "path/filepath.", "unicode.", "unicode/utf8.", "math.", "math/bits.", "time.", "encoding/hex.", "slices.", "maps.", "cmp.", "sort.Search")


def unknown(X, st, fid, args, ins):
    """functions without a model: pure library functions return anything, others are undecided"""
    base = fid.lstrip("(*")
    if any(base.startswith(p) for p in PURE) and ins is not None:
        sig = ins["sig"]
        rts = X.result_types(sig)
        # a pointer or slice argument could be written through: only allow scalars and read-only helpers
        for a, j in zip(args, ins["args"]):
            k = X.types.kind(j["t"])
            if k in ("ptr", "map", "func") or (k == "slice" and not fid.startswith(("fmt.", "bytes.", "strings.", "errors."))):
                raise Undecided("no contract for %s" % fid)
        X.havocked.add(fid)
        X.newwm(st)
        return [(st, X.pack([X.freshval(st, t, "h") for t in rts]))]
    raise Undecided("no contract for %s" % fid)


def unknown_invoke(X, st, recv, itype, meth_, args, ins):
    T_ = X.types
    tag = X.resolve_tag(st, recv.tag)
    if isint(tag):
        name = T_.tagname[tag.args[0]]
        raise Undecided("no contract for method %s of %s" % (meth_, name))
    if meth_ in ("String", "Error"):
        return [(st, fresh("str", "Str"))]
    if meth_ == "Close":
        return close(X, st, recv)
    raise Undecided("no contract for %s.%s" % (itype, meth_))


# ---- decompressors ---------------------------------------------------------------------------
declare("decompress", ["Str", "Str"], "Str")
declare("decompresses", ["Str", "Str"], "Bool")


def newdec(X, st, kind, t, rd, fails, asptr):
    src = view(X, st, rd)
    D, p = src.data(X, st), src.pos(X, st)
    X.cur = st
    rest = ssub(D, p, slen(D))
    q = fresh("rpos", "Int")
    setrange(q, 0, MAXS)
    st.assume(And(Le(p, q), Le(q, slen(D))))
    src.setpos(X, st, q)
    K = strlit(kind.encode())
    c = app("decompresses", K, rest)
    outs = []
    if fails:
        s = st.copy()
        s.assume(Not(c))
        e = anyerr(X, s, "decerr")
        outs.append((s, (ZERO if asptr else NIL, e)))
        st.assume(c)
    r = X.alloc(st)
    gset(X, st, "dec.t", r, rd.tag)
    gset(X, st, "dec.v", r, rd.val)
    gset(X, st, "rpos", r, ZERO)
    st.assume(Eq(app("rdata", r), app("decompress", K, rest)))
    if t in CLOSABLE:
        gset(X, st, "live", ZERO, add(gget(X, st, "live", ZERO), ONE))
        gset(X, st, "opened", r, ONE)
    return st, outs, r


def decmodel(fn, kind, t, fails, asptr=True):
    def h(X, st, args, ins):
        st, outs, r = newdec(X, st, kind, t, args[0], fails, asptr)
        v = r if asptr else Iface(ttag(X, t), r)
        return outs + [(st, (v, NIL) if fails or fn.endswith("klauspost/compress/zstd.NewReader") else v)]
    H[fn] = h


decmodel("compress/gzip.NewReader", "gzip", "*compress/gzip.Reader", True)
decmodel("compress/bzip2.NewReader", "bzip2", "*compress/bzip2.reader", False, False)
decmodel("github.com/ulikunitz/xz/lzma.NewReader", "lzma", "*github.com/ulikunitz/xz/lzma.Reader", True)
decmodel("github.com/ulikunitz/xz.NewReader", "xz", "*github.com/ulikunitz/xz.Reader", True)
decmodel("github.com/DataDog/zstd.NewReader", "zstd", "*github.com/DataDog/zstd.reader", False, False)
decmodel("github.com/klauspost/compress/zstd.NewReader", "zstd", "*github.com/klauspost/compress/zstd.Decoder", True)


def decread(X, st, args, ins):
    return one_read(X, st, Dec(X, st, args[0]), args[1])


def decclose(X, st, args, ins):
    r = closeval(X, st, args[0])
    return r


def closeval(X, st, k):
    n = gget(X, st, "closed", k)
    gset(X, st, "closed", k, add(n, ONE))
    # the first Close of a decompressor releases it
    o = gget(X, st, "opened", k)
    gset(X, st, "live", ZERO, sub(gget(X, st, "live", ZERO), o))
    gset(X, st, "opened", k, ZERO)
    return st


def _gzclose(X, st, args, ins):
    closeval(X, st, args[0])
    e = X.freshval(st, "error", "closeerr")
    st.assume(Le(ZERO, e.tag))
    return [(st, e)]


def _kpclose(X, st, args, ins):
    closeval(X, st, args[0])
    return [(st, None)]


for t_ in DECTYPES:
    M[(t_, "Read")] = decread
M[("*compress/gzip.Reader", "Close")] = _gzclose
M[("*github.com/DataDog/zstd.reader", "Close")] = _gzclose
H["(*compress/gzip.Reader).Close"] = _gzclose
H["(*github.com/klauspost/compress/zstd.Decoder).Close"] = _kpclose


@bi("live")
def _(C, X, env, a):
    """decompressors that were opened and not yet closed"""
    return V(gget(X, env.st, "live", ZERO))


B_["loc:live"] = lambda C, X, env, a: [("G:live", ZERO, AI, None, None, "Int")]


@bi("decompress")
def _(C, X, env, a):
    return V(app("decompress", a[0].v, a[1].v))


@bi("decompresses")
def _(C, X, env, a):
    return V(app("decompresses", a[0].v, a[1].v))


def close(X, st, i):
    closeval(X, st, i.val)
    e = X.freshval(st, "error", "closeerr")
    st.assume(Le(ZERO, e.tag))
    return [(st, e)]


IM["io.Closer.Close"] = lambda X, st, args, ins: close(X, st, args[0])


def dyncall(X, st, f, args, ins):
    raise Undecided("call of an unknown function value at %s" % ins.get("pos"))


# ---- spec builtins -------------------------------------------------------------------------
@bi("len")
def _(C, X, env, a):
    v = a[0].v
    if isinstance(v, Slice):
        return V(v.len)
    return V(slen(v))


@bi("cap")
def _(C, X, env, a):
    return V(a[0].v.cap)


@bi("str")
def _(C, X, env, a):
    return V(X.bytes_of(env.st, a[0].v))


@bi("ref")
def _(C, X, env, a):
    v = a[0].v
    return V(v.ref if isinstance(v, Slice) else v)


@bi("off")
def _(C, X, env, a):
    return V(a[0].v.off)


@bi("has")
def _(C, X, env, a):
    d, v = X.mapget(env.st, a[0].v, a[0].t, a[1].v)
    return V(d)


@bi("is")
def _(C, X, env, a):
    return V(Eq(a[0].v.tag, ttag(X, a[1]) if a[1] not in X.prog.types else I(X.types.tag(a[1]))))


@bi("as")
def _(C, X, env, a):
    return V(X.unbox(env.st, a[0].v, a[1]), a[1])


@bi("tag")
def _(C, X, env, a):
    return V(a[0].v.tag)


@bi("val")
def _(C, X, env, a):
    return V(a[0].v.val)


@bi("rdata")
def _(C, X, env, a):
    return V(view(X, env.st, asiface(X, a[0])).data(X, env.st))


@bi("rpos")
def _(C, X, env, a):
    return V(view(X, env.st, asiface(X, a[0])).pos(X, env.st))


@bi("rend")
def _(C, X, env, a):
    return V(view(X, env.st, asiface(X, a[0])).end(X, env.st), "error")


@bi("wdata")
def _(C, X, env, a):
    return V(gget(X, env.st, "wdata", asiface(X, a[0]).val, AS))


@bi("wtext")
def _(C, X, env, a):
    """everything written to this writer"""
    i = asiface(X, a[0])
    tag = X.resolve_tag(env.st, i.tag)
    if isint(tag) and X.types.tagname.get(tag.args[0]) == "*bytes.Buffer":
        return V(gget(X, env.st, "buf", i.val, AS))
    return V(gget(X, env.st, "wdata", i.val, AS))


@bi("ser")
def _(C, X, env, a):
    """what serializing this header wrote last"""
    return V(gget(X, env.st, "ser", a[0].v, AS))


B_["loc:ser"] = lambda C, X, env, a: [("G:ser", a[0].v, AS, None, None, "Str")]


@bi("buf")
def _(C, X, env, a):
    return V(bufcontent(X, env.st, a[0].v))


@bi("hdata")
def _(C, X, env, a):
    return V(gget(X, env.st, "hdata", asiface(X, a[0]).val, AS))


@bi("halg")
def _(C, X, env, a):
    return V(gget(X, env.st, "halg", asiface(X, a[0]).val))


@bi("digest")
def _(C, X, env, a):
    return V(app("digest", a[0].v, a[1].v))


@bi("hexenc")
def _(C, X, env, a):
    return V(app("hexenc", a[0].v))


@bi("be")
def _(C, X, env, a):
    w = a[2].v.args[0]
    s, p = a[0].v, a[1].v
    X.cur = env.st
    return V(be(s, p, w))


@bi("signed")
def _(C, X, env, a):
    return V(signed(a[0].v, a[1].v.args[0]))


@bi("enc")
def _(C, X, env, a):
    return V(enc(a[0].v, a[1].v.args[0]))


@bi("nulend")
def _(C, X, env, a):
    return V(app("nulend", a[0].v, a[1].v))


@bi("fnul")
def _(C, X, env, a):
    return V(app("fnul", a[0].v, a[1].v))


@bi("join")
def _(C, X, env, a):
    return V(app("pathjoin", a[0].v, a[1].v))


@bi("fmtuint")
def _(C, X, env, a):
    return V(app("fmtuint", a[0].v, a[1].v))


@bi("hexval")
def _(C, X, env, a):
    return V(app("hexval", a[0].v))


@bi("ishex")
def _(C, X, env, a):
    return V(app("ishex", a[0].v))


@bi("nst")
def _(C, X, env, a):
    return V(And(Ne(a[0].v.tag, ZERO), nst(X, a[0].v)))


@bi("wraps")
def _(C, X, env, a):
    return V(app("wraps", a[0].v.tag, a[0].v.val))


@bi("fresh")
def _(C, X, env, a):
    v = a[0].v
    r = v.ref if isinstance(v, Slice) else v.val if isinstance(v, Iface) else v
    if not any(x.args[0].startswith("?") for x in tm.free_vars(r)):
        # every reference was allocated at some time
        env.st.assume(mk("<=0", (sub(r, env.st.wm),), "Bool"))
    return V(Gt(r, env.old.wm))


@bi("EOF")
def _(C, X, env, a):
    return V(EOF(X), "error")


@bi("UEOF")
def _(C, X, env, a):
    return V(UEOF(X), "error")


@bi("same")
def _(C, X, env, a):
    x, y = a
    t = x.t or y.t
    return V(And(*[Eq(p, q) for p, q in zip(X.types.flatten(x.v, t), X.types.flatten(y.v, t))]))


@bi("skip")
def _(C, X, env, a):
    # skip("[0-9]", s)
    c = parse_class(a[0].v.args[0].decode())
    f = app(declcls(c), a[1].v)
    return V(f)


@bi("inclass")
def _(C, X, env, a):
    c = parse_class(a[0].v.args[0].decode())
    return V(incls(c, a[1].v))


class Adv:
    """location 'stream(x)': the position advances to a fresh value"""
    def __init__(self, X, v, allowed):
        self.X, self.v, self.allowed = X, v, allowed

    def __call__(self, st):
        X = self.X
        D, p = self.v.data(X, st), self.v.pos(X, st)
        q = fresh("rpos", "Int")
        setrange(q, 0, MAXS)
        st.assume(And(Le(p, q), Le(q, slen(D))))
        self.v.setpos(X, st, q)


def _locstream(C, X, env, a):
    v = view(X, env.st, asiface(X, a[0]))
    ad = Adv(X, v, v.frame())
    return [("G:rpos", ad, AI, None, None, "Int")]


B_["loc:stream"] = _locstream
B_["loc:hash"] = lambda C, X, env, a: [("G:hdata", asiface(X, a[0]).val, AS, None, None, "Str")]


class WLoc:
    def __init__(self, X, i, allowed):
        self.X, self.i, self.allowed = X, i, allowed

    def __call__(self, st):
        X, i = self.X, self.i
        tag = X.resolve_tag(st, i.tag)
        name = X.types.tagname.get(tag.args[0]) if isint(tag) else None
        old = gget(X, st, "wdata", i.val, AS)
        if name == "*bytes.Buffer":
            old = gget(X, st, "buf", i.val, AS)
        new = fresh("wnew", "Str")
        add_ = fresh("wadd", "Str")
        setrange(slen(add_), 0, MAXLEN)
        X.cur = st
        if name == "*bytes.Buffer":
            gset(X, st, "buf", i.val, scat(old, add_))
            gset(X, st, "wdata", i.val, scat(gget(X, st, "wdata", i.val, AS), add_))
        elif name == "*" + RP + ".byteCountSink":
            t = RP + ".byteCountSink"
            c = X.load(st, i.val, t)
            X.store(st, i.val, t, X.wrap(st, add(c, slen(add_)), t))
            gset(X, st, "wdata", i.val, scat(old, add_))
        else:
            gset(X, st, "wdata", i.val, scat(old, add_))


def _locwriter(C, X, env, a):
    i = asiface(X, a[0])
    return [("G:wdata", WLoc(X, i, [("G:wdata", i.val), ("G:buf", i.val)]), AS, None, None, "Str")]


B_["loc:writer"] = _locwriter
B_["loc:buffer"] = lambda C, X, env, a: [("G:buf", a[0].v, AS, None, None, "Str"), ("G:bufpos", a[0].v, AI, None, None, "Int")]
B_["loc:closed"] = lambda C, X, env, a: [("G:closed", asiface(X, a[0]).val, AI, None, None, "Int"), ("G:opened", asiface(X, a[0]).val, AI, None, None, "Int"), ("G:live", ZERO, AI, None, None, "Int")]


@bi("closed")
def _(C, X, env, a):
    return V(gget(X, env.st, "closed", asiface(X, a[0]).val))


@bi("seen")
def _(C, X, env, a):
    """the running iteration over this map has passed this key"""
    it = X.iters.get(a[0].v)
    if it is None:
        return V(FALSE)
    ks = X.mapnames(a[0].t)[1]
    pos = select(X.heap(env.st, "G:iter", arr("Int", "Int")), it.pos)
    return V(And(select(X.mapdom(env.st, a[0].v, a[0].t), a[1].v), Lt(app("kidx:" + ks, it.n, a[1].v), pos)))


@bi("implements")
def _(C, X, env, a):
    return V(X.implements(X.resolve_tag(env.st, a[0].v.tag), a[1]))


import fsmodel
import pgpmodel
