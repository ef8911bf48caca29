"""Assumed contracts of the OpenPGP library (github.com/ProtonMail/go-crypto) and of time.

A signature packet is described by the bytes it was parsed from:
  pgperr(b)      no packet can be read from b          pgplen(b)    bytes of the first packet
  pgpissig(b)    the packet is a signature             pgphash(b)   its hash algorithm
  pgphaskid/pgpkid(b), pgpfplen(b)                     issuer key id and length of the issuer fingerprint
  pgpnames(b,k)  the packet names public key k         pgpvalid(k,b,alg,d)  it validates d digested with alg under k
A signature that Sign made is described by what its serialization S says:
  serdata(S)  the bytes that were signed, seralg(S) the algorithm they were digested with, serhash(S) the algorithm named in the packet,
  serkey(S)   the signing key, serkid(S) the key id named, sertype(S), seralgo(S), sertime(S)
"""
import terms as tm
from terms import *
from mem import *
import externs as ex
from externs import model, bi, gget, gset, ttag, NIL, anyerr, write, view, getf, setf, slen, AI, AS, asiface
from spec import V

OP = "github.com/ProtonMail/go-crypto/openpgp"
PK = OP + "/packet"
SIG = PK + ".Signature"

for n_, a_, r_ in (("pgpissig", ["Str"], "Bool"), ("pgplen", ["Str"], "Int"), ("pgphash", ["Str"], "Int"), ("pgphaskid", ["Str"], "Bool"),
                   ("pgpkid", ["Str"], "Int"), ("pgpfplen", ["Str"], "Int"), ("pgpnames", ["Str", "Int"], "Bool"), ("pgpvalid", ["Int", "Str", "Int", "Str"], "Bool"),
                   ("serdata", ["Str"], "Str"), ("seralg", ["Str"], "Int"), ("serhash", ["Str"], "Int"), ("serkey", ["Str"], "Int"), ("serkid", ["Str"], "Int"),
                   ("sertype", ["Str"], "Int"), ("seralgo", ["Str"], "Int"), ("sertime", ["Str"], "Int"), ("isnow", ["Int"], "Bool"), ("tzero", ["Int"], "Bool"),
                   ("pgpid", ["Int"], "Int"), ("pgptime", ["Str"], "Int")):
    declare(n_, a_, r_)

    def mkb(n):
        def f(C, X, env, a):
            return V(app(n, *[X.types.encode(x.v) if isinstance(x.v, Addr) else x.v for x in a]))
        ex.B_[n] = f
    mkb(n_)


@model(PK + ".Read")
def _read(X, st, args, ins):
    v = view(X, st, args[0])
    D, p = v.data(X, st), v.pos(X, st)
    X.cur = st
    b = ssub(D, p, slen(D))
    bad = st.copy()
    q = fresh("rpos", "Int")
    setrange(q, 0, ex.MAXS)
    bad.assume(And(Le(p, q), Le(q, slen(D))))
    v.setpos(X, bad, q)
    e = anyerr(X, bad, "pgperr")
    n = app("pgplen", b)
    setrange(n, 1, MAXLEN)
    st.assume(Le(n, slen(b)))
    v.setpos(X, st, add(p, n))
    other = st.copy()
    outs = [(bad, (NIL, e))]
    is_ = app("pgpissig", b)
    other.assume(Not(is_))
    outs.append((other, (Iface(ttag(X, "*" + PK + ".otherPacket"), X.alloc(other)), NIL)))
    st.assume(is_)
    # the packet object; nothing is known of the other fields
    r = X.alloc(st)
    gset(X, st, "pgpblob", r, b)
    h = app("pgphash", b)
    setrange(h, 1, 40)
    st.assume(ex.available(X, h))
    setf(X, st, r, SIG, "Hash", h)
    setf(X, st, r, SIG, "CreationTime", app("pgptime", b))
    kt = "uint64"
    k = X.newobj(st, kt)
    kid = app("pgpkid", b)
    setrange(kid, 0, 2 ** 64 - 1)
    X.store(st, k, kt, kid)
    setf(X, st, r, SIG, "IssuerKeyId", Ite(app("pgphaskid", b), k, ZERO))
    fl = app("pgpfplen", b)
    setrange(fl, 0, 64)
    # (its bytes are whatever the memory at the new place holds: nothing is known of them)
    fp = X.alloc(st)
    setf(X, st, r, SIG, "IssuerFingerprint", Slice(Ite(Lt(ZERO, fl), fp, ZERO), ZERO, fl, fl))
    outs.append((st, (Iface(I(X.types.tag("*" + SIG)), r), NIL)))
    return outs


@model("(*%s).CheckKeyIdOrFingerprint" % SIG)
def _names(X, st, args, ins):
    sig, pk = args
    return [(st, app("pgpnames", gget(X, st, "pgpblob", sig, AS), pkref(X, pk)))]


def pkref(X, pk):
    return X.types.encode(pk) if isinstance(pk, Addr) else pk


@model("(*%s.PublicKey).VerifySignature" % PK)
def _verify(X, st, args, ins):
    pk, h, sig = args
    d = gget(X, st, "hdata", h.val, AS)
    c = app("pgpvalid", pkref(X, pk), gget(X, st, "pgpblob", sig, AS), gget(X, st, "halg", h.val), d)
    gset(X, st, "hdata", h.val, fresh("hd", "Str"))
    bad = st.copy()
    bad.assume(Not(c))
    e = anyerr(X, bad, "sigerr")
    st.assume(c)
    return [(bad, e), (st, NIL)]


@model("(*%s.Entity).PrimaryIdentity" % OP)
def _ident(X, st, args, ins):
    r = app("pgpid", args[0])
    tm.refbound.setdefault(r, (0, 0))
    setrange(r, 0, None)
    return [(st, r)]


@model("(*%s).Sign" % SIG)
def _sign(X, st, args, ins):
    sig, h, key, cfg = args
    bad = st.copy()
    e = anyerr(X, bad, "signerr")
    S = fresh("ser", "Str")
    setrange(slen(S), 1, 2 ** 31 - 1)
    X.cur = st
    f = lambda n: getf(X, st, sig, SIG, n)
    fact = lambda n, v: st.assume(Eq(app(n, S), X.types.encode(v) if isinstance(v, Addr) else v))
    fact("serdata", gget(X, st, "hdata", h.val, AS))
    fact("seralg", gget(X, st, "halg", h.val))
    fact("serkey", key)
    fact("serhash", f("Hash"))
    fact("sertype", f("SigType"))
    fact("seralgo", f("PubKeyAlgo"))
    fact("sertime", f("CreationTime"))
    kp = f("IssuerKeyId")
    if kp is not ZERO:
        fact("serkid", X.load(st, kp, "uint64"))
    gset(X, st, "pgpser", sig, S)
    for s in (st, bad):
        gset(X, s, "hdata", h.val, fresh("hd", "Str"))
    return [(bad, e), (st, NIL)]


@model("(*%s).Serialize" % SIG)
def _serialize(X, st, args, ins):
    sig, w = args
    bad = st.copy()
    e = anyerr(X, bad, "sererr")
    S = gget(X, st, "pgpser", sig, AS)
    outs = [(bad, e)]
    for s, we in write(X, st, w, S):
        outs.append((s, NIL if we is None else we))
    return outs


@model("time.Now")
def _now(X, st, args, ins):
    t = fresh("now", "Int")
    st.assume(app("isnow", t))
    st.assume(Not(app("tzero", t)))
    return [(st, t)]


@model("(time.Time).IsZero")
def _iszero(X, st, args, ins):
    t = args[0]
    if t is ZERO:
        return [(st, TRUE)]
    return [(st, app("tzero", t))]


@bi("ishash")
def _(C, X, env, a):
    return V(Eq(a[0].v.tag, ttag(X, "*hash.digest")))


@bi("pgpblob")
def _(C, X, env, a):
    return V(gget(X, env.st, "pgpblob", a[0].v, AS))
