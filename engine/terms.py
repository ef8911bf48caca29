"""Hash-consed first-order terms with simplifying constructors.

Sorts are strings: Int, Bool, Str, or array sorts written "(Array K V)".
"""
_tab = {}
_n = [0]


class T:
    __slots__ = ("op", "args", "sort", "id", "_fv", "_q")

    def __repr__(self):
        return show(self)


def mk(op, args, sort):
    k = (op, args, sort)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.sort = sort
        _n[0] += 1
        t.id = _n[0]
        t._fv = None
        t._q = None
        _tab[k] = t
    return t


TRUE = mk("true", (), "Bool")
FALSE = mk("false", (), "Bool")


def I(n):
    return mk("int", (n,), "Int")


ZERO = I(0)
ONE = I(1)


def var(name, sort):
    return mk("var", (name,), sort)


_fresh = [0]


def fresh(name, sort):
    _fresh[0] += 1
    return var("%s!%d" % (name, _fresh[0]), sort)


def B(b):
    return TRUE if b else FALSE


def isint(t):
    return t.op == "int"


# ---- linear integer normal form -------------------------------------------

def lin(t):
    """(const, {term: coef})"""
    if t.op == "int":
        return t.args[0], {}
    if t.op == "lin":
        return t.args[0], dict(t.args[1])
    return 0, {t: 1}


def mklin(c, d):
    items = [(x, k) for x, k in d.items() if k != 0]
    if not items:
        return I(c)
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    items.sort(key=lambda p: p[0].id)
    return mk("lin", (c, tuple(items)), "Int")


def add(*ts):
    c = 0
    d = {}
    for t in ts:
        c1, d1 = lin(t)
        c += c1
        for x, k in d1.items():
            d[x] = d.get(x, 0) + k
    return mklin(c, d)


def scale(k, t):
    c, d = lin(t)
    return mklin(k * c, {x: k * v for x, v in d.items()})


def sub(a, b):
    return add(a, scale(-1, b))


def neg(a):
    return scale(-1, a)


def mul(a, b):
    if isint(a):
        return scale(a.args[0], b)
    if isint(b):
        return scale(b.args[0], a)
    for x, y in ((a, b), (b, a)):
        t = litsel(y)
        if t:
            # the other factor comes from a literal table: stay linear
            k, rows, d = t
            r = scale(d, x)
            for v in sorted(set(rows.values()) - {d}):
                r = Ite(Or(*[Eq(k, I(n)) for n in sorted(rows) if rows[n] == v]), scale(v, x), r)
            return r
    if a.id > b.id:
        a, b = b, a
    return mk("*", (a, b), "Int")


def litsel(t):
    """(key, {literal key: literal value}, default) of a lookup in a constant table"""
    if t.op != "select":
        return None
    a, k = t.args
    rows = {}
    while a.op == "store":
        i, v = a.args[1], a.args[2]
        if not isint(i) or not isint(v):
            return None
        rows.setdefault(i.args[0], v.args[0])
        a = a.args[0]
    if a.op != "konst" or not rows:
        return None
    d = a.args[0]
    if not isinstance(d, T) or not isint(d):
        return None
    return k, rows, d.args[0]


def ediv(a, n):
    """Euclidean division by a positive constant."""
    if isint(a):
        return I(a.args[0] // n)
    if n == 1:
        return a
    c, d = lin(a)
    # pull out multiples
    d0 = {x: k for x, k in d.items() if k % n}
    d1 = {x: k // n for x, k in d.items() if k % n == 0}
    c1, c0 = divmod(c, n)
    rest = mklin(c0, d0)
    q = I(rest.args[0] // n) if isint(rest) else mk("div", (rest, I(n)), "Int")
    return add(mklin(c1, d1), q)


def emod(a, n):
    if isint(a):
        return I(a.args[0] % n)
    if n == 1:
        return ZERO
    c, d = lin(a)
    d0 = {x: k % n for x, k in d.items() if k % n}
    rest = mklin(c % n, d0)
    if isint(rest):
        return I(rest.args[0] % n)
    if rest.op == "mod" and rest.args[1].args[0] <= n:
        return rest
    return mk("mod", (rest, I(n)), "Int")


# ---- booleans ---------------------------------------------------------------

def Not(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.args[0]
    if a.op == "<=0":
        # not (x <= 0)  ->  1 - x <= 0
        return le0(sub(ONE, a.args[0]))
    return mk("not", (a,), "Bool")


def And(*xs):
    out = []
    seen = set()
    st = list(reversed(xs))
    while st:
        x = st.pop()
        if x is TRUE or x in seen:
            continue
        if x is FALSE:
            return FALSE
        if x.op == "and":
            st.extend(reversed(x.args))
            continue
        seen.add(x)
        out.append(x)
    for x in out:
        if Not(x) in seen:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk("and", tuple(out), "Bool")


def Or(*xs):
    out = []
    seen = set()
    st = list(reversed(xs))
    while st:
        x = st.pop()
        if x is FALSE or x in seen:
            continue
        if x is TRUE:
            return TRUE
        if x.op == "or":
            st.extend(reversed(x.args))
            continue
        seen.add(x)
        out.append(x)
    for x in out:
        if Not(x) in seen:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return mk("or", tuple(out), "Bool")


def Implies(a, b):
    if a is TRUE:
        return b
    if a is FALSE or b is TRUE:
        return TRUE
    if b.op == "=>":
        return Implies(And(a, b.args[0]), b.args[1])
    if b is FALSE:
        return Not(a)
    return mk("=>", (a, b), "Bool")


def Iff(a, b):
    return Eq(a, b)


def Ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "var" and ctx[0] and c.args[0][0] != "?":
        # a flag the path has decided
        if known(c):
            return a
        if known(Not(c)):
            return b
    if a.sort == "Bool":
        if a is TRUE:
            return Or(c, b)
        if a is FALSE:
            return And(Not(c), b)
        if b is TRUE:
            return Or(Not(c), a)
        if b is FALSE:
            return And(c, a)
    if c.op == "not":
        return Ite(c.args[0], b, a)
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    return mk("ite", (c, a, b), a.sort)


def le0(t):
    """t <= 0"""
    if isint(t):
        return B(t.args[0] <= 0)
    c, d = lin(t)
    g = 0
    from math import gcd
    for k in d.values():
        g = gcd(g, k)
    if g > 1:
        # g*x + c <= 0  <=>  x <= floor(-c/g)
        d = {x: k // g for x, k in d.items()}
        c = -((-c) // g)
        t = mklin(c, d)
    lo, hi = bounds(t)
    if hi is not None and hi <= 0:
        return TRUE
    if lo is not None and lo > 0:
        return FALSE
    return mk("<=0", (t,), "Bool")


def Le(a, b):
    return le0(sub(a, b))


def Lt(a, b):
    return le0(add(sub(a, b), ONE))


def Ge(a, b):
    return Le(b, a)


def Gt(a, b):
    return Lt(b, a)


# declared ranges of atoms (facts valid by construction)
rng = {}


def setrange(t, lo, hi):
    if t.op in ("int", "lin", "ite"):
        return
    o = rng.get(t)
    if o:
        lo = max(lo, o[0]) if o[0] is not None and lo is not None else (lo if lo is not None else o[0])
        hi = min(hi, o[1]) if o[1] is not None and hi is not None else (hi if hi is not None else o[1])
    rng[t] = (lo, hi)


def bounds(t):
    op = t.op
    if op == "int":
        return t.args[0], t.args[0]
    if op == "lin":
        lo = hi = t.args[0]
        for x, k in t.args[1]:
            l, h = bounds(x)
            if k < 0:
                l, h = h, l
            lo = None if lo is None or l is None else lo + k * l
            hi = None if hi is None or h is None else hi + k * h
        return lo, hi
    if op == "mod":
        lo, hi = rng.get(t, (None, None))
        return 0, t.args[1].args[0] - 1
    if op == "div":
        l, h = bounds(t.args[0])
        n = t.args[1].args[0]
        return (None if l is None else l // n), (None if h is None else h // n)
    if op == "ite":
        l1, h1 = bounds(t.args[1])
        l2, h2 = bounds(t.args[2])
        return (None if l1 is None or l2 is None else min(l1, l2)), (None if h1 is None or h2 is None else max(h1, h2))
    r = rng.get(t)
    if r:
        return r
    if op == "select":
        x = litsel(t)
        if x:
            vs = list(x[1].values()) + [x[2]]
            return min(vs), max(vs)
    if op == "app" and t.args[0] == "slen":
        return 0, None
    if op == "app" and t.args[0] == "sat":
        return 0, 255
    return None, None


# references: distinctness of allocated objects. refbound[t] = (i, k): t <= A_i + k.
refbound = {}
wm = {}  # watermark var -> index


def asalloc(t):
    """(index, k) when t is watermark A_i + k, k >= 1"""
    if t.op == "lin" and len(t.args[1]) == 1 and t.args[1][0][1] == 1 and t.args[1][0][0] in wm and t.args[0] >= 1:
        return (wm[t.args[1][0][0]], t.args[0])
    return None


def inside(t):
    """(index, k) of the allocated object that t (encoded) points into"""
    if t.op == "lin" and len(t.args[1]) == 1 and t.args[1][0][1] == -4096 and t.args[1][0][0] in wm and -t.args[0] >= 4096:
        return (wm[t.args[1][0][0]], -t.args[0] // 4096)
    return None


def upper(t):
    if t.op == "int":
        return (-1, t.args[0])
    a = asalloc(t)
    if a:
        return a
    if t in wm:
        return (wm[t], 0)
    if t.op == "ite":
        a, b = upper(t.args[1]), upper(t.args[2])
        if a is None or b is None:
            return None
        return max(a, b)
    r = refbound.get(t)
    if r is None and t.op == "select" and wmof[0]:
        return wmof[0](t)
    return r


wmof = [None]     # hook: bound of what a memory cell refers to


def distinct(a, b):
    if a.sort == "Int":
        d = sub(a, b)
        if isint(d):
            return d.args[0] != 0
        lo, hi = bounds(d)
        if (lo is not None and lo > 0) or (hi is not None and hi < 0):
            return True
        x, y = asalloc(a) or inside(a), asalloc(b) or inside(b)
        if x:
            u = upper(b)
            if u is not None and u < x:
                return True
        if y:
            u = upper(a)
            if u is not None and u < y:
                return True
        return False
    if a.sort == "Str" and a.op == "strlit" and b.op == "strlit":
        return a is not b
    return False


def Eq(a, b):
    if a is b:
        return TRUE
    assert a.sort == b.sort, (a, b, a.sort, b.sort)
    if a.sort == "Int":
        d = sub(a, b)
        if isint(d):
            return B(d.args[0] == 0)
        c, m = lin(d)
        if len(m) > 1 or True:
            from math import gcd
            g = 0
            for k in m.values():
                g = gcd(g, k)
            if g > 1 and c % g:
                return FALSE
        if distinct(a, b):
            return FALSE
        # ite with constant branches
        for x, y in ((a, b), (b, a)):
            if x.op == "ite" and isint(y) and (isint(x.args[1]) or isint(x.args[2])):
                return Ite(x.args[0], Eq(x.args[1], y), Eq(x.args[2], y))
    elif a.sort == "Bool":
        if a is TRUE:
            return b
        if b is TRUE:
            return a
        if a is FALSE:
            return Not(b)
        if b is FALSE:
            return Not(a)
    elif a.sort == "Str":
        if distinct(a, b):
            return FALSE
        for x, y in ((a, b), (b, a)):
            if y is EMPTY:
                n = slen(x)
                return Eq(n, ZERO)
    if a.id > b.id:
        a, b = b, a
    return mk("=", (a, b), "Bool")


def Ne(a, b):
    return Not(Eq(a, b))


# ---- arrays -----------------------------------------------------------------

def arr(k, v):
    return "(Array %s %s)" % (k, v)


def arrparts(s):
    assert s.startswith("(Array "), s
    body = s[7:-1]
    depth = 0
    for i, c in enumerate(body):
        if c == "(":
            depth += 1
        elif c == ")":
            depth -= 1
        elif c == " " and depth == 0:
            return body[:i], body[i + 1:]
    raise ValueError(s)


def elemrange(a):
    """range of the elements of array a, if declared"""
    return arng.get(a)


arng = {}     # base array var -> (lo,hi) for its elements (or nested elements)
arefb = {}    # base array var -> refbound for its elements


expanding = [False]


def select(a, i):
    op = a.op
    if op == "store":
        b, j, v = a.args
        if j is i:
            return v
        if j.sort == "Int" and isint(sub(i, j)) and sub(i, j).args[0] == 0:
            return v
        if distinct(i, j):
            return select(b, i)
    elif op == "hframe":
        w, f, g = a.args  # r <= w: f[r]; else g[r]
        u = upper(i)
        if u is not None and u <= upper(w):
            return select(f, i)
        x = asalloc(i)
        if x and x > upper(w):
            return select(g, i)
        r = Ite(Le(i, w), select(f, i), select(g, i))
        # contents of arrays stay one term, so that quantified facts about their elements have a pattern
        if r.op != "ite" or not r.sort.startswith("(") or expanding[0]:
            return r
    elif op == "konst":
        return a.args[0]
    elif op == "ite":
        if a.args[1].op in ("store", "konst") or a.args[2].op in ("store", "konst"):
            return Ite(a.args[0], select(a.args[1], i), select(a.args[2], i))
    elif op == "afill":
        # afill(A, off, D, p, n): A[off..off+n) := D[p..p+n)
        A, off, D, p, n = a.args
        c = And(Le(off, i), Lt(i, add(off, n)))
        return Ite(c, sat(D, add(p, sub(i, off))), select(A, i)) if c is not FALSE else select(A, i)
    elif op == "adec":
        # adec(A, off, D, p, n, w): big-endian w-byte integers
        A, off, D, p, n, w = a.args
        c = And(Le(off, i), Lt(i, add(off, n)))
        return Ite(c, be(D, add(p, scale(w.args[0], sub(i, off))), w.args[0]), select(A, i))
    elif op == "acopy":
        A, o, Bq, b, n = a.args
        c = And(Le(o, i), Lt(i, add(o, n)))
        return Ite(c, select(Bq, add(b, sub(i, o))), select(A, i))
    elif op == "aofs":
        return sat(a.args[0], i)
    ks, vs = arrparts(a.sort)
    t = mk("select", (a, i), vs)
    return t


def store(a, i, v):
    if a.op == "store" and a.args[1] is i:
        a = a.args[0]
    return mk("store", (a, i, v), a.sort)


def konst(v, ksort):
    return mk("konst", (v,), arr(ksort, v.sort))


def hframe(w, f, g):
    return mk("hframe", (w, f, g), f.sort)


def afill(A, off, D, p, n):
    if n is ZERO:
        return A
    return mk("afill", (A, off, D, p, n), A.sort)


def adec(A, off, D, p, n, w):
    return mk("adec", (A, off, D, p, n, I(w)), A.sort)


def acopy(A, o, Bq, b, n):
    if isint(n) and n.args[0] <= 8:
        for k in range(n.args[0]):
            A = store(A, add(o, I(k)), select(Bq, add(b, I(k))))
        return A
    return mk("acopy", (A, o, Bq, b, n), A.sort)


def aofs(s):
    return mk("aofs", (s,), arr("Int", "Int"))


# ---- applications and strings -------------------------------------------------

sigs = {}  # name -> (argsorts, sort)


def declare(name, argsorts, sort):
    o = sigs.get(name)
    assert o is None or o == (tuple(argsorts), sort), name
    sigs[name] = (tuple(argsorts), sort)


def app(name, *args):
    sg = sigs.get(name)
    assert sg, "undeclared " + name
    assert len(sg[0]) == len(args), (name, args)
    for s, a in zip(sg[0], args):
        assert a.sort == s, (name, s, a, a.sort)
    return mk("app", (name,) + args, sg[1])


declare("slen", ["Str"], "Int")
declare("sat", ["Str", "Int"], "Int")
declare("ssub", ["Str", "Int", "Int"], "Str")
declare("scat", ["Str", "Str"], "Str")
declare("sofarr", [arr("Int", "Int"), "Int", "Int"], "Str")
declare("slt", ["Str", "Str"], "Bool")


def strlit(bs):
    return mk("strlit", (bytes(bs),), "Str")


EMPTY = strlit(b"")

# hook: contextual prover used by the string constructors
ctx = [None]


def known(c):
    if c is TRUE:
        return True
    if c is FALSE:
        return False
    p = ctx[0]
    return bool(p and p(c))


def slen(s):
    if s.op == "strlit":
        return I(len(s.args[0]))
    if s.op == "ite":
        return Ite(s.args[0], slen(s.args[1]), slen(s.args[2]))
    if s.op == "app":
        n = s.args[0]
        if n == "ssub":
            D, lo, hi = s.args[1:]
            if known(And(Le(ZERO, lo), Le(lo, hi), Le(hi, slen(D)))):
                return sub(hi, lo)
        elif n == "scat":
            return add(slen(s.args[1]), slen(s.args[2]))
        elif n == "sofarr":
            if known(Le(ZERO, s.args[3])):
                return s.args[3]
    return mk("app", ("slen", s), "Int")


def sat(s, i):
    if s.op == "strlit":
        if isint(i):
            k = i.args[0]
            return I(s.args[0][k]) if 0 <= k < len(s.args[0]) else ZERO
        b = s.args[0]
        if b and len(b) <= 4:
            r = ZERO
            for k in range(len(b)):
                r = Ite(Eq(i, I(k)), I(b[k]), r)
            return r
    if s.op == "ite":
        return Ite(s.args[0], sat(s.args[1], i), sat(s.args[2], i))
    if s.op == "app":
        n = s.args[0]
        if n == "ssub":
            D, lo, hi = s.args[1:]
            if known(And(Le(ZERO, i), Le(ZERO, lo), Lt(add(lo, i), hi), Le(hi, slen(D)))):
                return sat(D, add(lo, i))
        elif n == "sofarr":
            A, o, m = s.args[1:]
            if known(And(Le(ZERO, i), Lt(i, m))):
                return select(A, add(o, i))
        elif n == "scat":
            a, b = s.args[1:]
            if known(And(Le(ZERO, i), Lt(i, slen(a)))):
                return sat(a, i)
            if known(Le(slen(a), i)):
                return sat(b, sub(i, slen(a)))
    return mk("app", ("sat", s, i), "Int")


def ssub(D, lo, hi):
    if lo is hi and known(And(Le(ZERO, lo), Le(lo, slen(D)))):
        return EMPTY
    if lo is ZERO and hi is slen(D):
        return D
    if D.op == "strlit" and isint(lo) and isint(hi) and 0 <= lo.args[0] <= hi.args[0] <= len(D.args[0]):
        return strlit(D.args[0][lo.args[0]:hi.args[0]])
    if D.op == "app":
        n = D.args[0]
        if n == "ssub":
            R, a, b = D.args[1:]
            if known(And(Le(ZERO, lo), Le(lo, hi), Le(hi, sub(b, a)), Le(ZERO, a), Le(b, slen(R)))):
                return ssub(R, add(a, lo), add(a, hi))
        elif n == "sofarr":
            A, o, m = D.args[1:]
            if known(And(Le(ZERO, lo), Le(lo, hi), Le(hi, m))):
                return sofarr(A, add(o, lo), sub(hi, lo))
        elif n == "scat":
            a, b = D.args[1:]
            la = slen(a)
            if known(And(Le(ZERO, lo), Le(lo, hi), Le(hi, la))):
                return ssub(a, lo, hi)
            if known(And(Le(la, lo), Le(lo, hi), Le(hi, add(la, slen(b))))):
                return ssub(b, sub(lo, la), sub(hi, la))
    return mk("app", ("ssub", D, lo, hi), "Str")


def scat(a, b):
    if a is EMPTY:
        return b
    if b is EMPTY:
        return a
    if a.op == "strlit" and b.op == "strlit":
        return strlit(a.args[0] + b.args[0])
    if b.op == "app" and b.args[0] == "scat":
        return scat(scat(a, b.args[1]), b.args[2])
    # adjacent parts of one string
    y = a.args[2] if a.op == "app" and a.args[0] == "scat" else a
    if y.op == "app" and b.op == "app" and y.args[0] == "ssub" and b.args[0] == "ssub" and y.args[1] is b.args[1]:
        D, lo, mid = y.args[1:]
        if sub(mid, b.args[2]) is ZERO and known(And(Le(ZERO, lo), Le(lo, mid), Le(mid, b.args[3]), Le(b.args[3], slen(D)))):
            z = ssub(D, lo, b.args[3])
            return z if y is a else scat(a.args[1], z)
    return mk("app", ("scat", a, b), "Str")


def sofarr(A, o, n):
    if n is ZERO:
        return EMPTY
    if A.op == "aofs":
        s = A.args[0]
        if known(And(Le(ZERO, o), Le(ZERO, n), Le(add(o, n), slen(s)))):
            return ssub(s, o, add(o, n))
    if A.op == "afill":
        A0, off, D, p, m = A.args
        if known(And(Le(off, o), Le(ZERO, n), Le(add(o, n), add(off, m)), Le(ZERO, p), Le(add(p, m), slen(D)))):
            lo = add(p, sub(o, off))
            return ssub(D, lo, add(lo, n))
    if A.op == "store":
        b, j, v = A.args
        if known(Or(Lt(j, o), Le(add(o, n), j))):
            return sofarr(b, o, n)
    if isint(n) and n.args[0] <= 40:
        bs = []
        for k in range(n.args[0]):
            e = select(A, add(o, I(k)))
            if not isint(e) or not 0 <= e.args[0] < 256:
                break
            bs.append(e.args[0])
        else:
            return strlit(bytes(bs))
    return mk("app", ("sofarr", A, o, n), "Str")


for _w in (2, 4, 8):
    declare("be%d" % _w, ["Str", "Int"], "Int")


def be(D, p, w):
    """big-endian w-byte number at offset p"""
    if w == 1:
        return sat(D, p)
    while D.op == "app":
        n = D.args[0]
        if n == "ssub":
            R, lo, hi = D.args[1:]
            if known(And(Le(ZERO, p), Le(ZERO, lo), Le(add(lo, p, I(w)), hi), Le(hi, slen(R)))):
                D, p = R, add(lo, p)
                continue
        elif n == "scat":
            a, b = D.args[1:]
            if known(And(Le(ZERO, p), Le(add(p, I(w)), slen(a)))):
                D = a
                continue
            if known(Le(slen(a), p)):
                D, p = b, sub(p, slen(a))
                continue
        elif n == "enc%d" % w and p is ZERO:
            return emod(D.args[1], 256 ** w)
        break
    bs = [sat(D, add(p, I(k))) for k in range(w)] if D.op == "strlit" and isint(p) else None
    if bs:
        r = ZERO
        for x in bs:
            r = add(scale(256, r), x)
        return r
    t = app("be%d" % w, D, p)
    setrange(t, 0, 256 ** w - 1)
    return t


def slt(a, b):
    if a.op == "strlit" and b.op == "strlit":
        return B(a.args[0] < b.args[0])
    if a is b:
        return FALSE
    if b is EMPTY:
        return FALSE
    if a is EMPTY:
        return Ne(slen(b), ZERO)
    return mk("app", ("slt", a, b), "Bool")


# ---- quantifiers, traversal ------------------------------------------------------

_badp = {}


def _badpat(t):
    r = _badp.get(t)
    if r is None:
        r = t.op in ("ite", "and", "or", "not", "=", "=>", "<=0", "forall", "exists", "konst", "store") or any(_badpat(c) for c in children(t))
        _badp[t] = r
    return r


def goodpat(ps, vs):
    """a usable multi-pattern: applications and selects that mention every bound variable"""
    fv = set()
    for p in ps:
        if p.op not in ("app", "select") or _badpat(p):
            return False
        fv |= free_vars(p)
    return all(v in fv for v in vs)


def Forall(vs, body, pats=()):
    if body is TRUE or body is FALSE:
        return body
    pats = [tuple(ps) for ps in pats]
    pats = [ps for ps in pats if goodpat(ps, vs)]
    return mk("forall", (tuple(vs), body, tuple(pats)), "Bool")


def Exists(vs, body):
    if body is TRUE or body is FALSE:
        return body
    return mk("exists", (tuple(vs), body, ()), "Bool")


def children(t):
    op = t.op
    if op == "lin":
        return tuple(x for x, k in t.args[1])
    if op in ("int", "var", "strlit", "true", "false"):
        return ()
    if op == "app":
        return t.args[1:]
    if op in ("forall", "exists"):
        return (t.args[1],) + tuple(p for ps in t.args[2] for p in ps)
    return t.args


def hasq(t):
    if t._q is None:
        t._q = t.op in ("forall", "exists") or any(hasq(c) for c in children(t))
    return t._q


def free_vars(t):
    if t._fv is None:
        if t.op == "var":
            t._fv = frozenset([t])
        else:
            s = frozenset()
            for c in children(t):
                s = s | free_vars(c)
            if t.op in ("forall", "exists"):
                s = s - frozenset(t.args[0])
            t._fv = s
    return t._fv


def rebuild(t, f):
    """apply f to the children and rebuild with smart constructors"""
    op = t.op
    if op == "lin":
        return add(I(t.args[0]), *[scale(k, f(x)) for x, k in t.args[1]])
    if op in ("int", "var", "strlit", "true", "false"):
        return t
    if op == "app":
        n = t.args[0]
        a = [f(x) for x in t.args[1:]]
        g = {"slen": slen, "sat": sat, "ssub": ssub, "scat": scat, "sofarr": sofarr, "slt": slt}.get(n)
        if g:
            return g(*a)
        return mk("app", (n,) + tuple(a), t.sort)
    if op == "forall" or op == "exists":
        return mk(op, (t.args[0], f(t.args[1]), tuple(tuple(f(p) for p in ps) for ps in t.args[2])), "Bool")
    a = [f(x) for x in t.args]
    if op == "*":
        return mul(*a)
    if op == "div":
        return ediv(a[0], a[1].args[0])
    if op == "mod":
        return emod(a[0], a[1].args[0])
    if op == "not":
        return Not(a[0])
    if op == "and":
        return And(*a)
    if op == "or":
        return Or(*a)
    if op == "=>":
        return Implies(*a)
    if op == "ite":
        return Ite(*a)
    if op == "<=0":
        return le0(a[0])
    if op == "=":
        return Eq(*a)
    if op == "select":
        return select(*a)
    if op == "store":
        return store(*a)
    if op == "konst":
        return konst(a[0], arrparts(t.sort)[0])
    if op == "hframe":
        return hframe(*a)
    if op == "afill":
        return afill(*a)
    if op == "adec":
        return adec(a[0], a[1], a[2], a[3], a[4], a[5].args[0])
    if op == "acopy":
        return acopy(*a)
    if op == "aofs":
        return aofs(*a)
    raise ValueError(op)


def subst(t, m):
    memo = dict(m)
    keys = frozenset(m)

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        if not (free_vars(x) & keys):
            memo[x] = x
            return x
        r = rebuild(x, go)
        memo[x] = r
        return r
    return go(t)


# ---- printing ------------------------------------------------------------------

def qname(n):
    ok = all(c.isalnum() or c in "_!.$@" for c in n) and n and not n[0].isdigit()
    return n if ok else "|" + n.replace("|", "") + "|"


def num(n):
    return str(n) if n >= 0 else "(- %d)" % -n


LAMBDA = ("hframe", "afill", "adec", "acopy", "aofs")


class Chunk:
    """printed form of a term, shared by all queries"""
    __slots__ = ("name", "text", "sort", "deps", "vars", "lits", "funs", "auxs", "atoms")


_chunks = {}
_lamvars = {}
_lamax = {}


def lamvar(t):
    """name of an array given by a lambda; its defining axiom is lamaxiom(t)"""
    v = _lamvars.get(t)
    if v is None:
        fvs = [x for x in free_vars(t) if x.args[0].startswith("?")]
        assert not fvs, "array lambda under quantifier: %r" % (t,)
        v = var("arr!%d" % t.id, t.sort)
        _lamvars[t] = v
    return v


def lamaxiom(t):
    ax = _lamax.get(t)
    if ax is None:
        old, ctx[0] = ctx[0], None
        try:
            v = lamvar(t)
            k = var("?k%d" % t.id, arrparts(t.sort)[0])
            expanding[0] = True
            body = sat(t.args[0], k) if t.op == "aofs" else select(t, k)
            expanding[0] = False
            sel = mk("select", (v, k), arrparts(t.sort)[1])
            ax = Forall([k], Eq(sel, body), [(sel,)])
        finally:
            ctx[0] = old
        _lamax[t] = ax
    return ax


_fillax = {}


def copyaxiom(t):
    """what a copy says about an element of its source"""
    ax = _fillax.get(t)
    if ax is None:
        old, ctx[0] = ctx[0], None
        try:
            A, o, B, b, n = t.args
            j = var("?j%d" % t.id, "Int")
            src = mk("select", (B, j), arrparts(t.sort)[1])
            dst = mk("select", (lamvar(t), add(o, sub(j, b))), arrparts(t.sort)[1])
            ax = Forall([j], Implies(And(Le(b, j), Lt(j, add(b, n))), Eq(dst, src)), [(src,)])
        finally:
            ctx[0] = old
        _fillax[t] = ax
    return ax


def fillaxiom(t):
    """the string read back from a filled array is the one written, wherever it lies inside the filled part"""
    ax = _fillax.get(t)
    if ax is None:
        old, ctx[0] = ctx[0], None
        try:
            v = lamvar(t)
            A, off, D, p, m = t.args
            o, n = var("?o%d" % t.id, "Int"), var("?n%d" % t.id, "Int")
            so = mk("app", ("sofarr", v, o, n), "Str")
            lo = add(p, sub(o, off))
            c = And(Le(off, o), Le(ZERO, n), Le(add(o, n), add(off, m)), Le(ZERO, p), Le(add(p, m), slen(D)))
            ax = Forall([o, n], Implies(c, mk("=", (so, mk("app", ("ssub", D, lo, add(lo, n)), "Str")), "Bool")), [(so,)])
        finally:
            ctx[0] = old
        _fillax[t] = ax
    return ax


def chunk(t):
    c = _chunks.get(t)
    if c is None:
        c = Chunk()
        c.name, c.sort = None, t.sort
        c.deps, c.vars, c.lits, c.funs, c.auxs, c.atoms = {}, {}, {}, {}, {}, {}
        c.text = _print(t, c)
        _chunks[t] = c
    return c


def _print(t, c):
    op = t.op
    if op == "int":
        return num(t.args[0])
    if op == "true" or op == "false":
        return op
    if op == "var":
        n = t.args[0]
        if not n.startswith("?"):
            c.vars[n] = t.sort
            if t.sort == "Int":
                c.atoms[t] = True
        return qname(n)
    if op == "strlit":
        c.lits[t] = True
        return "lit!%d" % t.id
    if op in LAMBDA:
        v = lamvar(t)
        c.auxs[t] = True
        c.vars[v.args[0]] = v.sort
        return qname(v.args[0])
    if t.sort == "Int" and op in ("select", "app"):
        c.atoms[t] = True
    g = lambda x: _sub(x, c)
    if op == "lin":
        parts = []
        if t.args[0]:
            parts.append(num(t.args[0]))
        for x, k in t.args[1]:
            parts.append(g(x) if k == 1 else "(* %s %s)" % (num(k), g(x)))
        return parts[0] if len(parts) == 1 else "(+ %s)" % " ".join(parts)
    if op == "<=0" or (op == "=" and t.args[0].sort == "Int"):
        k, d = lin(t.args[0] if op == "<=0" else sub(t.args[0], t.args[1]))
        pos = {x: q for x, q in d.items() if q > 0}
        ng = {x: -q for x, q in d.items() if q < 0}
        return "(%s %s %s)" % ("<=" if op == "<=0" else "=", g(mklin(k if k > 0 else 0, pos)), g(mklin(-k if k < 0 else 0, ng)))
    if op == "app":
        n = t.args[0]
        c.funs[n] = True
        if len(t.args) == 1:
            return qname(n)
        return "(%s %s)" % (qname(n), " ".join([g(x) for x in t.args[1:]]))
    if op == "konst":
        return "((as const %s) %s)" % (t.sort, g(t.args[0]))
    if op in ("forall", "exists"):
        b = g(t.args[1])
        vs = " ".join("(%s %s)" % (qname(v.args[0]), v.sort) for v in t.args[0])
        if t.args[2]:
            b = "(! %s %s)" % (b, " ".join(":pattern (%s)" % " ".join(g(p) for p in ps) for ps in t.args[2]))
        return "(%s (%s) %s)" % (op, vs, b)
    return "(%s %s)" % (op, " ".join([g(x) for x in t.args]))


ATOMIC = ("int", "true", "false", "var", "strlit") + LAMBDA


def _sub(t, c):
    if t.op in ATOMIC or t.op in ("forall", "exists") or any(v.args[0][0] == "?" for v in free_vars(t)):
        return _print(t, c)
    d = chunk(t)
    if len(d.text) > 40:
        d.name = "d!%d" % t.id
        c.deps[d] = True
        return d.name
    for k in ("deps", "vars", "lits", "funs", "auxs", "atoms"):
        getattr(c, k).update(getattr(d, k))
    return d.text


class Collect:
    """the definitions reachable from a set of terms"""

    def __init__(self):
        self.seen = set()
        self.order = []
        self.vars, self.lits, self.funs, self.auxs, self.atoms = {}, {}, {}, {}, {}

    def add(self, t):
        c = chunk(t)
        self.visit(c)
        return c

    def visit(self, c):
        if c in self.seen:
            return
        work = [(c, iter(c.deps))]
        self.seen.add(c)
        while work:
            x, it = work[-1]
            for d in it:
                if d not in self.seen:
                    self.seen.add(d)
                    work.append((d, iter(d.deps)))
                    break
            else:
                work.pop()
                self.order.append(x)
                self.vars.update(x.vars)
                self.lits.update(x.lits)
                self.funs.update(x.funs)
                self.auxs.update(x.auxs)
                self.atoms.update(x.atoms)


def show(t, d=0):
    if d > 12:
        return "…"
    op = t.op
    if op == "int":
        return str(t.args[0])
    if op in ("true", "false"):
        return op
    if op == "var":
        return t.args[0]
    if op == "strlit":
        return repr(t.args[0])
    if op == "lin":
        parts = [str(t.args[0])] if t.args[0] else []
        for x, k in t.args[1]:
            parts.append(("%d*" % k if k != 1 else "") + show(x, d + 1))
        return "(" + "+".join(parts) + ")"
    if op == "<=0":
        return show(t.args[0], d + 1) + "<=0"
    if op in ("forall", "exists"):
        return "(%s %s. %s)" % (op, ",".join(v.args[0] for v in t.args[0]), show(t.args[1], d + 1))
    if op == "app":
        return "%s(%s)" % (t.args[0], ",".join(show(x, d + 1) for x in t.args[1:]))
    return "%s(%s)" % (op, ",".join(show(x, d + 1) for x in t.args))
