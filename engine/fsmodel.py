"""Assumed contracts of the file system calls (os, path/filepath, unix).

The state of the file system is an epoch: ghost G:fs[0].  For an epoch e and a path p
  fkind(e,p)   what Lstat says: 0 nothing, 1 regular, 2 directory, 3 symbolic link, 4 other, 5 it fails otherwise
  wl(e,p)      the location p denotes after following every symbolic link; where nothing exists yet, the
               location it would be created at
  within(R,x)  x is R or lies below R
  esc(e,R)     something outside R was created, changed, removed or linked at some time up to e
  later(e,f)   e follows f
Histories (once true, true later): fmade (a regular file was created or truncated under this name),
fdir, ffifo, flnk, freg, flink (see contracts/extract.gs), fopenw, ftmp, frmfail.
"""
import terms as tm
from terms import *
from mem import *
import externs as ex
from externs import view, model, imeth, meth, bi, gget, gset, ttag, NIL, anyerr, iteI, write, wframe, H, IM, B_, AI, AS
from sym import Dead

declare("fkind", ["Int", "Str"], "Int")
declare("wl", ["Int", "Str"], "Str")
declare("within", ["Str", "Str"], "Bool")
declare("esc", ["Int", "Str"], "Bool")
declare("later", ["Int", "Int"], "Bool")
declare("fdata", ["Int", "Str"], "Str")
declare("fdirof", ["Str"], "Str")
declare("fbase", ["Str"], "Str")
declare("fclean", ["Str"], "Str")
declare("pclean", ["Str"], "Str")
declare("fslash", ["Str"], "Str")
declare("fjoin", ["Str", "Str"], "Str")
declare("evalok", ["Int", "Str"], "Bool")
declare("enoent", ["Int", "Int"], "Bool")
declare("eexist", ["Int", "Int"], "Bool")
declare("fikind", ["Int"], "Int")
declare("finode", ["Int"], "Int")
declare("finlink", ["Int"], "Int")
declare("modek", ["Int"], "Int")
declare("fname", ["Int"], "Str")
declare("inodeof", ["Int", "Str"], "Int")
declare("nlinkof", ["Int", "Str"], "Int")
declare("isdirat", ["Int", "Str"], "Bool")

HIST1 = ["fmade", "fdir", "ffifo", "fopenw", "ftmp", "frmfail"]
HIST2 = ["flnk", "freg", "flink"]
for _h in HIST1:
    declare(_h, ["Int", "Str"], "Bool")
for _h in HIST2:
    declare(_h, ["Int", "Str", "Str"], "Bool")


def hist_axioms():
    """histories only grow"""
    e, f, g = var("?e", "Int"), var("?f", "Int"), var("?g", "Int")
    p, q = var("?p", "Str"), var("?q", "Str")
    out = []
    L = lambda a, b: app("later", a, b)
    out.append((Forall([e], L(e, e), [(L(e, e),)]), {"later"}))
    out.append((Forall([e, f, g], Implies(And(L(e, f), L(f, g)), L(e, g)), [(L(e, f), L(f, g))]), {"later"}))
    for h in HIST1:
        out.append((Forall([e, f, p], Implies(And(L(e, f), app(h, f, p)), app(h, e, p)), [(L(e, f), app(h, f, p))]), {h}))
    for h in HIST2:
        out.append((Forall([e, f, p, q], Implies(And(L(e, f), app(h, f, p, q)), app(h, e, p, q)), [(L(e, f), app(h, f, p, q))]), {h}))
    # contents put together from pieces (equalities, in a form the solvers' matching finds)
    x, y, i, j = var("?x", "Str"), var("?y", "Str"), var("?i", "Int"), var("?j", "Int")
    cat, sub = mk("app", ("scat", x, y), "Str"), mk("app", ("ssub", x, i, j), "Str")
    fr = lambda c: app("freg", e, p, c)
    out.append((Forall([e, p, x, y], Implies(And(fr(cat), Eq(slen(x), ZERO)), fr(y)), [(fr(cat),)]), {"freg", "scat"}))
    out.append((Forall([e, p, x, i, j], Implies(And(fr(sub), Eq(i, ZERO), Eq(j, slen(x))), fr(x)), [(fr(sub),)]), {"freg", "ssub"}))
    # where nothing exists below a directory, the would-be location is below the directory's
    R = var("?R", "Str")
    out.append((Forall([R], app("within", R, R), [(app("within", R, R),)]), {"within"}))
    out.append((Forall([e, p, R], Implies(And(Eq(app("fkind", e, p), ZERO), app("within", R, app("wl", e, app("fdirof", p)))), app("within", R, app("wl", e, p))),
                       [(app("within", R, app("wl", e, p)), app("fdirof", p)), (app("within", R, app("wl", e, app("fdirof", p))), app("fkind", e, p))]), {"within", "fkind"}))
    k = app("fkind", e, p)
    out.append((Forall([e, p], And(Le(ZERO, k), Le(k, I(5))), [(k,)]), {"fkind"}))
    return out


def fs(X, st):
    return gget(X, st, "fs", ZERO)


def K(e, p):
    return app("fkind", e, p)


def wl(e, p):
    return app("wl", e, p)


def dirof(p):
    return app("fdirof", p)


def within(r, x):
    return app("within", r, x)


def mkerrno(X, st):
    """nil or an error; returns (error, ok)"""
    e = X.freshval(st, "error", "oserr")
    st.assume(Le(ZERO, e.tag))
    return e, Eq(e.tag, ZERO)


def exist(e):
    return app("eexist", e.tag, e.val)


def noent(e):
    return app("enoent", e.tag, e.val)


def step(X, st, ok, allowed, changed=(), hist=(), always=False, extra=()):
    """a new epoch.  allowed(R): the call stays within R; changed: paths whose entry may differ;
    hist: events that happened; with always, a failing call may have had some of the effects"""
    prop = X.c.prop
    e = fs(X, st)
    f = fresh("fs", "Int")
    gset(X, st, "fs", ZERO, f)
    st.assume(app("later", f, e))
    if not always:
        st.assume(Implies(Not(ok), Eq(f, e)))
    R, p = var("?R", "Str"), var("?p", "Str")
    if prop == "C19":
        bad = Not(allowed(R))
        if not always:
            bad = And(ok, bad)
        st.assume(Forall([R], Eq(app("esc", f, R), Or(app("esc", e, R), bad)), [(app("esc", f, R),)]))
    if prop in ("C14", "C15"):
        ne = [Ne(p, c) for c in changed]
        same = lambda a, b: Implies(And(*ne), Eq(a, b))
        st.assume(Forall([p], same(K(f, p), K(e, p)), [(K(f, p),)]))
        st.assume(Forall([p], same(app("fdata", f, p), app("fdata", e, p)), [(app("fdata", f, p),)]))
        st.assume(Forall([p], Eq(wl(f, p), wl(e, p)), [(wl(f, p),)])) if not changed else None
        for h in ("fopenw", "ftmp", "frmfail"):
            ps = [c for n, *c in hist if n == h]
            st.assume(Forall([p], Eq(app(h, f, p), Or(app(h, e, p), And(ok if h != "frmfail" else TRUE, Or(*[Eq(p, c[0]) for c in ps])))), [(app(h, f, p),)]))
    for n, *c in hist:
        if n != "frmfail":
            st.assume(Implies(ok, app(n, f, *c)))
    for x in extra:
        st.assume(x(e, f))
    return e, f


import solve
solve.user_axioms.extend(hist_axioms())


@model("os.MkdirAll")
def _mkdirall(X, st, args, ins):
    p = args[0]
    e0, ok = mkerrno(X, st)
    # nothing is created when p exists
    al = lambda R: Or(And(Ne(K(ee, p), ZERO), Ne(K(ee, p), I(5))), within(R, wl(ee, p)))
    ee = fs(X, st)
    e, f = step(X, st, ok, al, always=True, hist=[("fdir", p)])
    st.assume(Implies(ok, And(Eq(wl(f, p), wl(e, p)), Or(Eq(K(f, p), I(2)), Eq(K(f, p), I(3))), app("isdirat", f, p), app("evalok", f, p))))
    return [(st, e0)]


def parentrule(ee, p):
    return lambda R: within(R, wl(ee, dirof(p)))


def newobj(X, st, p, kind, hist):
    """creates p, which must not exist"""
    e0, ok = mkerrno(X, st)
    ee = fs(X, st)
    st.assume(Implies(ok, Eq(K(ee, p), ZERO)))
    st.assume(Implies(exist(e0), And(Ne(K(ee, p), ZERO), Not(ok))))
    e, f = step(X, st, ok, parentrule(ee, p), changed=[p], hist=hist)
    st.assume(Implies(ok, And(Eq(K(f, p), I(kind)), Eq(wl(f, dirof(p)), wl(e, dirof(p))))))
    return e0, ok, e, f


@model("os.Mkdir")
def _mkdir(X, st, args, ins):
    e0, ok, e, f = newobj(X, st, args[0], 2, [("fdir", args[0])])
    st.assume(Implies(ok, app("isdirat", f, args[0])))
    return [(st, e0)]


@model("golang.org/x/sys/unix.Mkfifo", "syscall.Mkfifo")
def _mkfifo(X, st, args, ins):
    return [(st, newobj(X, st, args[0], 4, [("ffifo", args[0])])[0])]


@model("os.Symlink")
def _symlink(X, st, args, ins):
    return [(st, newobj(X, st, args[1], 3, [("flnk", args[1], args[0])])[0])]


@model("os.Link")
def _link(X, st, args, ins):
    a, b = args
    e0, ok = mkerrno(X, st)
    ee = fs(X, st)
    st.assume(Implies(ok, Eq(K(ee, b), ZERO)))
    st.assume(Implies(exist(e0), And(Ne(K(ee, b), ZERO), Not(ok))))
    al = lambda R: And(within(R, wl(ee, dirof(b))), Or(app("fmade", ee, a), within(R, wl(ee, dirof(a)))))
    e, f = step(X, st, ok, al, changed=[b], hist=[("flink", b, a)])
    return [(st, e0)]


@model("os.Remove")
def _remove(X, st, args, ins):
    p = args[0]
    e0, ok = mkerrno(X, st)
    ee = fs(X, st)
    prop = X.c.prop
    h = [("frmfail", p)] if prop in ("C14", "C15") else []
    e, f = step(X, st, ok, parentrule(ee, p), changed=[p], hist=h)
    st.assume(Implies(ok, And(Eq(K(f, p), ZERO), Eq(wl(f, dirof(p)), wl(e, dirof(p))))))
    return [(st, e0)]


IM_FILE = "*os.File"


def newfile(X, st, p):
    r = X.alloc(st)
    gset(X, st, "closed", r, ZERO)
    gset(X, st, "inplace", r, ZERO)
    st.assume(Eq(app("fname", r), p))
    gset(X, st, "wdata", r, EMPTY)
    return r


def opened(X, st, ok, r, e0):
    if X.c.prop not in ("C14", "C15"):
        return [(st, (Ite(ok, r, ZERO), e0))]
    s = st.copy()
    out = []
    for x, c, v in ((st, ok, (r, NIL)), (s, Not(ok), (ZERO, e0))):
        try:
            x.assume(c)
            out.append((x, v))
        except Dead:
            pass
    return out


@model("os.Create")
def _create(X, st, args, ins):
    p = args[0]
    e0, ok = mkerrno(X, st)
    ee = fs(X, st)
    st.assume(Implies(ok, And(Ne(K(ee, p), I(2)), Ne(K(ee, p), I(5)))))
    # a symbolic link is followed
    al = lambda R: Ite(Eq(K(ee, p), I(3)), within(R, wl(ee, p)), within(R, wl(ee, dirof(p))))
    e, f = step(X, st, ok, al, changed=[p], hist=[("fmade", p), ("fopenw", p)])
    r = newfile(X, st, p)
    st.assume(Implies(ok, And(Implies(Or(Eq(K(e, p), ZERO), Eq(K(e, p), ONE)), Eq(K(f, p), ONE)), Eq(app("fdata", f, p), EMPTY))))
    return opened(X, st, ok, r, e0)


@model("os.OpenFile")
def _openfile(X, st, args, ins):
    p, flag = args[0], args[1]
    if not isint(flag) or flag.args[0] & 0o1100:
        raise Undecided("os.OpenFile with these flags")
    e0, ok = mkerrno(X, st)
    ee = fs(X, st)
    w = flag.args[0] & 3
    st.assume(Implies(ok, Ne(K(ee, p), ZERO)))
    if w:
        step(X, st, ok, lambda R: within(R, wl(ee, p)), changed=[p] if flag.args[0] & 0o1000 else [], hist=[("fopenw", p)])
    r = newfile(X, st, p)
    if w and X.c.prop in ("C14", "C15"):
        if flag.args[0] & 0o1000 or flag.args[0] & 0o2000:
            raise Undecided("os.OpenFile with these flags")
        gset(X, st, "inplace", r, ONE)
    return opened(X, st, ok, r, e0)


@model("os.CreateTemp")
def _createtemp(X, st, args, ins):
    e0, ok = mkerrno(X, st)
    r = X.alloc(st)
    p = app("fname", r)
    gset(X, st, "wdata", r, EMPTY)
    gset(X, st, "closed", r, ZERO)
    gset(X, st, "inplace", r, ZERO)
    ee = fs(X, st)
    st.assume(Implies(ok, And(Eq(K(ee, p), ZERO), Eq(dirof(p), args[0]))))
    e, f = step(X, st, ok, parentrule(ee, p), changed=[p], hist=[("ftmp", p)])
    # the name is the pattern with something added
    st.assume(Implies(ok, And(Eq(K(f, p), ONE), Not(app("fopenw", e, p)), Ne(app("fbase", p), args[1]))))
    return opened(X, st, ok, r, e0)


@model("os.Rename")
def _rename(X, st, args, ins):
    a, b = args
    e0, ok = mkerrno(X, st)
    ee = fs(X, st)
    al = lambda R: And(within(R, wl(ee, dirof(a))), within(R, wl(ee, dirof(b))))
    e, f = step(X, st, ok, al, changed=[a, b])
    cont = app("fdata", e, a)
    if a.op == "app" and a.args[0] == "fname":
        # the file is known by its handle: its content is what was written
        h = a.args[1]
        cont = Ite(Eq(gget(X, st, "closed", h), ONE), gget(X, st, "wdata", h, AS), fresh("unflushed", "Str"))
        X.cur = st
    st.assume(Implies(And(ok, Ne(a, b)), And(Eq(K(f, b), K(e, a)), Eq(K(f, a), ZERO), Eq(app("fdata", f, b), cont))))
    st.assume(Implies(ok, Ne(K(e, a), ZERO)))
    return [(st, e0)]


@model("(*os.File).Name")
def _fname(X, st, args, ins):
    return [(st, app("fname", args[0]))]


@model("(*os.File).Chmod", "(*os.File).Sync", "os.Chmod")
def _chmod(X, st, args, ins):
    return [(st, mkerrno(X, st)[0])]


@model("(*os.File).Close")
def _fclose(X, st, args, ins):
    r = args[0]
    e0, ok = mkerrno(X, st)
    n = gget(X, st, "closed", r)
    gset(X, st, "closed", r, add(n, ONE))
    if X.c.prop in ("C14", "C15"):
        # when closing fails, what was written need not be in the file
        w = gget(X, st, "wdata", r, AS)
        gset(X, st, "wdata", r, Ite(ok, w, fresh("lost", "Str")))
        X.cur = st
    if X.c.prop == "C20":
        # what was written is now the file's content
        p, d = app("fname", r), gget(X, st, "wdata", r, AS)
        step(X, st, ok, lambda R: TRUE, hist=[("freg", p, d)])
    return [(st, e0)]


@model("(*os.File).Write", "(*os.File).WriteString")
def _fwrite(X, st, args, ins):
    s = X.bytes_of(st, args[1]) if isinstance(args[1], Slice) else args[1]
    out = []
    ln = args[1].len if isinstance(args[1], Slice) else slen(args[1])
    inpl = False
    if X.c.prop in ("C14", "C15"):
        g = gget(X, st, "inplace", args[0])
        inpl = g is ONE
        if not isint(g) and "os.Stdout" not in show(args[0]):
            raise Undecided("writing to a file that was opened elsewhere")
    w0 = gget(X, st, "wdata", args[0], AS)
    for s2, e in write(X, st, Iface(ttag(X, "*os.File"), args[0]), s):
        if inpl:
            # the file's bytes change under the handle: those written, and no others
            p = app("fname", args[0])
            k = fresh("part", "Int") if e is not None else ln
            s2.assume(And(Le(ZERO, k), Le(k, ln)))
            X.cur = s2
            ee, f = step(X, s2, TRUE, lambda R: TRUE, changed=[p], always=True)
            od = app("fdata", ee, p)
            a = slen(w0)
            end = add(a, k)
            fl = Ite(Le(slen(od), end), end, slen(od))
            nd = scat(scat(ssub(od, ZERO, a), ssub(s, ZERO, k)), ssub(od, end, fl))
            s2.assume(Implies(Le(end, slen(od)), Eq(app("fdata", f, p), nd)))
            s2.assume(Eq(K(f, p), K(ee, p)))
        if e is None:
            out.append((s2, (ln, NIL)))
        else:
            n = fresh("n", "Int")
            setrange(n, 0, MAXLEN)
            s2.assume(Le(n, ln))
            out.append((s2, (n, e)))
    return out


@model("(*os.File).Read")
def _fread(X, st, args, ins):
    return ex.one_read(X, st, view(X, st, Iface(ttag(X, "*os.File"), args[0])), args[1])


@model("(*os.File).Seek")
def _fseek(X, st, args, ins):
    return ex.file_seek(X, st, args, ins)


@model("(*os.File).Stat")
def _fstat(X, st, args, ins):
    e0, ok = mkerrno(X, st)
    r = X.alloc(st)
    st.assume(Implies(ok, And(Eq(app("finode", r), app("inodeof", ZERO, app("fname", args[0]))), Le(ONE, app("fikind", r)))))
    return [(st, (Iface(Ite(ok, ttag(X, "*os.fileStat"), ZERO), Ite(ok, r, ZERO)), e0))]


@model("os.Lstat")
def _lstat(X, st, args, ins):
    p = args[0]
    e0, ok = mkerrno(X, st)
    ee = fs(X, st)
    r = X.alloc(st)
    k = K(ee, p)
    st.assume(Eq(ok, And(Ne(k, ZERO), Ne(k, I(5)))))
    st.assume(Implies(Not(ok), Eq(noent(e0), Eq(k, ZERO))))
    st.assume(Implies(ok, And(Eq(app("fikind", r), k), Eq(app("finode", r), app("inodeof", ee, p)), Eq(app("finlink", r), app("nlinkof", ee, p)))))
    return [(st, (Iface(Ite(ok, ttag(X, "*os.fileStat"), ZERO), Ite(ok, r, ZERO)), e0))]


@model("os.Stat")
def _stat(X, st, args, ins):
    p = args[0]
    e0, ok = mkerrno(X, st)
    ee = fs(X, st)
    r = X.alloc(st)
    k = app("fikind", r)
    lk = K(ee, p)
    st.assume(Implies(ok, And(Le(ONE, k), Le(k, I(4)), Ne(k, I(3)), Ne(lk, ZERO), Ne(lk, I(5)), Implies(Ne(lk, I(3)), Eq(k, lk)))))
    st.assume(Implies(Not(ok), Or(Eq(lk, ZERO), Eq(lk, I(3)), Eq(lk, I(5)))))
    st.assume(Implies(ok, Eq(Eq(k, I(2)), app("isdirat", ee, p))))
    st.assume(Implies(And(ok, Eq(k, I(2))), app("fdir", ee, p)))
    # through a symbolic link the file is the one at the resolved path
    st.assume(Implies(ok, And(Eq(app("finode", r), app("inodeof", ee, Ite(Eq(lk, I(3)), wl(ee, p), p))), Eq(app("finlink", r), app("nlinkof", ee, Ite(Eq(lk, I(3)), wl(ee, p), p))))))
    return [(st, (Iface(Ite(ok, ttag(X, "*os.fileStat"), ZERO), Ite(ok, r, ZERO)), e0))]


@imeth("io/fs.FileInfo.Mode", "Mode")
def _fimode(X, st, args, ins):
    m = fresh("fmode", "Int")
    setrange(m, 0, (1 << 32) - 1)
    st.assume(Eq(app("modek", m), app("fikind", args[0].val)))
    return [(st, m)]


@imeth("io/fs.FileInfo.IsDir", "IsDir")
def _fiisdir(X, st, args, ins):
    return [(st, Eq(app("fikind", args[0].val), I(2)))]


@imeth("io/fs.FileInfo.Name")
def _finame(X, st, args, ins):
    return [(st, X.freshval(st, "string", "finame"))]


@imeth("io/fs.FileInfo.Size")
def _fisize(X, st, args, ins):
    n = X.freshval(st, "int64", "fisize")
    st.assume(Le(ZERO, n))
    return [(st, n)]


@imeth("io/fs.FileInfo.Sys", "Sys")
def _fisys(X, st, args, ins):
    # on unix the system's stat structure
    t = "*syscall.Stat_t"
    r = app("statof", args[0].val)
    if X.c.prop in ("C14", "C15"):
        n = ex.getf(X, st, r, "syscall.Stat_t", "Nlink")
        st.assume(Eq(n, app("finlink", args[0].val)))
    return [(st, Iface(ttag(X, t), r))]


declare("statof", ["Int"], "Int")


@model("(io/fs.FileMode).IsRegular")
def _isreg(X, st, args, ins):
    return [(st, Eq(app("modek", args[0]), ONE))]


@model("(io/fs.FileMode).IsDir")
def _isdir(X, st, args, ins):
    return [(st, Eq(app("modek", args[0]), I(2)))]


@model("(io/fs.FileMode).Perm")
def _perm(X, st, args, ins):
    m = fresh("perm", "Int")
    setrange(m, 0, 0o777)
    return [(st, m)]


@model("os.SameFile")
def _samefile(X, st, args, ins):
    a, b = args
    return [(st, Eq(app("finode", a.val), app("finode", b.val)))]


@model("os.IsNotExist")
def _isnotexist(X, st, args, ins):
    return [(st, And(Ne(args[0].tag, ZERO), noent(args[0])))]


@model("os.IsExist")
def _isexist(X, st, args, ins):
    return [(st, And(Ne(args[0].tag, ZERO), exist(args[0])))]


@model("path/filepath.EvalSymlinks")
def _evalsym(X, st, args, ins):
    p = args[0]
    e0, ok = mkerrno(X, st)
    ee = fs(X, st)
    st.assume(Eq(ok, app("evalok", ee, p)))
    st.assume(Implies(ok, Ne(K(ee, p), ZERO)))
    w = wl(ee, p)
    # a resolved path is not a symbolic link
    st.assume(Implies(ok, Ne(K(ee, w), I(3))))
    X.cur = st
    return [(st, (Ite(ok, w, EMPTY), e0))]


@model("path/filepath.Rel")
def _rel(X, st, args, ins):
    b, t = args
    e0, ok = mkerrno(X, st)
    r = fresh("rel", "Str")
    setrange(slen(r), 1, MAXLEN)
    up = Or(Eq(r, strlit(b"..")), And(Lt(I(2), slen(r)), Eq(sat(r, ZERO), I(46)), Eq(sat(r, ONE), I(46)), Eq(sat(r, I(2)), I(47))))
    st.assume(Implies(ok, Eq(Not(up), within(b, t))))
    return [(st, (r, e0))]


def pure1(fid, fn):
    @model(fid)
    def _(X, st, args, ins):
        return [(st, app(fn, args[0]))]


pure1("path/filepath.Dir", "fdirof")
pure1("path/filepath.Base", "fbase")
pure1("path.Dir", "fdirof")
pure1("path.Base", "fbase")
pure1("path/filepath.Clean", "fclean")
pure1("path.Clean", "pclean")
pure1("path/filepath.FromSlash", "fslash")


@model("path/filepath.Join")
def _fjoin(X, st, args, ins):
    sl = args[0]
    if not isint(sl.len) or sl.len.args[0] != 2:
        raise Undecided("filepath.Join of other than two elements")
    a = [ex.load_elem(X, st, sl, k, "string") for k in range(2)]
    return [(st, app("fjoin", *a))]


# ---- specification language --------------------------------------------------------------
@bi("fs")
def _(C, X, env, a):
    return ex.V(fs(X, env.st))


def bapp(n):
    @bi(n)
    def _(C, X, env, a):
        return ex.V(app(n, *[x.v for x in a]))


for _n in ["fkind", "wl", "within", "esc", "later", "fdata", "fdirof", "fbase", "fclean", "pclean", "fslash", "fjoin", "evalok", "finode", "fikind", "finlink", "inodeof", "nlinkof", "isdirat", "fname"] + HIST1 + HIST2:
    bapp(_n)


class FsLoc:
    def __init__(self, X):
        self.X, self.allowed = X, [("G:fs", ZERO)]

    def __call__(self, st):
        X = self.X
        e = fs(X, st)
        f = fresh("fs", "Int")
        gset(X, st, "fs", ZERO, f)
        st.assume(app("later", f, e))


B_["loc:fs"] = lambda C, X, env, a: [("G:fs", FsLoc(X), AI, None, None, "Int")]
