"""Contract language: parser, evaluator, contract application."""
import os, re, itertools
import terms as tm
from terms import *
from mem import *
import solve
from sym import Dead

# ---- lexer / parser -----------------------------------------------------------------
TOK = re.compile(r"""\s*(?:
 (?P<num>0x[0-9a-fA-F]+|\d+)|
 (?P<str>"(?:\\.|[^"\\])*")|
 (?P<ty>`[^`]*`)|
 (?P<pat>\?[A-Za-z_]\w*)|
 (?P<id>[A-Za-z_][\w$]*)|
 (?P<op>==>|<==>|==|!=|<=|>=|&&|\|\||::|[-+*/%!<>()\[\]{},.:;|?])
)""", re.X)


def lex(s):
    out = []
    i = 0
    s = s.rstrip()
    while i < len(s):
        m = TOK.match(s, i)
        if not m or m.end() == i:
            raise SyntaxError("bad token at %r" % s[i:i + 30])
        k = m.lastgroup
        out.append((k, m.group(k)))
        i = m.end()
    out.append(("end", ""))
    return out


BP = {"<==>": 1, "==>": 2, "||": 3, "&&": 4, "==": 5, "!=": 5, "<": 5, "<=": 5, ">": 5, ">=": 5, "+": 6, "-": 6, "*": 7, "/": 7, "%": 7}


class P:
    def __init__(self, s):
        self.src = s
        self.t = lex(s)
        self.i = 0

    def peek(self):
        return self.t[self.i]

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, v):
        if self.t[self.i][1] == v and self.t[self.i][0] in ("op", "id"):
            self.i += 1
            return True
        return False

    def expect(self, v):
        if not self.accept(v):
            raise SyntaxError("expected %s, got %r in %s" % (v, self.peek(), self.src))

    def expr(self, bp=0):
        l = self.unary()
        while True:
            k, v = self.peek()
            if k != "op" or v not in BP or BP[v] <= bp:
                return l
            self.next()
            r = self.expr(BP[v] - 1 if v == "==>" else BP[v])
            l = ("bin", v, l, r)

    def unary(self):
        if self.accept("!"):
            return ("not", self.expr(5) if False else self.unary())
        if self.accept("-"):
            return ("neg", self.unary())
        if self.accept("*"):
            return ("deref", self.unary())
        return self.postfix(self.atom())

    def postfix(self, e):
        while True:
            if self.accept("."):
                e = ("field", e, self.next()[1])
            elif self.accept("["):
                if self.accept(":"):
                    hi = self.expr()
                    self.expect("]")
                    e = ("slice", e, ("num", 0), hi)
                    continue
                a = self.expr()
                if self.accept(":"):
                    if self.accept("]"):
                        e = ("slice", e, a, None)
                    else:
                        b = self.expr()
                        self.expect("]")
                        e = ("slice", e, a, b)
                else:
                    self.expect("]")
                    e = ("index", e, a)
            else:
                return e

    def atom(self):
        k, v = self.next()
        if k == "num":
            return ("num", int(v, 0))
        if k == "str":
            return ("str", unescape(v[1:-1]))
        if k == "ty":
            return ("type", v[1:-1])
        if k == "pat":
            return ("id", v)
        if v == "(":
            e = self.expr()
            self.expect(")")
            return e
        if k == "id":
            if v in ("forall", "exists"):
                vs = self.binders()
                self.expect("::")
                pats = []
                while self.accept("{"):
                    ps = [self.expr()]
                    while self.accept(","):
                        ps.append(self.expr())
                    self.expect("}")
                    pats.append(ps)
                return (v, vs, pats, self.expr())
            if v == "if":
                c = self.expr()
                self.expect("then")
                a = self.expr()
                self.expect("else")
                return ("ite", c, a, self.expr())
            if v == "let":
                n = self.next()[1]
                # single '=' is not a token; use ':'
                self.expect(":")
                a = self.expr()
                self.expect("in")
                return ("let", n, a, self.expr())
            if v == "true" or v == "false":
                return (v,)
            if v == "nil":
                return ("nil",)
            if self.peek() == ("op", "("):
                self.next()
                args = []
                if not self.accept(")"):
                    args.append(self.expr())
                    while self.accept(","):
                        args.append(self.expr())
                    self.expect(")")
                return ("call", v, args)
            return ("id", v)
        raise SyntaxError("unexpected %r in %s" % (v, self.src))

    def binders(self):
        vs = []
        while True:
            n = self.next()[1]
            self.expect(":")
            k, t = self.next()
            vs.append((n, t.strip("`")))
            if not self.accept(","):
                return vs


def unescape(s):
    return s.encode("latin1").decode("unicode_escape").encode("latin1")


def parse(s):
    p = P(s)
    e = p.expr()
    if p.peek()[0] != "end":
        raise SyntaxError("trailing %r in %s" % (p.peek(), s))
    return e


for _s in ("Int", "Str", "Bool"):
    declare("hint" + _s, [_s], "Bool")
SORTS = {"int": "Int", "str": "Str", "bool": "Bool", "arr": "(Array Int Int)", "sarr": "(Array Int Str)"}



def leaves(v):
    if isinstance(v, T):
        return [v]
    if isinstance(v, Iface):
        return [v.tag, v.val]
    if isinstance(v, Slice):
        return [v.ref, v.off, v.len]
    if isinstance(v, StructV):
        return [x for f in v.fs for x in leaves(f)]
    raise SyntaxError("pattern")


class V:
    """a spec value: python value plus Go type (None for pure logic values)"""
    __slots__ = ("v", "t")

    def __init__(self, v, t=None):
        self.v, self.t = v, t

    def __repr__(self):
        return "V(%r:%s)" % (self.v, self.t)


class Clause:
    __slots__ = ("kind", "tags", "name", "expr", "src", "func", "line")


class Contract:
    def __init__(self):
        self.fid = None
        self.params = []
        self.results = []
        self.requires = []
        self.ensures = []
        self.modifies = []
        self.invs = []
        self.exported = False
        self.src = ""
        self.file = ""
        self.opts = set()
        self.uses = {}


class Cand:
    __slots__ = ("name", "fn", "strong", "res")

    def __init__(self, name, fn, strong=False):
        self.name, self.fn, self.strong, self.res = name, fn, strong, None

    def term(self, X, st, fr, vals, st0):
        X.cur = st
        return self.fn(X, st, fr, vals, st0)


def offsets(ps, vs):
    """bound variables that the patterns only index with an offset: {v: (k, rest)}"""
    out = {}
    work, seen = list(ps), set()
    while work:
        t = work.pop()
        if t in seen:
            continue
        seen.add(t)
        if t.op == "lin":
            for x, k in t.args[1]:
                if x in vs and k == 1 and x not in out:
                    rest = sub(t, x)
                    if x not in free_vars(rest):
                        out[x] = rest
            continue
        work.extend(children(t))
    # an offset may depend on the other bound variables as long as those stay as they are
    for x in [x for x in out if free_vars(out[x]) & set(vs)]:
        if free_vars(out[x]) & set(out):
            del out[x]
    return out


def rebase(vs, b, ps):
    """quantify over absolute indices so that no pattern contains arithmetic on a bound variable"""
    m = {}
    for v, rest in offsets(ps, vs).items():
        m[v] = sub(v, rest)
    if not m:
        return Forall(vs, b, [ps])
    return Forall(vs, subst(b, m), [tuple(subst(p, m) for p in ps)])


class Env:
    __slots__ = ("vars", "st", "old", "entry", "pats")

    def __init__(self, vars, st, old=None, entry=None):
        self.vars, self.st, self.old, self.entry = vars, st, old, entry

    def sub(self, **kw):
        e = Env(dict(self.vars), self.st, self.old, self.entry)
        e.vars.update(kw)
        return e

    def at(self, st):
        return Env(self.vars, st, self.old, self.entry)


class Contracts:
    def __init__(self, prog, prop):
        self.prog = prog
        self.prop = prop
        self.cons = {}
        self.macros = {}
        self.recs = {}
        self.lemmas = []
        self.axioms = []
        self.templates = []
        self.ginv = []
        self.consts = {}
        self.pkg = ""
        self.X = None
        self.missing = []
        self.trusted = []
        self.builtins = {}

    def bind(self, X):
        self.X = X

    # ---- loading --------------------------------------------------------------------
    def load(self, path):
        cur = None
        lines = open(path).read().split("\n")
        items = []
        for ln, l in enumerate(lines, 1):
            if not l.strip() or l.strip().startswith("#"):
                continue
            ind = len(l) - len(l.lstrip())
            l = re.sub(r"\s#\s.*$", "", l)
            kw = l.split()[0].split("[")[0].rstrip(":")
            if ind == 0 or (ind <= 2 and kw in ("requires", "ensures", "modifies", "invariant", "opt", "by", "uses")):
                items.append([ln, ind, l.strip()])
            else:
                items[-1][2] += " " + l.strip()
        for ln, ind, l in items:
            try:
                if ind == 0:
                    cur = self.top(l, path, ln)
                else:
                    self.clause(cur, l, path, ln)
            except SyntaxError as e:
                raise SyntaxError("%s:%d: %s" % (path, ln, e))

    def tags(self, s):
        m = re.match(r"\s*\[([^\]]*)\]\s*(.*)$", s, re.S)
        if not m:
            return frozenset(), s.strip()
        return frozenset(x.strip() for x in m.group(1).split(",") if x.strip()), m.group(2).strip()

    def top(self, l, path, ln):
        kw, rest = l.split(None, 1)
        if kw == "package":
            self.pkg = rest.strip()
            return None
        if kw == "const":
            n, v = rest.split("=", 1)
            self.consts[n.strip()] = parse(v)
            return None
        if kw == "spec":
            m = re.match(r"(\w+)\(([^)]*)\)\s*=\s*(.*)$", rest, re.S)
            if not m:
                raise SyntaxError("bad spec " + rest)
            self.once(m.group(1))
            self.macros[m.group(1)] = ([a.strip().split(":")[0].strip() for a in m.group(2).split(",") if a.strip()], parse(m.group(3)))
            return None
        if kw == "fn":
            m = re.match(r"(\w+)\(([^)]*)\)\s*:\s*(\w+)\s*$", rest)
            args = [a.strip().split(":")[1].strip() for a in m.group(2).split(",") if a.strip()]
            declare("s:" + m.group(1), [SORTS[a] for a in args], SORTS[m.group(3)])
            return None
        if kw == "rec":
            m = re.match(r"(\w+)\(([^)]*)\)\s*:\s*(\w+)\s*=\s*(.*)$", rest, re.S)
            name = m.group(1)
            self.once(name)
            args = [tuple(x.strip() for x in a.split(":")) for a in m.group(2).split(",") if a.strip()]
            declare("s:" + name, [SORTS[t] for n, t in args], SORTS[m.group(3)])
            declare("s:" + name + "$", [SORTS[t] for n, t in args], SORTS[m.group(3)])
            self.recs[name] = (args, SORTS[m.group(3)], parse(m.group(4)))
            return None
        if kw in ("lemma", "axiom", "theorem"):
            tg, rest = self.tags(rest)
            m = re.match(r"(\w+)\s*:\s*(.*)$", rest, re.S)
            c = {"kind": kw, "name": m.group(1), "tags": tg, "expr": parse(m.group(2)), "src": m.group(2), "by": None, "uses": None, "file": path, "line": ln}
            (self.lemmas).append(c)
            return c
        if kw == "loop":
            tg, rest = self.tags(rest)
            self.ginv.append((tg, self.template(rest)))
            return None
        if kw == "func":
            c = Contract()
            m = re.match(r"(?:\((\w+)\s+(\*?)([\w.]+)\)\s*)?([\w$]+)\(([^)]*)\)\s*(?:\(([^)]*)\))?$", rest.strip())
            if not m:
                raise SyntaxError("bad function header " + rest)
            rn, star, rt, name, ps, rs = m.groups()
            if rt:
                c.fid = "(%s%s.%s).%s" % (star, self.pkg, rt, name)
                c.params = [rn]
            else:
                c.fid = self.pkg + "." + name
            c.params += [x.strip() for x in ps.split(",") if x.strip()]
            c.results = [x.strip() for x in (rs or "").split(",") if x.strip()]
            c.exported = name[0].isupper() and (not rt or rt[0].isupper())
            c.name = name
            c.file = path
            c.pkg = self.pkg
            self.cons[c.fid] = c
            return c
        raise SyntaxError("unknown directive " + kw)

    def clause(self, c, l, path, ln):
        m = re.match(r"(\w+)\s*(.*)$", l, re.S)
        kw, rest = m.group(1), m.group(2)
        if isinstance(c, dict):
            if kw == "by":
                c["by"] = rest.strip()
            elif kw == "uses":
                c["uses"] = [parse(x.strip()) for x in rest.split(";")]
            else:
                raise SyntaxError("bad lemma clause " + kw)
            return
        if kw == "opt":
            c.opts |= set(rest.replace(",", " ").split())
            return
        tg, rest = self.tags(rest)
        cl = Clause()
        cl.kind, cl.tags, cl.func, cl.line = kw, tg, c.fid, "%s:%d" % (os.path.basename(path), ln)
        cl.name = None
        mm = re.match(r"([a-zA-Z][\w\-]*):(?!:)\s+(.*)$", rest, re.S)
        if mm:
            cl.name, rest = mm.group(1), mm.group(2)
        cl.src = rest
        if kw == "modifies":
            p = P(rest)
            locs = [p.expr()]
            while p.accept(","):
                locs.append(p.expr())
            cl.expr = locs
            c.modifies.append(cl)
            return
        if kw == "invariant":
            c.invs.append((tg, self.template(rest)))
            return
        cl.expr = parse(rest)
        if kw == "requires":
            cl.name = cl.name or "pre%d" % len(c.requires)
            c.requires.append(cl)
        elif kw == "ensures":
            cl.name = cl.name or "post%d" % len(c.ensures)
            c.ensures.append(cl)
        else:
            raise SyntaxError("unknown clause " + kw)

    def template(self, src):
        """?x:`type` binds a pattern variable"""
        pats = {}

        def f(m):
            pats["?" + m.group(1)] = m.group(2)
            return "?" + m.group(1)
        s = re.sub(r"\?(\w+):`([^`]*)`", f, src)
        return (pats, parse(s), src)

    def active(self, tags):
        return not tags or self.prop in tags

    def for_call(self, fid):
        c = self.cons.get(fid)
        if c is None or "inline" in c.opts or "expand" in c.opts:
            return None
        if not any(self.active(e.tags) for e in c.ensures) and not ("total" in c.opts):
            return None
        return c

    # ---- axioms of recursive functions ----------------------------------------------------
    def install(self):
        X = self.X
        for name, (args, sort, body) in self.recs.items():
            vs = [var("?" + n, SORTS[t]) for n, t in args]
            env = Env({n: V(v) for (n, t), v in zip(args, vs)}, None)
            self.unf = True
            call = mk("app", ("s:" + name,) + tuple(vs), sort)
            lim = mk("app", ("s:" + name + "$",) + tuple(vs), sort)
            self.limited = self.cyclic(name)
            try:
                b = self.ev(body, env).v
            finally:
                self.limited = set()
            solve.user_axioms.append((Forall(vs, mk("=", tuple(sorted((call, b), key=lambda x: x.id)), "Bool") if sort != "Bool" else Eq(call, b), [(call,)]), {"s:" + name}))
            solve.user_axioms.append((Forall(vs, mk("=", (call, lim), "Bool"), [(call,)]), {"s:" + name}))

    def once(self, name):
        if name in self.macros or name in self.recs:
            raise SyntaxError("defined twice: " + name)

    limited = frozenset()

    def cyclic(self, name):
        """the functions whose definitions lead back to name"""
        def calls(e, seen):
            out = set()
            if isinstance(e, (list, tuple)):
                if len(e) >= 2 and e[0] == "call" and isinstance(e[1], str):
                    if e[1] in self.recs:
                        out.add(e[1])
                    elif e[1] in self.macros and e[1] not in seen:
                        out |= calls(self.macros[e[1]][1], seen | {e[1]})
                for x in e:
                    out |= calls(x, seen)
            return out
        g = {n: calls(b, frozenset()) for n, (a, s, b) in self.recs.items()}
        out = set()
        for n in self.recs:
            seen, st = set(), list(g[n])
            while st:
                x = st.pop()
                if x not in seen:
                    seen.add(x)
                    st.extend(g[x])
            if name in seen:
                out.add(n)
        return out

    def lemma_term(self, l):
        # patterns and body use the limited names: the lemma fires on every call but unfolds nothing by itself
        self.limited = {n for n in self.recs if n in self.cyclic(n)}
        try:
            return self.ev(l["expr"], Env({}, None)).v
        finally:
            self.limited = set()

    def lemma_obligations(self, l):
        """(facts, goal) list proving a lemma"""
        e = l["expr"]
        if not l["by"]:
            if l["uses"]:
                env = Env({n: V(fresh("sk_" + n, self.sortof(tn))) for n, tn in e[1]}, None)
                return [(self.hints(l, env), self.ev(e[3], env).v)]
            return [([], self.skolem(self.ev(e, Env({}, None)).v))]
        # strong induction on an integer measure: "induction <expr over the bound vars>"
        m = re.match(r"induction\s+(.*)$", l["by"])
        e = l["expr"]
        assert e[0] == "forall"
        meas = parse(m.group(1))
        vs = [var("?" + n, self.sortof(tn)) for n, tn in e[1]]
        cs = [fresh("ind_" + n, v.sort) for (n, tn), v in zip(e[1], vs)]
        env1 = Env({n: V(v) for (n, tn), v in zip(e[1], vs)}, None)
        env2 = Env({n: V(v) for (n, tn), v in zip(e[1], cs)}, None)
        m1 = self.ev(meas, env1).v
        m2 = self.ev(meas, env2).v
        body2 = self.ev(e[3], env2).v
        self.limited = {n for n in self.recs if n in self.cyclic(n)}
        try:
            body1 = self.ev(e[3], env1).v
            pats = [tuple(self.ev(p, env1).v for p in ps) for ps in e[2]]
        finally:
            self.limited = set()
        ih = Forall(vs, Implies(And(Le(ZERO, m1), Lt(m1, m2)), body1), pats)
        return [([ih] + self.hints(l, env2), body2)]

    def hints(self, l, env):
        """terms to be present in a lemma's proof"""
        out = []
        for h in l["uses"] or []:
            th = [x for x in self.lemmas if h[0] == "id" and x["name"] == h[1] and x["kind"] == "theorem"]
            if th:
                out.append(self.lemma_term(th[0]))
                continue
            t = self.ev(h, env).v
            out.append(mk("app", ("hint" + t.sort, t), "Bool"))
        return out

    def skolem(self, t):
        if t.op == "forall":
            m = {v: fresh("sk" + v.args[0][1:], v.sort) for v in t.args[0]}
            return self.skolem(subst(t.args[1], m))
        if t.op == "=>":
            return Implies(t.args[0], self.skolem(t.args[1]))
        return t

    def sortof(self, t):
        s = SORTS.get(t)
        if not s:
            raise SyntaxError("sort " + t)
        return s

    # ---- evaluation -----------------------------------------------------------------------
    def rtype(self, t):
        """resolve a type literal relative to the packages"""
        T = self.prog.types
        t = re.sub(r"(?<![\w./])(byte|rune|any)\b", lambda m: {"byte": "uint8", "rune": "int32", "any": "interface{}"}[m.group(1)], t)
        if t in T:
            return t
        for pkg in ("github.com/sassoftware/go-rpmutils", "github.com/sassoftware/go-rpmutils/cpio"):
            s = re.sub(r"(?<![\w./])([A-Za-z_]\w*)(?![\w./])", lambda m: m.group(1) if m.group(1) in T or m.group(1) in ("map", "struct", "interface", "func") else pkg + "." + m.group(1), t)
            if s in T:
                return s
        raise Undecided("unknown type " + t)

    def term(self, e, env):
        v = self.ev(e, env)
        if not isinstance(v.v, T):
            raise SyntaxError("not a term: %r" % (e,))
        return v.v

    def ev(self, e, env):
        X = self.X
        k = e[0]
        if k == "num":
            return V(I(e[1]))
        if k == "str":
            return V(strlit(e[1]))
        if k == "true":
            return V(TRUE)
        if k == "false":
            return V(FALSE)
        if k == "nil":
            return V(None, "nil")
        if k == "id":
            n = e[1]
            if n in env.vars:
                return env.vars[n]
            if n in self.consts:
                return self.ev(self.consts[n], env)
            if n in self.macros and not self.macros[n][0]:
                return self.ev(self.macros[n][1], Env({}, env.st, env.old, env.entry))
            raise SyntaxError("unknown name %s" % n)
        if k == "not":
            return V(Not(self.term(e[1], env)))
        if k == "neg":
            return V(neg(self.term(e[1], env)))
        if k == "ite":
            c = self.term(e[1], env)
            if c is TRUE:
                return self.ev(e[2], env)
            if c is FALSE:
                return self.ev(e[3], env)
            a, b = self.ev(e[2], env), self.ev(e[3], env)
            return V(Ite(c, a.v, b.v), a.t)
        if k == "let":
            v = self.ev(e[2], env)
            return self.ev(e[3], env.sub(**{e[1]: v}))
        if k in ("forall", "exists"):
            vs, m = [], {}
            depth = sum(1 for x in env.vars if x.startswith("#"))
            for n, t in e[1]:
                v = var("?%s%s" % (n, "" if not depth else "_%d" % depth), self.sortof(t))
                vs.append(v)
                m[n] = V(v)
            env2 = env.sub(**m)
            env2.vars["#%d" % depth] = None
            b = self.term(e[3], env2)
            if k == "exists" and not e[2]:
                return V(Exists(vs, b))
            if k == "exists":
                pats = [tuple(p) for ps in e[2] for p in itertools.product(*[leaves(self.ev(p, env2).v) for p in ps])]
                return V(Not(And(*[rebase(vs, Not(b), ps) for ps in pats[:1]])))
            pats = [tuple(p) for ps in e[2] for p in itertools.product(*[leaves(self.ev(p, env2).v) for p in ps])]
            if not pats:
                return V(Forall(vs, b))
            return V(And(*[rebase(vs, b, ps) for ps in pats]) if any(offsets(ps, vs) for ps in pats) else Forall(vs, b, pats))
        if k == "deref":
            p = self.ev(e[1], env)
            pt = X.types.elem(p.t)
            return V(X.load(env.st, p.v, pt), pt)
        if k == "field":
            return self.field(self.ev(e[1], env), e[2], env)
        if k == "index":
            a = self.ev(e[1], env)
            i = self.ev(e[2], env)
            return self.index(a, i, env)
        if k == "slice":
            a = self.ev(e[1], env)
            lo = self.term(e[2], env)
            if isinstance(a.v, T):
                hi = slen(a.v) if e[3] is None else self.term(e[3], env)
                return V(ssub(a.v, lo, hi))
            hi = a.v.len if e[3] is None else self.term(e[3], env)
            return V(Slice(a.v.ref, add(a.v.off, lo), sub(hi, lo), sub(a.v.cap, lo)), a.t)
        if k == "bin":
            return V(self.bin(e[1], e[2], e[3], env))
        if k == "call":
            return self.callf(e[1], e[2], env)
        raise SyntaxError("cannot evaluate %r" % (e,))

    def field(self, a, n, env):
        X = self.X
        T_ = X.types
        t = a.t
        if t is None:
            raise SyntaxError("field %s of untyped value" % n)
        kd = T_.kind(t)
        if kd == "ptr":
            pt = T_.elem(t)
            for fn, ft, emb in T_.fields(pt):
                if fn == n:
                    p = a.v
                    ad = Addr("F", p, None, T_.canon(pt), "." + n, T_.canon(ft)) if not isinstance(p, Addr) else Addr(p.kind, p.base, p.idx, p.bt, p.path + "." + n, T_.canon(ft))
                    return V(X.load(env.st, ad, ft), ft)
            raise Undecided("no field %s in %s" % (n, pt))
        if kd == "struct":
            for (fn, ft, emb), x in zip(T_.fields(t), a.v.fs):
                if fn == n:
                    return V(x, ft)
            raise Undecided("no field %s in %s" % (n, t))
        raise SyntaxError("field %s of %s" % (n, t))

    def index(self, a, i, env):
        X = self.X
        if isinstance(a.v, T):
            if a.v.sort == "Str":
                return V(sat(a.v, i.v))
            if a.v.sort.startswith("("):
                return V(select(a.v, i.v))
        kd = X.types.kind(a.t)
        if kd == "slice":
            et = X.types.elem(a.t)
            return V(X.load(env.st, Addr("E", a.v.ref, add(a.v.off, i.v), X.types.canon(et), "", et), et), et)
        if kd == "map":
            d, v = X.mapget(env.st, a.v, a.t, i.v)
            return V(v, X.types.p.under(a.t)[1]["elem"])
        if kd == "string":
            return V(sat(a.v, i.v))
        raise SyntaxError("index of " + str(a.t))

    def bin(self, o, l, r, env):
        if o == "==>":
            a = self.term(l, env)
            if a is FALSE:
                return TRUE
            return Implies(a, self.term(r, env))
        if o == "&&":
            a = self.term(l, env)
            if a is FALSE:
                return FALSE
            return And(a, self.term(r, env))
        if o == "||":
            a = self.term(l, env)
            if a is TRUE:
                return TRUE
            return Or(a, self.term(r, env))
        a, b = self.ev(l, env), self.ev(r, env)
        if o == "<==>":
            return Eq(a.v, b.v)
        if o in ("==", "!="):
            x = self.eq(a, b)
            return x if o == "==" else Not(x)
        a, b = a.v, b.v
        if o == "+":
            return scat(a, b) if a.sort == "Str" else add(a, b)
        if a.sort == "Str":
            return {"<": lambda: slt(a, b), ">": lambda: slt(b, a)}[o]()
        if o == "-":
            return sub(a, b)
        if o == "*":
            return mul(a, b)
        if o == "/":
            if not isint(b):
                raise SyntaxError("division by a non-constant")
            return ediv(a, b.args[0])
        if o == "%":
            if isint(b):
                return emod(a, b.args[0])
            declare("umod", ["Int", "Int"], "Int")
            return app("umod", a, b)
        return {"<": Lt, "<=": Le, ">": Gt, ">=": Ge}[o](a, b)

    def eq(self, a, b):
        X = self.X
        if b.t == "nil" or a.t == "nil":
            if a.t == "nil":
                a = b
            if isinstance(a.v, Iface):
                return Eq(a.v.tag, ZERO)
            if isinstance(a.v, Slice):
                return Eq(a.v.ref, ZERO)
            if isinstance(a.v, FuncV):
                return FALSE
            if isinstance(a.v, Addr):
                return FALSE
            return Eq(a.v, ZERO)
        if isinstance(a.v, T) and isinstance(b.v, T):
            return Eq(a.v, b.v)
        if isinstance(a.v, Slice):
            return And(Eq(a.v.ref, b.v.ref), Eq(a.v.off, b.v.off), Eq(a.v.len, b.v.len))
        return X.equal(None, a.v, b.v, a.t or b.t)

    def callf(self, n, args, env):
        X = self.X
        if n == "old":
            if env.old is None:
                raise SyntaxError("old() not available")
            sv = X.cur
            r = self.ev(args[0], Env(env.vars, env.old, env.old, env.entry))
            return r
        if n == "entry":
            return self.ev(args[0], Env(env.vars, env.entry, env.old, env.entry))
        if n in self.macros:
            ps, body = self.macros[n]
            if len(ps) != len(args):
                raise SyntaxError("arity of " + n)
            vs = {p: self.ev(a, env) for p, a in zip(ps, args)}
            for x in env.vars:
                if x.startswith("#"):
                    vs[x] = None
            return self.ev(body, Env(vs, env.st, env.old, env.entry))
        if n in self.recs:
            a = [self.term(x, env) for x in args]
            nm = "s:" + n + ("$" if n in self.limited else "")
            return V(app(nm, *a))
        if "s:" + n in tm.sigs:
            return V(app("s:" + n, *[self.term(x, env) for x in args]))
        f = self.builtins.get(n)
        if f:
            if getattr(f, "lazy", False):
                return f(self, X, env, args)
            return f(self, X, env, [self.ev(a, env) if a[0] != "type" else self.rtype(a[1]) for a in args])
        raise SyntaxError("unknown function " + n)

    # ---- contracts at call sites ----------------------------------------------------------
    def bindenv(self, con, args, fn):
        env = {}
        for n, v, (pn, pt) in zip(con.params, args, fn.params):
            env[n] = V(v, pt)
        return env

    def locs(self, con, env):
        """list of (heap name, ref or '*', sort)"""
        out = []
        for cl in con.modifies:
            if not self.active(cl.tags):
                continue
            for e in cl.expr:
                out.extend(self.loc(e, env))
        return out

    def loc(self, e, env):
        X = self.X
        T_ = X.types
        if e[0] == "field":
            a = self.ev(e[1], env)
            pt = T_.elem(a.t)
            out = []
            for fn, ft, emb in T_.fields(pt):
                if fn == e[2]:
                    for (p, s, k, gt) in T_.leaves(ft):
                        name, ix = X.cell(a.v, pt, "." + fn + p, s, k, gt)
                        out.append((name, ix[0] if ix else None, X.hsort(len(ix), s), k, gt, s))
            return out
        if e[0] == "deref":
            a = self.ev(e[1], env)
            pt = T_.elem(a.t)
            out = []
            for (p, s, k, gt) in T_.leaves(pt):
                name, ix = X.cell(a.v, pt, p, s, k, gt)
                out.append((name, ix[0] if len(ix) == 1 else ix, X.hsort(len(ix), s), k, gt, s))
            return out
        if e[0] == "call" and e[1] == "elems":
            a = self.ev(e[2][0], env)
            et = T_.elem(a.t)
            return [("M:" + T_.canon(et) + p, a.v.ref, X.hsort(2, s), None, None, arr("Int", s)) for (p, s, k, gt) in T_.leaves(et)]
        if e[0] == "call" and e[1] == "map":
            a = self.ev(e[2][0], env)
            u, ks, kt, et = X.mapnames(a.t)
            out = [("MD:" + u, a.v, arr("Int", arr(ks, "Bool")), None, None, arr(ks, "Bool"))]
            for (p, s, k, gt) in T_.leaves(et):
                out.append(("MV:" + u + p, a.v, arr("Int", arr(ks, s)), None, None, arr(ks, s)))
            return out
        if e[0] == "call" and "loc:" + e[1] in self.builtins:
            return self.builtins["loc:" + e[1]](self, X, env, [self.ev(a, env) for a in e[2]])
        raise SyntaxError("bad location %r" % (e,))

    def havoc_locs(self, st, locs):
        X = self.X
        for name, ix, hs, k, gt, s in locs:
            if callable(ix):
                ix(st)
                continue
            if ix is None:
                st.heap[name] = fresh("M." + name, hs)
                continue
            if isinstance(ix, str):
                b = fresh("M." + name, hs)
                X.arrs[b] = name
                tm.arefb[b] = upper(st.wm)
                st.heap[name] = b
                continue
            v = fresh("M." + name, s)
            if k:
                tm.refbound[v] = upper(st.wm)
                X.ranged(v, k, gt)
            elif s.startswith("("):
                X.arrs[v] = name
                tm.arefb[v] = upper(st.wm)
            a = X.heap(st, name, hs)
            if isinstance(ix, list):
                st.heap[name] = tm.store(a, ix[0], tm.store(select(a, ix[0]), ix[1], v))
            else:
                st.heap[name] = tm.store(a, ix, v)

    def apply(self, X, con, st, args, ins):
        fn = self.prog.func(con.fid)
        X.used_contracts.add(con.fid)
        env = Env(self.bindenv(con, args, fn), st, st)
        pos = ins.get("pos") if ins else None
        X.cur = st
        for cl in con.requires:
            if not self.active(cl.tags):
                continue
            g = self.term(cl.expr, env)
            X.oblige(st, g, "%s: requires %s" % (short(con.fid), cl.name), pos, "requires", cl.tags)
            st.assume(g)
        pre = st.copy()
        X.newwm(st)
        locs = self.locs(con, Env(env.vars, pre, pre))
        self.havoc_locs(st, locs)
        rts = [t for n, t in fn.results]
        if len(rts) != len(con.results):
            raise Undecided("result arity of " + con.fid)
        vals = [X.freshval(st, t, "r." + n) for n, t in zip(con.results, rts)]
        e2 = Env(dict(env.vars), st, pre)
        for n, v, t in zip(con.results, vals, rts):
            e2.vars[n] = V(v, t)
        X.cur = st
        for cl in con.ensures:
            if self.active(cl.tags):
                st.assume(self.term(cl.expr, e2))
        return [(st, X.pack(vals))]

    # ---- loop candidates ------------------------------------------------------------------
    def candidates(self, X, st0, fr, h, phis, init, body):
        T_ = X.types
        out = []
        live = []       # (key, value, type)
        seen = set()
        ptypes = {}
        fn = fr.fn
        types = dict()
        for b in fn.blocks:
            for i in b["instrs"]:
                if "r" in i and "t" in i:
                    types[i["r"]] = i["t"]
        for n, t in fn.params:
            types["p:" + n] = t
        for n, t in fn.free:
            types["f:" + n] = t
        phn = set(p["r"] for p in phis)
        for r, v in fr.regs.items():
            if r in phn or r not in types:
                continue
            t = types[r]
            if isinstance(v, (tuple, MapIter)) or v is None:
                continue
            key = (T_.canon(t), tuple(x.id if isinstance(x, T) else repr(x) for x in T_.flatten(v, t)))
            if key in seen:
                continue
            seen.add(key)
            live.append((r, v, t))
        ints = [p for p in phis if T_.kind(p["t"]) == "int"]

        def getv(r):
            if r in phn:
                return lambda vals: vals[r]
            v = fr.regs[r]
            return lambda vals: v
        # automatic candidates
        lens = []
        ls = set()
        for r, v, t in live:
            k = T_.kind(t)
            if k == "slice" and v.len not in ls:
                ls.add(v.len)
                lens.append((r, v.len))
            elif k == "string" and isinstance(v, T):
                n = slen(v)
                if n not in ls:
                    ls.add(n)
                    lens.append((r, n))
            elif k == "int" and isinstance(v, T) and v not in ls and not isint(v):
                ls.add(v)
                lens.append((r, v))
        for p in phis:
            r = p["r"]
            t = p["t"]
            k = T_.kind(t)
            v0 = init[r]
            if k in ("int", "bool", "string", "iface", "ptr", "map", "slice") and not isinstance(v0, (Addr, FuncV, tuple)):
                def same(X, st, fr, vals, st0, r=r, v0=v0, t=t):
                    a, b = T_.flatten(vals[r], t), T_.flatten(v0, t)
                    return And(*[Eq(x, y) for x, y in zip(a, b)])
                out.append(Cand("%s unchanged" % r, same))
            if k == "slice":
                out.append(Cand("off %s" % r, lambda X, st, fr, vals, st0, r=r: Eq(vals[r].off, ZERO)))
        for p in ints:
            r = p["r"]
            v0 = init[r]
            out.append(Cand("%s >= init" % r, lambda X, st, fr, vals, st0, r=r, v0=v0: Le(v0, vals[r])))
            for q, n in lens[:30]:
                out.append(Cand("%s <= %s" % (r, q), lambda X, st, fr, vals, st0, r=r, n=n: Le(vals[r], n)))
                out.append(Cand("%s < %s" % (r, q), lambda X, st, fr, vals, st0, r=r, n=n: Lt(vals[r], n)))
            for p2 in ints:
                if p2["r"] != r and p2["r"] > r:
                    d = sub(v0, init[p2["r"]])
                    out.append(Cand("%s-%s" % (r, p2["r"]), lambda X, st, fr, vals, st0, r=r, r2=p2["r"], d=d: Eq(sub(vals[r], vals[r2]), d)))
            for p2 in phis:
                if T_.kind(p2["t"]) == "slice":
                    d = sub(init[p2["r"]].len, v0)
                    out.append(Cand("len %s-%s" % (p2["r"], r), lambda X, st, fr, vals, st0, r=r, r2=p2["r"], d=d: Eq(sub(vals[r2].len, vals[r]), d)))
        # templates
        root = X.stack[0] if X.stack else None
        tm_ = list(self.ginv)
        glob = {id(t) for g, t in tm_}
        for f in X.stack:
            c = self.cons.get(f)
            if c:
                tm_ += c.invs
        done = set()
        for tg, tpl in tm_:
            if not self.active(tg) or id(tpl) in done:
                continue
            done.add(id(tpl))
            pats, ex, src = tpl
            choices = []
            for pn, pt in pats.items():
                opts = []
                for q in list(phis):
                    if self.tmatch(q["t"], pt):
                        opts.append(("phi", q["r"], q["t"], 0))
                        if pt == "int" and isint(init[q["r"]]) and init[q["r"]].args[0] == -1:
                            # the index of a range loop is one behind at the loop header
                            opts.append(("phi", q["r"], q["t"], 1))
                if pt.endswith("!"):
                    pass
                if pt != "int":
                    for r, v, t in live:
                        if self.tmatch(t, pt):
                            opts.append(("live", r, t, 0))
                choices.append((pn, opts[:12]))
            n = 0
            for combo in itertools.product(*[o for pn, o in choices]):
                n += 1
                if n > 200:
                    break
                if len(set(combo)) != len(combo):
                    continue
                bind = list(zip([pn for pn, o in choices], combo))

                def f(X, st, fr2, vals, st0, bind=bind, ex=ex):
                    ev = {}
                    for pn, (kd, r, t, o) in bind:
                        v = vals[r] if kd == "phi" else fr.regs[r]
                        if o:
                            v = add(v, ONE)
                        ev[pn] = V(v, t)
                    ev.update(X.rootenv)
                    return self.term(ex, Env(ev, st, X.rootold, st0))
                out.append(Cand("%s [%s]" % (src, ",".join("%s=%s%s" % (pn, c[1], "+1" if c[3] else "") for pn, c in bind)), f, 2 if id(tpl) not in glob and all(c[0] == "phi" for pn, c in bind) else 1))
        return out

    def tmatch(self, t, pt):
        if pt == t:
            return True
        try:
            return self.X.types.canon(self.rtype(pt)) == self.X.types.canon(t)
        except Undecided:
            return False

    # ---- verifying one function -----------------------------------------------------------
    def verify(self, X, con):
        fn = self.prog.func(con.fid)
        st = X.start()
        args = []
        pv = set()
        for n, t in fn.params:
            v = X.freshval(st, t, "p." + n, wm=(0, 0))
            for x in X.types.flatten(v, t):
                pv |= free_vars(x)
            args.append(v)
        X.paramvars = frozenset(pv)
        if len(con.params) != len(fn.params):
            raise Undecided("parameter count of %s changed" % con.fid)
        env = Env(self.bindenv(con, args, fn), st, None)
        X.cur = st
        for cl in con.requires:
            if self.active(cl.tags):
                st.assume(self.term(cl.expr, env))
        pre = st.copy()
        X.rootenv = env.vars
        X.rootold = pre
        X.rootcon = con
        X.covers = []
        outs = X.run(st, con.fid, args)
        rets = [o for o in outs if o[1] == "ret"]
        X.stack.append(con.fid)
        try:
            for (s, k, vals) in rets:
                e2 = Env(dict(env.vars), s, pre)
                for n, v, (rn, t) in zip(con.results, vals, fn.results):
                    e2.vars[n] = V(v, t)
                X.cur = s
                X.covers.append((s, self.succeeds(X, vals, fn)))
                for cl in con.ensures:
                    if not self.active(cl.tags) or "define-" + cl.name in con.opts:
                        continue
                    X.cur = s
                    s2 = s.copy()
                    g = self.term(cl.expr, e2.at(s2))
                    X.oblige(s2, g, cl.name, None, "ensures", cl.tags, cl, vals)
                self.frame(X, con, s, pre, env)
        finally:
            X.stack.pop()
        return rets

    def succeeds(self, X, vals, fn):
        if fn.results and fn.results[-1][1] == "error" and isinstance(vals[-1], Iface):
            return Eq(vals[-1].tag, ZERO)
        return TRUE

    def frame(self, X, con, s, pre, env):
        if "noframe" in con.opts:
            return
        allowed = {}
        for name, ix, hs, k, gt, srt in self.locs(con, Env(env.vars, pre, pre)):
            if callable(ix):
                for nm, key in ix.allowed:
                    allowed.setdefault(nm, []).append(key)
                continue
            allowed.setdefault(name, []).append(ix[0] if isinstance(ix, list) else ix)
        w0 = upper(pre.wm)
        goals = []
        for name in sorted(s.heap):
            a = s.heap[name]
            b = pre.heap.get(name)
            if b is None:
                b = X.base(name, a.sort)
            if a is b or name == "G:iter":
                continue
            al = allowed.get(name, [])
            if "*" in al or None in al:
                continue
            if not a.sort.startswith("("):
                goals.append((name, FALSE))
                continue
            work, seen, ok = [a], set(), True
            suf = {}
            y, acc = b, []
            while y.op == "store":
                acc = acc + [y.args[1]]
                y = y.args[0]
                suf[y] = acc
            while work:
                x = work.pop()
                if x is b or x in seen:
                    continue
                seen.add(x)
                if x in suf:
                    for r in suf[x]:
                        goals.append((name, Or(Gt(r, pre.wm), *[Eq(r, m) for m in al])))
                    continue
                if x.op == "store":
                    r = x.args[1]
                    work.append(x.args[0])
                    y = asalloc(r)
                    if y and y > w0:
                        continue
                    if r in al:
                        continue
                    d = X.types.decode(r)
                    rr = d.base if isinstance(d, Addr) else r
                    # writes that restore the old value are harmless
                    goals.append((name, Or(Gt(rr, pre.wm), *([Eq(rr, ZERO)] if name.startswith("M:") else []), *[Eq(r, m) for m in al])))
                elif x.op == "hframe":
                    if upper(x.args[0]) >= w0:
                        work.append(x.args[1])
                    else:
                        ok = False
                elif x.op == "ite":
                    work.extend(x.args[1:])
                else:
                    ok = False
            if not ok:
                goals.append((name, FALSE))
        for name, g in goals:
            X.oblige(s, g, "frame %s" % name, None, "modifies")


def short(fid):
    return re.sub(r"[\w.\-]+/", "", fid)
