"""SMT-LIB emission and the solver portfolio."""
import os, re, subprocess, hashlib, time, threading
from concurrent.futures import ThreadPoolExecutor
import terms as tm
from terms import *

V = lambda n, s: var("?" + n, s)
s_, t_ = V("s", "Str"), V("t", "Str")
u_ = V("u", "Str")
i_, j_ = V("i", "Int"), V("j", "Int")
a_, b_, c_, d_ = V("a", "Int"), V("b", "Int"), V("c", "Int"), V("d", "Int")
A_ = V("A", arr("Int", "Int"))


def raw(name, *args):
    return mk("app", (name,) + args, tm.sigs[name][1])


def _ssub(s, a, b):
    return raw("ssub", s, a, b)


declare("ext", ["Str", "Str"], "Bool")
declare("extd", ["Str", "Str"], "Int")


def base_axioms():
    ax = []

    def q(vs, body, *pats):
        ax.append((Forall(vs, body, [p if isinstance(p, tuple) else (p,) for p in pats]), pats))
    sl = lambda s: raw("slen", s)
    st = lambda s, i: raw("sat", s, i)
    so = lambda A, o, n: raw("sofarr", A, o, n)
    sc = lambda a, b: raw("scat", a, b)
    q([s_], Le(ZERO, sl(s_)), sl(s_))
    q([s_, i_], And(mk("<=0", (neg(st(s_, i_)),), "Bool"), mk("<=0", (add(st(s_, i_), I(-255)),), "Bool")), st(s_, i_))
    q([s_, a_, b_], Implies(And(Le(ZERO, a_), Le(a_, b_), Le(b_, sl(s_))), Eq(sl(_ssub(s_, a_, b_)), sub(b_, a_))), _ssub(s_, a_, b_))
    q([s_, a_, b_, i_], Implies(And(Le(ZERO, a_), Le(ZERO, i_), Lt(add(i_, a_), b_), Le(b_, sl(s_))), Eq(st(_ssub(s_, a_, b_), i_), st(s_, add(a_, i_)))), st(_ssub(s_, a_, b_), i_))
    q([s_, a_, b_, c_, d_], Implies(And(Le(ZERO, a_), Le(b_, sl(s_)), Le(ZERO, c_), Le(c_, d_), Le(d_, sub(b_, a_))), Eq(_ssub(_ssub(s_, a_, b_), c_, d_), _ssub(s_, add(a_, c_), add(a_, d_)))), _ssub(_ssub(s_, a_, b_), c_, d_))
    q([s_, a_], Implies(Eq(a_, sl(s_)), Eq(_ssub(s_, ZERO, a_), s_)), _ssub(s_, ZERO, a_))
    q([A_, a_, b_], Implies(Le(ZERO, b_), Eq(sl(so(A_, a_, b_)), b_)), so(A_, a_, b_))
    q([A_, a_, b_, i_], Implies(And(Le(ZERO, i_), Lt(i_, b_)), Eq(st(so(A_, a_, b_), i_), mk("select", (A_, add(a_, i_)), "Int"))), st(so(A_, a_, b_), i_))
    q([A_, a_, b_, c_, d_], Implies(And(Le(ZERO, c_), Le(c_, d_), Le(d_, b_)), Eq(_ssub(so(A_, a_, b_), c_, d_), so(A_, add(a_, c_), sub(d_, c_)))), _ssub(so(A_, a_, b_), c_, d_))
    q([s_, t_], Eq(sl(sc(s_, t_)), add(sl(s_), sl(t_))), sc(s_, t_))
    q([s_, t_, i_], Eq(st(sc(s_, t_), i_), Ite(Lt(i_, sl(s_)), st(s_, i_), st(t_, sub(i_, sl(s_))))), st(sc(s_, t_), i_))
    q([s_, t_, a_, b_], Implies(And(Le(ZERO, a_), Le(a_, b_), Le(b_, sl(s_))), Eq(_ssub(sc(s_, t_), a_, b_), _ssub(s_, a_, b_))), _ssub(sc(s_, t_), a_, b_))
    q([s_, t_, a_, b_], Implies(And(Le(sl(s_), a_), Le(a_, b_), Le(b_, add(sl(s_), sl(t_)))), Eq(_ssub(sc(s_, t_), a_, b_), _ssub(t_, sub(a_, sl(s_)), sub(b_, sl(s_))))), _ssub(sc(s_, t_), a_, b_))
    q([s_, a_, b_, c_, d_], Implies(And(Le(ZERO, a_), Le(a_, b_), Eq(b_, c_), Le(c_, d_), Le(d_, sl(s_))), Eq(sc(_ssub(s_, a_, b_), _ssub(s_, c_, d_)), _ssub(s_, a_, d_))), sc(_ssub(s_, a_, b_), _ssub(s_, c_, d_)))
    q([u_, s_, a_, b_, c_, d_], Implies(And(Le(ZERO, a_), Le(a_, b_), Eq(b_, c_), Le(c_, d_), Le(d_, sl(s_))), Eq(sc(sc(u_, _ssub(s_, a_, b_)), _ssub(s_, c_, d_)), sc(u_, _ssub(s_, a_, d_)))), sc(sc(u_, _ssub(s_, a_, b_)), _ssub(s_, c_, d_)))
    lt = lambda a, b: raw("slt", a, b)
    q([s_, t_], And(Or(lt(s_, t_), mk("=", (s_, t_), "Bool"), lt(t_, s_)), Not(And(lt(s_, t_), lt(t_, s_))), Implies(lt(s_, t_), Not(mk("=", (s_, t_), "Bool")))), lt(s_, t_))
    q([s_, t_, u_], Implies(And(lt(s_, t_), lt(t_, u_)), lt(s_, u_)), (lt(s_, t_), lt(t_, u_)))
    ex = raw("ext", s_, t_)
    dd = raw("extd", s_, t_)
    q([s_, t_], And(ex, Implies(And(Eq(sl(s_), sl(t_)), Implies(And(Le(ZERO, dd), Lt(dd, sl(s_))), Eq(st(s_, dd), st(t_, dd)))), mk("=", (s_, t_), "Bool"))), ex)
    return ax


def be_axioms():
    out = []
    for w in (2, 4, 8):
        f = raw("be%d" % w, s_, i_)
        r = ZERO
        for k in range(w):
            r = add(scale(256, r), raw("sat", s_, add(i_, I(k))))
        out.append((Forall([s_, i_], And(mk("=", (f, r), "Bool"), _le(ZERO, f), _le(f, I(256 ** w - 1))), [(f,)]), {"be%d" % w}))
    return out


def _le(a, b):
    return mk("<=0", (sub(a, b),), "Bool")


BASE = base_axioms()
EMPTYAX = lambda: Forall([s_], Implies(mk("=", (raw("slen", s_), ZERO), "Bool"), mk("=", (s_, EMPTY), "Bool")), [(raw("slen", s_),)])

# contract-level axioms: list of (term, set of function names one of which must occur)
user_axioms = be_axioms()


def funs_of(t, memo={}):
    r = memo.get(t)
    if r is None:
        r = frozenset()
        for c in children(t):
            r = r | funs_of(c)
        if t.op == "app":
            r = r | {t.args[0]}
        memo[t] = r
    return r


def _rawle(a, b):
    """a <= b without simplification by known bounds"""
    return mk("<=0", (sub(a, b),), "Bool")


def _arith(t, memo={}):
    r = memo.get(t)
    if r is None:
        r = t.op in ("lin", "*", "div", "mod", "ite", "afill", "adec", "acopy", "aofs", "hframe", "store", "forall", "exists") and any(v.args[0][0] == "?" for v in free_vars(t))
        if not r:
            r = any(_arith(c) for c in children(t))
        memo[t] = r
    return r


def ranges(terms):
    """type-range facts of the integer atoms"""
    out = []
    inv = {n: v for v, n in tm.wm.items()}
    for t in sorted(terms, key=lambda x: x.id):
        if t.sort != "Int" or t.op not in ("var", "select", "app") or (t.op == "var" and t.args[0][0] == "?"):
            continue
        lo, hi = bounds(t) if t in tm.rng else (None, None)
        fs = []
        if lo is not None:
            fs.append(_rawle(I(lo), t))
        if hi is not None:
            fs.append(_rawle(t, I(hi)))
        u = tm.refbound.get(t)
        if u is not None:
            if u[0] < 0:
                fs.append(_rawle(t, I(u[1])))
            elif u[0] in inv:
                fs.append(_rawle(t, add(inv[u[0]], I(u[1]))))
        if not fs:
            continue
        bv = sorted((v for v in free_vars(t) if v.args[0][0] == "?"), key=lambda x: x.id)
        if not bv:
            out.extend(fs)
        elif not _arith(t):
            out.append(Forall(bv, And(*fs), [(t,)]))
    return out


_axinfo = {}


def axinfo(t):
    r = _axinfo.get(t)
    if r is None:
        lits, st2 = [], [t]
        while st2:
            x = st2.pop()
            if x.op == "strlit":
                lits.append(x)
            st2.extend(children(x))
        r = _axinfo[t] = (funs_of(t), lits)
    return r


def query(facts, goal):
    """SMT-LIB text asserting the facts and the negated goal."""
    ts = list(facts) + [Not(goal)]
    col = tm.Collect()
    for t in ts:
        col.add(t)
    lams, ldone = [], set()
    while True:
        new = [x for x in col.auxs if x not in ldone]
        if not new:
            break
        for x in new:
            ldone.add(x)
            ax1 = tm.lamaxiom(x)
            lams.append(ax1)
            col.add(ax1)
            if x.op == "afill":
                ax1 = tm.fillaxiom(x)
                lams.append(ax1)
                col.add(ax1)
            if x.op == "acopy":
                ax1 = tm.copyaxiom(x)
                lams.append(ax1)
                col.add(ax1)
    have = frozenset(col.funs)
    if any(x.op in ("afill", "adec", "aofs") for x in ldone):
        have = have | {"sat", "slen"}
    lits = set(col.lits)
    atoms = list(col.atoms)
    ax = []
    done = set()
    changed = True
    while changed:
        changed = False
        for k, (t, trig) in enumerate(user_axioms):
            if k not in done and (trig & have):
                done.add(k)
                ax.append(t)
                fs, ls = axinfo(t)
                have = have | fs
                lits.update(ls)
                changed = True
    if lits:
        have = have | {"slen", "sat"}
    for t, pats in BASE:
        need = frozenset().union(*[funs_of(p) if not isinstance(p, tuple) else frozenset().union(*[funs_of(x) for x in p]) for p in pats])
        if need <= have:
            ax.append(t)
            have = have | (funs_of(t) & frozenset(["slen", "sat"]))
    for t, pats in BASE[:2]:
        if t not in ax and pats[0].args[0] in have:
            ax.append(t)
    if EMPTY in lits:
        ax.append(EMPTYAX())
    litax = []
    for l in sorted(lits, key=lambda x: x.id):
        b = l.args[0]
        litax.append(mk("=", (raw("slen", l), I(len(b))), "Bool"))
        if len(b) <= 24:
            for k, c in enumerate(b):
                litax.append(mk("=", (raw("sat", l, I(k)), I(c)), "Bool"))
    tops = lams + ranges(atoms) + ax + litax + ts
    col = tm.Collect()
    out = []
    put = set()
    for t in tops:
        n0 = len(col.order)
        c = tm.chunk(t)
        col.visit(c)
        for d in col.order[n0:]:
            if d.name and d not in put:
                put.add(d)
                out.append("(define-fun %s () %s %s)" % (d.name, d.sort, d.text))
        out.append("(assert %s)" % (c.name if c in put else c.text))
    head = ["(set-option :print-success false)", "(set-logic ALL)", "(declare-sort Str 0)"]
    for n in sorted(col.funs):
        a, r = tm.sigs[n]
        head.append("(declare-fun %s (%s) %s)" % (qname(n), " ".join(a), r))
    for n in sorted(col.vars):
        head.append("(declare-const %s %s)" % (qname(n), col.vars[n]))
    ls = sorted("lit!%d" % x.id for x in col.lits)
    for n in ls:
        head.append("(declare-const %s Str)" % n)
    if len(ls) > 1:
        head.append("(assert (distinct %s))" % " ".join(ls))
    return "\n".join(head + out) + "\n(check-sat)\n"


Z3NEW = ["z3-new", "-smt2", "-in", "smt.auto_config=false", "smt.mbqi=false", "smt.qi.eager_threshold=100"]
CMDS = [
    ("z3-5.3", Z3NEW),
    ("z3-4.8", ["z3", "-smt2", "-in", "auto_config=false", "smt.mbqi=false"]),
    ("cvc5", ["cvc5", "--lang=smt2", "-"]),
    ("z3-5.3 seed", Z3NEW + ["smt.random_seed=7", "smt.arith.solver=2"]),
]

stats = {"queries": 0, "time": 0.0, "by": {}, "max": 0.0}
_lock = threading.Lock()
_cache = {}


def _run(cmd, text, timeout):
    t0 = time.time()
    c = list(cmd)
    if c[0] in ("z3", "z3-new"):
        c.append("-T:%d" % max(1, int(timeout)))
    elif c[0] == "cvc5":
        c.append("--tlimit=%d" % int(timeout * 1000))
    try:
        p = subprocess.run(c, input=text, capture_output=True, text=True, timeout=timeout + 0.5)
        o = p.stdout.strip().split("\n")
        r = o[0] if o else "error"
        if r not in ("sat", "unsat", "unknown"):
            r = "unknown" if "timeout" in p.stdout or not p.stdout.strip() else "error: " + p.stdout[:300] + p.stderr[:200]
    except subprocess.TimeoutExpired:
        r = "unknown"
    return r, time.time() - t0


def decide(facts, goal, timeout=8, portfolio=True):
    """returns (verdict, backend, text, detail): verdict in unsat (proved) / unknown / sat"""
    return merge([run_text(t, timeout, portfolio) for t in prepare(facts, goal)])


def disjoin(facts, goal):
    """read updated memory elsewhere: an object the path knows to be different from the updated one"""
    p = prover[0]
    if p is None:
        return facts, goal
    qf = [f for f in facts if not hasq(f)]
    memo, known = {}, {}
    bound = lambda t: any(v.args[0][0] == "?" for v in free_vars(t))

    def differ(i, j):
        r = known.get((i, j))
        if r is None:
            d = tm.sub(i, j) if i.sort == "Int" else None
            r = known[i, j] = known[j, i] = i is not j and d is not None and not tm.isint(d) and p.check(qf, Eq(i, j)) == "unsat"
        return r

    def go(t):
        r = memo.get(t)
        if r is None:
            r = tm.rebuild(t, go) if any(go(x) is not x for x in children(t)) else t
            while r.op == "select" and r.args[0].op == "store" and not bound(r.args[1]) and not bound(r.args[0].args[1]) and differ(r.args[1], r.args[0].args[1]):
                r = tm.select(r.args[0].args[0], r.args[1])
            memo[t] = r
        return r

    def stores(t):
        st, seen = [t], set()
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op == "select" and x.args[0].op == "store" and x.args[0].sort.startswith("(Array Int (") and not bound(x.args[1]) and x.args[1] is not x.args[0].args[1]:
                return True
            st.extend(children(x))
        return False
    out = []
    for f in facts:
        if stores(f):
            assume(out, go(f))
        else:
            out.append(f)
    return out, go(goal) if stores(goal) else goal


def merge(rs):
    for r in rs:
        if r[0] != "unsat":
            return r
    names = sorted(set(r[1] for r in rs), key=lambda n: (n == "simplifier", n))
    last = rs[-1] if rs else None
    return ("unsat", names[0] if names else "simplifier", last and last[2], last[3] if last else "")


prover = [None]


def prepare(facts, goal):
    """query texts (main thread only; nothing of the current path may leak into them)"""
    if goal is TRUE or FALSE in facts:
        return []
    old = tm.ctx[0]
    tm.ctx[0] = None
    try:
        facts, goal = disjoin(facts, goal)
    finally:
        tm.ctx[0] = old
    if goal is TRUE or FALSE in facts:
        return []
    try:
        if not tm.hasq(goal) and not any(chain(f, goal) for f in facts):
            tm.ctx[0] = None
            return [query(facts, goal)]
        out = []
        split(list(facts), goal, frozenset(), 0, out)
        tm.ctx[0] = None
        return [query(f, g) for f, g in out]
    finally:
        tm.ctx[0] = old


def split(facts, g, sks, depth, out):
    """decompose a quantified goal: skolem constants, hypotheses, conjuncts, and case distinction on updated indices"""
    if g is TRUE:
        return
    if g.op == "forall":
        m = {v: tm.fresh("sk" + v.args[0][1:], v.sort) for v in g.args[0]}
        focus(facts)
        # the terms of the pattern stay available after the conclusion is taken apart
        facts = list(facts)
        if depth >= 10:
            for f in [f for f in facts if f.op == "forall" and not hasq(f.args[1])]:
                x = mirror(f, g, m)
                if x is not None:
                    assume(facts, x)
        for ps in g.args[2]:
            for p in ps:
                h = "hint" + p.sort
                if h in tm.sigs:
                    facts.append(mk("app", (h, tm.subst(p, m)), "Bool"))
        return split(facts, tm.subst(g.args[1], m), sks | frozenset(m.values()), depth, out)
    if g.op == "=>":
        fs = list(facts)
        assume(fs, g.args[0])
        if FALSE in fs:
            return
        return split(fs, g.args[1], sks, depth, out)
    if g.op == "and":
        for x in g.args:
            split(facts, x, sks, depth, out)
        return
    if g.op == "=" and g.args[0].sort == "Bool" and (hasq(g) or sks):
        a, b = g.args
        split(facts, Implies(a, b), sks, depth, out)
        split(facts, Implies(b, a), sks, depth, out)
        return
    if depth < 10:
        # a hypothesis with quantified premises that concludes exactly this: prove its premises
        cs = [(f, b) for f in reversed(facts) for b in [chain(f, g)] if b]
        for n, (f, b) in enumerate(cs):
            sub = []
            split(facts, tm.subst(f.args[1].args[0], b), sks, 10, sub)
            if n == len(cs) - 1 or proves(sub):
                out.extend(sub)
                return
    if sks and depth % 10 < 4:
        c = updated([g] + [f for f in facts if not hasq(f) and free_vars(f) & sks], sks)
        if c is not None:
            s, k = c
            mine = [f for f in facts if free_vars(f) & frozenset([s])]
            rest = [f for f in facts if not (free_vars(f) & frozenset([s]))]
            focus(rest)
            fs = list(rest)
            for f in mine:
                assume(fs, tm.subst(f, {s: k}))
            if FALSE not in fs:
                focus(fs)
                split(fs, tm.subst(g, {s: k}), sks - {s}, depth + 1, out)
            fs = list(rest)
            assume(fs, Ne(s, k))
            if FALSE not in fs:
                focus(fs)
                for f in mine:
                    assume(fs, unstore(f, s, k))
                if FALSE not in fs:
                    split(fs, unstore(g, s, k), sks, depth + 1, out)
            return
    out.append((facts, g))


def proves(sub):
    old = tm.ctx[0]
    tm.ctx[0] = None
    try:
        return all(run_text(query(f, g), 2, False)[0] == "unsat" for f, g in sub)
    finally:
        tm.ctx[0] = old


def chain(f, g):
    """how a hypothesis with quantified premises concludes this goal"""
    if f.op == "forall" and f.args[1].op == "=>" and hasq(f.args[1].args[0]):
        return match(f.args[1].args[1], g, f.args[0])
    return None


def match(pat, t, vs, b=None):
    """first-order matching: {v: term} with pat under it identical to t"""
    b = {} if b is None else b
    if pat in vs:
        if b.get(pat, t) is not t:
            return None
        b[pat] = t
        return b
    if pat is t:
        return b
    if not (free_vars(pat) & frozenset(vs)) or pat.op != t.op or pat.op not in ("app", "select") or len(pat.args) != len(t.args):
        return None
    for x, y in zip(pat.args, t.args):
        if isinstance(x, tm.T):
            if not isinstance(y, tm.T) or match(x, y, vs, b) is None:
                return None
        elif x != y:
            return None
    return b if all(v in b for v in vs if v in free_vars(pat)) else None


def lowest(body, v):
    """the lower end of the range a quantified implication gives the variable"""
    if body.op != "=>":
        return None
    for c in body.args[0].args if body.args[0].op == "and" else (body.args[0],):
        if c.op == "<=0" and c.args[0] is not v:
            r = add(c.args[0], v)
            if v not in free_vars(r):
                return r
    return None


def mirror(f, g, m):
    """the instance of one quantified hypothesis at the skolem constants of a goal of the same form, ranges aligned"""
    vf, vg = f.args[0], g.args[0]
    if tuple(v.sort for v in vf) != tuple(v.sort for v in vg):
        return None
    b = {}
    for x, y in zip(vf, vg):
        lo, lg = (lowest(f.args[1], x), lowest(g.args[1], y)) if x.sort == "Int" else (None, None)
        b[x] = m[y] if lo is None or lg is None else add(sub(m[y], tm.subst(lg, m)), tm.subst(lo, b))
        if free_vars(b[x]) & frozenset(vf):
            return None
    return tm.subst(f.args[1], b)


def assume(fs, t):
    if t is TRUE:
        return
    if t.op == "and":
        for x in t.args:
            assume(fs, x)
    else:
        fs.append(t)


def focus(facts):
    """simplify under these facts"""
    p = prover[0]
    if p is None:
        return
    qf = [f for f in facts if not hasq(f)]
    tm.ctx[0] = lambda c: (not hasq(c)) and p.check(qf, Not(c)) == "unsat"


def updated(ts, sks):
    """an update whose index a skolem constant may or may not hit"""
    seen = set()
    work = list(ts)
    while work:
        x = work.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "select" and x.args[0].op == "store" and x.args[1] in sks and x.args[0].args[1] is not x.args[1]:
            k = x.args[0].args[1]
            if not (free_vars(k) & frozenset([x.args[1]])) and not any(v.args[0][0] == "?" for v in free_vars(k)):
                return x.args[1], k
        work.extend(children(x))
    return None


def unstore(t, s, k):
    memo = {}

    def go(x):
        r = memo.get(x)
        if r is None:
            if s not in free_vars(x):
                r = x
            elif x.op == "select" and x.args[1] is s:
                a = x.args[0]
                while a.op == "store" and a.args[1] is k:
                    a = a.args[0]
                r = tm.select(go(a), s)
            else:
                r = tm.rebuild(x, go)
            memo[x] = r
        return r
    return go(t)


def run_text(text, timeout=8, portfolio=True):
    if text is None:
        return ("unsat", "simplifier", None, "")
    names = {}
    text = re.sub(r"![0-9]+", lambda m: names.setdefault(m.group(0), "!%d" % len(names)), text)
    key = hashlib.sha256(text.encode()).hexdigest()
    with _lock:
        hit = _cache.get(key)
        # an inconclusive answer of the first solver alone does not settle a query for the others
        if hit and (hit[0] == "unsat" or (hit[4] >= timeout and (hit[5] or not portfolio))):
            return hit[:4]
    res = None
    detail = []
    # a solver that gives up at once is not asked again; one that runs out of time is, after the other one had its turn
    plan = [(CMDS[0], 1, False), (CMDS[1], 1, not portfolio), (CMDS[0], min(timeout, 4), True)]
    if portfolio:
        plan += [(CMDS[1], timeout, True), (CMDS[3], timeout, False), (CMDS[2], timeout if timeout > 4 else 2, False)]
    slowones = set()
    for (name, cmd), to, again in plan:
        if again and not (name in slowones or name == CMDS[1][0] and len(detail) == 1 and slowones):
            continue
        r, dt = _run(cmd, text, to)
        if r == "unknown" and dt > 0.8 * to:
            slowones.add(name)
        with _lock:
            stats["queries"] += 1
            stats["time"] += dt
            stats["max"] = max(stats["max"], dt)
        detail.append("%s: %s (%.2fs)" % (name, r, dt))
        if r == "unsat":
            with _lock:
                stats["by"][name] = stats["by"].get(name, 0) + 1
            res = ("unsat", name, text, "; ".join(detail))
            break
        if r.startswith("error") and "expected a value" in r:
            # cvc5 takes only literals as the default of a constant array
            continue
        if r.startswith("error"):
            raise RuntimeError("solver error %s\n%s" % (r, text[:4000]))
    if res is None:
        res = ("unknown", "", text, "; ".join(detail))
    with _lock:
        _cache[key] = res + (timeout, portfolio)
    return res


def slow(r):
    """no verdict because time ran out, rather than because the solver saw no way on"""
    return any(float(x) >= 0.8 for x in re.findall(r"\(([0-9.]+)s\)", r[3]))


def dump(facts, goal, path):
    for t in prepare(facts, goal):
        if run_text(t, 2, False)[0] != "unsat":
            open(path, "w").write(t)
    print("      ", path)


pool = ThreadPoolExecutor(max_workers=8)


def decide_all(items, timeout=8, portfolio=True):
    fs = [[pool.submit(run_text, t, timeout, portfolio) for t in prepare(f, g)] for f, g in items]
    return [merge([x.result() for x in f]) for f in fs]


# ---- quantifier-free contextual prover (z3 bindings, in process) ------------------

class Ctx:
    """keeps a z3 solver synchronised with a path's fact list"""

    def __init__(self):
        import z3
        self.z3 = z3
        self.solver = z3.SolverFor("QF_UFLIA") if False else z3.SimpleSolver()
        self.solver.set("timeout", 400)
        self.solver.set("auto_config", False)
        self.solver.set("mbqi", False) if False else None
        self.stack = []
        self.memo = {}
        self.sorts = {}
        self.fd = {}
        self.cache = {}
        self.n = 0
        self.time = 0

    def sort(self, s):
        r = self.sorts.get(s)
        if r is None:
            z3 = self.z3
            if s == "Int":
                r = z3.IntSort()
            elif s == "Bool":
                r = z3.BoolSort()
            elif s == "Str":
                r = z3.DeclareSort("Str")
            else:
                k, v = arrparts(s)
                r = z3.ArraySort(self.sort(k), self.sort(v))
            self.sorts[s] = r
        return r

    def conv(self, t):
        m = self.memo.get(t)
        if m is not None:
            return m
        z3 = self.z3
        op = t.op
        g = self.conv
        if op == "int":
            r = z3.IntVal(t.args[0])
        elif op == "true":
            r = z3.BoolVal(True)
        elif op == "false":
            r = z3.BoolVal(False)
        elif op == "var":
            r = z3.Const(t.args[0], self.sort(t.sort))
        elif op == "strlit":
            r = z3.Const("lit!%d" % t.id, self.sort("Str"))
        elif op == "lin":
            ps = [z3.IntVal(k) * g(x) if k != 1 else g(x) for x, k in t.args[1]]
            if t.args[0]:
                ps.append(z3.IntVal(t.args[0]))
            r = z3.Sum(ps) if len(ps) > 1 else ps[0]
        elif op == "*":
            # keep nonlinear products opaque
            r = z3.Const("nl!%d" % t.id, self.sort("Int"))
        elif op == "div":
            r = g(t.args[0]) / g(t.args[1])
        elif op == "mod":
            r = g(t.args[0]) % g(t.args[1])
        elif op == "<=0":
            r = g(t.args[0]) <= 0
        elif op == "=":
            r = g(t.args[0]) == g(t.args[1])
        elif op == "not":
            r = z3.Not(g(t.args[0]))
        elif op == "and":
            r = z3.And(*[g(x) for x in t.args])
        elif op == "or":
            r = z3.Or(*[g(x) for x in t.args])
        elif op == "=>":
            r = z3.Implies(g(t.args[0]), g(t.args[1]))
        elif op == "ite":
            r = z3.If(g(t.args[0]), g(t.args[1]), g(t.args[2]))
        elif op == "select":
            r = g(t.args[0])[g(t.args[1])]
        elif op == "store":
            r = z3.Store(g(t.args[0]), g(t.args[1]), g(t.args[2]))
        elif op == "app" and len(t.args) == 1:
            r = z3.Const("f!" + t.args[0], self.sort(t.sort))
        elif op == "app":
            n = t.args[0]
            f = self.fd.get(n)
            if f is None:
                a, s = tm.sigs[n]
                f = z3.Function("f!" + n, *[self.sort(x) for x in a], self.sort(s))
                self.fd[n] = f
            r = f(*[g(x) for x in t.args[1:]])
        else:
            # lambdas and quantifiers stay opaque
            r = z3.Const("op!%d" % t.id, self.sort(t.sort))
        self.memo[t] = r
        return r

    def extra(self, t, seen):
        """range facts for the atoms of t"""
        out = []
        st = [t]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.sort == "Int" and x.op in ("var", "select", "app"):
                lo, hi = bounds(x)
                if lo is not None:
                    out.append(self.conv(x) >= lo)
                if hi is not None:
                    out.append(self.conv(x) <= hi)
            if x.op == "select" and x.args[0].op == "hframe":
                w, f, g = x.args[0].args
                a, b = tm.select(f, x.args[1]), tm.select(g, x.args[1])
                st.extend((a, b))
                out.append(self.conv(x) == self.z3.If(self.conv(Le(x.args[1], w)), self.conv(a), self.conv(b)))
            if x.op == "app" and x.args[0] == "slen":
                y = x.args[1]
                if y.op == "app" and y.args[0] == "ssub":
                    D, a, b = y.args[1:]
                    out.append(self.conv(Implies(And(Le(ZERO, a), Le(a, b), Le(b, raw("slen", D))), Eq(x, sub(b, a)))))
                elif y.op == "app" and y.args[0] == "sofarr":
                    out.append(self.conv(Implies(Le(ZERO, y.args[3]), Eq(x, y.args[3]))))
                elif y.op == "strlit":
                    out.append(self.conv(x) == len(y.args[0]))
            if x.op in ("forall", "exists", "afill", "adec", "acopy", "aofs", "hframe"):
                continue
            st.extend(children(x))
        return out

    def sync(self, facts):
        """facts: python list of QF terms"""
        k = 0
        while k < len(self.stack) and k < len(facts) and self.stack[k][0] is facts[k]:
            k += 1
        while len(self.stack) > k:
            self.solver.pop()
            self.stack.pop()
        for f in facts[k:]:
            self.solver.push()
            seen = set(self.stack[-1][1]) if self.stack else set()
            ex = self.extra(f, seen)
            self.stack.append((f, seen))
            self.solver.add(self.conv(f))
            for e in ex:
                self.solver.add(e)

    def check(self, facts, t):
        """is facts /\\ t satisfiable?  returns 'unsat'/'sat'/'unknown'"""
        t0 = time.time()
        self.n += 1
        self.sync(facts)
        self.solver.push()
        seen = set(self.stack[-1][1]) if self.stack else set()
        self.solver.add(self.conv(t))
        for e in self.extra(t, seen):
            self.solver.add(e)
        r = str(self.solver.check())
        self.solver.pop()
        self.time += time.time() - t0
        return r
