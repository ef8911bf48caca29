"""Forward symbolic execution of the SSA: the verification-condition generator."""
import os
import sys, time
import terms as tm
from terms import *
from mem import *
import solve


class Dead(Exception):
    pass


class NoMerge(Exception):
    pass


class St:
    __slots__ = ("heap", "facts", "qf", "wm", "trail", "gcount")

    def copy(self):
        s = St()
        s.heap = dict(self.heap)
        s.facts = list(self.facts)
        s.qf = list(self.qf)
        s.wm = self.wm
        s.trail = self.trail
        return s

    def assume(self, t):
        if t is TRUE:
            return self
        if t is FALSE:
            raise Dead()
        if t.op == "and":
            for x in t.args:
                self.assume(x)
            return self
        self.facts.append(t)
        if not hasq(t):
            self.qf.append(t)
        return self


LOOPDBG = os.environ.get("LOOPDBG")


class Fr:
    """activation record; copied when paths fork"""
    __slots__ = ("fn", "regs", "defers", "active", "unroll", "depth", "entry")

    def fork(self):
        f = Fr()
        f.fn = self.fn
        f.regs = dict(self.regs)
        f.defers = list(self.defers)
        f.active = self.active
        f.unroll = dict(self.unroll)
        f.depth = self.depth
        f.entry = self.entry
        return f


class Act:
    __slots__ = ("mode", "body", "back", "h")


class Ob:
    __slots__ = ("name", "func", "facts", "goal", "pos", "tags", "res", "kind", "trail", "clause", "vals")


MASK = {(1 << k) - 1: k for k in range(1, 65)}


class X:
    def __init__(self, prog, contracts, externs):
        self.iters = {}   # map reference -> the iterator running over it
        self.prog = prog
        self.types = Types(prog)
        self.c = contracts
        self.ext = externs
        self.obs = []
        self.dry = 0
        self.ctx = solve.Ctx()
        solve.prover[0] = self.ctx
        tm.wmof[0] = self.wmof
        self.wmn = 0
        self.cur = None
        self.safety = False
        self.stack = []
        self.arrs = {}
        self.fninfo = {}
        self.used_contracts = set()
        self.used_models = set()
        self.inlined = set()
        self.havocked = set()
        self.loopinfo = []
        self.loopctx = []
        self.refuted = {}
        self.deadline = None
        self.fidx = {}
        self.initheap = {}
        self.immut = set()
        self.nglob = 0
        self.covered = {}
        tm.ctx[0] = self._known
        contracts.bind(self)

    # ---- contextual prover ------------------------------------------------------
    def _known(self, c):
        st = self.cur
        if st is None or hasq(c):
            return False
        if any(v.args[0].startswith("?") for v in free_vars(c)):
            return False
        return self.ctx.check(st.qf, Not(c)) == "unsat"

    def known(self, st, c):
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        self.cur = st
        return self._known(c)

    def feasible(self, st, c=TRUE):
        if c is FALSE:
            return False
        return self.ctx.check(st.qf, c) != "unsat"

    # ---- state ------------------------------------------------------------------------
    def newwm(self, st, k=0):
        """fresh watermark above the current one"""
        self.wmn += 1
        v = var("A!%d" % self.wmn, "Int")
        tm.wm[v] = self.wmn
        st.assume(Le(st.wm, v))
        st.wm = v
        return v

    def start(self):
        st = St()
        st.heap = {}
        st.facts = []
        st.qf = []
        st.trail = ()
        st.wm = var("A!0", "Int")
        tm.wm[st.wm] = 0
        tm.setrange(st.wm, 1, None)
        self.cur = st
        st.heap.update(self.initheap)
        return st

    def alloc(self, st):
        st.wm = add(st.wm, ONE)
        return st.wm

    def heap(self, st, name, sort):
        a = st.heap.get(name)
        if a is None:
            a = self.base(name, sort)
        return a

    def base(self, name, sort, pre="H0"):
        a = var("%s.%s" % (pre, name), sort)
        if a not in self.arrs:
            self.arrs[a] = name
        return a

    def setheap(self, st, name, a):
        st.heap[name] = a

    # ---- leaves -----------------------------------------------------------------------
    def ranged(self, t, kind, gt):
        if t.op in ("int", "lin", "strlit", "true", "false"):
            return t
        if kind == "int":
            lo, hi = irange(self.types.basic(gt))
            if t.op == "ite":
                return t
            setrange(t, lo, hi)
        elif kind in ("len", "off"):
            setrange(t, 0, MAXLEN)
        elif kind == "tag":
            setrange(t, 0, None)
        elif kind == "str":
            n = slen(t)
            if n.op not in ("int", "lin", "ite"):
                setrange(n, 0, MAXLEN)
        elif kind == "ref" and t.op == "var":
            pass
        if kind in ("ref", "sref", "val", "tag"):
            u = self.wmof(t)
            if u is not None:
                tm.refbound.setdefault(t, u)
        return t

    def wmof(self, t):
        """upper bound of refs stored in the base array of a select chain"""
        ix = None
        while t.op == "select":
            t, ix = t.args
        if t.op == "var":
            u = tm.arefb.get(t, (0, 0) if t in self.arrs else None)
            if u is None or ix is None:
                return u
            # an object created later (by a callee) can point to objects created with it
            b = upper(ix)
            return max(u, b) if b is not None else None
        return None

    def leafname(self, addr, p):
        pass

    def cell(self, addr, pt, path, sort, kind, gt):
        """(heap name, index list, sort of the value) of a leaf at an address with pointee type pt"""
        T = self.types
        if isinstance(addr, Addr):
            if addr.kind == "F":
                full = addr.path + path
                if "[]" in full:
                    pre, post = full.split("[]", 1)
                    at = self.atype(addr.bt, pre)
                    sub = T.encode(Addr("F", addr.base, None, addr.bt, pre, at))
                    return ("M:" + T.canon(T.elem(at)) + post, [sub])
                return ("F:" + addr.bt + full, [addr.base])
            if addr.kind == "E":
                if "[]" in path or "[]" in addr.path:
                    raise Undecided("array inside slice element")
                return ("M:" + addr.bt + addr.path + path, [addr.base, addr.idx])
            if addr.kind == "G":
                return ("V:" + addr.base + addr.path + path, [])
            raise Undecided("address kind")
        k = T.kind(pt)
        ct = T.canon(pt)
        if k == "struct":
            if "[]" in path:
                pre, post = path.split("[]", 1)
                at = self.atype(ct, pre)
                sub = T.encode(Addr("F", addr, None, ct, pre, at))
                return ("M:" + T.canon(T.elem(at)) + post, [sub])
            return ("F:" + ct + path, [addr])
        if k == "array":
            return ("M:" + T.canon(T.elem(pt)) + path[2:], [addr])
        return ("C:" + ct + path, [addr])

    def atype(self, t, path):
        for n in [x for x in path.split(".") if x]:
            for fn, ft, e in self.types.fields(t):
                if fn == n:
                    t = ft
                    break
            else:
                raise Undecided("path %s of %s" % (path, t))
        return self.types.canon(t)

    def hsort(self, n, sort):
        for _ in range(n):
            sort = arr("Int", sort)
        return sort

    def load(self, st, addr, pt):
        T = self.types
        out = []
        for (p, s, k, gt) in T.leaves(pt):
            name, ix = self.cell(addr, pt, p, s, k, gt)
            a = self.heap(st, name, self.hsort(len(ix), s))
            for i in ix:
                self.cur = st
                a = select(a, i)
            out.append(self.ranged(a, k, gt))
        return T.unflatten(pt, iter(out))

    def store(self, st, addr, pt, v):
        T = self.types
        self.cur = st
        ls = T.flatten(v, pt)
        for (p, s, k, gt), x in zip(T.leaves(pt), ls):
            if isinstance(x, FuncV):
                x = x.term
            name, ix = self.cell(addr, pt, p, s, k, gt)
            a = self.heap(st, name, self.hsort(len(ix), s))
            if not ix:
                n = x
            elif len(ix) == 1:
                n = tm.store(a, ix[0], x)
            else:
                n = tm.store(a, ix[0], tm.store(select(a, ix[0]), ix[1], x))
            st.heap[name] = n

    def row(self, st, et, leaf, ref):
        name = "M:" + self.types.canon(et) + leaf
        s = [l for l in self.types.leaves(et) if l[0] == leaf][0][1]
        a = self.heap(st, name, arr("Int", arr("Int", s)))
        return select(a, ref)

    def setrow(self, st, et, leaf, ref, r):
        name = "M:" + self.types.canon(et) + leaf
        s = [l for l in self.types.leaves(et) if l[0] == leaf][0][1]
        a = self.heap(st, name, arr("Int", arr("Int", s)))
        st.heap[name] = tm.store(a, ref, r)

    def bytes_of(self, st, sl):
        """contents of a byte slice as a Str"""
        self.cur = st
        return sofarr(self.row(st, "uint8" if "uint8" in self.prog.types else "byte", "", sl.ref), sl.off, sl.len)

    def bt(self):
        return "uint8" if "uint8" in self.prog.types else "byte"

    def newbytes(self, st, s, n=None):
        """fresh []byte holding the Str s"""
        self.cur = st
        n = slen(s) if n is None else n
        r = self.alloc(st)
        self.setrow(st, self.bt(), "", r, aofs(s))
        return Slice(r, ZERO, n, n)

    def newobj(self, st, t):
        r = self.alloc(st)
        self.store(st, r, t, self.types.zero(t))
        if t == "bytes.Buffer":
            self.ext.gset(self, st, "buf", r, EMPTY)
            self.ext.gset(self, st, "bufpos", r, ZERO)
        return r

    def freshval(self, st, t, name="v", wm=None):
        out = []
        for (p, s, k, gt) in self.types.leaves(t):
            v = fresh(name + p, s)
            if k in ("ref", "sref", "val", "tag"):
                tm.refbound[v] = wm if wm is not None else upper(st.wm)
            if k == "val":
                pass
            self.ranged(v, k, gt)
            if k == "ref" and self.types.kind(gt) in ("ptr", "map"):
                setrange(v, 0, None)
            if k == "arr":
                lk = [l for l in self.types.leaves(self.types.elem(gt))]
                if lk[0][2] == "int":
                    lo, hi = irange(self.types.basic(lk[0][3]))
                    tm.arng[v] = (lo, hi)
            out.append(v)
        v = self.types.unflatten(t, iter(out))
        self.wf(st, v, t)
        return v

    def wf(self, st, v, t):
        """well-formedness facts of a Go value"""
        k = self.types.kind(t)
        if k == "slice":
            st.assume(Le(v.len, v.cap))
            st.assume(Implies(Eq(v.ref, ZERO), Eq(v.cap, ZERO)))
        elif k == "iface":
            st.assume(Implies(Eq(v.tag, ZERO), Eq(v.val, ZERO)))
        elif k == "struct":
            for (n, ft, e), x in zip(self.types.fields(t), v.fs):
                self.wf(st, x, ft)

    # ---- interface boxing ---------------------------------------------------------------
    def mkiface(self, st, v, t):
        T = self.types
        tg = I(T.tag(t))
        k = T.kind(t)
        if k in ("ptr", "map", "chan"):
            if isinstance(v, Addr):
                return Iface(tg, T.encode(v))
            return Iface(tg, v)
        if k == "int":
            return Iface(tg, v)
        if k == "iface":
            return v
        ls = T.flatten(v, t)
        ls = [x.term if isinstance(x, FuncV) else x for x in ls]
        n = "box:" + T.canon(t)
        declare(n, [x.sort for x in ls], "Int")
        return Iface(tg, app(n, *ls))

    def unbox(self, st, i, t):
        T = self.types
        k = T.kind(t)
        if k in ("ptr", "map", "chan"):
            return T.decode(i.val) if k == "ptr" else i.val
        if k == "int":
            return self.ranged(i.val, "int", t)
        n = "box:" + T.canon(t)
        if i.val.op == "app" and i.val.args[0] == n:
            return T.unflatten(t, iter(i.val.args[1:]))
        out = []
        for j, (p, s, kk, gt) in enumerate(T.leaves(t)):
            u = "unbox:%s:%d" % (T.canon(t), j)
            declare(u, ["Int"], s)
            x = app(u, i.val)
            if kk in ("ref", "sref", "val"):
                b = tm.refbound.get(i.val)
                if b:
                    tm.refbound[x] = b
            out.append(self.ranged(x, kk, gt))
        return T.unflatten(t, iter(out))

    # ---- obligations --------------------------------------------------------------------
    def oblige(self, st, goal, name, pos=None, kind="ensures", tags=(), clause=None, vals=None):
        if self.dry:
            return
        o = Ob()
        o.name, o.func, o.goal, o.pos, o.kind, o.tags = name, self.stack[0] if self.stack else "", goal, pos, kind, tags
        o.facts = list(st.facts)
        o.trail = st.trail
        o.clause = clause
        o.vals = vals
        o.res = None
        if goal is TRUE:
            o.res = ("unsat", "simplifier", None, "")
        elif not hasq(goal) and self.known(st, goal):
            o.res = ("unsat", "z3-5.3 (in process)", None, "")
        self.obs.append(o)

    def check(self, st, cond, what, pos):
        """runtime check: panics unless cond"""
        if cond is TRUE:
            if self.safety and not self.dry:
                self.oblige(st, TRUE, "safe:%s" % what, pos, "safety")
            return
        if self.safety:
            self.oblige(st, cond, "safe:%s" % what, pos, "safety")
        st.assume(cond)

    # ---- running --------------------------------------------------------------------------
    def run(self, st, fid, args, binds=()):
        """outcomes: list of (state, kind, values)"""
        fn = self.prog.func(fid)
        if fn is None or not fn.blocks:
            raise Undecided("no body for " + fid)
        if len(self.stack) > 30:
            raise Undecided("inlining too deep at " + fid)
        if self.stack.count(fid) > 1:
            raise Undecided("recursion through " + fid)
        fr = Fr()
        fr.fn = fn
        fr.regs = {}
        fr.defers = []
        fr.active = {}
        fr.unroll = {}
        fr.depth = len(self.stack)
        fr.entry = st.copy()
        for (n, t), v in zip(fn.params, args):
            fr.regs["p:" + n] = v
        for (n, t), v in zip(fn.free, binds):
            fr.regs["f:" + n] = v
        self.stack.append(fid)
        try:
            return self.block(st, fr, 0, None)
        finally:
            self.stack.pop()

    def val(self, fr, v):
        if v is None:
            return None
        k = v["k"]
        T = self.types
        if k == "reg":
            return fr.regs[v["id"]]
        if k == "param":
            return fr.regs["p:" + v["id"]]
        if k == "free":
            return fr.regs["f:" + v["id"]]
        if k == "int":
            return I(int(v["c"]))
        if k == "bool":
            return B(v["c"])
        if k == "str":
            return strlit(v["c"])
        if k == "zero":
            return T.zero(v["t"])
        if k == "global":
            return Addr("G", v["id"], None, None, "", T.elem(v["t"]))
        if k == "func":
            return self.mkfunc(v["id"], [], [])
        if k == "other":
            return fresh("const", "Int")
        if k == "builtin":
            return v["id"]
        raise Undecided("value " + k)

    def mkfunc(self, fid, binds, leaves):
        n = "clo:" + fid
        declare(n, [x.sort for x in leaves], "Int")
        t = app(n, *leaves)
        setrange(t, 1, None)
        self.fidx[n] = (fid, binds)
        return FuncV(fid, binds, t)

    def asfunc(self, v):
        if isinstance(v, FuncV):
            return v
        if v.op == "ite":
            v = self.cloite(v)
        if v.op == "app" and v.args[0].startswith("clo:"):
            fid = v.args[0][4:]
            fn = self.prog.func(fid)
            if fn is None or not fn.free:
                return FuncV(fid, [], v)
            it = iter(v.args[1:])
            return FuncV(fid, [self.types.unflatten(t, it) for n, t in fn.free], v)
        return None

    def cloite(self, v):
        """a choice between closures of one function is one closure over chosen variables"""
        if v.op != "ite":
            return v
        c, a, b = v.args[0], self.cloite(v.args[1]), self.cloite(v.args[2])
        if a.op == "app" and b.op == "app" and a.args[0] == b.args[0] and a.args[0].startswith("clo:"):
            return app(a.args[0], *[Ite(c, p, q) for p, q in zip(a.args[1:], b.args[1:])])
        return v

    def block(self, st, fr, b, prev, skiploop=False):
        fn = fr.fn
        if self.deadline and time.time() > self.deadline:
            raise Undecided("time budget of the generator exceeded")
        if fr.active:
            for h, act in list(fr.active.items()):
                if b not in act.body:
                    # leaving the loop
                    if act.mode == "dry":
                        return []
                    fr = fr.fork()
                    fr.active = {k: v for k, v in fr.active.items() if k != h}
        for h in list(fr.unroll):
            if b not in fn.loops[h]:
                fr = fr.fork()
                del fr.unroll[h]
        if b in fn.loops and not skiploop:
            act = fr.active.get(b)
            if act is not None and prev in fn.loops[b]:
                act.back.append((st, fr, prev))
                return []
            if act is None:
                return self.loop(st, fr, b, prev)
        return self.instrs(st, self.phis(st, fr, b, prev), b, len([1 for i in fn.blocks[b]["instrs"] if i["op"] == "Phi"]))

    def phis(self, st, fr, b, prev):
        blk = fr.fn.blocks[b]
        new = {}
        dbg = 0
        for ins in blk["instrs"]:
            if ins["op"] != "Phi":
                break
            k = blk["preds"].index(prev)
            new[ins["r"]] = self.val(fr, ins["e"][k])
        if new:
            fr = fr.fork()
            fr.regs.update(new)
        return fr

    def instrs(self, st, fr, b, i):
        blk = fr.fn.blocks[b]["instrs"]
        n = len(blk)
        fr = fr.fork()
        while i < n:
            ins = blk[i]
            op = ins["op"]
            self.cur = st
            try:
                if op in ("Call", "Next") or (op in ("TypeAssert", "Lookup") and ins.get("ok")):
                    outs = self.call(st, fr, ins) if op == "Call" else self.next(st, fr, ins) if op == "Next" else self.commaok(st, fr, ins)
                    if len(outs) == 1 and outs[0][1] != "panic!":
                        st, v = outs[0]
                        if "r" in ins:
                            fr.regs[ins["r"]] = v
                        i += 1
                        continue
                    res = []
                    for st1, v in outs:
                        if v == "panic!":
                            res.append((st1, "panic", None))
                            continue
                        fr1 = fr.fork()
                        if "r" in ins:
                            fr1.regs[ins["r"]] = v
                        res.extend(self.instrs(st1, fr1, b, i + 1))
                    return res
                if op == "If":
                    c = self.val(fr, ins["x"])
                    s0, s1 = fr.fn.blocks[b]["succs"]
                    res = []
                    if c is TRUE:
                        return self.block(st, fr, s0, b)
                    if c is FALSE:
                        return self.block(st, fr, s1, b)
                    pos = ins.get("pos") or (blk[i - 1].get("pos") if i else None)
                    f0 = self.feasible(st, c)
                    f1 = self.feasible(st, Not(c))
                    for ok, cc, s in ((f0, c, s0), (f1, Not(c), s1)):
                        if not ok:
                            continue
                        st1 = st.copy()
                        st1.trail = st.trail + ((pos, s == s0),)
                        try:
                            st1.assume(cc)
                        except Dead:
                            continue
                        res.extend(self.block(st1, fr, s, b))
                    return res
                if op == "Jump":
                    return self.block(st, fr, fr.fn.blocks[b]["succs"][0], b)
                if op == "Return":
                    vals = [self.val(fr, x) for x in ins["xs"]]
                    return [(st, "ret", vals)]
                if op == "Panic":
                    if self.safety:
                        self.oblige(st, FALSE, "safe:panic", ins.get("pos"), "safety")
                    return [(st, "panic", None)]
                if op == "RunDefers":
                    outs = self.rundefers(st, fr)
                    if len(outs) == 1:
                        st = outs[0]
                        i += 1
                        continue
                    res = []
                    for st1 in outs:
                        res.extend(self.instrs(st1, fr, b, i + 1))
                    return res
                v = getattr(self, "i_" + op, None)
                if v is None:
                    raise Undecided("instruction %s at %s" % (ins.get("go", op), ins.get("pos")))
                r = v(st, fr, ins)
                if "r" in ins:
                    fr.regs[ins["r"]] = r
            except Dead:
                return []
            i += 1
        raise Undecided("fell off block")

    # ---- loops --------------------------------------------------------------------------
    def header_const(self, st, fr, h, prev):
        """is the loop condition syntactically constant for this arrival?"""
        blk = fr.fn.blocks[h]["instrs"]
        if blk[-1]["op"] != "If":
            return False
        body = fr.fn.loops[h]
        if all(s in body for s in fr.fn.blocks[h]["succs"]):
            return False
        if any(i["op"] in ("Call", "Store", "MapUpdate", "Next", "Alloc") for i in blk):
            return False
        fr = self.phis(st, fr, h, prev).fork()
        s2 = st.copy()
        try:
            for ins in blk[:-1]:
                if ins["op"] in ("Phi", "DebugRef"):
                    continue
                fr.regs[ins["r"]] = getattr(self, "i_" + ins["op"])(s2, fr, ins)
        except (Dead, Undecided, KeyError):
            return False
        return self.val(fr, blk[-1]["x"]) in (TRUE, FALSE)

    def loop(self, st, fr, h, prev):
        fn = fr.fn
        body = fn.loops[h]
        n = fr.unroll.get(h, 0)
        if n < 24:
            self.dry += 1
            try:
                c = self.header_const(st, fr, h, prev)
            finally:
                self.dry -= 1
            if c:
                fr = fr.fork()
                fr.unroll[h] = n + 1
                return self.block(st, fr, h, prev, skiploop=True)
        blk = fn.blocks[h]
        phis = [i for i in blk["instrs"] if i["op"] == "Phi"]
        k = blk["preds"].index(prev)
        init = {p["r"]: self.val(fr, p["e"][k]) for p in phis}
        st0 = st
        mods = {}
        names = None
        cands = None
        rounds = 0
        nphis = len(phis)
        # candidates refuted in an earlier round of the enclosing loop (under stronger assumptions) stay refuted
        outer = self.loopctx[-1] if self.loopctx else None
        key = (outer, fn.id, h, st0.trail[outer[1]:]) if outer else None
        gone = self.refuted.setdefault(key, set()) if key else set()
        while True:
            rounds += 1
            if rounds > 40:
                raise Undecided("loop analysis does not converge in " + fn.id)
            st1, fr1, phv = self.havoc_loop(st0, fr, phis, init, mods)
            if cands is None:
                cands = [c for c in self.candidates(st0, fr, h, phis, init, body) if c.name not in gone]
                cands2 = self.filter(st0, fr, init, cands, st0)
                gone |= {c.name for c in cands} - {c.name for c in cands2}
                cands = cands2
            dead = False
            try:
                for c in cands:
                    st1.assume(c.term(self, st1, fr1, phv, st0))
            except Dead:
                dead = True
            self.cur = st1
            act = Act()
            act.mode, act.body, act.back, act.h = "dry", body, [], h
            frd = fr1.fork()
            frd.active = dict(fr1.active)
            frd.active[h] = act
            # enclosing final-mode loops must not emit while we explore
            self.dry += 1
            self.loopctx.append((id(st0), len(st1.trail), st0))
            try:
                if not dead:
                    self.instrs(st1.copy(), frd, h, nphis)
            finally:
                self.dry -= 1
                self.loopctx.pop()
            changed = False
            for (s2, f2, p2) in act.back:
                if self.newmods(st1, s2, mods, st0):
                    changed = True
            if changed:
                cands = None
                continue
            # inductiveness
            items = []
            for (s2, f2, p2) in act.back:
                kk = blk["preds"].index(p2)
                nv = {p["r"]: self.val(f2, p["e"][kk]) for p in phis}
                for c in cands:
                    try:
                        g = c.term(self, s2, f2, nv, st0)
                    except Undecided:
                        g = FALSE
                    items.append((c, s2, g))
            bad = self.disprove(items)
            if LOOPDBG:
                for c in bad:
                    if c.strong:
                        print("   loop %s: not inductive: %s" % (blk["instrs"][0].get("pos"), c.name[:150]))
                        if c.res:
                            solve.dump(c.res[0], c.res[1], "/tmp/ind%d.smt2" % (hash(c.name) % 1000))
            if not bad:
                break
            cands = [c for c in cands if c not in bad]
            gone |= {c.name for c in bad}
        if not self.dry:
            self.loopinfo.append((fn.id, h, blk["instrs"][0].get("pos"), [c.name for c in cands], {k: str(v) for k, v in mods.items()}))
        act = Act()
        act.mode, act.body, act.back, act.h = "final", body, [], h
        frd = fr1.fork()
        frd.active = dict(fr1.active)
        frd.active[h] = act
        if dead:
            return []
        self.loopctx.append((id(st0), len(st1.trail), st0))
        try:
            return self.instrs(st1, frd, h, nphis)
        finally:
            self.loopctx.pop()

    def disprove(self, items):
        bad = set()
        todo = []
        for c, s, g in items:
            if c in bad or g is TRUE:
                continue
            if g is FALSE:
                bad.add(c)
                continue
            if not hasq(g):
                if self.known(s, g):
                    continue
                if not c.strong:
                    bad.add(c)
                    continue
            todo.append((c, s, g))
        todo = [(c, s, g) for c, s, g in todo if c not in bad]
        res = solve.decide_all([(s.facts, g) for c, s, g in todo], timeout=4, portfolio=False)
        # written invariants deserve the other solvers too, unless the first one already gave up with a model in hand
        patient = "patient" in getattr(getattr(self, "rootcon", None), "opts", ())
        def stuck(k):
            c, r = todo[k][0], res[k]
            g = todo[k][2]
            return r[0] != "unsat" and c.strong and (c.strong == 2 or patient and hasq(g) or solve.slow(r))
        hope = {}
        for k, (c, s, g) in enumerate(todo):
            if res[k][0] != "unsat":
                hope[c] = hope.get(c, True) and stuck(k)
        ks = [k for k, (c, s, g) in enumerate(todo) if hope.get(c) and stuck(k)]
        if 0 < len(ks) <= 64:
            for k, r in zip(ks, solve.decide_all([(todo[k][1].facts, todo[k][2]) for k in ks], timeout=4)):
                res[k] = r
        for (c, s, g), r in zip(todo, res):
            if r[0] != "unsat":
                bad.add(c)
                c.res = (s.facts, g)
        return bad

    def filter(self, st, fr, vals, cands, st0):
        items = []
        for c in cands:
            try:
                g = c.term(self, st, fr, vals, st0)
            except (Undecided, Dead, SyntaxError, KeyError, AttributeError):
                g = FALSE
            items.append((c, st, g))
        bad = self.disprove(items)
        if LOOPDBG:
            for c in bad:
                if c.strong:
                    print("   not initial: %s" % c.name[:150])
        return [c for c in cands if c not in bad]

    def havoc_loop(self, st0, fr, phis, init, mods):
        st1 = st0.copy()
        w0 = st0.wm
        self.newwm(st1)
        up = upper(st1.wm)
        for name, m in mods.items():
            old = self.heap(st0, name, m["sort"])
            self.hav(st1, name, old, m, w0)
        fr1 = fr.fork()
        phv = {}
        for p in phis:
            v = init[p["r"]]
            t = p["t"]
            phv[p["r"]] = self.freshval(st1, t, p.get("name") or p["r"])
        fr1.regs.update(phv)
        return st1, fr1, phv

    def hav(self, st1, name, old, m, w0):
        sort = old.sort
        if not sort.startswith("("):
            v = fresh("L." + name, sort)
            rg = self.leafrange(name)
            if rg:
                setrange(v, *rg)
            if sort == "Int":
                tm.refbound[v] = upper(st1.wm)
            st1.heap[name] = v
            return
        b = fresh("L." + name, sort)
        self.arrs[b] = name
        tm.arefb[b] = upper(st1.wm)
        if m["all"]:
            st1.heap[name] = b
            return
        a = old
        if m["new"]:
            a = hframe(w0, old, b)
        for r in m["refs"]:
            a = tm.store(a, r, select(b, r))
        st1.heap[name] = a

    def leafrange(self, name):
        return None

    def newmods(self, st1, s2, mods, st0):
        changed = False
        w0 = upper(st0.wm)
        for name in set(s2.heap) | set(st1.heap):
            a = s2.heap.get(name)
            if a is None:
                continue
            b = st1.heap.get(name)
            if b is None:
                b = self.base(name, a.sort)
            if a is b:
                continue
            m = mods.get(name)
            if m is None:
                m = {"all": False, "refs": [], "new": False, "sort": a.sort}
                if name not in st0.heap:
                    pass
            if m["all"]:
                continue
            if not a.sort.startswith("("):
                if name not in mods:
                    mods[name] = dict(m, all=True)
                    changed = True
                continue
            x = a
            ok = True
            refs, new, pend = [], False, []
            work = [a]
            seen = set()
            # stores of b itself: overwriting one of them collapses the chain
            suf = {}
            y, acc = b, []
            while y.op == "store":
                acc = acc + [y.args[1]]
                y = y.args[0]
                suf[y] = acc
            while work:
                x = work.pop()
                if x is b or x in seen:
                    continue
                seen.add(x)
                if x in suf:
                    for r in suf[x]:
                        al = asalloc(r)
                        if (al and al > w0) or self.isnew(s2, r, st0):
                            new = True
                        elif self.invariant_term(r, st0):
                            refs.append(r)
                        else:
                            pend.append(r)
                    continue
                if x.op == "store":
                    r = x.args[1]
                    al = asalloc(r)
                    if (al and al > w0) or self.isnew(s2, r, st0):
                        new = True
                    elif self.invariant_term(r, st0):
                        refs.append(r)
                    else:
                        pend.append(r)
                    work.append(x.args[0])
                elif x.op == "hframe":
                    uw = upper(x.args[0])
                    if uw >= w0:
                        new = True
                        work.append(x.args[1])
                    else:
                        ok = False
                elif x.op == "ite":
                    work.extend(x.args[1:])
                else:
                    ok = False
                if not ok:
                    break
            # a key read from memory may still be one of the known ones
            for r in pend:
                if ok and not any(self.known(s2, Eq(r, x)) for x in refs + m["refs"] if x.sort == r.sort):
                    ok = False
            if not ok:
                mods[name] = dict(m, all=True)
                changed = True
                continue
            nr = list(m["refs"])
            for r in refs:
                if r not in nr:
                    nr.append(r)
            nn = m["new"] or new
            if name not in mods or len(nr) != len(m["refs"]) or nn != m["new"]:
                if len(nr) > 6:
                    mods[name] = dict(m, all=True)
                else:
                    mods[name] = {"all": False, "refs": nr, "new": nn, "sort": a.sort}
                changed = True
        return changed

    def isnew(self, st1, r, st0):
        # interior pointers of fresh objects, or values provably above the watermark
        d = self.types.decode(r) if r.sort == "Int" else r
        if isinstance(d, Addr) and d.kind == "F":
            al = asalloc(d.base)
            return bool(al and al > upper(st0.wm))
        if r.sort == "Int":
            return self.known(st1, Gt(r, st0.wm))
        return False

    def invariant_term(self, r, st0):
        """does the term only mention symbols that existed before the loop?"""
        w = upper(st0.wm)
        mark = getattr(st0, "gcount", None)
        for v in free_vars(r):
            n = v.args[0]
            if v in tm.wm:
                if tm.wm[v] > w[0]:
                    return False
                continue
            if v not in self.prevars(st0):
                return False
        return True

    def prevars(self, st0):
        c = getattr(self, "_pv", None)
        if c is None or c[0] is not st0:
            s = set()
            for t in st0.heap.values():
                s |= free_vars(t)
            for t in st0.facts:
                s |= free_vars(t)
            for a in self.arrs:
                if a.args[0].startswith("H0."):
                    s.add(a)
            for v in self.paramvars:
                s.add(v)
            self._pv = (st0, s)
            c = self._pv
        return c[1]

    paramvars = frozenset()

    def candidates(self, st0, fr, h, phis, init, body):
        return self.c.candidates(self, st0, fr, h, phis, init, body)

    # ---- simple instructions ----------------------------------------------------------------
    def i_DebugRef(self, st, fr, ins):
        return None

    def i_Alloc(self, st, fr, ins):
        t = self.types.elem(ins["t"])
        return self.newobj(st, t)

    def wrap(self, st, r, t):
        lo, hi = irange(self.types.basic(t))
        l, h = bounds(r)
        if l is not None and h is not None and l >= lo and h <= hi:
            return r
        c = And(Le(I(lo), r), Le(r, I(hi)))
        if self.known(st, c):
            return r
        n = hi - lo + 1
        if lo == 0:
            return emod(r, n)
        return sub(emod(add(r, I(-lo)), n), I(-lo))

    def i_BinOp(self, st, fr, ins):
        x, y = self.val(fr, ins["x"]), self.val(fr, ins["y"])
        return self.binop(st, ins["o"], x, y, ins["x"]["t"], ins["t"], ins.get("pos"))

    def binop(self, st, o, x, y, xt, t, pos):
        T = self.types
        k = T.kind(xt)
        if o in ("==", "!="):
            r = self.equal(st, x, y, xt)
            return r if o == "==" else Not(r)
        if k == "string":
            if o == "+":
                return scat(x, y)
            return {"<": lambda: slt(x, y), ">": lambda: slt(y, x), "<=": lambda: Not(slt(y, x)), ">=": lambda: Not(slt(x, y))}[o]()
        if k == "bool":
            return {"&": And, "|": Or, "^": lambda a, b: Not(Eq(a, b)), "&&": And, "||": Or}[o](x, y)
        if k != "int":
            raise Undecided("operator %s on %s" % (o, xt))
        if o == "<":
            return Lt(x, y)
        if o == "<=":
            return Le(x, y)
        if o == ">":
            return Gt(x, y)
        if o == ">=":
            return Ge(x, y)
        if o == "+":
            return self.wrap(st, add(x, y), t)
        if o == "-":
            return self.wrap(st, sub(x, y), t)
        if o == "*":
            return self.wrap(st, mul(x, y), t)
        if o in ("/", "%"):
            self.check(st, Ne(y, ZERO), "division", pos)
            if not isint(y):
                lo, hi = bounds(x)
                lo2, hi2 = bounds(y)
                nonneg = ((lo is not None and lo >= 0) or self.known(st, Le(ZERO, x))) and self.known(st, Lt(ZERO, y))
                if nonneg and y.op == "ite" and isint(y.args[1]) and isint(y.args[2]):
                    return Ite(y.args[0], self.binop(st, o, x, y.args[1], xt, t, pos), self.binop(st, o, x, y.args[2], xt, t, pos))
                f = "udiv" if o == "/" else "umod"
                declare(f, ["Int", "Int"], "Int")
                r = app(f, x, y)
                if nonneg:
                    q = app("udiv", x, y) if o == "/" else None
                    if o == "%":
                        st.assume(And(Le(ZERO, r), Lt(r, y)))
                    if o == "%" and True:
                        # x = y*q + r
                        declare("udiv", ["Int", "Int"], "Int")
                        st.assume(Eq(x, add(mul(y, app("udiv", x, y)), r)))
                    setrange(r, 0, bounds(x)[1] if o == "/" else None)
                return r
            n = y.args[0]
            if n < 0:
                raise Undecided("division by negative constant")
            if self.known(st, Le(ZERO, x)):
                return ediv(x, n) if o == "/" else emod(x, n)
            q = Ite(Le(ZERO, x), ediv(x, n), neg(ediv(neg(x), n)))
            if o == "/":
                return q
            return Ite(Le(ZERO, x), emod(x, n), neg(emod(neg(x), n)))
        if o == "<<":
            if isint(y):
                return self.wrap(st, scale(1 << y.args[0], x), t)
        if o == ">>":
            if isint(y):
                return ediv(x, 1 << y.args[0])
        if o == "&":
            for a, b in ((x, y), (y, x)):
                if isint(b):
                    m = b.args[0]
                    if m == 0:
                        return ZERO
                    if m > 0:
                        lo = (m & -m).bit_length() - 1
                        if (m >> lo) in MASK:
                            w = MASK[m >> lo]
                            return scale(1 << lo, emod(ediv(a, 1 << lo), 1 << w))
        if o == "&^":
            if isint(y) and y.args[0] in MASK:
                return sub(x, emod(x, y.args[0] + 1))
        if o in ("|", "^"):
            if isint(x) and isint(y):
                return I(x.args[0] | y.args[0]) if o == "|" else I(x.args[0] ^ y.args[0])
            for a, b in ((x, y), (y, x)):
                if b is ZERO:
                    return a
                l, h = bounds(b)
                if l is not None and l >= 0 and h is not None:
                    w = h.bit_length()
                    c, d = lin(a)
                    if (c % (1 << w) == 0 and all(v % (1 << w) == 0 for v in d.values())):
                        return add(a, b)
        if isint(x) and isint(y):
            a, b = x.args[0], y.args[0]
            if o == "&":
                return I(a & b)
            if o == "&^":
                return I(a & ~b)
        n = {"|": "bor", "&": "band", "^": "bxor", "&^": "bclr", "<<": "bshl", ">>": "bshr"}[o]
        declare(n, ["Int", "Int"], "Int")
        r = app(n, x, y)
        setrange(r, *irange(T.basic(t)))
        return r

    def equal(self, st, x, y, t):
        T = self.types
        k = T.kind(t)
        if isinstance(x, Addr) or isinstance(y, Addr):
            if isinstance(x, Addr) and not isinstance(y, Addr):
                x, y = y, x
            if not isinstance(x, Addr):
                if x is ZERO:
                    return FALSE
                raise Undecided("comparison of interior pointers")
            raise Undecided("comparison of interior pointers")
        if isinstance(x, FuncV) or isinstance(y, FuncV):
            a = x.term if isinstance(x, FuncV) else x
            b = y.term if isinstance(y, FuncV) else y
            return Eq(a, b)
        if k == "slice":
            # only comparison with nil
            if y.ref is ZERO:
                return Eq(x.ref, ZERO)
            return Eq(y.ref, ZERO)
        if k == "iface":
            if isinstance(y, Iface) and y.tag is ZERO:
                return Eq(x.tag, ZERO)
            if isinstance(x, Iface) and x.tag is ZERO:
                return Eq(y.tag, ZERO)
            return And(Eq(x.tag, y.tag), Eq(x.val, y.val))
        if k in ("struct", "array"):
            return And(*[Eq(a, b) for a, b in zip(T.flatten(x, t), T.flatten(y, t))])
        return Eq(x, y)

    def i_UnOp(self, st, fr, ins):
        x = self.val(fr, ins["x"])
        o = ins["o"]
        if o == "*":
            pt = self.types.elem(ins["x"]["t"])
            if not isinstance(x, Addr):
                self.check(st, Ne(x, ZERO), "nil dereference", ins.get("pos"))
            v = self.load(st, x, pt)
            if isinstance(x, Addr) and x.kind == "G":
                return v
            self.wf(st, v, pt)
            return v
        if o == "!":
            return Not(x)
        if o == "-":
            return self.wrap(st, neg(x), ins["t"])
        if o == "^":
            lo, hi = irange(self.types.basic(ins["t"]))
            return sub(I(-1), x) if lo < 0 else sub(I(hi), x)
        raise Undecided("unary " + o)

    def i_Store(self, st, fr, ins):
        a = self.val(fr, ins["x"])
        pt = self.types.elem(ins["x"]["t"])
        if not isinstance(a, Addr):
            self.check(st, Ne(a, ZERO), "nil dereference", ins.get("pos"))
        self.store(st, a, pt, self.val(fr, ins["y"]))

    def i_ChangeType(self, st, fr, ins):
        v = self.val(fr, ins["x"])
        if isinstance(v, StructV):
            return StructV(self.types.canon(ins["t"]), v.fs)
        return v

    def i_ChangeInterface(self, st, fr, ins):
        return self.val(fr, ins["x"])

    def i_Convert(self, st, fr, ins):
        x = self.val(fr, ins["x"])
        T = self.types
        a, b = T.kind(ins["x"]["t"]), T.kind(ins["t"])
        if a == "int" and b == "int":
            return self.wrap(st, x, ins["t"])
        if a == "string" and b == "slice":
            if T.basic(T.elem(ins["t"])) != "uint8":
                raise Undecided("conversion to []rune")
            return self.newbytes(st, x)
        if a == "slice" and b == "string":
            if T.basic(T.elem(ins["x"]["t"])) != "uint8":
                raise Undecided("conversion from []rune")
            return self.bytes_of(st, x)
        if a == b and a in ("ptr", "slice", "string"):
            return x
        v = self.freshval(st, ins["t"], "conv")
        return v

    def i_MakeInterface(self, st, fr, ins):
        return self.mkiface(st, self.val(fr, ins["x"]), ins["x"]["t"])

    def i_MakeClosure(self, st, fr, ins):
        fid = ins["x"]["id"]
        fn = self.prog.func(fid)
        bs = [self.val(fr, b) for b in ins["b"]]
        leaves = []
        for (n, t), v in zip(fn.free, bs):
            leaves.extend(x.term if isinstance(x, FuncV) else x for x in self.types.flatten(v, t))
        return self.mkfunc(fid, bs, leaves)

    def mapnames(self, t):
        T = self.types
        u = T.canon(t)
        kt, et = T.p.under(t)[1]["key"], T.p.under(t)[1]["elem"]
        ks = T.leaves(kt)
        if len(ks) != 1:
            raise Undecided("map key type " + kt)
        s, _ = T.p.under(t)
        return s, ks[0][1], kt, et

    def i_MakeMap(self, st, fr, ins):
        u, ks, kt, et = self.mapnames(ins["t"])
        r = self.alloc(st)
        n = "MD:" + u
        st.heap[n] = tm.store(self.heap(st, n, arr("Int", arr(ks, "Bool"))), r, konst(FALSE, ks))
        for (p, s, k, gt) in self.types.leaves(et):
            if s in ("Int", "Bool"):
                # values outside the domain do not matter: zero is convenient
                n = "MV:" + u + p
                st.heap[n] = tm.store(self.heap(st, n, arr("Int", arr(ks, s))), r, konst(self.types.zterm(s), ks))
        return r

    def mapdom(self, st, m, t):
        u, ks, kt, et = self.mapnames(t)
        return select(self.heap(st, "MD:" + u, arr("Int", arr(ks, "Bool"))), m)

    def mapget(self, st, m, t, k):
        """(present, value)"""
        u, ks, kt, et = self.mapnames(t)
        self.cur = st
        d = select(self.mapdom(st, m, t), k)
        if m is ZERO:
            d = FALSE
        out = []
        for (p, s, kk, gt) in self.types.leaves(et):
            a = select(select(self.heap(st, "MV:" + u + p, arr("Int", arr(ks, s))), m), k)
            out.append(self.ranged(a, kk, gt))
        return d, self.types.unflatten(et, iter(out))

    def mapset(self, st, m, t, k, v):
        u, ks, kt, et = self.mapnames(t)
        self.cur = st
        n = "MD:" + u
        a = self.heap(st, n, arr("Int", arr(ks, "Bool")))
        st.heap[n] = tm.store(a, m, tm.store(select(a, m), k, TRUE))
        for (p, s, kk, gt), x in zip(self.types.leaves(et), self.types.flatten(v, et)):
            n = "MV:" + u + p
            a = self.heap(st, n, arr("Int", arr(ks, s)))
            st.heap[n] = tm.store(a, m, tm.store(select(a, m), k, x))

    def mapdel(self, st, m, t, k):
        u, ks, kt, et = self.mapnames(t)
        n = "MD:" + u
        a = self.heap(st, n, arr("Int", arr(ks, "Bool")))
        st.heap[n] = tm.store(a, m, tm.store(select(a, m), k, FALSE))

    def zero_ite(self, c, v, t):
        if c is TRUE:
            return v
        z = self.types.flatten(self.types.zero(t), t)
        x = self.types.flatten(v, t)
        return self.types.unflatten(t, iter([Ite(c, a, b) for a, b in zip(x, z)]))

    def commaok(self, st, fr, ins):
        """v, ok := ... forks on ok unless it is determined"""
        if ins["op"] == "Lookup":
            x, i = self.val(fr, ins["x"]), self.val(fr, ins["i"])
            t = ins["x"]["t"]
            ok, v = self.mapget(st, x, t, i)
            et = self.types.p.under(t)[1]["elem"]
            self.wf(st, v, et)
            mk_ = lambda s: v
        else:
            x, at = self.val(fr, ins["x"]), ins["at"]
            et = at
            if self.types.kind(at) == "iface":
                ok = self.implements(x.tag, at)
                mk_ = lambda s: x
            else:
                ok = Eq(x.tag, I(self.types.tag(at)))

                def mk_(s):
                    v = self.unbox(s, x, at)
                    self.wf(s, v, at)
                    return v
        outs = []
        f1, f0 = self.feasible(st, ok), self.feasible(st, Not(ok))
        for f, c, b in ((f1, ok, TRUE), (f0, Not(ok), FALSE)):
            if not f:
                continue
            s = st.copy() if f1 and f0 else st
            try:
                s.assume(c)
                outs.append((s, (mk_(s) if b is TRUE else self.types.zero(et), b)))
            except Dead:
                pass
        if not outs:
            raise Dead()
        return outs

    def i_Lookup(self, st, fr, ins):
        x, i = self.val(fr, ins["x"]), self.val(fr, ins["i"])
        t = ins["x"]["t"]
        if self.types.kind(t) == "string":
            self.check(st, And(Le(ZERO, i), Lt(i, slen(x))), "index", ins.get("pos"))
            return sat(x, i)
        d, v = self.mapget(st, x, t, i)
        et = self.types.p.under(t)[1]["elem"]
        self.wf(st, v, et)
        if d is FALSE:
            v = self.types.zero(et)
        elif d is not TRUE:
            v = self.zero_ite(d, v, et)
        return (v, d) if ins["ok"] else v

    def i_MapUpdate(self, st, fr, ins):
        m = self.val(fr, ins["x"])
        self.check(st, Ne(m, ZERO), "assignment to nil map", ins.get("pos"))
        self.mapset(st, m, ins["x"]["t"], self.val(fr, ins["i"]), self.val(fr, ins["y"]))

    def i_MakeSlice(self, st, fr, ins):
        n, c = self.val(fr, ins["len"]), self.val(fr, ins["cap"])
        self.check(st, And(Le(ZERO, n), Le(n, c), Le(c, I(MAXLEN))), "makeslice", ins.get("pos"))
        et = self.types.elem(ins["t"])
        r = self.alloc(st)
        for (p, s, k, gt) in self.types.leaves(et):
            self.setrow(st, et, p, r, konst(self.types.zterm(s), "Int"))
        return Slice(r, ZERO, n, c)

    def i_FieldAddr(self, st, fr, ins):
        x = self.val(fr, ins["x"])
        pt = self.types.elem(ins["x"]["t"])
        n, ft, e = self.types.fields(pt)[ins["f"]]
        if isinstance(x, Addr):
            a = Addr(x.kind, x.base, x.idx, x.bt, x.path + "." + n, self.types.canon(ft))
        else:
            self.check(st, Ne(x, ZERO), "nil dereference", ins.get("pos"))
            a = Addr("F", x, None, self.types.canon(pt), "." + n, self.types.canon(ft))
        return a

    def i_Field(self, st, fr, ins):
        return self.val(fr, ins["x"]).fs[ins["f"]]

    def arrref(self, st, x):
        """row reference of an array pointer"""
        if isinstance(x, Addr):
            if x.kind == "F":
                return self.types.encode(x)
            raise Undecided("array inside slice or global")
        return x

    def i_IndexAddr(self, st, fr, ins):
        x, i = self.val(fr, ins["x"]), self.val(fr, ins["i"])
        t = ins["x"]["t"]
        T = self.types
        if T.kind(t) == "slice":
            self.check(st, And(Le(ZERO, i), Lt(i, x.len)), "index", ins.get("pos"))
            et = T.canon(T.elem(t))
            return Addr("E", x.ref, add(x.off, i), et, "", et)
        at = T.elem(t)
        n = T.p.under(at)[1]["len"]
        self.check(st, And(Le(ZERO, i), Lt(i, I(n))), "index", ins.get("pos"))
        et = T.canon(T.elem(at))
        return Addr("E", self.arrref(st, x), i, et, "", et)

    def i_Index(self, st, fr, ins):
        x, i = self.val(fr, ins["x"]), self.val(fr, ins["i"])
        t = ins["x"]["t"]
        T = self.types
        if T.kind(t) == "string":
            self.check(st, And(Le(ZERO, i), Lt(i, slen(x))), "index", ins.get("pos"))
            return sat(x, i)
        n = T.p.under(t)[1]["len"]
        self.check(st, And(Le(ZERO, i), Lt(i, I(n))), "index", ins.get("pos"))
        et = T.elem(t)
        out = [self.ranged(select(a, i), k, gt) for a, (p, s, k, gt) in zip(x.ls, T.leaves(et))]
        return T.unflatten(et, iter(out))

    def i_Slice(self, st, fr, ins):
        x = self.val(fr, ins["x"])
        lo, hi, mx = self.val(fr, ins["lo"]), self.val(fr, ins["hi"]), self.val(fr, ins["max"])
        t = ins["x"]["t"]
        T = self.types
        k = T.kind(t)
        lo = ZERO if lo is None else lo
        if k == "string":
            hi = slen(x) if hi is None else hi
            self.check(st, And(Le(ZERO, lo), Le(lo, hi), Le(hi, slen(x))), "slice bounds", ins.get("pos"))
            return ssub(x, lo, hi)
        if k == "ptr":
            n = I(T.p.under(T.elem(t))[1]["len"])
            x = Slice(self.arrref(st, x), ZERO, n, n)
        hi = x.len if hi is None else hi
        cap = x.cap
        if mx is not None:
            self.check(st, And(Le(hi, mx), Le(mx, x.cap)), "slice bounds", ins.get("pos"))
            cap = mx
        self.check(st, And(Le(ZERO, lo), Le(lo, hi), Le(hi, cap)), "slice bounds", ins.get("pos"))
        return Slice(x.ref, add(x.off, lo), sub(hi, lo), sub(cap, lo))

    def i_Extract(self, st, fr, ins):
        return self.val(fr, ins["x"])[ins["i"]]

    def implements(self, tag, it):
        """is the dynamic type (concrete tag) assignable to interface type it?"""
        T = self.types
        name = T.tagname.get(tag.args[0]) if isint(tag) else None
        ms = T.p.under(it)[1].get("methods") or []
        if not ms:
            return Ne(tag, ZERO)
        if isint(tag) and tag.args[0] == 0:
            return FALSE
        if name:
            r = self.ext.implements(self, name, ms)
            if r is not None:
                return B(r)
        n = "impl:" + T.canon(it)
        declare(n, ["Int"], "Bool")
        return And(Ne(tag, ZERO), app(n, tag))

    def i_TypeAssert(self, st, fr, ins):
        x = self.val(fr, ins["x"])
        at = ins["at"]
        T = self.types
        if T.kind(at) == "iface":
            ok = self.implements(x.tag, at)
            if ins["ok"]:
                if ok is TRUE:
                    return (x, TRUE)
                return (Iface(Ite(ok, x.tag, ZERO), Ite(ok, x.val, ZERO)), ok)
            self.check(st, ok, "type assertion", ins.get("pos"))
            return x
        ok = Eq(x.tag, I(T.tag(at)))
        if not ins["ok"]:
            self.check(st, ok, "type assertion", ins.get("pos"))
            return self.unbox(st, x, at)
        if ok is FALSE:
            return (T.zero(at), FALSE)
        if ok is not TRUE and self.known(st, ok):
            ok = TRUE
        v = self.unbox(st, x, at)
        if ok is not TRUE:
            if isinstance(v, Addr):
                raise Undecided("type assertion yields interior pointer")
            v = self.zero_ite(ok, v, at)
        return (v, ok)

    def i_Range(self, st, fr, ins):
        x = self.val(fr, ins["x"])
        t = ins["x"]["t"]
        if self.types.kind(t) == "string":
            raise Undecided("range over string")
        u, ks, kt, et = self.mapnames(t)
        dom = self.mapdom(st, x, t)
        n = fresh("iter", "Int")
        setrange(n, 0, MAXLEN)
        it = MapIter(x, t, n, None, None)
        it.seq = n
        # position cell of the iterator lives in the ghost heap
        r = self.alloc(st)
        it.pos = r
        self.iters[x] = it
        st.heap["G:iter"] = tm.store(self.heap(st, "G:iter", arr("Int", "Int")), r, ZERO)
        fs = "kseq:" + ks
        fi = "kidx:" + ks
        declare(fs, ["Int", "Int"], ks)
        declare(fi, ["Int", ks], "Int")
        k = var("?k", ks)
        j = var("?j", "Int")
        if x is ZERO:
            st.assume(Eq(n, ZERO))
            return it
        st.assume(Forall([k], Implies(select(dom, k), And(Le(ZERO, app(fi, n, k)), Lt(app(fi, n, k), n), Eq(app(fs, n, app(fi, n, k)), k))), [(app(fi, n, k),), (select(dom, k),)] if dom.op == "select" or dom.op == "var" else [(app(fi, n, k),)]))
        st.assume(Forall([j], Implies(And(Le(ZERO, j), Lt(j, n)), And(select(dom, app(fs, n, j)), Eq(app(fi, n, app(fs, n, j)), j))), [(app(fs, n, j),)]))
        return it

    def next(self, st, fr, ins):
        it = self.val(fr, ins["x"])
        T = self.types
        u, ks, kt, et = self.mapnames(it.t)
        pos = select(self.heap(st, "G:iter", arr("Int", "Int")), it.pos)
        setrange(pos, 0, None)
        outs = []
        more = Lt(pos, it.n)
        if self.feasible(st, more):
            s = st.copy()
            try:
                s.assume(more)
                k = app("kseq:" + ks, it.n, pos)
                if T.kind(kt) == "int":
                    setrange(k, *irange(T.basic(kt)))
                d, v = self.mapget(s, it.m, it.t, k)
                s.assume(d)
                self.wf(s, v, et)
                s.heap["G:iter"] = tm.store(s.heap["G:iter"], it.pos, add(pos, ONE))
                outs.append((s, (TRUE, k, v)))
            except Dead:
                pass
        if self.feasible(st, Not(more)):
            s = st.copy()
            try:
                s.assume(Not(more))
                outs.append((s, (FALSE, ZERO if ks == "Int" else EMPTY, T.zero(et))))
            except Dead:
                pass
        if not outs:
            raise Dead()
        return outs

    # ---- calls -------------------------------------------------------------------------------
    def i_Defer(self, st, fr, ins):
        if any(h for h in fr.active):
            raise Undecided("defer inside a loop")
        args = [self.val(fr, a) for a in ins["args"]]
        fnv = self.val(fr, ins["fn"]) if "fn" in ins else self.val(fr, ins["recv"])
        fr.defers.append((ins, fnv, args))

    def rundefers(self, st, fr):
        sts = [st]
        for ins, fnv, args in reversed(fr.defers):
            out = []
            for s in sts:
                for s2, v in self.docall(s, fr, ins, fnv, args):
                    if v != "panic!":
                        out.append(s2)
            sts = out
        fr.defers = []
        return sts

    def call(self, st, fr, ins):
        args = [self.val(fr, a) for a in ins["args"]]
        fnv = self.val(fr, ins["fn"]) if "fn" in ins else self.val(fr, ins["recv"])
        return self.docall(st, fr, ins, fnv, args)

    def docall(self, st, fr, ins, fnv, args):
        if "invoke" in ins:
            return self.invoke(st, fnv, ins["itype"], ins["invoke"], args, ins)
        if ins["fn"]["k"] == "builtin":
            return self.builtin(st, fr, ins["fn"]["id"], args, ins)
        f = self.asfunc(fnv)
        if f is None:
            return self.ext.dyncall(self, st, fnv, args, ins)
        return self.callfn(st, f.fid, args, ins, f.binds)

    def result_types(self, sig):
        return [t for n, t in self.prog.types[sig]["results"] or []]

    def pack(self, vals):
        return vals[0] if len(vals) == 1 else tuple(vals) if vals else None

    def callfn(self, st, fid, args, ins=None, binds=()):
        con = self.c.for_call(fid)
        if con is not None and not (len(self.stack) == 0):
            return self.c.apply(self, con, st, args, ins)
        h = self.ext.handler(fid)
        if h is not None:
            self.used_models.add(fid)
            return h(self, st, args, ins)
        fn = self.prog.func(fid)
        if fn is not None and fn.blocks:
            self.inlined.add(fid)
            outs = self.run(st, fid, args, binds)
            res = []
            for s, k, v in outs:
                if k == "ret":
                    res.append((s, self.pack(v)))
                else:
                    res.append((s, "panic!"))
            if not res:
                raise Dead()
            if len(res) > 1 and "merge" in getattr(getattr(self, "rootcon", None), "opts", ()):
                res = self.merge(res)
            return res
        return self.ext.unknown(self, st, fid, args, ins)

    # ---- joining the outcomes of an inlined call ---------------------------------------------
    def shape(self, v):
        """outcomes are joined only when they agree on what the caller is likely to branch on"""
        if v is None or isinstance(v, (str, int)):
            return v
        if isinstance(v, tuple):
            return tuple(self.shape(x) for x in v)
        if isinstance(v, Slice):
            return ("S", v.ref, v.len) if isint(v.len) else ("S", v.ref is ZERO)
        if isinstance(v, Iface):
            return ("I", v.tag.args[0] if isint(v.tag) else "*")
        if isinstance(v, StructV):
            return ("T", v.t)
        if isinstance(v, FuncV):
            return ("F", v.fid)
        if isinstance(v, Addr):
            return ("A", v.kind, v.bt, v.path)
        if hasattr(v, "op"):
            return ("t", v.sort, v if v in (TRUE, FALSE) else v is ZERO)
        return ("x", id(v))

    def merge(self, outs):
        k = tm.ctx[0]
        tm.ctx[0] = None
        try:
            return self.merge_(outs)
        finally:
            tm.ctx[0] = k

    def merge_(self, outs):
        groups = {}
        for s, v in outs:
            groups.setdefault(self.shape(v), []).append((s, v))
        res = []
        for k, g in groups.items():
            acc = g[0]
            for o in g[1:]:
                try:
                    acc = self.merge2(acc, o)
                except NoMerge:
                    res.append(o)
            res.append(acc)
        return res

    def merge2(self, x, y):
        (s1, v1), (s2, v2) = x, y
        c = fresh("mg", "Bool")
        v = self.mval(c, v1, v2)
        s = s1.copy()
        heap = {}
        for n in set(s1.heap) | set(s2.heap):
            a, b = s1.heap.get(n), s2.heap.get(n)
            if a is None:
                a = self.base(n, b.sort)
            if b is None:
                b = self.base(n, a.sort)
            heap[n] = a if a is b else self.mheap(c, a, b)
        s.heap = heap
        i1 = {id(f) for f in s1.facts}
        i2 = {id(f) for f in s2.facts}
        s.facts, s.qf = [], []
        for f in s1.facts:
            if id(f) in i2:
                s.assume(f)
        # the order of allocation times can be chosen on the path that does not have them
        order = lambda f: f.op == "<=0" and all(v in tm.wm for v in free_vars(f))
        for f in s1.facts:
            if id(f) not in i2:
                s.assume(f if order(f) else Implies(c, f))
        for f in s2.facts:
            if id(f) not in i1:
                s.assume(f if order(f) else Implies(Not(c), f))
        if s1.wm is not s2.wm:
            self.wmn += 1
            w = var("A!%d" % self.wmn, "Int")
            tm.wm[w] = self.wmn
            s.wm = w
            s.assume(Le(s1.wm, w))
            s.assume(Le(s2.wm, w))
        n = 0
        while n < len(s1.trail) and n < len(s2.trail) and s1.trail[n] == s2.trail[n]:
            n += 1
        s.trail = s1.trail[:n]
        self.cur = s
        return (s, v)

    def mterm(self, c, a, b):
        if a is b:
            return a
        if a.op == "app" and b.op == "app" and a.args[0] == b.args[0] and a.args[0].startswith("clo:"):
            return app(a.args[0], *[self.mterm(c, p, q) for p, q in zip(a.args[1:], b.args[1:])])
        r = Ite(c, a, b)
        if a.sort == "Str":
            la, lb = bounds(slen(a)), bounds(slen(b))
            if None not in la + lb and slen(r).op not in ("int", "lin", "ite"):
                setrange(slen(r), min(la[0], lb[0]), max(la[1], lb[1]))
        return r

    def mheap(self, c, a, b):
        ka, kb = [], []
        x = a
        chain = {}
        while True:
            chain[x] = len(ka)
            if x.op != "store":
                break
            ka.append(x.args[1])
            x = x.args[0]
        y = b
        while y not in chain:
            if y.op != "store":
                return Ite(c, a, b)
            kb.append(y.args[1])
            y = y.args[0]
        r = y
        for k in dict.fromkeys((ka[:chain[y]] + kb)[::-1]):
            p, q = select(a, k), select(b, k)
            r = tm.store(r, k, self.mheap(c, p, q) if p.sort.startswith("(") else self.mterm(c, p, q))
        return r

    def mval(self, c, a, b):
        if a is b or (a is None and b is None) or (isinstance(a, (str, int)) and a == b):
            return a
        if isinstance(a, tuple):
            return tuple(self.mval(c, p, q) for p, q in zip(a, b))
        m = lambda p, q: self.mterm(c, p, q)
        if isinstance(a, Slice):
            return Slice(m(a.ref, b.ref), m(a.off, b.off), m(a.len, b.len), m(a.cap, b.cap))
        if isinstance(a, Iface):
            return Iface(m(a.tag, b.tag), m(a.val, b.val))
        if isinstance(a, StructV):
            return StructV(a.t, [self.mval(c, p, q) for p, q in zip(a.fs, b.fs)])
        if isinstance(a, Addr) and a.kind == "F":
            return Addr("F", m(a.base, b.base), None, a.bt, a.path, a.t)
        if hasattr(a, "op") and hasattr(b, "op") and a.sort == b.sort:
            return m(a, b)
        raise NoMerge()

    def invoke(self, st, recv, itype, meth, args, ins):
        T = self.types
        self.check(st, Ne(recv.tag, ZERO), "nil interface call", ins.get("pos") if ins else None)
        tag = recv.tag
        if not isint(tag):
            tag = self.resolve_tag(st, tag)
        if isint(tag):
            name = T.tagname[tag.args[0]]
            ms = (T.p.types.get(name) or {}).get("methods") or {}
            if meth in ms:
                rv = self.unbox(st, Iface(tag, recv.val), name)
                return self.callfn(st, ms[meth], [rv] + args, ins)
            h = self.ext.method(name, meth)
            if h:
                self.used_models.add("(%s).%s" % (name, meth))
                return h(self, st, [self.unbox(st, Iface(tag, recv.val), name) if name in T.p.types else recv.val] + args, ins)
        h = self.ext.imethod(self, itype, meth)
        if h:
            self.used_models.add("invoke %s.%s" % (itype, meth))
            return h(self, st, [recv] + args, ins)
        # closed-world dispatch over the implementing types of this repository
        return self.ext.unknown_invoke(self, st, recv, itype, meth, args, ins)

    def resolve_tag(self, st, tag):
        """concrete tag implied by the path facts, if any"""
        for f in reversed(st.qf):
            if f.op == "=" and (f.args[0] is tag or f.args[1] is tag):
                o = f.args[1] if f.args[0] is tag else f.args[0]
                if isint(o):
                    return o
        d = getattr(self, "_tagcache", None)
        for n, k in list(self.types.tags.items()):
            pass
        return tag

    def resolve_val(self, st, val):
        """a term that the path facts say is equal and that is not read from the heap"""
        for f in reversed(st.qf):
            if f.op == "=" and (f.args[0] is val or f.args[1] is val):
                o = f.args[1] if f.args[0] is val else f.args[0]
                if o.op != "select":
                    return o
        return val

    def builtin(self, st, fr, name, args, ins):
        T = self.types
        self.cur = st
        if name == "len":
            x = args[0]
            t = ins["args"][0]["t"]
            k = T.kind(t)
            if k == "string":
                return [(st, slen(x))]
            if k == "slice":
                return [(st, x.len)]
            if k == "map":
                declare("mlen:" + self.mapnames(t)[1], [arr(self.mapnames(t)[1], "Bool")], "Int")
                r = app("mlen:" + self.mapnames(t)[1], self.mapdom(st, x, t))
                setrange(r, 0, MAXLEN)
                return [(st, r)]
        if name == "cap":
            return [(st, args[0].cap)]
        if name == "append":
            return [(st, self.append(st, args[0], args[1], ins["args"][0]["t"], ins["args"][1]["t"]))]
        if name == "copy":
            d, s = args
            st_ = ins["args"][1]["t"]
            if T.kind(st_) == "string":
                n = Ite(Le(d.len, slen(s)), d.len, slen(s))
                row = self.row(st, self.bt(), "", d.ref)
                self.setrow(st, self.bt(), "", d.ref, afill(row, d.off, s, ZERO, n))
                return [(st, n)]
            et = T.elem(ins["args"][0]["t"])
            n = Ite(Le(d.len, s.len), d.len, s.len)
            for (p, so, k, gt) in T.leaves(et):
                row = self.row(st, et, p, d.ref)
                src = self.row(st, et, p, s.ref)
                self.setrow(st, et, p, d.ref, acopy(row, d.off, src, s.off, n))
            return [(st, n)]
        if name == "delete":
            t = ins["args"][0]["t"]
            if args[0] is not ZERO:
                self.mapdel(st, args[0], t, args[1])
            return [(st, None)]
        if name == "panic":
            if self.safety:
                self.oblige(st, FALSE, "safe:panic", ins.get("pos"), "safety")
            return [(st, "panic!")]
        if name in ("min", "max"):
            a = args[0]
            for b in args[1:]:
                a = Ite(Le(a, b), a, b) if name == "min" else Ite(Le(a, b), b, a)
            return [(st, a)]
        if name in ("print", "println"):
            return [(st, None)]
        raise Undecided("builtin " + name)

    def append(self, st, a, b, ta, tb):
        T = self.types
        et = T.elem(ta)
        if T.kind(tb) == "string":
            n = slen(b)
            self.cur = st
            r = self.alloc(st)
            row = acopy(konst(ZERO, "Int"), ZERO, self.row(st, et, "", a.ref), a.off, a.len)
            self.setrow(st, et, "", r, afill(row, a.len, b, ZERO, n))
            ln = add(a.len, n)
        else:
            r = self.alloc(st)
            for (p, so, k, gt) in T.leaves(et):
                z = konst(T.zterm(so), "Int")
                if a.len is ZERO:
                    row = z
                elif a.off is ZERO:
                    row = self.row(st, et, p, a.ref)
                else:
                    row = acopy(z, ZERO, self.row(st, et, p, a.ref), a.off, a.len)
                row = acopy(row, a.len, self.row(st, et, p, b.ref), b.off, b.len)
                self.setrow(st, et, p, r, row)
            ln = add(a.len, b.len)
        cap = fresh("cap", "Int")
        setrange(cap, 0, MAXLEN)
        st.assume(Le(ln, cap))
        nz = Ne(ln, ZERO)
        if nz is TRUE or self.known(st, nz):
            return Slice(r, ZERO, ln, cap)
        return Slice(Ite(nz, r, a.ref), Ite(nz, ZERO, a.off), ln, Ite(nz, cap, a.cap))
