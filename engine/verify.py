"""Driver: runs the verification of one property."""
import sys, os, time, json, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import terms as tm
from terms import *
import solve, ssa, sym, spec, externs
from mem import Undecided, Iface, Addr

VERIF = ssa.VERIF


class Failure:
    def __init__(self, name, func, detail, text="", kind="", pos=None, model=None):
        self.name, self.func, self.detail, self.text, self.kind, self.pos, self.model = name, func, detail, text, kind, pos, model


def run_init(X, prog):
    """package initialisation: values of globals that nothing else writes"""
    written = set()
    for fid, j in prog.raw.items():
        if j["name"] == "init" and j.get("synthetic"):
            continue
        for b in j["blocks"] or []:
            for ins in b["instrs"] or []:
                o = ins["op"]
                if o == "Store" and ins["x"]["k"] == "global":
                    written.add(ins["x"]["id"])
                # the address of a global used otherwise than in a load
                if o == "UnOp" and ins["o"] == "*":
                    continue
                for k, v in ins.items():
                    vs = v if isinstance(v, list) else [v]
                    for x in vs:
                        if isinstance(x, dict) and x.get("k") == "global" and not (o == "Store" and k == "x"):
                            written.add(x["id"])
    # contents reached through a global map or slice must not be modified either
    for fid, j in prog.raw.items():
        if j["name"] == "init" and j.get("synthetic"):
            continue
        src = {}
        for b in j["blocks"] or []:
            for ins in b["instrs"] or []:
                if ins["op"] == "UnOp" and ins["o"] == "*" and ins["x"]["k"] == "global":
                    src[ins["r"]] = ins["x"]["id"]
        for b in j["blocks"] or []:
            for ins in b["instrs"] or []:
                if ins["op"] == "MapUpdate" and ins["x"].get("id") in src:
                    written.add(src[ins["x"]["id"]])
                if ins["op"] == "Call" and ins.get("fn", {}).get("k") == "builtin" and ins["fn"]["id"] in ("delete", "append", "copy"):
                    for a in ins["args"][:1]:
                        if a.get("id") in src:
                            written.add(src[a["id"]])
                if ins["op"] == "IndexAddr" and ins["x"].get("id") in src:
                    # only loads through it
                    r = ins["r"]
                    for b2 in j["blocks"]:
                        for i2 in b2["instrs"] or []:
                            if i2["op"] == "Store" and i2["x"].get("id") == r:
                                written.add(src[ins["x"]["id"]])
    X.regex = {}
    glob = {}
    for pkg in ("github.com/sassoftware/go-rpmutils/cpio", "github.com/sassoftware/go-rpmutils"):
        fid = pkg + ".init"
        fn = prog.func(fid)
        if fn is None:
            continue
        st = X.start()
        st.wm = I(-4000 + 1500 * len(glob))
        X.stack = ["init"]
        guard = pkg + ".init$guard"
        st.heap["V:" + guard] = FALSE
        old = externs.H.copy()
        try:
            outs = init_run(X, st, fn)
        finally:
            X.stack = []
        if outs is None:
            continue
        glob[pkg] = outs
    heap = {}
    for pkg, st in glob.items():
        for n, t in st.heap.items():
            if n.startswith("V:"):
                g = n[2:].split(".init$")[0]
                gid = None
                for k in prog.globals:
                    if n[2:] == k or n[2:].startswith(k + ".") and (gid is None or len(k) > len(gid)):
                        gid = k
                if gid and gid not in written:
                    heap[n] = t
            elif n.startswith("H") or n.startswith("G:"):
                pass
            else:
                heap[n] = t
    # library error values
    t = externs.ttag(X, "*errors.errorString")
    for k, (n, v) in enumerate((("io.EOF", -10), ("io.ErrUnexpectedEOF", -11), ("io.ErrShortWrite", -12))):
        heap["V:%s.tag" % n] = t
        heap["V:%s.val" % n] = I(v)
    heap["V:io.Discard.tag"] = externs.ttag(X, "io.discard")
    heap["V:io.Discard.val"] = I(1)
    X.initheap = heap
    X.immutable = sorted(set(prog.globals) - written)


def init_run(X, st, fn):
    """symbolic execution of the synthetic init function; calls of other initialisers are skipped"""
    orig = X.callfn

    def callfn(s, fid, args, ins=None, binds=()):
        if fid.endswith(".init") or ".init#" in fid:
            return [(s, None)]
        h = externs.handler(fid)
        if h:
            return orig(s, fid, args, ins, binds)
        try:
            return externs.unknown(X, s, fid, args, ins)
        except Undecided:
            rts = X.result_types(ins["sig"])
            return [(s, X.pack([X.freshval(s, t, "init") for t in rts]))]
    X.callfn = callfn
    try:
        fr = sym.Fr()
        fr.fn, fr.regs, fr.defers, fr.active, fr.unroll, fr.depth, fr.entry = fn, {}, [], {}, {}, 0, st.copy()
        outs = X.block(st, fr, 0, None)
        for s, k, v in outs:
            if k == "ret":
                return s
    finally:
        X.callfn = orig
    return None


class Run:
    def __init__(self, prop, prog=None, timeout=10, log=False, only=None):
        self.prop = prop
        self.prog = prog or ssa.Prog()
        self.C = spec.Contracts(self.prog, prop)
        self.C.builtins = externs.B_
        d = os.path.join(VERIF, "contracts")
        self.files = sorted(f for f in os.listdir(d) if f.endswith(".gs"))
        self.X = sym.X(self.prog, self.C, externs)
        for f in self.files:
            self.C.load(os.path.join(d, f))
        run_init(self.X, self.prog)
        self.X.obs = []
        self.C.install()
        self.timeout = timeout
        self.failures = []
        self.verified = []
        self.log = log
        self.only = only
        self.nob = 0
        self.ndis = 0
        self.byback = {}
        self.lemmas = []
        self.covers = 0
        self.coverfail = 0
        self.dropped = []
        self.records = []

    def roots(self):
        """functions with clauses for this property, then everything they rely on"""
        out = []
        for fid, c in self.C.cons.items():
            if "inline" in c.opts:
                continue
            has = any(self.prop in e.tags for e in c.ensures) or self.insafety(c)
            if has:
                out.append(fid)
        return out

    def definitions(self):
        for fid, c in self.C.cons.items():
            for e in c.ensures:
                if "define-" + str(e.name) in c.opts and self.C.active(e.tags) and any(self.prop in x.tags for x in c.ensures):
                    self.C.trusted.append("definition (not proved) in the contract of %s: %s" % (fid, e.src))

    def insafety(self, c):
        return self.prop in SAFETY and ("safe-" + self.prop) in c.opts

    def go(self):
        X, C = self.X, self.C
        X.safety = self.prop in SAFETY
        self.definitions()
        # lemmas first: each may use the earlier ones
        for l in C.lemmas:
            if l["tags"] and self.prop not in l["tags"]:
                continue
            t = C.lemma_term(l)
            if l["kind"] != "axiom" and not (self.only and not any(self.only in x for x in (l["name"],))):
                for k, (f, g) in enumerate(C.lemma_obligations(l)):
                    self.nob += 1
                    r = solve.decide(f, g, self.timeout)
                    self.rec("%s %s" % (l["kind"], l["name"]), "lemma", r, "lemma", l["src"])
            if l["kind"] == "axiom":
                C.trusted.append("axiom %s: %s" % (l["name"], l["src"]))
            if l["kind"] != "theorem":
                # a theorem is proved but only available where it is named
                solve.user_axioms.append((t, trig_of(t)))
            self.lemmas.append(l["name"])
        todo = self.roots()
        done = set()
        if not todo:
            raise RuntimeError("no contract mentions property " + self.prop)
        while todo:
            fid = todo.pop(0)
            if fid in done:
                continue
            done.add(fid)
            c = C.cons[fid]
            fn = self.prog.func(fid)
            if fn is None or not fn.blocks:
                if c.exported:
                    self.fail("function %s is gone" % spec.short(fid), fid, "the contract's function no longer exists")
                else:
                    # an internal helper was renamed or inlined: its callers are verified through its body
                    self.dropped.append(fid)
                    C.cons.pop(fid)
                continue
            if self.only and self.only not in fid:
                continue
            n0 = len(X.obs)
            t0 = time.time()
            X.stack = []
            before = set(X.used_contracts)
            try:
                rets = C.verify(X, c)
                obs = X.obs[n0:]
                if not rets and not obs:
                    self.fail("vacuous: %s" % spec.short(fid), fid, "no execution reaches a return")
                self.discharge(fid, obs)
                self.cover(fid, X.covers)
            except Undecided as e:
                self.fail("undecided: %s" % spec.short(fid), fid, str(e))
            except (sym.Dead,) as e:
                self.fail("vacuous: %s" % spec.short(fid), fid, "contradictory preconditions")
            except RecursionError as e:
                self.fail("undecided: %s" % spec.short(fid), fid, "recursion depth")
            except (AssertionError, KeyError, SyntaxError, AttributeError, ValueError, TypeError, IndexError) as e:
                import traceback
                tb = "\n".join(traceback.format_exc().splitlines()[-8:])
                if self.log:
                    print(tb)
                self.fail("undecided: %s" % spec.short(fid), fid, "%s: %s\n%s" % (type(e).__name__, e, tb[-1500:]))
            self.verified.append((fid, time.time() - t0))
            if self.log:
                print("  %-60s %.1fs" % (spec.short(fid), time.time() - t0))
            for f in X.used_contracts:
                if f not in done and f not in todo:
                    todo.append(f)
        return not self.failures

    def cover(self, fid, sts):
        """at least one return must be reachable together with every assumed axiom"""
        if not sts:
            return
        self.covers += 1
        # the successful returns first, the simplest ones before the others
        good = [(s, g) for s, g in sts if g is not FALSE]
        if not good and "fails" not in self.C.cons[fid].opts:
            self.fail("vacuous: %s" % spec.short(fid), fid, "no successful return is reachable")
            return
        good.sort(key=lambda x: (x[1] is not TRUE, len(x[0].facts)))
        for s, g in good[:12]:
            r = solve.decide(s.facts + ([g] if g is not TRUE else []), FALSE, 2, portfolio=False)
            if r[0] != "unsat":
                return
        if len(good) > 12:
            for r in solve.decide_all([(s.facts + ([g] if g is not TRUE else []), FALSE) for s, g in good[12:]], 2, portfolio=False):
                if r[0] != "unsat":
                    return
        self.fail("vacuous: %s" % spec.short(fid), fid, "the assumptions on the successful return paths are contradictory")

    def discharge(self, fid, obs):
        pend = [o for o in obs if o.res is None]
        # once something failed the verdict is settled: look at the rest only briefly
        for k in range(0, len(pend), 64):
            late = len(self.failures) + sum(1 for o in pend[:k] if o.res[0] != "unsat") > 4
            for o, r in zip(pend[k:k + 64], solve.decide_all([(o.facts, o.goal) for o in pend[k:k + 64]], timeout=4 if late else self.timeout, portfolio=not late)):
                o.res = r
        for o in obs:
            self.nob += 1
            nm = "%s: %s" % (spec.short(fid), o.name)
            self.rec(nm, fid, o.res, o.kind, o.clause.src if o.clause else show(o.goal), o.pos, o)

    def rec(self, name, fid, r, kind, src, pos=None, ob=None):
        ok = r[0] == "unsat"
        if ok:
            self.ndis += 1
            self.byback[r[1]] = self.byback.get(r[1], 0) + 1
        self.records.append((name, kind, ok, r[1]))
        if not ok:
            d = "obligation: %s\nkind: %s\nposition: %s\nclause: %s\nsolvers: %s\n" % (name, kind, pos, src, r[3])
            if ob is not None:
                d += "path:\n" + "".join("  %s %s\n" % (p, "taken" if b else "not taken") for p, b in ob.trail if p)
            self.failures.append(Failure(name, fid, d, r[2] or "", kind, pos, None))
            if self.log:
                print("FAILED", d)
        elif self.log == 2:
            print("ok    ", name, r[1])

    def fail(self, name, fid, detail):
        self.nob += 1
        self.failures.append(Failure(name, fid, detail, "", "generator"))
        if self.log:
            print("FAILED", name, detail)


SAFETY = ("C02", "C17")


def trig_of(t):
    """functions that make a lemma relevant: those of its first pattern, or all of them"""
    if t.op == "forall" and t.args[2]:
        s = set()
        for ps in t.args[2]:
            for p in ps:
                if p.op == "app":
                    s.add(p.args[0])
        if s:
            return s
    return set(solve.funs_of(t)) - {"slen", "sat", "ssub", "scat"} or set(solve.funs_of(t))


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--only")
    ap.add_argument("-v", type=int, default=1)
    ap.add_argument("--smt")
    ap.add_argument("--loops", action="store_true")
    ap.add_argument("--timeout", type=int, default=10)
    a = ap.parse_args()
    t0 = time.time()
    r = Run(a.prop, log=a.v, only=a.only, timeout=a.timeout)
    ok = r.go()
    print(a.prop, "OK" if ok else "FAILED", "obligations", r.nob, "discharged", r.ndis, r.byback, "%.1fs" % (time.time() - t0))
    if a.loops:
        for l in r.X.loopinfo:
            print(l)
    if a.smt:
        for f in r.failures:
            if f.text:
                open(a.smt, "w").write(f.text)
                break


if __name__ == "__main__":
    sys.setrecursionlimit(200000)
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=main)
    t.start()
    t.join()
