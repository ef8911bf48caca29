"""Loads the mechanical SSA dump of /repo."""
import json, os, subprocess, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


def goenv():
    out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh; env -0"], capture_output=True, text=True).stdout
    env = dict(x.split("=", 1) for x in out.split("\0") if "=" in x)
    env.setdefault("HOME", "/root")
    return env


def ssadump_bin():
    src = os.path.join(VERIF, "ssadump")
    h = hashlib.sha256()
    for f in ("main.go", "go.mod", "go.sum"):
        p = os.path.join(src, f)
        if os.path.exists(p):
            h.update(open(p, "rb").read())
    b = os.path.join(VERIF, "build")
    os.makedirs(b, exist_ok=True)
    exe = os.path.join(b, "ssadump-" + h.hexdigest()[:16])
    if not os.path.exists(exe):
        tmp = exe + ".%d" % os.getpid()
        subprocess.run(["go", "build", "-o", tmp, "."], cwd=src, env=goenv(), check=True)
        os.rename(tmp, exe)
    return exe


class Func:
    def __init__(self, prog, j):
        self.prog = prog
        self.id = j["id"]
        self.name = j["name"]
        self.pos = j.get("pos")
        self.params = [tuple(p) for p in (j["params"] or [])]
        self.free = [tuple(p) for p in (j["free"] or [])]
        self.results = [tuple(p) for p in (j["results"] or [])]
        self.own = j.get("own")
        self.parent = j.get("parent")
        self.sig = j["sig"]
        self.synthetic = j.get("synthetic")
        self.recover = j.get("recover")
        self.blocks = j["blocks"] or []
        for b in self.blocks:
            b["preds"] = b["preds"] or []
            b["succs"] = b["succs"] or []
            b["instrs"] = b["instrs"] or []
        self._analyse()

    def _analyse(self):
        bs = self.blocks
        n = len(bs)
        if not n:
            self.loops = {}
            return
        # reverse postorder from entry
        order, seen = [], set()

        def dfs(s):
            st = [(s, iter(bs[s]["succs"]))]
            seen.add(s)
            while st:
                b, it = st[-1]
                for x in it:
                    if x not in seen:
                        seen.add(x)
                        st.append((x, iter(bs[x]["succs"])))
                        break
                else:
                    order.append(b)
                    st.pop()
        dfs(0)
        rpo = order[::-1]
        idx = {b: i for i, b in enumerate(rpo)}
        dom = {b: None for b in rpo}
        dom[0] = {0}
        changed = True
        while changed:
            changed = False
            for b in rpo:
                if b == 0:
                    continue
                ps = [dom[p] for p in bs[b]["preds"] if p in dom and dom[p] is not None]
                if not ps:
                    continue
                d = set.intersection(*ps) | {b}
                if d != dom[b]:
                    dom[b] = d
                    changed = True
        self.dom = dom
        loops = {}
        for b in rpo:
            for s in bs[b]["succs"]:
                if dom[b] and s in dom[b]:
                    body = loops.setdefault(s, set([s]))
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in body:
                            continue
                        body.add(x)
                        st.extend(p for p in bs[x]["preds"] if p in dom)
        self.loops = loops
        # loop ordinals by header order in rpo
        self.loopord = {h: i for i, h in enumerate(sorted(loops, key=lambda h: idx[h]))}
        # irreducible edges
        for b in rpo:
            for s in bs[b]["succs"]:
                if idx[s] <= idx[b] and s not in dom[b]:
                    raise RuntimeError("irreducible loop in " + self.id)
        self.reach = set(rpo)


class Prog:
    def __init__(self, extra=(), tags=None, env=None):
        args = [ssadump_bin(), REPO] + (["-tags=" + tags] if tags else []) + list(extra)
        p = subprocess.run(args, capture_output=True, env=dict(goenv(), **(env or {})))
        if p.returncode != 0:
            raise RuntimeError("ssadump failed: " + p.stderr.decode()[-2000:])
        self.text_hash = hashlib.sha256(p.stdout).hexdigest()
        d = json.loads(p.stdout)
        self.types = d["types"]
        self.globals = d["globals"]
        self.pkgs = d["pkgs"]
        self.files = d["files"]
        self.funcs = {}
        self.raw = d["funcs"]

    def func(self, fid):
        f = self.funcs.get(fid)
        if f is None:
            j = self.raw.get(fid)
            if j is None:
                return None
            f = Func(self, j)
            self.funcs[fid] = f
        return f

    def t(self, s):
        t = self.types[s]
        if t["k"] == "alias":
            return self.t(t["under"])
        return t

    def under(self, s):
        """(type string, info) of the underlying type"""
        t = self.types[s]
        while t["k"] in ("named", "alias"):
            s = t["under"]
            t = self.types[s]
        return s, t

    def canon(self, s):
        t = self.types[s]
        while t["k"] == "alias":
            s = t["under"]
            t = self.types[s]
        return s
