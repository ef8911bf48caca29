"""Searches for a concrete failing input on the real code (run only after an obligation failed)."""
import os, json, subprocess, tempfile, shutil, re, time, threading
import ssa

HARNESS = os.path.join(ssa.VERIF, "harness")


def dictionary(prog, extra=()):
    ints, strs = set(extra), set()

    def walk(x):
        if isinstance(x, dict):
            if x.get("k") == "const":
                v = x.get("v")
                if isinstance(v, int) and not isinstance(v, bool) and -(1 << 63) <= v < (1 << 63):
                    ints.add(v)
                elif isinstance(v, str):
                    if re.fullmatch(r"-?\d+", v):
                        n = int(v)
                        if -(1 << 63) <= n < (1 << 63):
                            ints.add(n)
                    elif len(v) < 200:
                        strs.add(v)
            for y in x.values():
                walk(y)
        elif isinstance(x, list):
            for y in x:
                walk(y)
    for fid, j in prog.raw.items():
        if "go-rpmutils" in fid and j.get("blocks"):
            walk(j["blocks"])
    return {"Ints": sorted(ints), "Strs": sorted(strs)}


class Harness:
    """the harness compiled against /repo's working tree"""

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="verif-replay-")
        os.chmod(self.dir, 0o755)
        ov = {"Replace": {}}
        for f in sorted(os.listdir(HARNESS)):
            if f.endswith("_verif_test.go"):
                ov["Replace"][os.path.join(ssa.REPO, "zz_" + f)] = os.path.join(HARNESS, f)
        p = os.path.join(self.dir, "overlay.json")
        json.dump(ov, open(p, "w"))
        self.bin = os.path.join(self.dir, "harness.test")
        r = subprocess.run(["go", "test", "-c", "-overlay", p, "-o", self.bin, "."], cwd=ssa.REPO, env=ssa.goenv(), capture_output=True, text=True, timeout=400)
        self.ok = r.returncode == 0
        self.msg = r.stdout + r.stderr
        if self.ok:
            os.chmod(self.bin, 0o755)

    def run1(self, prop, shard, secs, seed, it, dic, out):
        d = os.path.join(self.dir, "w%d" % shard)
        os.makedirs(d, exist_ok=True)
        os.chmod(d, 0o777)
        env = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "HOME": d, "TMPDIR": d, "VERIF_SECS": str(secs), "VERIF_SEED": str(seed), "VERIF_SHARD": str(shard),
               "VERIF_PROGRESS": os.path.join(d, "progress"), "GOMAXPROCS": "2", "GOMEMLIMIT": "1500MiB", "VERIF_TESTDATA": os.path.join(ssa.REPO, "testdata")}
        if it is not None:
            env["VERIF_ITER"] = str(it)
        if dic:
            env["VERIF_DICT"] = dic
        cmd = [self.bin, "-test.run", "^TestVerif%s$" % prop, "-test.count=1", "-test.timeout", "%ds" % (secs + 120)]
        # never as root: nothing outside the scratch directory is writable for this user
        cmd = ["setpriv", "--reuid=65534", "--regid=65534", "--clear-groups"] + cmd
        with open(os.path.join(d, "out"), "wb") as o:
            p = subprocess.Popen(cmd, cwd=d, env=env, stdout=o, stderr=subprocess.STDOUT)
        t0 = time.time()
        while p.poll() is None:
            time.sleep(0.1)
            if self.stop and time.time() - self.stop > 1 or time.time() - t0 > secs + 150:
                p.kill()
                p.wait()
        rc = p.returncode
        txt = open(os.path.join(d, "out"), "rb").read().decode("utf8", "replace")
        fail = None
        k = txt.find("FAILING-INPUT")
        if k >= 0:
            fail = txt[k:k + 30000]
        elif rc not in (0,) and not self.stop and ("fatal error" in txt or "panic" in txt or "signal" in txt) and "SEARCHED" not in txt:
            try:
                n = open(os.path.join(d, "progress")).read().strip()
            except OSError:
                n = "?"
            fail = "FAILING-INPUT iter=%s shard=%d process crashed\n%s" % (n, shard, txt[:6000])
        if fail and not self.stop:
            self.stop = time.time()
        out.append((shard, fail, txt))

    def search(self, prop, secs, seed, dic=None, shards=6, it=None):
        if not self.ok:
            return None, "harness does not compile:\n" + self.msg[-3000:]
        out = []
        self.stop = 0
        th = [threading.Thread(target=self.run1, args=(prop, s, secs, seed, it, dic, out)) for s in (range(shards) if isinstance(shards, int) else shards)]
        for t in th:
            t.start()
        for t in th:
            t.join()
        n = sum(int(m) for _, _, x in out for m in re.findall(r"^SEARCHED (\d+)", x, re.M))
        self.searched = n
        for s, f, x in sorted(out):
            if f:
                return f, x
        return None, "no failing input among %d inputs\n" % n + "\n".join(x[-300:] for _, _, x in out)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


if __name__ == "__main__":
    import sys
    h = Harness()
    try:
        if not h.ok:
            print(h.msg)
            sys.exit(2)
        prog = ssa.Prog()
        d = os.path.join(h.dir, "dict.json")
        json.dump(dictionary(prog), open(d, "w"))
        for p in sys.argv[2:]:
            f, x = h.search(p, int(sys.argv[1]), int(os.environ.get("VERIF_SEED", "1")), d)
            print(p, "FAIL" if f else "ok", f or x.splitlines()[0])
    finally:
        h.close()
