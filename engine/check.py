"""One check: verifies every obligation of a property from /repo's current source."""
import sys, os, json, time, threading, re, traceback, pickle
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import ssa, verify, solve, replay, spec, assumptions

VERIF = ssa.VERIF


def known(prop):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) obligation=(\S.*?) :: (.*)", l.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


# other build configurations in which code of the property differs
VARIANTS = {"C22": [("CGO_ENABLED=0", {"CGO_ENABLED": "0"}, None)]}


class Side:
    """the same property verified for another build configuration, in a forked process"""
    def __init__(self, prop, name, env, tags, timeout):
        self.name = name
        r, w = os.pipe()
        self.pid = os.fork()
        if self.pid:
            os.close(w)
            self.r = os.fdopen(r, "rb")
            return
        os.close(r)
        box = [None]
        t = threading.Thread(target=lambda: box.__setitem__(0, self.work(prop, name, env, tags, timeout)))
        t.start()
        t.join()
        out = box[0]
        with os.fdopen(w, "wb") as f:
            pickle.dump(out, f)
        os._exit(0)

    def work(self, prop, name, env, tags, timeout):
        try:
            run = verify.Run(prop, prog=ssa.Prog(env=env, tags=tags), timeout=timeout)
            run.go()
            for f in run.failures:
                f.name = "[%s] %s" % (name, f.name)
            return dict(name=name, failures=run.failures, nob=run.nob, ndis=run.ndis, byback=run.byback, models=sorted(run.X.used_models),
                        queries=solve.stats["queries"], time=solve.stats["time"], funcs=[spec.short(f) for f, _ in run.verified])
        except BaseException as e:
            return {"name": name, "failures": [verify.Failure("[%s] generator" % name, "", "the verification conditions could not be generated: %s\n%s" % (e, traceback.format_exc()), kind="generator")]}

    def result(self):
        try:
            d = pickle.load(self.r)
        except Exception as e:
            d = {"name": self.name, "failures": [verify.Failure("[%s] generator" % self.name, "", "no result: %s" % e, kind="generator")]}
        os.waitpid(self.pid, 0)
        return d


def main():
    prop = sys.argv[1]
    if prop not in [json.loads(l)["id"] for l in open(os.path.join(VERIF, "properties.jsonl"))]:
        print("no property " + prop)
        return 2
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    rep = os.path.join(VERIF, "build", "replay")
    os.makedirs(rep, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    run = None
    failures = []
    prog = None
    try:
        prog = ssa.Prog()
    except Exception as e:
        # the tree does not compile: no answer is possible
        print("cannot load /repo: %s" % e)
        return 2
    sides = SIDES
    try:
        run = verify.Run(prop, prog=prog, timeout=10 if tier == "quick" else 30)
        run.go()
        failures = run.failures
    except Exception as e:
        tb = traceback.format_exc()
        failures = (run.failures if run else []) + [verify.Failure("generator", "", "the verification conditions could not be generated: %s\n%s" % (e, tb), kind="generator")]
    sides = [x.result() for x in sides]
    for d in sides:
        failures = failures + d["failures"]
    kn = known(prop)
    shown = set()
    live = []
    for f in failures:
        hit = [k for k in kn if k[0] == f.name]
        if hit:
            if hit[0] not in shown:
                shown.add(hit[0])
                print("KNOWN-FINDING: property=%s %s" % (prop, hit[0][1]))
        else:
            live.append(f)
    rc = 0
    found = None
    searched = 0
    if live or tier == "thorough":
        budget = 45 if live else 60
        try:
            h = replay.Harness()
            try:
                d = os.path.join(h.dir, "dict.json")
                dic = replay.dictionary(prog)
                json.dump(dic, open(d, "w"))
                inp, txt = h.search(prop, budget, seed, d)
                searched = getattr(h, "searched", 0)
            finally:
                h.close()
        except Exception as e:
            inp, txt, dic = None, "replay failed: %s" % traceback.format_exc(), {}
        if inp:
            found = inp
        if live or inp:
            rc = 1
            path = os.path.join(rep, "%s.txt" % prop)
            with open(path, "w") as o:
                o.write("property %s\n\n" % prop)
                for f in live:
                    o.write("failed obligation: %s\n%s\n" % (f.name, f.detail))
                if inp:
                    o.write("\n=== failing input found on the real code (harness TestVerif%s, seed %d) ===\n%s\n" % (prop, seed, inp))
                    o.write("\nreplay: VERIF_SEED=%d, shard and iter as printed: python3-vt engine/replay.py\n" % seed)
                else:
                    o.write("\nno failing input was found: %s\n" % txt)
                for f in live:
                    if f.text:
                        o.write("\n=== SMT-LIB text of %s ===\n%s\n" % (f.name, f.text[:400000]))
            for f in live[:20]:
                print("obligation failed: %s" % f.name)
                print("    " + "\n    ".join(f.detail.splitlines()[:8]))
            if inp:
                print("\n".join(inp.splitlines()[:12])[:3000])
                print("VIOLATION property=%s replay=%s" % (prop, path))
            else:
                print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, path))
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "proof", "wall_s": round(time.time() - t0, 2), "violations": len(live) or (1 if found else 0)}
    cov = {"checker_cmd": "/verif/check %s %s" % (prop, tier)}
    if run is not None:
        X = run.X
        cov["obligations"] = run.nob
        cov["discharged"] = run.ndis
        cov["by_back_end"] = run.byback
        cov["functions_under_contract"] = [spec.short(f) for f, _ in run.verified]
        cov["function_seconds"] = {spec.short(f): round(t, 2) for f, t in run.verified}
        cov["functions_verified_through_their_bodies"] = sorted(spec.short(f) for f in X.inlined)
        cov["contracts_without_function"] = sorted(spec.short(f) for f in run.dropped)
        cov["lemmas"] = run.lemmas
        cov["solver_queries"] = solve.stats["queries"]
        cov["solver_seconds"] = round(solve.stats["time"], 2)
        cov["vacuity_checks"] = run.covers
        cov["trusted_base"] = assumptions.trusted(run)
        ev["assumptions"] = assumptions.assumed(run)
        cov["obligation_kinds"] = {}
        for n, k, ok, b in run.records:
            cov["obligation_kinds"][k] = cov["obligation_kinds"].get(k, 0) + 1
    else:
        cov.update(obligations=0, discharged=0, trusted_base=[])
    if sides:
        cov["other_build_configurations"] = [{k: v for k, v in d.items() if k != "failures"} for d in sides]
        for d in sides:
            cov["obligations"] += d.get("nob", 0)
            cov["discharged"] += d.get("ndis", 0)
    if searched:
        cov["replay_inputs_tried"] = searched
    ev["coverage"] = cov
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    if rc == 0:
        print("%s: %d obligations from %d functions discharged in %.1f s" % (prop, cov["discharged"], len(cov.get("functions_under_contract", [])), time.time() - t0))
    return rc


if __name__ == "__main__":
    sys.setrecursionlimit(200000)
    threading.stack_size(512 * 1024 * 1024)
    box = [2]
    SIDES = [Side(sys.argv[1], n, e, tg, 10) for n, e, tg in VARIANTS.get(sys.argv[1], [])]

    def go():
        box[0] = main()
    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(box[0])
