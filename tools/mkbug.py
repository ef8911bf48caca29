#!/usr/bin/env python3
"""Makes /verif/seeded/<id> from a bug description and confirms it in a scratch copy.

usage: mkbug.py FILE   where FILE is Python defining
  id, prop, needs, breaks, edits=[(file, old, new[, count])], demo (Go test source body) [, pkg='.' or 'cpio']
The demo test must be called TestDemo and fail with the bug.
"""
import sys, os, subprocess, shutil, tempfile, json, textwrap
ns = {}
exec(open(sys.argv[1]).read(), ns)
bugs = ns.get("bugs") or [ns]
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
only = sys.argv[2:]

DEMO = """#!/bin/bash
# exit 0: the property holds on this input; nonzero: it is broken
d="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
s="$(mktemp -d)"
trap 'rm -rf "$s"' EXIT
printf '{"Replace":{"%%s/%s/zz_demo_test.go":"%%s/demo_test.go","%%s/%s/zz_demolib_test.go":"%%s/demolib_test.go"}}' "$PWD" "$d" "$PWD" "$d" > "$s/overlay.json"
export TMPDIR="$s"
%sgo test -count=1 -vet=off -overlay "$s/overlay.json" -run '^TestDemo$' -timeout 120s ./%s
rc=$?
exit $rc
"""


def sh(cmd, cwd, env=None, timeout=600):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, timeout=timeout, executable="/bin/bash")


ok = True
for b in bugs:
    if only and b["id"] not in only:
        continue
    d = os.path.join(V, "seeded", b["id"])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    w = tempfile.mkdtemp(prefix="mkbug-")
    try:
        repo = os.path.join(w, "repo")
        sh("cp -a /repo %s" % repo, "/")
        sh("git checkout -q -- .", repo)
        for e in b["edits"]:
            p = os.path.join(repo, e[0])
            s = open(p).read()
            if s.count(e[1]) != (e[3] if len(e) > 3 else 1):
                print(b["id"], "EDIT DOES NOT MATCH", e[0], s.count(e[1]), e[1][:80])
                ok = False
                break
            open(p, "w").write(s.replace(e[1], e[2]))
        else:
            diff = sh("gofmt -l . ; git diff", repo).stdout
            open(os.path.join(d, "patch.diff"), "w").write(sh("git diff", repo).stdout)
            pk = b.get("pkg", ".")
            open(os.path.join(d, "demo.sh"), "w").write(DEMO % (pk, pk, b["env"] + " " if b.get("env") else "", pk))
            os.chmod(os.path.join(d, "demo.sh"), 0o755)
            open(os.path.join(d, "demo_test.go"), "w").write(b["demo"].strip() + "\n")
            lib = open(os.path.join(V, "tools", "demolib_test.go")).read()
            pname = "package " + b["demo"].split("package ", 1)[1].split()[0]
            open(os.path.join(d, "demolib_test.go"), "w").write(lib.replace("package demolib_test", pname))
            json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
            r0 = sh(os.path.join(d, "demo.sh"), "/repo")
            r1 = sh(os.path.join(d, "demo.sh"), repo)
            t = sh(". /opt/vp/env.sh; go build ./... && go vet -composites=false . 2>/dev/null; go test -count=1 ./... 2>&1", repo)
            tests = "FAIL" not in t.stdout and t.returncode == 0
            good = r0.returncode == 0 and r1.returncode != 0 and tests
            print(b["id"], "good" if good else "BAD: unchanged rc=%d patched rc=%d tests=%s" % (r0.returncode, r1.returncode, tests))
            if r1.returncode != 0:
                print("   ", "\n    ".join([l for l in r1.stdout.splitlines() if l.strip()][:3]))
            if not good:
                ok = False
                print(r0.stdout[-1500:], r0.stderr[-800:], "" if r1.returncode else r1.stdout[-800:], "" if tests else t.stdout[-1500:])
    finally:
        shutil.rmtree(w, ignore_errors=True)
sys.exit(0 if ok else 1)
