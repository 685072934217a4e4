#!/usr/bin/env python3
"""python3 tools/plant.py SPEC.py [ID...]

Makes /verif/seeded/<id>/ from a spec and keeps it only if the changed code builds,
passes the repository's tests, and its demonstration passes without and fails with
the change. A spec is a python file of calls bug(id, property, edits, demo, needs,
breaks); edits are (file, old, new) with old occurring once; demo is the body of
func TestDemo(t *testing.T) of a test outside the package (package goast_test), or inside if decls begins with //inpkg."""
import json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# Run in the repository's root: passes while the property holds.
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
tmp=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace":{"%s/zz_demo_test.go":"%s/demo_test.go.txt"}}' "$PWD" "$here" > "$tmp/overlay.json"
DEMO_DIR="$tmp" go test -vet=off -count=1 -timeout 120s RACE -overlay "$tmp/overlay.json" -run '^TestDemo$' .
'''
HEAD = '''package goast_test

import (
%s)

'''
IMPORTS = {"goast.": "github.com/yanun0323/goast", "scope.": "github.com/yanun0323/goast/scope", "kind.": "github.com/yanun0323/goast/kind",
           "helper.": "github.com/yanun0323/goast/helper", "charset.": "github.com/yanun0323/goast/charset", "assert.": "github.com/yanun0323/goast/assert",
           "strings.": "strings", "os.": "os", "bytes.": "bytes", "errors.": "errors", "exec.": "os/exec", "fmt.": "fmt", "sync.": "sync", "filepath.": "path/filepath", "reflect.": "reflect", "runtime.": "runtime", "syscall.": "syscall", "signal.": "os/signal", "time.": "time"}
BUGS = []
def bug(id, property, edits, demo, needs, breaks, race=False, decls=""):
    BUGS.append((id, property, edits, demo, needs, breaks, race, decls))

def run(cmd, cwd):
    env = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build")
    return subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")

exec(open(sys.argv[1]).read())
import re
ok = 0
for (id, prop, edits, demo, needs, breaks, race, decls) in BUGS:
    if len(sys.argv) > 2 and id not in sys.argv[2:]: continue
    work = tempfile.mkdtemp(prefix="plant.", dir="/tmp")
    try:
        repo = work + "/repo"
        subprocess.run(["git", "clone", "-q", "/repo", repo], check=True)
        d = work + "/" + id
        os.mkdir(d)
        code = decls + "\nfunc TestDemo(t *testing.T) {\n" + demo + "\n}\n"
        bare = re.sub(r'`[^`]*`|"(\\.|[^"\\])*"', '""', code)
        imps = ["testing"] + [v for k, v in IMPORTS.items() if re.search(r"(?<![\w.])" + re.escape(k), bare)]
        open(d + "/demo_test.go.txt", "w").write((HEAD.replace("_test\n", "\n", 1) if decls.startswith("//inpkg") else HEAD) % "".join('\t"%s"\n' % i for i in sorted(set(imps))) + code)
        open(d + "/demo.sh", "w").write(DEMO.replace("RACE ", "-race " if race else ""))
        os.chmod(d + "/demo.sh", 0o755)
        r = run(["bash", d + "/demo.sh"], repo)
        if r.returncode != 0:
            print(id, "DEMO FAILS ON THE UNCHANGED TREE\n", r.stdout[-1500:]); continue
        bad = False
        for f, old, new in edits:
            s = open(repo + "/" + f).read()
            if s.count(old) != 1:
                print(id, "edit matches", s.count(old), "times:", old); bad = True; break
            open(repo + "/" + f, "w").write(s.replace(old, new))
        if bad: continue
        base = run(["git", "blame", "-s", "-l"] + [edits[0][0]], repo)
        r = run(["go", "build", "./..."], repo)
        if r.returncode != 0:
            print(id, "DOES NOT BUILD\n", r.stdout[-1500:]); continue
        fmtd = run(["gofmt", "-l", "."], repo).stdout.split()
        if fmtd: run(["gofmt", "-w"] + fmtd, repo)
        r = run(["go", "test", "-json", "-vet=off", "-count=1", "-timeout", "5m", "./..."], repo)
        stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        passed = set()
        for l in r.stdout.splitlines():
            try: e = json.loads(l)
            except ValueError: continue
            if e.get("Action") == "pass" and e.get("Test"): passed.add(e["Package"] + "/" + e["Test"])
        if not stable <= passed:
            print(id, "TESTS FAIL:", sorted(stable - passed)[:5]); continue
        r = run(["bash", d + "/demo.sh"], repo)
        if r.returncode == 0:
            print(id, "DEMO PASSES WITH THE BUG"); continue
        why = [l for l in r.stdout.splitlines() if "demo_test.go" in l or "panic" in l or "RACE" in l]
        run(["git", "checkout", "--", "exported"], repo)
        diff = subprocess.run(["git", "diff"], cwd=repo, stdout=subprocess.PIPE, text=True).stdout
        # lines taken away must be the original repository's
        orig = subprocess.run(["git", "diff", "-U0"], cwd=repo, stdout=subprocess.PIPE, text=True).stdout
        removed = mine = 0
        cur = None
        for l in orig.splitlines():
            if l.startswith("--- a/"): cur = l[6:]
            m = re.match(r"@@ -(\d+)(?:,(\d+))? ", l)
            if m:
                n, c = int(m.group(1)), int(m.group(2) or 1)
                for x in range(n, n + c):
                    b = subprocess.run(["git", "blame", "-s", "-L", "%d,%d" % (x, x), "HEAD", "--", cur], cwd=repo, stdout=subprocess.PIPE, text=True).stdout
                    removed += 1
                    if not b.startswith("^"): mine += 1
        open(d + "/patch.diff", "w").write(diff)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1); open(d + "/meta.json", "a").write("\n")
        dst = ROOT + "/seeded/" + id
        if os.path.isdir(dst): shutil.rmtree(dst)
        os.makedirs(ROOT + "/seeded", exist_ok=True)
        shutil.copytree(d, dst)
        ok += 1
        print(id, prop, "ok; removes %d lines, %d of them from fix commits;" % (removed, mine), (why or [""])[0].strip()[:160])
    finally:
        shutil.rmtree(work)
print(ok, "kept")
