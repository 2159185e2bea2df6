#!/usr/bin/env python3
"""Plants bugs: plant.py BUGFILE.py [ID...]

BUGFILE.py defines BUGS = [dict(id, property, needs, breaks, edits=[(file, old, new)...], demo=Go statements or files={name: text})].
Each is validated in a scratch copy of /repo (builds, passes the tests, the demonstration fails with it and passes without)
and written to /verif/seeded/<id>. The demonstration's Go statements may call fail(format, ...)."""
import sys, os, subprocess, json, shutil, tempfile
SEED = "/verif/seeded"
HEAD = '''package main

import (
	"fmt"
	"os"
%s)

func fail(f string, args ...interface{}) {
	fmt.Printf("FAIL: "+f+"\\n", args...)
	os.Exit(1)
}
'''
IMPORTS = [("ast.", "github.com/eaburns/toaq/ast"), ("logic.", "github.com/eaburns/toaq/logic"), ("tone.", "github.com/eaburns/toaq/tone"), ("dict.", "github.com/eaburns/toaq/dict"),
  ("strings.", "strings"), ("http.", "net/http"), ("httptest.", "net/http/httptest"), ("time.", "time"), ("sync.", "sync"), ("reflect.", "reflect"), ("exec.", "os/exec"), ("pretty.", "github.com/eaburns/pretty"), ("peg.", "github.com/eaburns/peggy/peg")]
HELP = {
 "parse(": '''func parse(s string) *ast.Text {
	t, err := ast.NewParser(s).Text()
	if err != nil {
		fail("%q does not parse: %v", s, err)
	}
	return t
}
''',
 "formula(": '''func formula(s string) string {
	st := logic.Interpret(parse(s))
	if st == nil {
		return "nil"
	}
	return logic.String(st)
}

func want(text, w string) {
	defer func() {
		if e := recover(); e != nil {
			fail("%s: panic: %v", text, e)
		}
	}()
	if g := formula(text); g != w {
		fail("%s\\n got %s\\nwant %s", text, g, w)
	}
}
''',
}
RUN = '''#!/bin/bash
# Runs demo.go against the tree in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
cp "$here/demo.go" "$d/main.go"
{ sed 's/^module .*/module demo/' "$repo/go.mod"; echo 'require github.com/eaburns/toaq v0.0.0'; echo "replace github.com/eaburns/toaq => $repo"; } > "$d/go.mod"
cp "$repo/go.sum" "$d/go.sum"
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
cd "$d" && go run%s . 
'''
def godemo(body):
    helpers = ""
    if "want(" in body or "formula(" in body: use = ["parse(", "formula("]
    elif "parse(" in body: use = ["parse("]
    else: use = []
    for u in use: helpers += HELP[u] + "\n"
    src = helpers + "func main() {\n" + body + "\n}\n" if "func main()" not in body else helpers + body
    imps = "".join('\t"%s"\n' % i for p, i in IMPORTS if p in src)
    return HEAD % imps + "\n" + src
def sh(cmd, cwd, timeout=900):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=timeout)
def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[2:]
    ok = True
    for b in ns["BUGS"]:
        if only and b["id"] not in only: continue
        out = os.path.join(SEED, b["id"])
        tmp = tempfile.mkdtemp(prefix="plant.", dir="/tmp")
        try:
            wt = tmp + "/repo"
            sh(f"cp -a /repo {wt}", "/")
            sh("git checkout -q -- . && git clean -fdq", wt)
            demo = tmp + "/demo"; os.mkdir(demo)
            if "files" in b:
                for n, t in b["files"].items(): open(f"{demo}/{n}", "w").write(t)
            else:
                open(demo + "/demo.go", "w").write(godemo(b["demo"])); sh("gofmt -w demo.go", demo)
                open(demo + "/demo.sh", "w").write(RUN % b.get("flags", ""))
            os.chmod(demo + "/demo.sh", 0o755)
            r0 = sh(f"{demo}/demo.sh", wt)
            if r0.returncode != 0:
                print(b["id"], "BAD: demo fails on the unchanged tree:\n", r0.stdout[-1500:], r0.stderr[-1500:]); ok = False; continue
            bad = False
            for f, old, new in b["edits"]:
                s = open(f"{wt}/{f}").read()
                if s.count(old) != 1:
                    print(b["id"], f"BAD: {s.count(old)} occurrences in {f} of:\n{old}"); bad = True; break
                open(f"{wt}/{f}", "w").write(s.replace(old, new))
            if bad: ok = False; continue
            bl = sh(". /opt/vp/env.sh; cd " + wt + "; go build ./...", wt)
            if bl.returncode != 0:
                print(b["id"], "BAD: does not build:", bl.stderr[-1500:]); ok = False; continue
            t = sh(". /opt/vp/env.sh; cd " + wt + "; go test -vet=off -count=1 ./... -json 2>/dev/null | grep -c '\"Action\":\"fail\"'", wt)
            if t.stdout.strip() != "0":
                t = sh(". /opt/vp/env.sh; cd " + wt + "; go test -vet=off ./... 2>&1 | grep -v '^ok' | head -40", wt)
                print(b["id"], "BAD: tests fail:", t.stdout[-1500:]); ok = False; continue
            r1 = sh(f"{demo}/demo.sh", wt)
            if r1.returncode == 0:
                print(b["id"], "BAD: demo passes with the change"); ok = False; continue
            # changed lines must be original
            diff = sh("git diff", wt).stdout
            base = sh("git diff b0a4a33 HEAD", wt).stdout
            added = {l[1:].strip() for l in base.splitlines() if l.startswith("+") and len(l) > 6}
            rem = [l[1:] for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
            own = [l for l in rem if l.strip() in added]
            note = f" (warning: {len(own)}/{len(rem)} removed lines are from fix commits: {own[:2]})" if own else ""
            shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
            for n in os.listdir(demo): shutil.copy2(f"{demo}/{n}", out)
            open(out + "/patch.diff", "w").write(diff)
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(out + "/meta.json", "w"), indent=1, ensure_ascii=False)
            open(out + "/meta.json", "a").write("\n")
            print(b["id"], "ok:", (r1.stdout + r1.stderr).strip().replace("\n", " | ")[:200] + note)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(0 if ok else 1)
main()
