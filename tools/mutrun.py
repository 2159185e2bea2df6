#!/usr/bin/env python3
"""Mutation runs: mutrun.py FILE(relative to /repo) COUNT SEED [PRIMARY,...] [OTHERS,...] > log
Applies random mutants to scratch copies of /repo, drops those that do not build or fail the tests,
and runs reduced checks against the rest: first the primary ones, then the others."""
import sys, os, json, random, subprocess, shutil, tempfile, threading, queue
file, count, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
primary = sys.argv[4].split(",")
others = sys.argv[5].split(",") if len(sys.argv) > 5 else []
SRC = os.environ.get("SRC", "/repo")
SCALE = float(os.environ.get("SCALE", "0.1"))
KIND = os.environ.get("KIND", "")
QUICK = {}
import re
H = "/verif/harness"
for f in os.listdir(H):
    if f.endswith(".go"):
        for m in re.finditer(r'id: "(C\d\d)", quick: (\d+)', open(H + "/" + f).read()):
            QUICK[m[1]] = int(m[2])
env = dict(os.environ, GOROOT="/opt/veriftools/go1.27.3", GOFLAGS="-mod=mod", GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off", GO111MODULE="on", GOSUMDB="off",
   PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"], GOMAXPROCS="4")
muts = [json.loads(l) for l in subprocess.run(["/tmp/mutate", SRC + "/" + file], capture_output=True, text=True, errors="replace").stdout.splitlines()]
if os.environ.get("LINES"):
    a, b = map(int, os.environ["LINES"].split("-"))
    muts = [m for m in muts if a <= m["Line"] <= b]
if KIND: muts = [m for m in muts if re.fullmatch(KIND, m["Kind"])]
random.Random(seed).shuffle(muts)
muts = muts[:count]
src = open(SRC + "/" + file, "rb").read()
q = queue.Queue()
for i, m in enumerate(muts): q.put((i, m))
lock = threading.Lock()
tot = {}
def run(cmd, cwd, timeout):
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        import signal
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return 99, "timeout"
def note(res, m, extra=""):
    with lock:
        tot[res] = tot.get(res, 0) + 1
        if res not in ("nobuild", "tests"):
            print(f"{res} {file}:{m['Line']} {m['Kind']}: {m['Old'][:150]!r} -> {m['New'][:150]!r} {extra}", flush=True)
def worker(k):
    base = tempfile.mkdtemp(prefix="mut", dir="/tmp")
    repo = base + "/repo"
    shutil.copytree(SRC, repo, ignore=shutil.ignore_patterns(".git"))
    open(repo + "/go.sum", "w").write("".join(sorted(set(open(SRC + "/go.sum").readlines() + open("/opt/vp/extra.sum").readlines() + open(H + "/go.sum").readlines()))))
    for n in ("go.mod", "go.sum"): shutil.copy(f"{H}/{n}", f"{base}/h.{n[3:]}")
    s = open(base + "/h.mod").read().replace("=> /repo", "=> " + repo)
    open(base + "/h.mod", "w").write(s)
    while True:
        try: i, m = q.get_nowait()
        except queue.Empty: break
        open(f"{repo}/{file}", "wb").write(src[:m["Beg"]] + m["New"].encode() + src[m["End"]:])
        rc, out = run(["go", "build", "./..."], repo, 120)
        if rc: note("nobuild", m); continue
        rc, out = run(["go", "test", "-vet=off", "-timeout", "60s", "./..."], repo, 120)
        if rc: note("tests", m); continue
        rc, out = run(["go", "build", "-mod=mod", f"-modfile={base}/h.mod", "-o", base + "/vmon", "."], H, 200)
        if rc: note("HARNESS", m, out[:300]); continue
        killed = None
        need = primary + others
        if "C13" in need:
            os.makedirs(base + "/bin", exist_ok=True)
            rc, out = run(["go", "build", "-mod=mod", f"-modfile={base}/h.mod", "-race", "-o", base + "/bin/toneburst", "./toneburst"], H, 200)
            if rc: note("HARNESS", m, out[:300]); continue
        if any(c in ("C23", "C24", "C26") for c in need):
            os.makedirs(base + "/bin", exist_ok=True)
            for c, pkg, name in (("C23", "./server", "server"), ("C26", ".", "toaq")):
                if c in need:
                    run(["go", "build", "-o", f"{base}/bin/{name}", pkg], repo, 200)
            if "C24" in need:
                chat = run(["go", "list", "-m", "-f", "{{.Dir}}", "github.com/velour/chat"], repo, 60)[1].strip()
                shutil.rmtree(base + "/chat", ignore_errors=True)
                shutil.copytree(chat, base + "/chat"); subprocess.run(["chmod", "-R", "u+w", base + "/chat"])
                for f in os.listdir(base + "/chat/discord"): os.remove(base + "/chat/discord/" + f)
                shutil.copy(H + "/fakechat/discord/discord.go", base + "/chat/discord/")
                if not os.path.exists(base + "/chat/go.mod"): open(base + "/chat/go.mod", "w").write("module github.com/velour/chat\n\ngo 1.13\n")
                open(base + "/r.mod", "w").write(open(repo + "/go.mod").read() + f"\nreplace github.com/velour/chat => {base}/chat\n")
                open(base + "/r.sum", "w").write("".join(sorted(set(open(repo + "/go.sum").readlines() + open(H + "/go.sum").readlines()))))
                rc, out = run(["go", "build", "-mod=mod", f"-modfile={base}/r.mod", "-o", base + "/bin/bot", "./bot"], repo, 200)
                if rc: note("HARNESS", m, out[:300]); continue
        for c in need:
            shutil.rmtree(base + "/run", ignore_errors=True); os.makedirs(base + "/run"); os.makedirs(base + "/out", exist_ok=True)
            n = max(50, int(QUICK[c] * SCALE)) if c in QUICK else 8
            rc, out = run([base + "/vmon", "-prop", c, "-dir", base + "/run", "-out", base + "/out", "-bin", base + "/bin", "-repo", repo, "-cases", str(n), "-seed", str(seed)], base, 300)
            if rc == 1 and "VIOLATION" in out:
                killed = c; break
            if rc != 0:
                killed = f"{c}?rc={rc} {out[:200]}"; break
        if killed is None: note("SURVIVED", m)
        elif killed in primary: note("primary", m, killed) if os.environ.get("V") else tot.update(killed=tot.get("killed", 0) + 1)
        else: note("OTHER", m, killed)
    shutil.rmtree(base)
ts = [threading.Thread(target=worker, args=(k,)) for k in range(int(os.environ.get("W", "5")))]
for t in ts: t.start()
for t in ts: t.join()
print("total", file, tot)
