#!/usr/bin/env python3
"""seed.py make DEFS.py   - write /verif/seeded/<id>/ from definitions (edits are applied in a scratch worktree)
   seed.py confirm IDs..  - apply to /repo, build, run the stable tests and the demo (with and without), undo
   seed.py check IDs..    - run the property's check against the patch (scratch copy of the sources)"""
import sys, os, json, subprocess, shutil
V = "/verif"; S = V + "/seeded"
DEMO_SH = """#!/bin/bash
# cwd: the repository, already built; exit 0 if the property holds
D=$(cd "$(dirname "$0")" && pwd); R=$PWD; T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
gcc -w -g -O1 -std=gnu99 %s -I"$R/include" -I"$R/src" -I"$D" "$D/demo.c" -o "$T/demo" -L"$R/_build" -llaik -ldl -lm -lpthread -Wl,-rpath,"$R/_build" || exit 3
cd "$T" && exec env -u LAIK_BACKEND -u LAIK_LOG timeout 120 ./demo
"""
def sh(c, **k): return subprocess.run(c, shell=True, **k)
def make(f):
    ns = {}; exec(open(f).read(), ns)
    for sd in ns["SEEDS"]:
        w = "/tmp/seedwt"; sh(f"rm -rf {w}; mkdir {w}; git -C /repo archive HEAD src include external | tar x -C {w}; cd {w}; git init -q; git add -A; git -c user.email=a@b -c user.name=a commit -qm x")
        for e in sd["edits"]:
            file, old, new = e[0], e[-2], e[-1]
            t = open(f"{w}/{file}").read()
            if len(e) == 4:       # first occurrence after a marker
                a = t.index(e[1]); b = t.index(old, a); open(f"{w}/{file}", "w").write(t[:b] + new + t[b + len(old):]); continue
            if t.count(old) != 1: raise SystemExit(f"{sd['id']}: {t.count(old)} matches in {file}: {old[:80]}")
            open(f"{w}/{file}", "w").write(t.replace(old, new))
        d = f"{S}/{sd['id']}"; os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "wb").write(subprocess.check_output(["git", "-C", w, "diff"]))
        shutil.copy(V + "/tools/seedlib/demo.h", d + "/demo.h")
        for n, t in sd.get("files", {}).items(): open(f"{d}/{n}", "w").write(t)
        open(d + "/demo.c", "w").write(sd["demo"])
        open(d + "/demo.sh", "w").write(sd.get("demo_sh") or DEMO_SH % sd.get("cflags", "")); os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": sd["prop"], "needs": sd["needs"], "what_it_breaks": sd["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        print("made", sd["id"]); shutil.rmtree(w)
def demo(i):
    r = sh(f"cd /repo && timeout 300 bash {S}/{i}/demo.sh", stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return r.returncode, r.stdout.decode(errors="replace")[-400:]
def confirm(ids):
    
    assert not subprocess.check_output("git -C /repo status --porcelain", shell=True), "repo not clean"
    sh("bash /opt/vp/build.sh >/dev/null 2>&1")
    clean = {i: demo(i) for i in ids}
    for i in ids:
        try:
            if sh(f"git -C /repo apply {S}/{i}/patch.diff").returncode: print(i, "PATCH DOES NOT APPLY"); continue
            b = sh("bash /opt/vp/build.sh >/tmp/seed-build.log 2>&1").returncode
            d = demo(i) if b == 0 else (None, "")
            sh("rm -f /tmp/seed-t.json; timeout 240 bash /opt/vp/test.sh /tmp/seed-t.json >/tmp/seed-t.log 2>&1"); t = json.load(open("/tmp/seed-t.json")) if os.path.exists("/tmp/seed-t.json") else {"passed": [], "failed": ["HANG"]}
            ok = clean[i][0] == 0 and b == 0 and d[0] not in (0, None) and not t["failed"]
            print(i, "CONFIRMED" if ok else "NOT-OK", "clean", clean[i][0], clean[i][1] if clean[i][0] else "", "build", b, "demo", d, "tests", len(t["passed"]), "failed", t["failed"][:5], flush=True)
        finally: sh("git -C /repo checkout -q -- .")
    sh("bash /opt/vp/build.sh >/dev/null 2>&1")
def check(ids, extra=()):
    for i in ids:
        pid = json.load(open(f"{S}/{i}/meta.json"))["property"]; w = f"/tmp/seedck-{i}"
        sh(f"rm -rf {w}; mkdir {w}; git -C /repo archive HEAD | tar x -C {w}; cd {w} && git init -q && git apply {S}/{i}/patch.diff")
        r = sh(f"cd {V} && LCV_REPO={w} LCV_EVID=/tmp/seedck-ev python3-vt lcv/check.py {pid}", stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        o = r.stdout.decode(errors="replace"); open(f"/tmp/seedck-{i}.log", "w").write(o)
        v = [l for l in o.splitlines() if l.startswith("VIOLATION")]
        f = [l.strip() for l in o.splitlines() if "open:" in l or "FAILED" in l]
        print(i, pid, "rc", r.returncode, "CAUGHT" if r.returncode == 1 and v else "MISSED", v, f[:4], flush=True); shutil.rmtree(w)
if __name__ == "__main__":
    a = sys.argv
    {"make": lambda: make(a[2]), "confirm": lambda: confirm(a[2:]), "check": lambda: check(a[2:])}[a[1]]()
