#!/usr/bin/env python3-vt
"""Decide one property:  check.py C01
Generates every obligation from the current /repo sources, discharges them, and in parallel runs the
native harness, which replays concrete inputs on the real code (counterexample search for a failed
obligation; bounded stand-in for the functions listed as bounded)."""
import sys, os, json, time, subprocess, tempfile, shutil, signal, multiprocessing as mp, glob, traceback, re
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE)
sys.path.insert(0, HERE); sys.setrecursionlimit(20000)
REPO = os.environ.get("LCV_REPO", "/repo")
os.environ["LCV_REPO"] = REPO
T0 = time.time()
DEADLINE = T0 + float(os.environ.get("LCV_DEADLINE", "720"))
from props import PROPS
NPROOF = 6
CFLAGS = "-w -g -O1 -std=gnu99 -fsanitize=address,undefined -fno-sanitize=nonnull-attribute -fno-sanitize-recover=undefined".split()


def log(*a): print("[%6.1fs]" % (time.time() - T0), *a, flush=True)


# ------------------------------------------------------------------ native
class Native:
    def __init__(self, cfg, tmp, tier, seed):
        self.cfg, self.tmp, self.tier, self.seed = cfg, tmp, tier, seed
        self.failed = None; self.cases = 0; self.distinct = 0; self.cover = []; self.err = None; self.procs = []; self.done = False; self.notes = []; self.samples = []
        self.src = os.path.join(V, "native", cfg["native"] + ".c")

    def build(self):
        if not os.path.exists(self.src): self.err = "no native harness"; return False
        head = open(self.src).read(3000)
        extra = re.findall(r"//\s*CFLAGS:(.*)", head); extra = extra[0].split() if extra else []
        skip = re.findall(r"//\s*SKIP:(.*)", head); skip = set(skip[0].split()) if skip else set()
        inc = ["-DUSE_TCP2", "-I" + REPO + "/include", "-I" + REPO + "/src", "-I" + V + "/native/inc", "-I" + V + "/native"]
        objs, jobs = [], []
        for f in sorted(glob.glob(REPO + "/src/*.c")):
            b = os.path.basename(f)
            if b == "backend-mpi.c" or b in skip: continue
            o = os.path.join(self.tmp, b[:-2] + ".o"); objs.append(o)
            jobs.append((f, subprocess.Popen(["gcc"] + CFLAGS + extra + inc + ["-c", f, "-o", o], stderr=subprocess.PIPE)))
        for f, p in jobs:
            e = p.communicate()[1]
            if p.returncode: self.err = "compile of %s failed: %s" % (f, e.decode()[-600:])
        if self.err: return False
        self.bin = os.path.join(self.tmp, self.cfg["native"])
        p = subprocess.run(["gcc"] + CFLAGS + extra + inc + [self.src] + objs + ["-o", self.bin, "-ldl", "-lpthread", "-lm"], stderr=subprocess.PIPE)
        if p.returncode: self.err = "harness does not build against the current sources: " + p.stderr.decode()[-800:]; return False
        return True

    def run(self, shards, budget):
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1", UBSAN_OPTIONS="print_stacktrace=1")
        env.pop("LAIK_BACKEND", None); env.pop("LAIK_LOG", None)
        self.limit = time.time() + budget * 2.5 + 40
        for i in range(shards):
            sd = self.seed + 1000 * i
            out = open(os.path.join(self.tmp, "native.%d.out" % i), "wb")
            cmd = [self.bin, "--seed", str(sd), "--budget", str(budget)] + (["--thorough"] if self.tier == "thorough" else [])
            self.procs.append((subprocess.Popen(cmd, stdout=out, stderr=subprocess.STDOUT, env=env, cwd=self.tmp, start_new_session=True), out.name, sd, cmd))

    def poll(self):
        """-> True when finished"""
        if self.done: return True
        if time.time() > self.limit:
            for p, o, sd, c in self.procs:
                if p.poll() is None: self._fail(o, sd, c, "no answer within the time limit (endless loop or deadlock)", p)
            self.kill()
        alive = False
        for p, o, sd, c in self.procs:
            if p.poll() is None: alive = True
            elif p.returncode != 0 and not self.failed: self._fail(o, sd, c, "exit code %d" % p.returncode, p)
        if self.failed: self.kill(); alive = False
        if not alive:
            self.done = True
            for p, o, sd, c in self.procs:
                t = open(o, errors="replace").read()
                m = re.findall(r"^OK total=(\d+) distinct=(\d+)", t, re.M)
                if m: self.cases += int(m[-1][0]); self.distinct += int(m[-1][1])
                for l in re.findall(r"^COVER (.*)", t, re.M): self.cover.append("seed %d: %s" % (sd, l))
                self.samples += re.findall(r"^SAMPLE (.*)", t, re.M)[:3]
            return True
        return False

    def _fail(self, o, sd, c, why, p):
        t = open(o, errors="replace").read()
        m = re.search(r"^FAILCASE (test=(\S+) case=(-?\d+) seed=(\d+) what=.*)\n(INPUT .*)?", t, re.M)
        if self.failed: return
        if m: self.failed = dict(what=m.group(1), test=m.group(2), case=m.group(3), seed=m.group(4), input=m.group(5) or "", out=t[-6000:], cmd=c)
        else: self.failed = dict(what=why, test=None, case=None, seed=sd, input="", out=t[-6000:], cmd=c)

    def kill(self):
        for p, *_ in self.procs:
            if p.poll() is None:
                try: os.killpg(p.pid, signal.SIGKILL)
                except Exception: pass
                p.wait()


# ------------------------------------------------------------------ proofs
PROG = SF = None
def job(kind, arg, mult, q, seed=0):
    import verify as VV
    VV.SEED = seed
    VV.RLIMIT_MS = int(VV.RLIMIT_MS * mult)
    try:
        if kind == "fn": r = VV.verify_function(PROG, SF, arg)
        else: r = VV.verify_lemma(PROG, SF, [l for l in SF.lemmas if l[0] == arg][0])
        q.send((r.summary(), r.status, [dict(o) for o in r.obs], r.vacuous))
    except BaseException as e:
        q.send(({"function": arg, "status": "unsupported", "msg": "%s: %s" % (type(e).__name__, e), "failed": [], "obligations": 0, "discharged": 0, "assumed": [], "inlined": [], "callee_contracts": [], "backends": {}, "solver_s": 0, "time_s": 0}, "unsupported", [], False))
    q.close()


class Proofs:
    def __init__(self, cfg):
        self.cfg = cfg; self.todo = []; self.running = {}; self.res = {}; self.err = None

    def load(self):
        global PROG, SF
        import front, spec
        PROG = front.Program()
        try: PROG.load([os.path.join(REPO, s) if False else s for s in self.cfg["src"]])
        except Exception as e: self.err = "extraction failed: %s" % e; return False
        for c in self.cfg["contracts"]: SF = spec.parse(open(os.path.join(V, c)).read(), c, SF)
        for l in self.cfg["lemmas"]: self.todo.append(("lemma", l, 1))
        for f in self.cfg["functions"]:
            if f not in SF.contracts: raise SystemExit("no contract for " + f)
            self.todo.append(("fn", f, 1))
        return True

    def step(self, nproc):
        while self.todo and len(self.running) < nproc and time.time() < DEADLINE - 5:
            k, a, m = self.todo.pop(0)
            r, w = mp.Pipe(False)
            p = mp.get_context("fork").Process(target=job, args=(k, a, m, w)); p.start(); w.close()
            self.running[(k, a)] = (p, r, m, time.time())
        # a proof that takes long gets a twin with another random seed (solver run times vary widely): the first one that succeeds counts
        if not self.todo:
            for key in list(self.running):
                if len(self.running) >= nproc: break
                if len(key) == 2 and key + (1,) not in self.running and time.time() - self.running[key][3] > 45:
                    r, w = mp.Pipe(False)
                    p = mp.get_context("fork").Process(target=job, args=(key[0], key[1], self.running[key][2], w, 101)); p.start(); w.close()
                    self.running[key + (1,)] = (p, r, self.running[key][2], time.time())
        for key in list(self.running):
            if key not in self.running: continue
            p, r, m, t = self.running[key]
            got = None
            if r.poll(0):
                try: got = r.recv()
                except EOFError: got = None
                p.join(5)
            elif not p.is_alive(): p.join()
            else: continue
            del self.running[key]
            twin = key[:2] if len(key) == 3 else key + (1,)
            if twin in self.running:
                if got is None or got[1] != "proved": continue      # the twin decides
                tp = self.running.pop(twin)[0]; tp.kill(); tp.join()
            key = key[:2]
            if got is None:
                got = ({"function": key[1], "status": "unsupported", "msg": "the verifier process died", "failed": [], "obligations": 0, "discharged": 0, "assumed": [], "inlined": [], "callee_contracts": [], "backends": {}, "solver_s": 0, "time_s": 0}, "unsupported", [], False)
            log("%-34s %-11s %3d/%3d obligations %5.1fs %s" % (got[0]["function"], got[1], got[0]["discharged"], got[0]["obligations"], time.time() - t, got[0]["msg"][:200]))
            for f in got[0]["failed"]: log("     open: %s %s (line %s): %s" % (f.get("status"), f["kind"], f.get("line"), f["text"]))
            # an unfinished proof (no counter-model) gets a second, longer attempt
            if got[1] == "failed" and m == 1 and all(f["status"] != "refuted" for f in got[0]["failed"]) and len(got[0]["failed"]) <= 3:
                self.todo.append((key[0], key[1], 4))
            self.res[key] = got
        return not self.todo and not self.running

    def stop(self):
        for p, r, m, t in self.running.values():
            p.kill(); p.join()
        self.unfinished = [k[1] for k in self.running] + [t[1] for t in self.todo if ("fn", t[1]) not in self.res]
        self.running = {}; self.todo = []


def main():
    pid = sys.argv[1]; cfg = PROPS[pid]
    tier = os.environ.get("VERIF_TIER", "quick"); seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if len(sys.argv) > 2: tier = sys.argv[2]
    os.chdir(HERE)
    tmp = tempfile.mkdtemp(prefix="lcv-" + pid + "-")
    tempfile.tempdir = tmp
    nat = Native(cfg, tmp, tier, seed); pr = Proofs(cfg)
    rc = 0
    try:
        budget = float(os.environ.get("LCV_BUDGET", "240" if tier == "thorough" else "30"))
        nshard = 4 if tier == "thorough" else 3
        pid_b = None
        ok_n = nat.build()
        if ok_n: nat.run(nshard, budget)
        else: log("native harness not available:", nat.err); nat.done = True
        ok_p = pr.load()
        if not ok_p: log(pr.err)
        pdone = not ok_p; grace = None
        while True:
            nd = nat.poll()
            if not pdone: pdone = pr.step(8 if nd else NPROOF)
            hard = [r for r in pr.res.values() if r[1] in ("failed", "vacuous")]
            if nd and pdone: break
            if nat.failed:
                if hard: break
                if grace is None: grace = time.time() + 60; log("native: FAILED", nat.failed["what"][:300])
                if time.time() > grace: break
            if time.time() > DEADLINE: log("deadline reached"); break
            time.sleep(0.05)
        if not nat.done: nat.poll()
        nat.kill(); pr.stop()
        rc = verdict(pid, cfg, tier, seed, nat, pr, ok_n, ok_p)
    finally:
        nat.kill()
        shutil.rmtree(tmp, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


def verdict(pid, cfg, tier, seed, nat, pr, ok_n, ok_p):
    obs = dis = 0; assumed = set(); inl = set(); backends = {}; smt = 0; proved = []; openf = []; unatt = []; fns = []
    for key, (s, st, ob, vac) in pr.res.items():
        s = dict(s); fns.append({k: s.get(k) for k in ("function", "status", "obligations", "discharged", "solver_s", "inlined", "callee_contracts", "msg")})
        obs += s["obligations"]; dis += s["discharged"]; assumed |= set(s["assumed"]); inl |= set(s["inlined"]); smt += s["solver_s"]
        for k, v in s["backends"].items(): backends[k] = backends.get(k, 0) + v
        if st == "proved": proved.append(s["function"])
        elif st in ("failed", "vacuous"): openf.append((s, st))
        else: unatt.append(s)
    viol = 0; path = os.path.join("replays", "%s.txt" % pid); full = os.path.join(V, path)
    for f in known(pid): print("KNOWN-FINDING: property=%s %s" % (pid, f))
    lines = []
    if openf:
        for s, st in openf:
            lines.append("obligations of %s not discharged (%s):" % (s["function"], st))
            for f in s["failed"]: lines.append("   %s  %s  at %s:%s  verifier: %s %s %s" % (f["kind"], f["text"], f.get("func"), f.get("line"), f.get("status"), f.get("reason") or "", json.dumps(f.get("model", {}))))
            if st == "vacuous": lines.append("   the function's exits are unreachable under the assumed contracts")
    if nat.failed:
        f = nat.failed; viol = 1
        lines = ["property %s is violated by the real code on this input" % pid, f["what"], f["input"],
                 "re-run: (cd /verif/lcv && python3-vt check.py --replay %s %s %s %s)" % (pid, f["test"], f["case"], f["seed"]), ""] + lines + ["", "output:", f["out"]]
        tail = ""
    elif openf:
        viol = 1; tail = " no-failing-input-found"
        lines = ["property %s: the verifier does not accept these obligations generated from the current source" % pid, ""] + lines + ["", "native replay: %d cases executed, none failed" % nat.cases]
    if viol:
        os.makedirs(os.path.dirname(full), exist_ok=True)
        open(full, "w").write("\n".join(lines) + "\n")
        for l in lines[:12]: print(l[:600])
        print("VIOLATION property=%s replay=%s%s" % (pid, full, tail), flush=True)
    for s in unatt: log("not decided by proof in this run, bounded stand-in only: %s (%s: %s)" % (s["function"], s["status"], s["msg"][:160]))
    expl = "Contract verification: %d of %d obligations of %d functions discharged; proved: %s." % (dis, obs, len(fns), ", ".join(proved) or "none")
    if unatt: expl += " Fallen back to the bounded stand-in in this run: %s." % ", ".join(s["function"] for s in unatt)
    unf = getattr(pr, "unfinished", [])
    if unf: expl += " Not finished in time: %s." % ", ".join(unf)
    expl += " Bounded (never counted as proved), executed on the real code by native/%s.c: %s; %d cases." % (cfg["native"], ", ".join(cfg["bounded"]) or "none", nat.cases)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": cfg["level"],
          "coverage": {"obligations": obs, "discharged": dis, "checker_cmd": "cd /verif/lcv && python3-vt check.py " + pid,
                       "trusted_base": ["clang 18 AST of the current sources (front.py)", "lcv/sem.py: C semantics and obligation generator", "z3, cvc5",
                                        "System V x86-64 type layout; int arithmetic is mathematical with an overflow obligation per signed operation"] + list(cfg["trusted"]) + ["assumed: " + a for a in sorted(assumed)],
                       "explanation": expl, "functions": fns, "backends": backends, "solver_s": round(smt, 2), "inlined": sorted(inl),
                       "bounded_functions": cfg["bounded"] + [s["function"] for s in unatt], "evaluations": nat.cases, "distinct_nontrivial": nat.distinct,
                       "rule": "each case is an independently seeded random input of the native harness native/%s.c compared with a brute-force oracle; distinct and non-trivial: inputs with a non-empty written-out description, counted once per description and process" % cfg["native"],
                       "samples": (nat.samples or nat.cover)[:12] or ["none"], "native_cover": nat.cover[:60], "exhaustive": False},
          "assumptions": list(cfg["assumptions"]) + sorted("trusted: " + a for a in assumed),
          "wall_s": round(time.time() - T0, 2), "violations": viol}
    if nat.err: ev["coverage"]["native_error"] = nat.err[:500]
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", pid + ".json"), "w"), indent=1)
    log("%s: %s; %d/%d obligations, %d native cases" % (pid, "VIOLATED" if viol else "holds", dis, obs, nat.cases))
    return 1 if viol else 0


def known(pid):
    try: t = open(os.path.join(V, "known-findings.txt")).read()
    except OSError: return []
    return [m.strip() for m in re.findall(r"^finding:\s*property=%s\s+(.*)$" % pid, t, re.M)]


def replay():
    pid, test, case, seed = sys.argv[2:6]
    os.chdir(HERE); tmp = tempfile.mkdtemp(prefix="lcv-replay-"); nat = Native(PROPS[pid], tmp, "quick", int(seed))
    try:
        if not nat.build(): print(nat.err); return 2
        return subprocess.run([nat.bin, "--seed", seed, "--test", test, "--case", case], cwd=tmp, env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0")).returncode
    finally: shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    if sys.argv[1] == "--replay": sys.exit(replay())
    try: main()
    except Exception:
        traceback.print_exc(); print("internal error of the check", flush=True); os._exit(3)
