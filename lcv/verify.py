"""Verification of one function against its contract, lemmas, and discharge."""
import copy, time, os, sys, traceback, subprocess, tempfile
import z3
from front import *
import spec as S
from sem import *

RLIMIT_MS = int(os.environ.get("LCV_TIMEOUT_MS", "8000"))


class Result:
    def __init__(self, name):
        self.name = name; self.status = None      # proved | failed | unattached | unsupported
        self.obs = []; self.msg = ""; self.time = 0; self.inlined = []; self.contracts = []
        self.assumed = []; self.failed = []; self.nfacts = 0; self.smt_time = 0; self.vacuous = False
        self.backends = {}

    def summary(self):
        return {"function": self.name, "status": self.status, "obligations": len(self.obs),
                "discharged": len([o for o in self.obs if o["status"] == "proved"]),
                "time_s": round(self.time, 2), "solver_s": round(self.smt_time, 2),
                "inlined": self.inlined, "callee_contracts": self.contracts, "assumed": self.assumed,
                "backends": self.backends, "msg": self.msg, "failed": self.failed}


def new_exec(prog, sf, opts=None, uptolemma=None):
    ex = Exec(prog, sf, opts)
    ex.gfact(ex.root(IV(0)) == 0)
    return ex


def add_theory(ex, sf, uptolemma=None, only=None):
    """axioms of logic functions, and lemmas (each proved separately)"""
    st = St({}, {}, (), IV(1))
    se = SEnv(ex, {}, st, st, None, None, None)
    for (nm, e, ln, fn) in sf.axioms:
        if only is not None and nm not in only: continue
        ex.facts.append(ex.sbool(se, e))
    for (nm, e, ind, uses, fn) in sf.lemmas:
        if nm == uptolemma: break
        if only is not None and nm not in only: continue
        if nm.startswith("local_"): continue
        ex.facts.append(ex.sbool(se, e))


def relevant_theory(sf, texts):
    """names of axioms/lemmas reachable from the logic functions a contract mentions"""
    ids = set()
    def walk(e):
        if isinstance(e, tuple):
            if e and e[0] in ("call", "id"): 
                n = e[1]
                if n not in ids:
                    ids.add(n)
                    if n in sf.preds: walk(sf.preds[n][1])
            for x in e: walk(x)
        elif isinstance(e, list):
            for x in e: walk(x)
    for t in texts: walk(t)
    need = {i for i in ids if i in sf.logics}
    names = set(); changed = True
    items = [(nm, e) for (nm, e, ln, fn) in sf.axioms] + [(l[0], l[1]) for l in sf.lemmas]
    while changed:
        changed = False
        for nm, e in items:
            if nm in names: continue
            save = set(ids); ids.clear(); walk(e); mine = {i for i in ids if i in sf.logics}; ids.clear(); ids.update(save)
            if mine and mine <= need | mine and (mine & need):
                names.add(nm); 
                if not mine <= need: need |= mine
                changed = True
    return names


def contract_exprs(sf, c, seen=None):
    out = []
    for x in c.requires + c.ensures: out.append(x[1])
    out += [e for r, e in c.assumes]
    for L in c.loops.values():
        for x in L.inv + L.hints + L.bodyhints: out.append(x[1])
        for x in L.counts: out += [x[2], x[3]]
    for hs in c.aftercall.values():
        for x in hs: out.append(x[1])
    for hs in c.asserts.values():
        for x in hs: out.append(x[1])
    for e, g in (c.assigns or []): out.append(e)
    for g, e in c.updates: out.append(e)
    return out


def gen_function(prog, sf, name, opts=None):
    """-> (Exec with facts/obligations).  Raises ExtractError / SpecError."""
    c = sf.contracts[name]
    fname = name.split("@")[0]
    fn = None
    if c.file:
        for u in prog.units.values():
            if u.path.endswith(c.file) and fname in u.funcs: fn = u.funcs[fname]
    if fn is None: fn = prog.find(fname)
    if fn is None: raise ExtractError("function %s not found in the current sources" % fname)
    ex = new_exec(prog, sf, opts)
    ex.curfn = fname
    top0 = z3.Const("top0", IntS)
    ex.gfact(top0 > 1000)
    st = St({}, {}, (), top0)
    # theory: everything reachable; callee contracts may need logic too
    texts = contract_exprs(sf, c)
    for cn in called(fn, prog, sf): texts += contract_exprs(sf, sf.contracts[cn])
    if "'triggered'" in repr(texts) or any("'triggered'" in repr(p) for p in sf.preds.values()):
        v = z3.Const("mk?", IntS); f = ex.uf("mark", IntS, BoolS); ex.facts.append(z3.ForAll([v], f(v), patterns=[f(v)]))
    only = relevant_theory(sf, texts)
    add_theory(ex, sf, None, only)
    args = []
    for p in fn.params:
        t = fn.unit.type(p["type"])
        if t.k == "arr": t = Ptr(t.to)
        nm = p.get("name", "p")
        if t.k == "struct":
            o = ex.fresh("arg." + nm); ex.gfact(z3.And(o > 0, o < top0, ex.root(o) == o, ex.tag(o) == 0, ex.objlen(o) == 1))
            args.append(StructV(o, IV(0), t)); continue
        v = ex.fresh_of("arg." + nm, t)
        if isinstance(v, PtrV):
            ex.gfact(ex.root(v.obj) < top0)
            ex.base_facts(v)
            if t.to.k == "void": v = PtrV(v.obj, IV(0), v.to, v.loc)     # untyped memory: its index origin is arbitrary
        args.append(v)
    names = {p.get("name", "?"): a for p, a in zip(fn.params, args)}
    if c.params:
        if len(c.params) != len(args): raise ExtractError("parameter count of %s changed" % name)
        for (ty, nm), a in zip(c.params, args): names[nm] = a
    old = st.copy()
    se = SEnv(ex, names, st, old, None, None, c)
    for (nme, e, ln) in c.requires: ex.gfact(ex.sbool(se, e))
    for r, e in c.assumes: ex.assumed.add(r); ex.gfact(ex.sbool(se, e))
    nreq = len(ex.facts)
    fr = ex.enter(st, fn, args, c)
    if c.params:
        for (ty, nm), p in zip(c.params, fn.params):
            fr.names[nm] = fr.names[p.get("name", "?")]; 
    fr.oldst = old.copy(); fr.oldst.env = dict(st.env)
    end = ex.stmt(st, fn.body)
    if end is not None:
        fr.rets.append((end, VoidV() if fn.rettype.k == "void" else None, fn.body.get("_end")))
    ex.frames.append(fr) if not ex.frames else None
    nret = 0
    rets = [r for r in fr.rets if not r[0].dead()]
    if not rets and c.ensures: raise ExtractError("no return path in " + name)
    if len(rets) > 12:
        m = None
        for s, v, ln in rets:
            s = s.copy(); s.env["$ret"] = v if v is not None else ex.dummy(fn.rettype)
            m = s if m is None else ex.merge2(m, s)
        v = m.env.get("$ret", VoidV())
        rets = [(m, v, fn.body.get("_end"))]
    ex.exits = []
    for s, v, ln in rets:
        rt = fn.rettype
        if isinstance(v, PtrV) and rt.k == "ptr" and rt.to.k != "void" and v.to.k == "void": v = PtrV(v.obj, v.idx, rt.to)
        se2 = SEnv(ex, names, s, fr.oldst, None, v, c, None)
        if c.updates: ex.ghost_updates(se2, c, s)
        ex.exits.append(s.g)
        # locals are visible to exit hints
        for h in c.asserts.get("exit", []):
            seh = SEnv(ex, names, s, fr.oldst, None, v, c, fr)
            try: ex.assert_hint(s, seh, h, name + " exit")
            except S.SpecError as e_:
                if "not in scope" in str(e_): continue
                raise
        for (nme, e, l2) in c.ensures:
            ex.oblige(s, "postcondition", ex.sbool(se2, e), ln, "%s ensures[%s]" % (name, nme or l2))
        # frame
        check_frame(ex, c, names, s, old, top0, ln, name)
    return ex


def called(fn, prog, sf, seen=None):
    seen = seen if seen is not None else set()
    out = set()
    def walk(n):
        if n.get("kind") == "DeclRefExpr" and n.get("referencedDecl", {}).get("kind") == "FunctionDecl":
            nm = n["referencedDecl"]["name"]
            if nm in sf.contracts: out.add(nm)
            if nm not in seen:
                seen.add(nm)
                f2 = prog.find(nm, fn.unit)
                if f2 is not None and (nm not in sf.contracts or sf.contracts[nm].inline): out.update(called(f2, prog, sf, seen))
        if n.get("kind") == "MemberExpr":
            for k in sf.contracts:
                if k.startswith("fp_") and k.endswith("_" + n.get("name", "?")): out.add(k)
        for x in n.get("inner", []):
            if isinstance(x, dict): walk(x)
    walk(fn.body)
    return out


def check_frame(ex, c, names, s, old, top0, ln, name):
    se = SEnv(ex, names, old, old, None, None, c)
    targets = ex.assign_targets(se, c, old)
    bykey = {}
    for (k, o, i, cond) in targets: bykey.setdefault(k, []).append((o, i, cond))
    for k in sorted(s.heap):
        h = s.heap[k]; h0 = ex.hget(old, k) if k in old.heap else ex.H0.get(k)
        if h0 is None or h.eq(h0): continue
        o = z3.Const("frame.o!%d" % next(ex.ctr), IntS); i = z3.Const("frame.i!%d" % next(ex.ctr), IntS)
        ok = []
        for (to, ti, cond) in bykey.get(k, []):
            if ti is None: t = o == to
            elif isinstance(ti, tuple): t = z3.And(o == to, i >= ti[0], i < ti[1])
            else: t = z3.And(o == to, i == ti)
            ok.append(And([t, cond]))
        p = z3.Implies(z3.And(ex.root(o) < top0, Not(Or(ok))), z3.Select(z3.Select(h, o), i) == z3.Select(z3.Select(h0, o), i))
        ex.oblige(s, "frame", p, ln, "%s assigns only its frame (%s)" % (name, k))


# ---------------------------------------------------------------- discharge
SEED = 0
def mk_solver(ms, mbqi=True):
    s = z3.Solver()
    s.set("timeout", ms)
    if SEED: s.set("random_seed", SEED)
    if not mbqi: s.set("smt.mbqi", False)
    return s


def discharge(ex, res, timeout=None, verbose=False, budget=400):
    timeout = timeout or RLIMIT_MS
    t00 = time.time()
    quick = mk_solver(min(timeout, 1000), mbqi=False)
    added = 0
    failed = []
    seen = {}
    for ob in ex.obs:
        if is_true(ob.term): 
            ob.status = "proved"; ob.backend = "simplifier"; continue
        key = (ob.term.get_id())
        if key in seen: 
            ob.status = "proved" if seen[key].status == "proved" else None
            if ob.status: ob.backend = seen[key].backend; continue
        while added < ob.nfacts:
            quick.add(ex.facts[added]); added += 1
        t0 = time.time()
        if os.environ.get("LCV_DUMP") and os.environ["LCV_DUMP"] in ob.text:
            sd = z3.Solver(); sd.add(*ex.facts[:ob.nfacts]); sd.add(neg(ob.term)); open("/tmp/dump.smt2", "w").write(sd.to_smt2())
        quick.push(); quick.add(neg(ob.term))
        r = quick.check()
        quick.pop()
        ob.time = time.time() - t0
        if r == z3.unsat:
            ob.status = "proved"; ob.backend = "z3"
        else:
            ok = False
            parts = split(ob.term)
            if len(parts) > 1:      # a conjunction: each part on its own
                ok = True
                for pi, part in enumerate(parts):
                    quick.push(); quick.add(neg(part)); r = quick.check(); quick.pop()
                    if r == z3.unsat: continue
                    if time.time() - t00 >= budget: ok = False; break
                    sub = copy.copy(ob); sub.term = part; sub.time = 0
                    ok = retry(ex, sub, timeout); ob.reason = sub.reason; ob.model = sub.model; ob.status = sub.status; ob.backend = sub.backend
                    if not ok:
                        ob.text += " (part %d of %d)" % (pi + 1, len(parts))
                        if os.environ.get("LCV_PART"): print(part)
                        break
                if ok: ob.status = "proved"; ob.backend = ob.backend or "z3"
                ob.time = time.time() - t0
            elif time.time() - t00 < budget:
                ok = retry(ex, ob, timeout)
            if not ok: failed.append(ob)
        seen[key] = ob
        if verbose and (ob.time > 1 or ob.status != "proved"):
            print("   [%5.1fs] %-8s %s:%s %s %s" % (ob.time, ob.status, ob.func, ob.line, ob.kind, ob.text), flush=True)
        if len(failed) >= 6: break
    res.smt_time = time.time() - t00
    return failed


def split(e, depth=0):
    """conjuncts of a goal, also below implications and disjunctions"""
    if depth > 12: return [e]
    if z3.is_and(e): return [x for c in e.children() for x in split(c, depth + 1)]
    if z3.is_implies(e):
        a, b = e.children(); bs = split(b, depth + 1)
        return [z3.Implies(a, x) for x in bs] if len(bs) > 1 else [e]
    if z3.is_or(e):
        cs = e.children(); ss = [split(c, depth + 1) for c in cs]
        multi = [i for i, x in enumerate(ss) if len(x) > 1]
        if len(multi) == 1:
            i = multi[0]; rest = cs[:i] + cs[i + 1:]
            return [z3.Or(*rest, x) for x in ss[i]]
    return [e]


import itertools, shutil
SK = itertools.count()
PATF = {}
def neg(e):
    """negated goal: universal quantifiers are skolemised, and the terms of their triggers made visible to the solver"""
    if z3.is_implies(e): return z3.And(e.arg(0), neg(e.arg(1)))
    if z3.is_or(e): return z3.And(*[neg(c) for c in e.children()])
    if z3.is_and(e): return z3.Or(*[neg(c) for c in e.children()])
    if z3.is_not(e): return e.arg(0)
    if z3.is_quantifier(e) and e.is_forall():
        vs = [z3.Const("sk.%s!%d" % (e.var_name(i), next(SK)), e.var_sort(i)) for i in range(e.num_vars())]
        out = [neg(z3.substitute_vars(e.body(), *reversed(vs)))]
        for i in range(e.num_patterns()):
            for c in e.pattern(i).children():
                so = c.sort().name() if not isinstance(c.sort(), z3.ArraySortRef) else str(c.sort())
                f = PATF.setdefault(so, z3.Function("seen:" + so, c.sort(), z3.BoolSort()))
                out.append(f(z3.substitute_vars(c, *reversed(vs))))
        return z3.And(*out)
    return z3.Not(e)


NL = {}
NLMUL = z3.Function("nlmul", z3.IntSort(), z3.IntSort(), z3.IntSort())
def absmul(e):
    """products of two non-constants as an uninterpreted (symmetric) function: an abstraction, sound for proving"""
    k = e.get_id()
    if k in NL: return NL[k][1]
    r = e
    if z3.is_quantifier(e):
        if not hasmul(e): r = e
        else:
            vs = [z3.Const("%s!a%d" % (e.var_name(i), k), e.var_sort(i)) for i in range(e.num_vars())]
            sub = lambda t: absmul(z3.substitute_vars(t, *reversed(vs)))
            pats = []
            for i in range(e.num_patterns()):
                ps = [sub(c) for c in e.pattern(i).children()]
                pats.append(z3.MultiPattern(*ps) if len(ps) > 1 else ps[0])
            b = sub(e.body())
            r = z3.ForAll(vs, b, patterns=pats) if e.is_forall() else z3.Exists(vs, b, patterns=pats)
    elif z3.is_app(e) and e.num_args() and hasmul(e):
        ch = [absmul(c) for c in e.children()]
        if e.decl().kind() == z3.Z3_OP_MUL and z3.is_int(e):
            cs = [c for c in ch if z3.is_int_value(c)]; ns = [c for c in ch if not z3.is_int_value(c)]
            ns.sort(key=lambda c: c.hash()); acc = None
            for c in ns:
                if acc is None: acc = c
                else:
                    x, y = (acc, c) if acc.hash() <= c.hash() else (c, acc)
                    acc = NLMUL(x, y)
            r = acc if acc is not None else z3.IntVal(1)
            for c in cs: r = c * r
        else:
            r = e.decl()(*ch)
    NL[k] = (e, r)
    return r


HM = {}
def hasmul(e):
    i = e.get_id()
    if i not in HM:
        HM[i] = (e, False)
        if z3.is_quantifier(e): r = hasmul(e.body())
        else: r = (z3.is_app(e) and e.decl().kind() == z3.Z3_OP_MUL and len([c for c in e.children() if not z3.is_int_value(c)]) > 1) or any(hasmul(c) for c in e.children())
        HM[i] = (e, r)
    return HM[i][1]


HQ = {}
def hasq(e):
    i = e.get_id()
    if i not in HQ:
        HQ[i] = (e, False)     # keeps e alive, so that its id stays unique
        HQ[i] = (e, z3.is_quantifier(e) or any(hasq(c) for c in e.children()))
    return HQ[i][1]


def retry(ex, ob, timeout):
    """portfolio: two builds of z3 with different instantiation strategies, then cvc5"""
    t0 = time.time()
    def done(r, be):
        ob.status = r; ob.backend = be; ob.time += time.time() - t0
        return r == "proved"
    qf = [f for f in ex.facts[:ob.nfacts] if not hasq(f)]
    if not hasq(ob.term):
        s = mk_solver(min(timeout, 4000)); s.add(*qf); s.add(neg(ob.term))
        if s.check() == z3.unsat: return done("proved", "z3")
    if hasmul(ob.term):
        s = mk_solver(min(timeout, 4000), mbqi=False); s.add(*[absmul(f) for f in ex.facts[:ob.nfacts]]); s.add(neg(absmul(ob.term)))
        if s.check() == z3.unsat: return done("proved", "z3")
    facts = ex.facts[:ob.nfacts]; nt = neg(ob.term)
    d = tempfile.mkdtemp(prefix="lcv-smt-")
    def dump(nm, fs, g, head=""):
        s = z3.Solver(); s.add(*fs); s.add(g); fn = os.path.join(d, nm)
        with open(fn, "w") as f: f.write(head + s.to_smt2())
        return fn
    try:
        full = dump("full.smt2", facts, nt); secs = max(2, int(timeout * 1.6 / 1000))
        q = ["auto_config=false", "smt.mbqi=false"]
        jobs = [("z3-4.8", ["z3", "-T:%d" % secs] + q + ["smt.case_split=3", full]), ("z3-4.8", ["z3", "-T:%d" % secs] + q + ["smt.relevancy=0", full]),
                ("z3", ["z3-new", "-T:%d" % secs, full]), ("z3", ["z3-new", "-T:%d" % secs, "smt.mbqi=false", "smt.random_seed=3", full]),
                ("z3", ["z3-new", "-T:%d" % secs, "smt.mbqi=false", "smt.random_seed=7", dump("cone.smt2", cone_filter(facts, ob.term), nt)]),
                ("cvc5", ["cvc5", "--tlimit=%d" % (secs * 1000), "--full-saturate-quant", dump("cvc5.smt2", facts, nt, "(set-logic ALL)\n")])]
        r = race(jobs, secs + 5)
        if r[0] == "unsat": return done("proved", r[1])
        if r[0] != "sat":
            r = race([("z3-4.8", ["z3", "-T:%d" % secs] + q + o + [full]) for o in (["smt.case_split=3", "smt.random_seed=5"], ["smt.qi.eager_threshold=100"], ["smt.relevancy=0", "smt.random_seed=3"], ["smt.case_split=3", "smt.random_seed=11"])]
                     + [("z3", ["z3-new", "-T:%d" % secs, "smt.mbqi=false", "smt.random_seed=%d" % sd, full]) for sd in (17, 23)], secs + 5)
            if r[0] == "unsat": return done("proved", r[1])
    finally: shutil.rmtree(d, ignore_errors=True)
    if r[0] == "sat":
        s = mk_solver(timeout); s.add(*facts); s.add(nt); r = s.check()
        if r == z3.unsat: return done("proved", "z3")
        if r == z3.sat:
            ob.reason = "sat"
            try: ob.model = s.model()
            except Exception: pass
        else: ob.reason = "sat (no model extracted)"
        return done("refuted", None)
    ob.reason = "timeout"
    return done("unknown", None)


def race(jobs, wall):
    """run the solvers in parallel: the first 'unsat' decides; 'sat' counts from a complete strategy (model based instantiation) only"""
    t0 = time.time(); run = []
    for be, cmd in jobs:
        try: run.append((be, cmd, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, preexec_fn=die_with_parent)))
        except OSError: pass
    res = ("unknown", None)
    while run and res[0] == "unknown" and time.time() - t0 < wall:
        for x in list(run):
            be, cmd, p = x
            if p.poll() is None: continue
            run.remove(x); out = p.stdout.read().decode(errors="replace").strip().split("\n")
            if "unsat" in out: res = ("unsat", be); break
            if "sat" in out and cmd[0] == "z3-new" and "smt.mbqi=false" not in cmd: res = ("sat", be); break
        time.sleep(0.01)
    for be, cmd, p in run: p.kill(); p.wait(); p.stdout.close()
    return res


def die_with_parent():
    import ctypes
    try: ctypes.CDLL("libc.so.6").prctl(1, 9)
    except Exception: pass


def cone_filter(facts, goal):
    """facts whose uninterpreted constants touch the goal, transitively (2 rounds)"""
    def names(e):
        s = set(); collect_consts(e, s)
        return {c.decl().name() for c in s}
    fn = [(f, names(f)) for f in facts]
    cur = names(goal)
    for _ in range(3):
        new = set(cur)
        for f, n in fn:
            if n & cur and len(n) < 14: new |= n
        if new == cur: break
        cur = new
    return [f for f, n in fn if not n or (n & cur)]


def verify_function(prog, sf, name, opts=None, verbose=False):
    res = Result(name); t0 = time.time()
    c = sf.contracts[name]
    try:
        ex = gen_function(prog, sf, name, opts)
    except ExtractError as e:
        res.status = "unsupported"; res.msg = str(e); res.time = time.time() - t0
        if os.environ.get("LCV_TB"): traceback.print_exc()
        return res
    except S.SpecError as e:
        res.status = "unattached"; res.msg = str(e); res.time = time.time() - t0
        if os.environ.get("LCV_TB"): traceback.print_exc()
        return res
    except (KeyError, AttributeError, TypeError, z3.Z3Exception, RecursionError, IndexError) as e:
        res.status = "unsupported"; res.msg = "%s: %s" % (type(e).__name__, e); res.time = time.time() - t0
        if os.environ.get("LCV_TB"): traceback.print_exc()
        return res
    try:
        failed = discharge(ex, res, (c.timeout or 0) * 1000 or None, verbose)
    except z3.Z3Exception as e:
        res.status = "unsupported"; res.msg = "solver: %s" % e; res.time = time.time() - t0
        if os.environ.get("LCV_TB"): traceback.print_exc()
        return res
    # vacuity: the exits must be reachable under the assumptions made
    s = mk_solver(1500, mbqi=False); s.add(*ex.facts); s.add(Or(ex.exits) if ex.exits else TRUE)
    if not failed and s.check() == z3.unsat:
        res.vacuous = True
    res.inlined = sorted(ex.inlined); res.contracts = sorted(ex.usedcontracts); res.assumed = sorted(ex.assumed)
    res.nfacts = len(ex.facts)
    for o in ex.obs:
        res.obs.append({"kind": o.kind, "line": o.line, "func": o.func, "text": o.text, "status": o.status, "backend": o.backend, "t": round(o.time, 3)})
        if o.backend: res.backends[o.backend] = res.backends.get(o.backend, 0) + 1
    for o in failed:
        d = {"kind": o.kind, "line": o.line, "func": o.func, "text": o.text, "status": o.status or "unknown", "reason": o.reason}
        if o.model is not None:
            d["model"] = {str(k): str(o.model[k])[:60] for k in o.model.decls() if k.arity() == 0 and str(k).startswith("arg.")}
        res.failed.append(d)
    if res.vacuous: res.status = "vacuous"
    elif failed: res.status = "failed"
    else: res.status = "proved"
    res.time = time.time() - t0
    return res


def verify_lemma(prog, sf, lem, verbose=False):
    nm, e, ind, uses, fn = lem
    res = Result("lemma " + nm); t0 = time.time()
    ex = new_exec(prog, sf)
    try:
        only = relevant_theory(sf, [e])
        st = St({}, {}, (), IV(1)); se = SEnv(ex, {}, st, st, None, None, None)
        for (n2, e2, ln, f2) in sf.axioms:
            if n2 in only: ex.facts.append(ex.sbool(se, e2))
        for l2 in sf.lemmas:
            if l2[0] == nm: break
            if l2[0] in only: ex.facts.append(ex.sbool(se, l2[1]))
        if e[0] != "quant" or e[1] != "forall": raise S.SpecError("lemma must be a forall")
        _, q, bs, trig, body = e
        se2 = se; sub = {}
        for ty, n2 in bs:
            if ty.endswith("*"): 
                v = PtrV(ex.fresh(n2 + ".o"), ex.fresh(n2 + ".i"), prog.ptype(ty).to)
            else: v = ex.fresh(n2, {"bool": BoolS, "double": RealS}.get(ty, IntS))
            se2 = se2.bind(n2, v); sub[n2] = v
        if ind:
            # strong induction on ind >= 0
            m = z3.Const("ih?%d" % next(ex.ctr), IntS)
            vs = [m]; se3 = se.bind(ind, m)
            for ty, n2 in bs:
                if n2 == ind: continue
                if ty.endswith("*"): raise S.SpecError("induction with pointer binder")
                v = z3.Const("%s?%d" % (n2, next(ex.ctr)), {"bool": BoolS, "double": RealS}.get(ty, IntS)); vs.append(v); se3 = se3.bind(n2, v)
            ih = z3.ForAll(vs, Implies(z3.And(m >= 0, m < sub[ind]), ex.sbool(se3, body)))
            ex.gfact(ih)
            # also the instance at ind-1 with the same other variables
            se4 = se2.bind(ind, sub[ind] - 1)
            ex.gfact(Implies(sub[ind] > 0, ex.sbool(se4, body)))
        ex.oblige(st, "lemma", ex.sbool(se2, body), 0, "lemma " + nm)
        failed = discharge(ex, res, None, verbose)
    except (ExtractError, S.SpecError) as er:
        res.status = "unattached"; res.msg = str(er); return res
    for o in ex.obs: 
        res.obs.append({"kind": o.kind, "line": 0, "func": "lemma", "text": o.text, "status": o.status, "backend": o.backend, "t": round(o.time, 3)})
        if o.backend: res.backends[o.backend] = res.backends.get(o.backend, 0) + 1
    res.failed = [{"kind": o.kind, "text": o.text, "status": o.status, "line": 0, "func": "lemma", "reason": o.reason} for o in failed]
    res.status = "failed" if failed else "proved"; res.time = time.time() - t0
    return res


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("-c", "--contracts", nargs="+"); ap.add_argument("-s", "--src", nargs="+")
    ap.add_argument("-f", "--functions", nargs="*"); ap.add_argument("-l", "--lemmas", action="store_true")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    prog = Program(); prog.load(a.src)
    sf = None
    for f in a.contracts: sf = S.parse(open(f).read(), f, sf)
    if a.lemmas:
        for l in sf.lemmas:
            r = verify_lemma(prog, sf, l, a.v); print(r.name, r.status, r.msg, r.failed)
    for n in (a.functions or [k for k, c in sf.contracts.items() if not c.trusted and not c.inline]):
        r = verify_function(prog, sf, n, None, a.v)
        print("%-40s %-12s %3d obs %5.1fs (smt %.1fs) %s" % (n, r.status, len(r.obs), r.time, r.smt_time, r.msg), flush=True)
        for f in r.failed: print("     FAILED", f["status"], f["kind"], "line", f["line"], f["text"], f.get("reason"), f.get("model", ""))


if __name__ == "__main__": main()
