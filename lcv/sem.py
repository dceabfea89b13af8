"""Symbolic semantics of C function bodies (clang AST) and VC generation.

Memory model (typed, Burstall style).  A pointer is (obj, idx); every scalar
field of every struct has its own map  obj -> idx -> value.  A struct embedded
by value in field f of S lives in the derived object emb_{S.f}(obj) at the same
idx, so that &x->f is again an ordinary pointer.  Integers are mathematical;
signed overflow is an obligation, unsigned arithmetic and conversions wrap.
"""
import re, z3, itertools, struct, fractions
from front import *
import spec as S

IntS, BoolS, RealS = z3.IntSort(), z3.BoolSort(), z3.RealSort()
def IV(n): return z3.IntVal(n)
TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)


def is_true(e): return z3.is_true(e)
def is_false(e): return z3.is_false(e)


def And(xs):
    xs = [x for x in xs if not is_true(x)]
    if any(is_false(x) for x in xs): return FALSE
    if not xs: return TRUE
    return xs[0] if len(xs) == 1 else z3.And(*xs)


def Or(xs):
    xs = [x for x in xs if not is_false(x)]
    if any(is_true(x) for x in xs): return TRUE
    if not xs: return FALSE
    return xs[0] if len(xs) == 1 else z3.Or(*xs)


def Not(x):
    if is_true(x): return FALSE
    if is_false(x): return TRUE
    if z3.is_not(x): return x.arg(0)
    return z3.Not(x)


def Implies(a, b):
    if is_true(a): return b
    if is_false(a) or is_true(b): return TRUE
    return z3.Implies(a, b)


def If(c, a, b):
    if is_true(c): return a
    if is_false(c): return b
    if a.eq(b): return a
    return z3.If(c, a, b)


U8VIEW = T("int", bits=8, signed=False, name="view")


class PtrV:
    __slots__ = ("obj", "idx", "to", "loc")
    def __init__(self, obj, idx, to, loc=None):
        self.obj = obj; self.idx = idx; self.to = to; self.loc = loc
    def __repr__(self): return "Ptr(%s,%s:%r)" % (self.obj, self.idx, self.to)


class StructV:
    __slots__ = ("obj", "idx", "t")
    def __init__(self, obj, idx, t): self.obj = obj; self.idx = idx; self.t = t


class FuncV:
    """Function designator (known) or function pointer value (obj term)."""
    __slots__ = ("name", "term")
    def __init__(self, name=None, term=None): self.name = name; self.term = term


class VoidV:
    pass


# lvalues
class LVar:
    def __init__(self, id, t): self.id = id; self.t = t
class LMem:
    def __init__(self, key, obj, idx, t): self.key = key; self.obj = obj; self.idx = idx; self.t = t
class LIte:        # one of two memory locations
    def __init__(self, c, a, b): self.c = c; self.a = a; self.b = b; self.t = a.t
class LStruct:
    def __init__(self, obj, idx, t): self.obj = obj; self.idx = idx; self.t = t
class LSmall:      # small embedded scalar array  S.f[n]
    def __init__(self, key, obj, idx, t): self.key = key; self.obj = obj; self.idx = idx; self.t = t
class LArr:        # array object (elements at obj, 0..n-1)
    def __init__(self, obj, base, t): self.obj = obj; self.base = base; self.t = t
class LFunc:
    def __init__(self, name): self.name = name; self.t = FUNC


class St:
    __slots__ = ("env", "heap", "guard", "top")
    def __init__(self, env, heap, guard, top):
        self.env = env; self.heap = heap; self.guard = guard; self.top = top
    def copy(self): return St(dict(self.env), dict(self.heap), self.guard, self.top)
    def with_guard(self, g):
        s = self.copy()
        if not is_true(g): s.guard = s.guard + (g,)
        return s
    @property
    def g(self): return And(self.guard)
    def dead(self): return any(is_false(x) for x in self.guard)


class Ob:
    def __init__(self, func, line, kind, term, nfacts, text=""):
        self.func = func; self.line = line; self.kind = kind; self.term = term
        self.nfacts = nfacts; self.text = text; self.status = None; self.name = None
        self.backend = None; self.time = 0; self.model = None; self.reason = ""


class Frame:
    def __init__(self, fn, contract):
        self.fn = fn; self.c = contract; self.rets = []; self.brk = []; self.cont = []
        self.oldst = None; self.names = {}; self.loopno = {}; self.params = {}; self.callcount = {}


LOGFUNCS = {"laik_log", "laik_log_append", "laik_log_flush", "laik_log_Range", "laik_log_Index",
            "laik_log_Space", "laik_log_RangeList", "laik_log_Partitioning", "laik_log_Transition",
            "laik_log_ActionSeq", "laik_log_ActionSeqIfChanged", "laik_log_Action", "laik_log_IntList", "laik_log_PrettyInt",
            "laik_log_DataFlow", "laik_log_Reduction", "laik_log_TransitionGroup", "laik_log_Checksum",
            "laik_log_Data", "laik_log_Mapping", "laik_log_append_info", "laik_log_Partitioning_Stat", "printf", "fprintf", "fflush",
            "laik_log_SwitchStat", "laik_log_TransitionFull"}
NORETURN = {"laik_panic", "exit", "abort", "__assert_fail"}
SIGNED_MIN = lambda b: -(1 << (b - 1))


def trange(t):
    if t.k == "bool": return (0, 1)
    if t.signed: return (-(1 << (t.bits - 1)), (1 << (t.bits - 1)) - 1)
    return (0, (1 << t.bits) - 1)


class Exec:
    def __init__(self, prog, sf, opts=None):
        self.prog = prog; self.sf = sf; self.opts = opts or {}
        for g in sf.ghosts:
            for u in prog.units.values(): u.globals.setdefault(g, {"name": g, "type": {"qualType": "long long"}})
        self.facts = []; self.keep = []; self.obs = []; self.ctr = itertools.count()
        self.H0 = {}; self.keyt = {}; self.dry = 0; self.storelog = None; self.wframes = []
        self.root = z3.Function("root", IntS, IntS); self.tag = z3.Function("tag", IntS, IntS)
        self.objlen = z3.Function("objlen", IntS, IntS)
        self.embf = {}; self.embseen = set(); self.embinfo = {}
        self.logicf = {}; self.loadseen = set(); self.glob = {}; self.strs = {}
        self.curfn = "?"; self.inlined = set(); self.usedcontracts = set(); self.havocs = 0
        self.frames = []; self.callvals = {}; self.bounds = self.opts.get("bounds", True)
        self.ufs = {}; self.assumed = set(); self.depth = 0
        self.embeddable = None; self.branchno = 0; self.lastcallstate = None
        self.noob = 0

    # ------------------------------------------------------------ basics
    def fresh(self, name, sort=IntS):
        return z3.Const("%s!%d" % (name, next(self.ctr)), sort)

    def uf(self, name, *sorts):
        if name not in self.ufs: self.ufs[name] = z3.Function(name, *sorts)
        return self.ufs[name]

    def fact(self, st, f):
        f = Implies(st.g, f) if st is not None else f
        if not is_true(f): self.facts.append(f)

    def gfact(self, f):
        if not is_true(f): self.facts.append(f)

    def oblige(self, st, kind, p, line, text=""):
        if self.noob: 
            return
        g = st.g
        t = Implies(g, p)
        if is_true(t) or is_true(z3.simplify(t) if self.small(t) else FALSE): 
            self.obs.append(self.mkob(line, kind, TRUE, text)); return
        self.obs.append(self.mkob(line, kind, t, text))
        self.facts.append(t)

    def small(self, t): return True

    def mkob(self, line, kind, t, text):
        o = Ob(self.curfn, line, kind, t, len(self.facts), text)
        return o

    def sort(self, t):
        if t.k == "bool": return BoolS
        if t.k == "float": return RealS
        return IntS

    def asInt(self, v):
        if isinstance(v, PtrV): raise ExtractError("pointer used as integer")
        if isinstance(v, (StructV, FuncV, VoidV)): raise ExtractError("not an integer value")
        if v.sort() == BoolS:
            if is_true(v): return IV(1)
            if is_false(v): return IV(0)
            return z3.If(v, IV(1), IV(0))
        return v

    def asBool(self, v):
        if isinstance(v, PtrV):
            return z3.simplify(v.obj != 0) if z3.is_int_value(v.obj) else v.obj != 0
        if isinstance(v, FuncV):
            if v.name: return TRUE
            return v.term != 0
        if isinstance(v, (StructV, VoidV)): raise ExtractError("not a boolean value")
        if v.sort() == BoolS: return v
        if z3.is_int_value(v): return z3.BoolVal(v.as_long() != 0)
        # (If(b,1,0) != 0)  ->  b
        if z3.is_app_of(v, z3.Z3_OP_ITE) and z3.is_int_value(v.arg(1)) and z3.is_int_value(v.arg(2)):
            a, b = v.arg(1).as_long() != 0, v.arg(2).as_long() != 0
            if a and not b: return v.arg(0)
            if b and not a: return Not(v.arg(0))
        return v != 0

    def fresh_of(self, name, t):
        """fresh value of C type t plus its range facts"""
        if t.k == "bool": return self.fresh(name, BoolS)
        if t.k == "int":
            v = self.fresh(name); lo, hi = trange(t)
            self.gfact(z3.And(v >= lo, v <= hi)); return v
        if t.k == "float": return self.fresh(name, RealS)
        if t.k == "ptr":
            if t.to.k == "func": return FuncV(None, self.fresh(name + ".f"))
            p = PtrV(self.fresh(name + ".o"), self.fresh(name + ".i"), t.to)
            return p
        raise ExtractError("fresh value of type %r" % t)

    # ------------------------------------------------------------ heap
    def keysort(self, key):
        t = self.keyt[key]
        return self.sort(t)

    def regkey(self, key, t):
        if key not in self.keyt: self.keyt[key] = t

    def hget(self, st, key):
        if key in st.heap: return st.heap[key]
        if key not in self.H0:
            self.H0[key] = z3.Const("H0:" + key, z3.ArraySort(IntS, z3.ArraySort(IntS, self.keysort(key))))
        return self.H0[key]

    def distinct_obj(self, a, b):
        # embedded objects: different members, or the same member of different owners
        if z3.is_app(a) and z3.is_app(b):
            na, nb = a.decl().name(), b.decl().name()
            if na.startswith("emb:") and nb.startswith("emb:"):
                if na != nb: return True
                return any(self.distinct_obj(a.arg(k), b.arg(k)) for k in range(a.num_args()))
        d = z3.simplify(a - b)
        return z3.is_int_value(d) and d.as_long() != 0

    def sel_obj(self, h, obj):
        while z3.is_app_of(h, z3.Z3_OP_STORE):
            o = h.arg(1)
            if o.eq(obj): return h.arg(2)
            if self.distinct_obj(o, obj): h = h.arg(0); continue
            break
        return z3.Select(h, obj)

    def sel_idx(self, a, idx):
        while z3.is_app_of(a, z3.Z3_OP_STORE):
            i = a.arg(1)
            if i.eq(idx): return a.arg(2)
            if self.distinct_obj(i, idx): a = a.arg(0); continue
            break
        if z3.is_const_array(a): return a.arg(0)
        return z3.Select(a, idx)

    def rd(self, st, key, obj, idx):
        return self.sel_idx(self.sel_obj(self.hget(st, key), obj), idx)

    def wframe(self, st, key, obj, idx, old=None, new=None, cond=None):
        """a write inside of a loop with an assigns clause of its own: the frame is checked at the write"""
        if self.dry: return
        for (ref, bykey, nm, line) in self.wframes:
            if key not in bykey: continue
            ts = bykey[key]
            g = [self.root(obj) < ref.top] + ([cond] if cond is not None else [])
            if isinstance(idx, tuple):
                ok = [And([obj == o] + ([] if i is None else [idx[0] >= i[0], idx[1] <= i[1]] if isinstance(i, tuple) else [idx[0] == i, idx[1] == i + 1]) + [c]) for (o, i, c) in ts]
                self.oblige(st, "loop-frame", Implies(z3.And(g + [idx[0] < idx[1]]), Or(ok)), line, "%s assigns only its frame (%s)" % (nm, key))
            elif idx is not None:
                self.oblige(st, "loop-frame", Implies(z3.And(g), Or(self.target_ok(ts, obj, idx))), line, "%s assigns only its frame (%s)" % (nm, key))
            else:
                i = z3.Const("frame.i!%d" % next(self.ctr), IntS)
                self.oblige(st, "loop-frame", Implies(z3.And(g + [Not(Or(self.target_ok(ts, obj, i)))]), z3.Select(new, i) == z3.Select(old, i)), line, "%s assigns only its frame (%s)" % (nm, key))

    def wr(self, st, key, obj, idx, v):
        h = self.hget(st, key)
        if self.wframes: self.wframe(st, key, obj, idx)
        inner = self.sel_obj(h, obj)
        st.heap[key] = z3.Store(h, obj, z3.Store(inner, idx, v))
        if self.storelog is not None: self.storelog.append((key, obj, idx, st.top))

    def wr_inner(self, st, key, obj, inner, rng=None):
        if self.wframes: self.wframe(st, key, obj, rng, self.sel_obj(self.hget(st, key), obj), inner)
        st.heap[key] = z3.Store(self.hget(st, key), obj, inner)
        if self.storelog is not None: self.storelog.append((key, obj, None, st.top))

    def load(self, st, key, obj, idx, t, quiet=False):
        if t.k == "ptr":
            if t.to.k == "func":
                self.regkey(key, INT64)
                return FuncV(None, self.rd(st, key, obj, idx))
            self.regkey(key + ".o", INT64); self.regkey(key + ".i", INT64)
            o = self.rd(st, key + ".o", obj, idx); i = self.rd(st, key + ".i", obj, idx)
            p = PtrV(o, i, t.to)
            if not quiet: self.ptr_facts(st, p)
            return p
        if t is U8VIEW:
            v = self.load(st, key, obj, idx, CHAR, quiet); return z3.If(v < 0, v + 256, v)
        self.regkey(key, t)
        v = self.rd(st, key, obj, idx)
        if t.k == "int" and not z3.is_int_value(v):
            k = v.get_id()
            if (k, t.key()) not in self.loadseen and not (quiet and has_var(v)):
                self.loadseen.add((k, t.key())); self._keep(v)
                lo, hi = trange(t)
                self.gfact(z3.And(v >= lo, v <= hi))
        return v

    def _keep(self, v):
        self.embinfo.setdefault("keep", []).append(v)

    def ptr_facts(self, st, p):
        """a pointer value found in memory refers to something already allocated"""
        if z3.is_int_value(p.obj): return
        k = (p.obj.get_id(), st.top.get_id())
        if k in self.loadseen: return
        self.loadseen.add(k); self._keep(p.obj); self._keep(st.top)
        self.fact(st, self.root(p.obj) < st.top)
        self.base_facts(p)

    def base_facts(self, p):
        o = p.obj
        if p.to.k != "struct" or not self.is_embeddable(p.to.name):
            # pointee is never embedded by value: a base object
            if p.to.k in ("struct",) or p.to.k in ("ptr",):
                self.gfact(z3.And(self.root(o) == o, self.tag(o) == 0))
            elif p.to.k == "int" or p.to.k == "float" or p.to.k == "bool":
                pass

    def is_embeddable(self, name):
        if self.embeddable is None:
            e = set()
            for rn, rec in self.prog.records.items():
                if not rec["complete"]: continue
                try: fs = self.prog.fields(rn)
                except ExtractError: continue
                for fn, ft in fs:
                    while ft.k == "arr": ft = ft.to
                    if ft.k == "struct": e.add(ft.name)
            self.embeddable = e
        return name in self.embeddable

    def store(self, st, key, obj, idx, t, v):
        if t is U8VIEW: v = self.asInt(v); t = CHAR; v = z3.If(v > 127, v - 256, v)
        if t.k == "ptr":
            if t.to.k == "func":
                self.regkey(key, INT64)
                if isinstance(v, FuncV): self.wr(st, key, obj, idx, self.functerm(v))
                elif isinstance(v, PtrV): self.wr(st, key, obj, idx, v.obj)
                else: raise ExtractError("store to function pointer")
                return
            self.regkey(key + ".o", INT64); self.regkey(key + ".i", INT64)
            if isinstance(v, FuncV): v = PtrV(self.functerm(v), IV(0), t.to)
            if not isinstance(v, PtrV): raise ExtractError("non-pointer stored to pointer field " + key)
            if v.loc is not None: raise ExtractError("address of a scalar field stored in memory")
            self.wr(st, key + ".o", obj, idx, v.obj); self.wr(st, key + ".i", obj, idx, v.idx)
            return
        self.regkey(key, t)
        if t.k == "bool": v = self.asBool(v)
        elif t.k == "int": v = self.asInt(v)
        elif t.k == "float":
            if v.sort() != RealS: v = self.i2d(v)
        self.wr(st, key, obj, idx, v)

    def functerm(self, v):
        if v.name is None: return v.term
        return IV(self.fid(v.name))

    def fid(self, name):
        d = self.embinfo.setdefault("fids", {})
        if name not in d: d[name] = -1000000 - len(d)
        return d[name]

    # embedded struct / array objects
    def emb(self, owner, field, obj, idx=None):
        fname = "%s.%s" % (owner, field)
        # leading header member shares the address
        if field == "h" : return obj
        if idx is None:
            f = self.embf.setdefault(fname, z3.Function("emb:" + fname, IntS, IntS))
            t = f(obj)
        else:
            fname = fname + "[]"
            f = self.embf.setdefault(fname, z3.Function("emb:" + fname, IntS, IntS, IntS))
            t = f(obj, idx)
        k = t.get_id()
        if k not in self.embseen and not has_var(t):
            self.embseen.add(k); self._keep(t)
            tid = self.embinfo.setdefault(("id", fname), 1 + len([1 for x in self.embinfo if isinstance(x, tuple) and x[0] == "id"]))
            inv = self.embf.setdefault("inv:" + fname, z3.Function("inv:" + fname, IntS, IntS))
            fs = [self.root(t) == self.root(obj), self.tag(t) == tid, inv(t) == obj]
            if idx is None: fs.append(self.objlen(t) == self.objlen(obj))
            else:
                inv2 = self.embf.setdefault("inv2:" + fname, z3.Function("inv2:" + fname, IntS, IntS))
                fs.append(inv2(t) == idx)
            fs.append(t != 0)
            self.gfact(z3.And(*fs))
        return t

    def tailobj(self, obj, t):
        """array of t behind the struct at the start of allocation obj"""
        return self.emb("(tail)", t.key(), obj, IV(0))

    def leaves(self, t, prefix_owner=None):
        """(path-of-emb steps, key, scalar type) of all scalar leaves of struct t:
        yields (list of (owner, field) emb steps, key, type, arrinfo)"""
        if t.k != "struct":
            yield ([], t.key() + "[]", t, None); return
        for fn, ft in self.prog.fields(t.name):
            if ft.k == "struct":
                for steps, key, lt, ai in self.leaves(ft):
                    yield ([(t.name, fn)] + steps, key, lt, ai)
            elif ft.k == "arr":
                if self.smallarr(ft):
                    for i in range(ft.n):
                        yield ([], "%s.%s#%d" % (t.name, fn, i), ft.to, None)
                else:
                    yield ([], "%s.%s" % (t.name, fn), ft, (t.name, fn))
            else:
                yield ([], "%s.%s" % (t.name, fn), ft, None)

    def smallarr(self, t): return t.k == "arr" and t.n <= 3 and t.n > 0 and t.to.isscalar()

    def scalar_keys(self, key, t):
        if t.k == "ptr" and t.to.k != "func": 
            self.regkey(key + ".o", INT64); self.regkey(key + ".i", INT64)
            return [key + ".o", key + ".i"]
        self.regkey(key, INT64 if t.k == "ptr" else t)
        return [key]

    def leaf_locs(self, t, obj, idx):
        """all scalar (key, obj, idx, type) of the struct at (obj, idx)"""
        for steps, key, lt, ai in self.leaves(t):
            o = obj
            for (ow, f) in steps: o = self.emb(ow, f, o)
            if ai is not None:
                ao = self.emb(ai[0], ai[1], o, idx)
                el = lt.to; n = lt.n
                if el.k == "struct":
                    for k2 in range(min(n, 4)):
                        yield from self.leaf_locs(el, ao, IV(k2))
                else: yield (el.key() + "[]", ao, None, el)
            else:
                yield (key, o, idx, lt)

    def copy_struct(self, st, t, dobj, didx, sobj, sidx, src=None):
        src = src or st
        vals = []
        for (key, o, i, lt), (k2, o2, i2, l2) in zip(self.leaf_locs(t, dobj, didx), self.leaf_locs(t, sobj, sidx)):
            if i is None:
                for k in self.scalar_keys(key, lt):
                    vals.append((k, o, None, self.sel_obj(self.hget(src, k), o2)))
            else:
                for k in self.scalar_keys(key, lt):
                    vals.append((k, o, i, self.rd(src, k, o2, i2)))
        for k, o, i, v in vals:
            if i is None: self.wr_inner(st, k, o, v)
            else: self.wr(st, k, o, i, v)

    def alloc(self, st, n=None):
        o = z3.simplify(st.top)
        st.top = z3.simplify(st.top + 1)
        self.fact(st, z3.And(self.root(o) == o, self.tag(o) == 0, o > 0))
        if n is not None: self.fact(st, self.objlen(o) == n)
        return o

    # ------------------------------------------------------------ merging
    def merge_val(self, c, a, b):
        if a is b: return a
        if isinstance(a, PtrV) and isinstance(b, PtrV):
            if (a.loc is None) != (b.loc is None): return None
            if a.loc is not None:
                if a.loc is b.loc: return a
                if isinstance(a.loc, (LMem, LIte)) and isinstance(b.loc, (LMem, LIte)) and not (isinstance(a.loc, LMem) and isinstance(b.loc, LMem) and a.loc.key == b.loc.key):
                    l = LIte(c, a.loc, b.loc); return PtrV(If(c, a.obj, b.obj), If(c, a.idx, b.idx), a.to, l)
                if a.loc.__class__ is b.loc.__class__ and getattr(a.loc, "key", None) == getattr(b.loc, "key", None):
                    l = a.loc.__class__(a.loc.key, If(c, a.loc.obj, b.loc.obj), If(c, a.loc.idx, b.loc.idx), a.loc.t)
                    return PtrV(l.obj, l.idx, a.to, l)
                return None
            return PtrV(If(c, a.obj, b.obj), If(c, a.idx, b.idx), a.to)
        if isinstance(a, FuncV) and isinstance(b, FuncV):
            if a.name and a.name == b.name: return a
            return FuncV(None, If(c, self.functerm(a), self.functerm(b)))
        if isinstance(a, (PtrV, FuncV, StructV, VoidV)) or isinstance(b, (PtrV, FuncV, StructV, VoidV)):
            if isinstance(a, StructV) and isinstance(b, StructV):
                return StructV(If(c, a.obj, b.obj), If(c, a.idx, b.idx), a.t)
            return None
        if a.sort() != b.sort(): a, b = self.asInt(a), self.asInt(b)
        return If(c, a, b)

    def merge2(self, a, b):
        if a is None: return b
        if b is None: return a
        if a.dead(): return b
        if b.dead(): return a
        # common guard prefix
        n = 0
        while n < len(a.guard) and n < len(b.guard) and a.guard[n].eq(b.guard[n]): n += 1
        ra, rb = a.guard[n:], b.guard[n:]
        pre = a.guard[:n]
        if len(ra) == 1 and len(rb) == 1 and Not(ra[0]).eq(rb[0]):
            c = ra[0]; g = pre
        else:
            c = And(ra) if ra else TRUE
            d = z3.simplify(Or([And(ra), And(rb)]))
            if is_true(c):
                # one guard is a prefix of the other: cannot happen for exclusive paths except via facts
                c = Not(And(rb))
                g = pre
            elif is_true(d): g = pre
            else:
                nb = self.fresh("path", BoolS)
                self.gfact(nb == Or([And(ra), And(rb)]))
                g = pre + (nb,)
        if not z3.is_const(c) and not (z3.is_not(c) and z3.is_const(c.arg(0))) :
            cb = self.fresh("br", BoolS); self.gfact(cb == c); c = cb
        env = {}
        for k in a.env:
            if k in b.env:
                m = self.merge_val(c, a.env[k], b.env[k])
                if m is not None: env[k] = m
            else: env[k] = a.env[k]
        for k in b.env:
            if k not in a.env: env[k] = b.env[k]
        heap = {}
        for k in set(a.heap) | set(b.heap):
            ha, hb = self.hget(a, k), self.hget(b, k)
            heap[k] = self.merge_heap(c, ha, hb)
        top = a.top if a.top.eq(b.top) else self.merge_top(c, a, b)
        return St(env, heap, g, top)

    def merge_heap(self, c, ha, hb):
        if ha.eq(hb): return ha
        # Store(h, o, x) vs h or Store(h, o, y): push the ite inwards
        la, lb = chain(ha), chain(hb)
        base = None
        ids = {x.get_id(): i for i, x in enumerate(la)}
        for j, y in enumerate(lb):
            if y.get_id() in ids: base = (ids[y.get_id()], j); break
        if base is not None:
            oa = [x.arg(1) for x in la[:base[0]]]; ob = [x.arg(1) for x in lb[:base[1]]]
            objs = []
            for o in oa + ob:
                if not any(o.eq(p) for p in objs): objs.append(o)
            if len(objs) == 1 or all(self.distinct_obj(p, q) for p, q in itertools.combinations(objs, 2)):
                h = la[base[0]]
                for o in objs:
                    xa, xb = self.sel_obj(ha, o), self.sel_obj(hb, o)
                    h = z3.Store(h, o, self.merge_inner(c, xa, xb))
                return h
        return If(c, ha, hb)

    def merge_inner(self, c, xa, xb):
        if xa.eq(xb): return xa
        la, lb = chain(xa), chain(xb)
        ids = {x.get_id(): i for i, x in enumerate(la)}
        for j, y in enumerate(lb):
            if y.get_id() in ids:
                i = ids[y.get_id()]
                idxs = []
                for o in [x.arg(1) for x in la[:i]] + [x.arg(1) for x in lb[:j]]:
                    if not any(o.eq(p) for p in idxs): idxs.append(o)
                if len(idxs) == 1 or all(self.distinct_obj(p, q) for p, q in itertools.combinations(idxs, 2)):
                    h = y
                    for k in idxs:
                        h = z3.Store(h, k, If(c, self.sel_idx(xa, k), self.sel_idx(xb, k)))
                    return h
                break
        return If(c, xa, xb)

    def merge_top(self, c, a, b):
        t = self.fresh("top")
        self.gfact(t == If(c, a.top, b.top))
        # objects allocated before: tops only grow
        self.gfact(z3.And(Implies(a.g, t >= a.top), Implies(b.g, t >= b.top)))
        return t

    def merge(self, sts):
        r = None
        for s in sts:
            if s is None: continue
            r = s if r is None else self.merge2(r, s)
        if r is not None and r.dead(): return None
        return r

    # ------------------------------------------------------------ functions
    def addrtaken(self, fn):
        k = ("at", id(fn.body))
        if k in self.embinfo: return self.embinfo[k]
        s = set()
        def walk(n):
            if n.get("kind") == "UnaryOperator" and n.get("opcode") == "&":
                x = strip(n["inner"][0])
                if x.get("kind") == "DeclRefExpr": s.add(x["referencedDecl"]["id"])
            for c in n.get("inner", []):
                if isinstance(c, dict): walk(c)
        walk(fn.body)
        self.embinfo[k] = s
        return s

    def number_loops(self, fn):
        k = ("loops", id(fn.body))
        if k in self.embinfo: return self.embinfo[k]
        d = {}; n = [0]
        def walk(x):
            if x.get("kind") in ("ForStmt", "WhileStmt", "DoStmt"):
                n[0] += 1; d[x["id"]] = n[0]
            for c in x.get("inner", []):
                if isinstance(c, dict): walk(c)
        walk(fn.body)
        self.embinfo[k] = d
        return d

    def enter(self, st, fn, args, contract):
        fr = Frame(fn, contract)
        at = self.addrtaken(fn)
        fr.loopno = self.number_loops(fn)
        for p, a in zip(fn.params, args):
            t = fn.unit.type(p["type"])
            if t.k == "arr": t = Ptr(t.to)
            fr.names[p.get("name", "?")] = ("var", p["id"], t)
            fr.params[p.get("name", "?")] = a
            if t.k == "struct":
                o = self.alloc(st, IV(1)); self.copy_struct(st, t, o, IV(0), a.obj, a.idx)
                st.env[p["id"]] = StructV(o, IV(0), t)
            elif p["id"] in at:
                o = self.alloc(st, IV(1)); st.env[p["id"]] = ("addr", o, t)
                self.store(st, t.key() + "[]", o, IV(0), t, a)
            else: st.env[p["id"]] = a
        fr.oldst = st.copy()
        self.frames.append(fr)
        return fr

    def run_body(self, st, fn, args, contract):
        fr = self.enter(st, fn, args, contract)
        end = self.stmt(st, fn.body)
        if end is not None:
            rt = fn.rettype
            if rt.k == "void": fr.rets.append((end, VoidV(), fn.body.get("_end")))
            else: fr.rets.append((end, None, fn.body.get("_end")))
        self.frames.pop()
        return fr

    def inline(self, st, fn, args, node):
        if self.depth > 25: raise ExtractError("inlining too deep at " + fn.name)
        if any(f.fn is fn for f in self.frames): raise ExtractError("recursive call of %s needs a contract" % fn.name)
        self.inlined.add(fn.name); self.depth += 1
        c = self.sf.contracts.get(fn.name)
        save = self.curfn
        fr = self.run_body(st, fn, args, c)
        self.depth -= 1
        self.curfn = save
        rets = [(s, v) for s, v, _ in fr.rets if not s.dead()]
        if not rets: 
            st.guard = st.guard + (FALSE,)
            return self.dummy(fn.rettype)
        r = rets[0][0]; val = rets[0][1]
        for s, v in rets[1:]:
            # merge value along with state
            r.env["$ret"] = val if val is not None else self.dummy(fn.rettype)
            s.env["$ret"] = v if v is not None else self.dummy(fn.rettype)
            r = self.merge2(r, s)
            if "$ret" not in r.env: raise ExtractError("cannot merge return values of " + fn.name)
            val = r.env.pop("$ret")
        st.env = r.env; st.heap = r.heap; st.guard = r.guard; st.top = r.top
        if val is None: val = self.dummy(fn.rettype)
        return val

    def dummy(self, t):
        if t.k == "void": return VoidV()
        if t.k == "struct": return StructV(self.fresh("undef.o"), IV(0), t)
        return self.fresh_of("undef", t)

    # ------------------------------------------------------------ statements
    def block(self, st, nodes):
        for n in nodes:
            if st is None or st.dead(): return None
            st = self.stmt(st, n)
        return st

    def stmt(self, st, n):
        if st is None or st.dead(): return None
        k = n.get("kind")
        if k is None: return st
        if k == "CompoundStmt": return self.block(st, n.get("inner", []))
        if k == "NullStmt": return st
        if k == "DeclStmt":
            for d in n["inner"]:
                if d["kind"] == "VarDecl": self.decl(st, d)
            return None if st.dead() else st
        if k == "ReturnStmt":
            fr = self.frames[-1]
            if n.get("inner"):
                v = self.ev(st, n["inner"][0])
                rt = fr.fn.rettype
                if rt.k == "struct":
                    o = self.alloc(st, IV(1)); self.copy_struct(st, rt, o, IV(0), v.obj, v.idx); v = StructV(o, IV(0), rt)
                elif rt.k == "bool": v = self.asBool(v)
            else: v = VoidV()
            if not st.dead(): fr.rets.append((st, v, n.get("_line")))
            return None
        if k == "IfStmt":
            inner = n["inner"]
            c = self.asBool(self.ev(st, inner[0]))
            if st.dead(): return None
            c = self.nameit(c)
            a = st.with_guard(c); b = st.with_guard(Not(c))
            ra = self.stmt(a, inner[1]) if not a.dead() else None
            if len(inner) > 2: rb = self.stmt(b, inner[2]) if not b.dead() else None
            else: rb = b if not b.dead() else None
            return self.merge([ra, rb])
        if k == "ForStmt":
            init, _, cond, inc, body = n["inner"]
            if init.get("kind"): 
                st = self.stmt(st, init)
            return self.loop(st, n, cond if cond.get("kind") else None, inc if inc.get("kind") else None, body, False)
        if k == "WhileStmt":
            return self.loop(st, n, n["inner"][0], None, n["inner"][-1], False)
        if k == "DoStmt":
            return self.loop(st, n, n["inner"][1], None, n["inner"][0], True)
        if k == "BreakStmt":
            self.frames[-1].brk[-1].append(st); return None
        if k == "ContinueStmt":
            self.frames[-1].cont[-1].append(st); return None
        if k == "SwitchStmt": return self.switch(st, n)
        if k in ("CaseStmt", "DefaultStmt", "LabelStmt", "GotoStmt"):
            raise ExtractError("unsupported statement %s at line %s" % (k, n.get("_line")))
        if k == "AttributedStmt": return self.stmt(st, n["inner"][-1])
        self.ev(st, n)
        return None if st.dead() else st

    def nameit(self, c):
        """name a compound condition so that guards stay small"""
        if is_true(c) or is_false(c): return c
        s = z3.simplify(c)
        if is_true(s) or is_false(s): return s
        x = c.arg(0) if z3.is_not(c) else c
        if z3.is_const(x): return c
        b = self.fresh("c", BoolS); self.gfact(b == c)
        return b

    def decl(self, st, d):
        fr = self.frames[-1]
        t = fr.fn.unit.type(d["type"])
        fr.names[d["name"]] = ("var", d["id"], t)
        if d.get("storageClass") == "static":
            k = self.embinfo.setdefault(("statics", fr.fn.name), [])
            if d["id"] not in k: k.append(d["id"])
            # the first static of a function is known to contracts as static_of("function")
            nm = "*" if k[0] == d["id"] else d["name"]
            if t.k == "arr" and t.n:
                st.env[d["id"]] = ("array", self.globobj(fr.fn.name + "::" + nm), t)
                self.gfact(self.objlen(st.env[d["id"]][1]) == t.n)
                return
            st.env[d["id"]] = ("static", self.globobj(fr.fn.name + "::" + nm), t)
            return
        init = d["inner"][0] if d.get("inner") and d.get("init") else None
        if t.k == "struct":
            o = self.alloc(st, IV(1)); st.env[d["id"]] = StructV(o, IV(0), t)
            if init is not None: self.init_struct(st, t, o, IV(0), init)
            return
        if t.k == "arr":
            nn = t.n
            o = self.alloc(st, IV(nn) if nn else None); st.env[d["id"]] = ("array", o, t)
            if init is not None: self.init_arr(st, t, o, init)
            return
        if d["id"] in self.addrtaken(fr.fn):
            o = self.alloc(st, IV(1)); st.env[d["id"]] = ("addr", o, t)
            if init is not None:
                self.store(st, t.key() + "[]", o, IV(0), t, self.ev(st, init))
            return
        st.env[d["id"]] = self.coerce(self.ev(st, init), t) if init is not None else self.fresh_of(d["name"], t)

    def coerce(self, v, t):
        if t.k == "bool": return self.asBool(v)
        if t.k == "int": return self.asInt(v)
        if t.k == "ptr" and t.to.k == "func" and isinstance(v, PtrV): return FuncV(None, v.obj)
        return v

    def init_struct(self, st, t, o, i, init):
        x = init
        if x["kind"] == "InitListExpr":
            fs = self.prog.fields(t.name)
            for (fn, ft), e in zip(fs, x.get("inner", [])):
                self.init_field(st, t, o, i, fn, ft, e)
            return
        v = self.ev(st, init)
        self.copy_struct(st, t, o, i, v.obj, v.idx)

    def init_field(self, st, t, o, i, fn, ft, e):
        if e["kind"] == "ImplicitValueInitExpr":
            lv = self.field_lv(st, LStruct(o, i, t), fn)
            self.zero(st, lv); return
        lv = self.field_lv(st, LStruct(o, i, t), fn)
        if ft.k == "struct": self.init_struct(st, ft, lv.obj, lv.idx, e)
        elif ft.k == "arr":
            es = e.get("inner", [])
            for k in range(ft.n):
                l2 = self.index_lv(st, lv, IV(k))
                if k < len(es) and es[k]["kind"] != "ImplicitValueInitExpr": self.assign(st, l2, self.ev(st, es[k]))
                else: self.zero(st, l2)
        else: self.assign(st, lv, self.ev(st, e))

    def init_arr(self, st, t, o, init):
        if init["kind"] == "StringLiteral": return
        if init["kind"] == "InitListExpr":
            es = init.get("inner", [])
            if "array_filler" in init: es = [x for x in init["array_filler"] if x.get("kind") != "ImplicitValueInitExpr"]
            for k in range(t.n):
                lv = self.index_lv(st, LArr(o, IV(0), t), IV(k))
                if k < len(es):
                    if isinstance(lv, LStruct): self.init_struct(st, lv.t, lv.obj, lv.idx, es[k])
                    else: self.assign(st, lv, self.ev(st, es[k]))
                else: self.zero(st, lv)
            return
        raise ExtractError("array initialiser")

    def zero(self, st, lv):
        t = lv.t
        if isinstance(lv, LStruct):
            for fn, ft in self.prog.fields(t.name): self.zero(st, self.field_lv(st, lv, fn))
        elif isinstance(lv, LSmall):
            for i in range(t.n): self.store(st, "%s#%d" % (lv.key, i), lv.obj, lv.idx, t.to, self.zeroval(t.to))
        elif isinstance(lv, LArr):
            for key in self.scalar_keys(lv.t.to.key() + "[]", lv.t.to):
                self.wr_inner(st, key, lv.obj, z3.K(IntS, self.zsort(self.keyt[key])))
        else: self.assign(st, lv, self.zeroval(t))

    def zsort(self, t):
        return FALSE if t.k == "bool" else (z3.RealVal(0) if t.k == "float" else IV(0))

    def zeroval(self, t):
        if t.k == "ptr": return FuncV(None, IV(0)) if t.to.k == "func" else PtrV(IV(0), IV(0), t.to)
        return self.zsort(t)

    # ------------------------------------------------------------ switch
    def switch(self, st, n):
        v = self.asInt(self.ev(st, n["inner"][0]))
        body = n["inner"][-1]
        items = body.get("inner", [])
        fr = self.frames[-1]
        fr.brk.append([])
        # flatten  case A: case B: stmt
        flat = []
        for it in items:
            while it.get("kind") in ("CaseStmt", "DefaultStmt"):
                if it["kind"] == "CaseStmt":
                    ce = it["inner"][0]
                    flat.append(("case", self.constval(ce)))
                    it = it["inner"][-1]
                else:
                    flat.append(("default", None)); it = it["inner"][-1]
            flat.append(("stmt", it))
        vals = [x[1] for x in flat if x[0] == "case"]
        cur = None; hasdef = any(x[0] == "default" for x in flat)
        for kind, x in flat:
            if kind == "case":
                c = self.nameit(z3.simplify(v == x))
                e = st.with_guard(c)
                cur = self.merge([cur, None if e.dead() else e])
            elif kind == "default":
                e = st.with_guard(self.nameit(And([v != y for y in vals])))
                cur = self.merge([cur, None if e.dead() else e])
            elif cur is not None:
                cur = self.stmt(cur, x)
        outs = fr.brk.pop() + [cur]
        if not hasdef: outs.append(st.with_guard(self.nameit(And([v != y for y in vals]))))
        return self.merge(outs)

    def constval(self, e):
        while e["kind"] in ("ImplicitCastExpr", "ParenExpr", "CStyleCastExpr"): e = e["inner"][0]
        if e["kind"] == "ConstantExpr" and "value" in e: return int(e["value"])
        if e["kind"] == "ConstantExpr": return self.constval(e["inner"][0])
        if e["kind"] == "IntegerLiteral": return int(e["value"])
        if e["kind"] == "CharacterLiteral": return int(e["value"])
        if e["kind"] == "DeclRefExpr": return self.prog.enumconst[e["referencedDecl"]["name"]]
        raise ExtractError("case label")

    # ------------------------------------------------------------ loops
    def loop(self, st, n, cond, inc, body, isdo):
        fr = self.frames[-1]
        no = fr.loopno.get(n["id"], 0)
        L = (fr.c.loops.get(no) or fr.c.loops.get("*")) if fr.c is not None else None
        if L is None or L.unroll is not None:
            return self.unroll(st, n, cond, inc, body, isdo, (L.unroll if L else None), no)
        line = n.get("_line")
        entry = st.copy()
        nm = "%s.loop%d" % (fr.fn.name, no)
        if isdo:
            # run the body once, then treat as while loop with the invariant at the test
            raise ExtractError("do-while with invariant unsupported at line %s" % line)
        SE = lambda s: self.senv(s, fr, entry)
        for (cn, cv, lo, ce) in L.counts:       # number of lo <= i < n with the property, in the state at loop entry: defined by recursion over n
            f = z3.Function("count:%s!%d" % (cn, next(self.ctr)), IntS, IntS); self.logicf["count:" + cn] = f
            v = z3.Const("cn!%d" % next(self.ctr), IntS); w = z3.Const("cm!%d" % next(self.ctr), IntS); mk = self.uf("mark", IntS, BoolS)
            lov = self.asInt(self.sval(SE(entry), lo))
            pv = self.sbool(SE(entry).bind(cv, v), ce)
            self.fact(st, f(lov) == 0)
            self.fact(st, z3.ForAll([v], Implies(v >= lov, f(v + 1) == f(v) + z3.If(pv, IV(1), IV(0))), patterns=[mk(v)]))
            self.fact(st, z3.ForAll([v, w], Implies(z3.And(lov <= v, v <= w), z3.And(f(v) <= f(w), f(w) - f(v) <= w - v)), patterns=[z3.MultiPattern(f(v), f(w))]))
        for h in L.hints: self.assert_hint(st, SE(st), h, nm)
        for (nme, e, ln) in L.inv:
            self.oblige(st, "loop-invariant-entry", self.sbool(SE(st), e), line, "%s.inv[%s] holds on entry" % (nm, nme or ln))
        # what does the body change?
        mods = self.loop_mods(st, cond, inc, body)
        h = st.copy()
        self.havoc_mods(h, st, mods, nm)
        frames = self.loop_frames(st, entry, fr, L, mods)
        for (ref, key, ok) in frames:
            self.fact(h, self.frame_fact(h, ref, key, ok))
        for (nme, e, ln) in L.inv:
            self.fact(h, self.sbool(SE(h), e))
        for (wref, bykey, wnm, wline) in self.wframes:      # the writes of an inner loop, as a whole
            for key in mods[1]:
                h0, h1 = self.hget(st, key), self.hget(h, key)
                if key not in bykey or h0.eq(h1): continue
                o = z3.Const("frame.o!%d" % next(self.ctr), IntS); i = z3.Const("frame.i!%d" % next(self.ctr), IntS)
                self.oblige(h, "loop-frame", Implies(z3.And(self.root(o) < wref.top, Not(Or(self.target_ok(bykey[key], o, i)))),
                                                     z3.Select(z3.Select(h1, o), i) == z3.Select(z3.Select(h0, o), i)), wline, "%s assigns only its frame (%s)" % (wnm, key))
        dec0 = self.asInt(self.sval(SE(h), L.decreases[1])) if L.decreases else None
        body_in = h
        c = self.nameit(self.asBool(self.ev(h, cond))) if cond is not None else TRUE
        exit_st = h.with_guard(Not(c))
        b = h.with_guard(c)
        bywrite = L.assigns is not None and frames and not self.dry
        if bywrite: self.wframes.append((frames[0][0], {k: ok for (ref, k, ok) in frames}, nm, line))
        fr.brk.append([]); fr.cont.append([])
        if not b.dead():
            for hh in L.bodyhints: self.assert_hint(b, SE(b), hh, nm)
            r = self.stmt(b, body)
        else: r = None
        brks = fr.brk.pop(); conts = fr.cont.pop()
        r = self.merge([r] + conts)
        if r is not None and inc is not None:
            self.ev(r, inc)
        if bywrite: self.wframes.pop()
        if r is not None:
            for hh in L.hints: self.assert_hint(r, SE(r), hh, nm)
            for (nme, e, ln) in L.inv:
                self.oblige(r, "loop-invariant-preserved", self.sbool(SE(r), e), line, "%s.inv[%s] preserved" % (nm, nme or ln))
            for (ref, key, ok) in ([] if bywrite else frames):
                hr = self.hget(r, key)
                if not hr.eq(self.hget(ref, key)):
                    self.oblige(r, "loop-frame", self.frame_goal(r, ref, key, ok), line, "%s assigns only its frame (%s)" % (nm, key))
            if L.decreases:
                d1 = self.asInt(self.sval(SE(r), L.decreases[1]))
                self.oblige(r, "loop-termination", z3.And(dec0 >= 0, d1 < dec0), line, "%s terminates" % nm)
        return self.merge([None if exit_st.dead() else exit_st] + brks)

    def loop_frames(self, st, entry, fr, L, mods):
        """implicit loop frame: locations outside of the assigns clause (of the loop, or of the verified
        function) keep their value.  Only needed for heap maps written through loop-variant pointers."""
        out = []
        if not mods[1]: return out
        if L.assigns is not None:
            ref = entry; se = self.senv(entry, fr, entry); c = L
        else:
            f0 = self.frames[0]
            if f0.c is None or f0.c.assigns is None and not f0.c.ensures and not f0.c.requires: return out
            ref = f0.oldst; c = f0.c
            se = SEnv(self, None, ref, ref, None, None, f0.c, f0)
        bykey = {}
        for (k, o, i, cond) in self.assign_targets(se, c, ref): bykey.setdefault(k, []).append((o, i, cond))
        for k, objs in mods[1].items():
            if None not in objs and not any(ti is not None for (o, ti, cond) in bykey.get(k, [])): continue
            out.append((ref, k, bykey.get(k, [])))
            # on entry the same must hold
            hs = self.hget(st, k)
            if not hs.eq(self.hget(ref, k)):
                self.oblige(st, "loop-frame", self.frame_goal(st, ref, k, bykey.get(k, [])), None, "frame of %s on loop entry" % k)
        return out

    def frame_goal(self, s, ref, key, targets):
        o = z3.Const("frame.o!%d" % next(self.ctr), IntS); i = z3.Const("frame.i!%d" % next(self.ctr), IntS)
        return Implies(z3.And(self.root(o) < ref.top, Not(Or(self.target_ok(targets, o, i)))),
                       z3.Select(z3.Select(self.hget(s, key), o), i) == z3.Select(z3.Select(self.hget(ref, key), o), i))

    def target_ok(self, targets, o, i):
        ok = []
        for (to, ti, cond) in targets:
            if ti is None: t = o == to
            elif isinstance(ti, tuple): t = z3.And(o == to, i >= ti[0], i < ti[1])
            else: t = z3.And(o == to, i == ti)
            ok.append(And([t, cond]))
        return ok

    def frame_fact(self, h, ref, key, targets):
        q = z3.Const("fo!%d" % next(self.ctr), IntS); i = z3.Const("fi!%d" % next(self.ctr), IntS)
        hh = self.hget(h, key); hr = self.hget(ref, key)
        fs = [z3.ForAll([q], Implies(And([self.root(q) < ref.top] + [Not(And([q == to, cond])) for (to, ti, cond) in targets]), hh[q] == hr[q]), patterns=[hh[q]])]
        if any(ti is not None for (to, ti, cond) in targets):
            fs.append(z3.ForAll([q, i], Implies(And([self.root(q) < ref.top, Not(Or(self.target_ok(targets, q, i)))]),
                                                z3.Select(z3.Select(hh, q), i) == z3.Select(z3.Select(hr, q), i)), patterns=[z3.Select(z3.Select(hh, q), i)]))
        return And(fs)

    def assert_hint(self, st, se, h, nm):
        self.oblige(st, "hint", self.sbool(se, h[1]), h[2], "%s.hint[%s]" % (nm, h[0] or h[2]))

    def unroll(self, st, n, cond, inc, body, isdo, N, no):
        fr = self.frames[-1]
        limit = N if N is not None else self.opts.get("unroll", 5)
        outs = []
        cur = st
        line = n.get("_line")
        for k in range(limit + 1):
            if cur is None: break
            if not (isdo and k == 0) and cond is not None:
                c = self.nameit(self.asBool(self.ev(cur, cond)))
                ex = cur.with_guard(Not(c))
                if not ex.dead(): outs.append(ex)
                cur = cur.with_guard(c)
                if cur.dead(): cur = None; break
            if k == limit:
                if N is None and not self.small_loop(cur):
                    raise ExtractError("loop %d of %s (line %s) has no invariant and does not end within %d iterations" % (no, fr.fn.name, line, limit))
                self.oblige(cur, "unwinding", FALSE, line, "%s.loop%d ends within %d iterations" % (fr.fn.name, no, limit))
                cur = None; break
            fr.brk.append([]); fr.cont.append([])
            r = self.stmt(cur, body)
            outs += fr.brk.pop(); conts = fr.cont.pop()
            cur = self.merge([r] + conts)
            if cur is not None and inc is not None: self.ev(cur, inc)
        return self.merge(outs)

    def small_loop(self, st): return self.opts.get("unroll_ok", False)

    def loop_mods(self, st, cond, inc, body):
        """dry runs until the set of changed locals and heap maps is stable"""
        fr = self.frames[-1]
        envmods = set(); heapmods = {}   # key -> list of (obj term, kind)
        pre_top = st.top
        for it in range(6):
            save = (len(self.facts), len(self.obs), self.storelog, set(self.loadseen), set(self.embseen), dict(self.callvals), dict(self.glob), dict(self.strs))
            oldlog = self.storelog
            self.storelog = []
            d = st.copy()
            self.havoc_mods(d, st, (envmods, heapmods, pre_top), "dry")
            d.top = self.fresh("dtop")
            dtop = d.top
            frsave = (len(fr.rets),)
            rets0 = [len(f.rets) for f in self.frames]
            fr.brk.append([]); fr.cont.append([])
            if cond is not None:
                c = self.nameit(self.asBool(self.ev(d, cond)))
                afterc = d.copy()
                d = d.with_guard(c)
            else: afterc = d.copy()
            start_env = dict(d.env)
            base = d.copy()
            r = self.stmt(d, body) if not d.dead() else None
            brks = fr.brk.pop(); conts = fr.cont.pop()
            outs = [r] + conts
            m = self.merge(outs)
            if m is not None and inc is not None: self.ev(m, inc)
            newret = []
            for f, k in zip(self.frames, rets0):
                del f.rets[k:]
            log = self.storelog
            self.storelog = oldlog
            nenv = set()
            for s in [m, afterc] + brks:
                if s is None: continue
                for k2, v in s.env.items():
                    if k2 in st.env and not same_val(v, self_env(st, envmods, base, k2)): nenv.add(k2)
            nheap = {}
            for (key, obj, idx, top) in log:
                cls = self.classify_obj(obj, dtop, st)
                nheap.setdefault(key, set()).add(cls)
            del self.facts[save[0]:]; del self.obs[save[1]:]
            self.loadseen = save[3]; self.embseen = save[4]; self.callvals = save[5]; self.glob = save[6]; self.strs = save[7]
            changed = False
            if not nenv <= envmods: envmods |= nenv; changed = True
            for k2, s2 in nheap.items():
                if not s2 <= heapmods.get(k2, set()): heapmods[k2] = heapmods.get(k2, set()) | s2; changed = True
            if not changed: break
        # propagate the store log to an enclosing recording
        if self.storelog is not None: self.storelog.extend(log)
        return (envmods, heapmods, pre_top)

    def classify_obj(self, obj, dtop, st):
        """loop-invariant object term -> the term itself (hashable wrapper);
        allocated inside the loop -> 'new'; otherwise None (any object)"""
        consts = set(); collect_consts(obj, consts)
        names = {c.decl().name() for c in consts}
        if dtop.decl().name() in names:
            return "new"
        for nm in names:
            if "!" in nm and int(nm.rsplit("!", 1)[1]) >= int(dtop.decl().name().rsplit("!", 1)[1]) and nm.split("!")[0] == "top":
                return "new"
        # any constant or heap map created during the dry run makes it variant
        lim = int(dtop.decl().name().rsplit("!", 1)[1])
        for nm in names:
            if "!" in nm:
                q = nm.rsplit("!", 1)[1]
                if q.isdigit() and int(q) >= self.dry_base(lim): return None
        return TermKey(obj)

    def dry_base(self, lim):
        # havocked locals/maps of the dry run are created just before dtop
        return self._drybase

    def havoc_mods(self, h, st, mods, nm):
        envmods, heapmods, pre_top = mods
        if nm == "dry": self._drybase = next(self.ctr)
        for vid in envmods:
            v = h.env[vid]
            h.env[vid] = self.havoc_val(v, self.varname(vid))
        newalloc = any("new" in s for s in heapmods.values())
        h.top = self.fresh("top")
        self.fact(st, h.top >= pre_top)
        for key, objs in heapmods.items():
            old = self.hget(st, key)
            if None in objs:
                h.heap[key] = self.fresh("H:" + key, old.sort())
            elif "new" in objs:
                nh = self.fresh("H:" + key, old.sort())
                q = z3.Const("fo!%d" % next(self.ctr), IntS)
                excl = [q != o.t for o in objs if isinstance(o, TermKey)]
                self.fact(st, z3.ForAll([q], Implies(And([self.root(q) < pre_top] + excl), nh[q] == old[q]),
                                      patterns=[nh[q]]))
                # the same for maps mentioned through the old heap
                h.heap[key] = nh
            else:
                cur = old
                for o in objs:
                    cur = z3.Store(cur, o.t, self.fresh("A:" + key, old.sort().range()))
                h.heap[key] = cur

    def varname(self, vid):
        for f in self.frames:
            for n, (k, i, t) in f.names.items():
                if i == vid: return n
        return "v"

    def havoc_val(self, v, name):
        if isinstance(v, PtrV):
            if v.loc is not None: raise ExtractError("loop changes a pointer to a scalar field")
            return PtrV(self.fresh(name + ".o"), self.fresh(name + ".i"), v.to)
        if isinstance(v, FuncV): return FuncV(None, self.fresh(name + ".f"))
        if isinstance(v, (StructV, tuple)): return v
        r = self.fresh(name, v.sort())
        vid = name
        t = self.vartype(name)
        if t is not None and t.k == "int":
            lo, hi = trange(t); self.gfact(z3.And(r >= lo, r <= hi))
        return r

    def vartype(self, name):
        for f in reversed(self.frames):
            if name in f.names: return f.names[name][2]
        return None

    # ------------------------------------------------------------ lvalues
    def lv(self, st, n):
        k = n["kind"]
        if k == "ParenExpr": return self.lv(st, n["inner"][0])
        if k == "DeclRefExpr":
            rd = n["referencedDecl"]
            if rd["kind"] == "FunctionDecl": return LFunc(rd["name"])
            if rd["kind"] == "EnumConstantDecl": raise ExtractError("enum lvalue")
            return self.var_lv(st, rd["id"], rd["name"], rd["type"])
        if k == "MemberExpr":
            base = n["inner"][0]; f = n["name"]
            if n.get("isArrow"):
                p = self.ev(st, base)
                if not isinstance(p, PtrV): raise ExtractError("-> on non-pointer")
                self.check_deref(st, p, n)
                t = p.to
                bt = self.ntype(base)
                if bt.k == "ptr" and bt.to.k == "struct": t = bt.to
                s = LStruct(p.obj, p.idx, t)
            else:
                s = self.lv_or_rv_struct(st, base)
            return self.field_lv(st, s, f)
        if k == "ArraySubscriptExpr":
            base, ix = n["inner"]
            i = None
            b0 = strip_decay(base)
            if b0 is not None:
                a = self.lv(st, b0)
                i = self.asInt(self.ev(st, ix))
                if isinstance(a, (LArr, LSmall)):
                    if self.bounds and a.t.n: self.oblige(st, "bounds", z3.And(i >= 0, i < a.t.n), n.get("_line"), "array index within bounds")
                    return self.index_lv(st, a, i)
                raise ExtractError("subscript base")
            p = self.ev(st, base)
            i = self.asInt(self.ev(st, ix))
            if not isinstance(p, PtrV):
                if isinstance(i, PtrV): p, i = i, p
                else: raise ExtractError("subscript of non pointer")
            p = self.padd(st, p, i)
            self.check_deref(st, p, n)
            return self.deref(st, p)
        if k == "UnaryOperator" and n["opcode"] == "*":
            p = self.ev(st, n["inner"][0])
            if isinstance(p, FuncV): return p
            self.check_deref(st, p, n)
            return self.deref(st, p)
        if k in ("ImplicitCastExpr", "CStyleCastExpr") and n.get("castKind") in ("NoOp", "BitCast"):
            return self.lv(st, n["inner"][0])
        if k == "CompoundLiteralExpr":
            t = self.ntype(n)
            o = self.alloc(st, IV(1)); self.init_struct(st, t, o, IV(0), n["inner"][0])
            return LStruct(o, IV(0), t)
        if k in ("CallExpr",):
            v = self.ev(st, n)
            if isinstance(v, StructV): return LStruct(v.obj, v.idx, v.t)
        if k == "StringLiteral":
            return LArr(self.strobj(n.get("value", "")), IV(0), T("arr", to=CHAR, n=0))
        if k == "PredefinedExpr":
            return LArr(self.strobj("__func__"), IV(0), T("arr", to=CHAR, n=0))
        raise ExtractError("unsupported lvalue %s at line %s" % (k, n.get("_line")))

    def lv_or_rv_struct(self, st, n):
        x = n
        while x["kind"] == "ParenExpr": x = x["inner"][0]
        l = self.lv(st, x)
        return l

    def ntype(self, n):
        fr = self.frames[-1]
        return fr.fn.unit.type(n["type"])

    def var_lv(self, st, vid, name, ty):
        if vid in st.env:
            v = st.env[vid]
            if isinstance(v, tuple):
                kind, o, t = v
                if kind == "addr": return LMem(t.key() + "[]", o, IV(0), t)
                if kind == "array": return LArr(o, IV(0), t)
                if kind == "static": return self.glob_lv(o, t)
            if isinstance(v, StructV): return LStruct(v.obj, v.idx, v.t)
            t = None
            return LVar(vid, self.frames[-1].fn.unit.type(ty))
        # global
        t = self.frames[-1].fn.unit.type(ty)
        return self.glob_lv(self.globobj(name), t)

    def glob_lv(self, o, t):
        if t.k == "struct": return LStruct(o, IV(0), t)
        if t.k == "arr":
            if t.n and ("garr", o.get_id()) not in self.embinfo:
                self.embinfo[("garr", o.get_id())] = True; self._keep(o); self.gfact(self.objlen(o) == t.n)
            return LArr(o, IV(0), t)
        return LMem(t.key() + "[]", o, IV(0), t)

    def globobj(self, name):
        if name not in self.glob:
            v = -10 - len(self.glob)
            self.glob[name] = IV(v)
            self.gfact(z3.And(self.root(IV(v)) == v, self.tag(IV(v)) == 0))
            self.gfact(self.objlen(IV(v)) >= 1)
        return self.glob[name]

    def strobj(self, s):
        if s not in self.strs:
            v = -100000 - len(self.strs); self.strs[s] = IV(v)
            self.gfact(z3.And(self.root(IV(v)) == v, self.tag(IV(v)) == 0))
            txt = s[1:-1] if len(s) > 1 and s[0] == s[-1] == '"' else None
            if txt is not None and len(txt) <= 12 and all(32 <= ord(c) < 127 and c != chr(92) for c in txt):      # literals are never written
                self.regkey("i8[]", CHAR); h = self.H0.get("i8[]")
                if h is None: h = self.H0["i8[]"] = z3.Const("H0:i8[]", z3.ArraySort(IntS, z3.ArraySort(IntS, self.keysort("i8[]"))))
                inner = z3.Select(h, IV(v))
                self.gfact(z3.And([inner[IV(i)] == ord(c) for i, c in enumerate(txt)] + [inner[IV(len(txt))] == 0, self.objlen(IV(v)) == len(txt) + 1]))
        return self.strs[s]

    def field_lv(self, st, s, f):
        if not isinstance(s, LStruct): raise ExtractError("member of non-struct")
        fs = self.prog.fields(s.t.name)
        d = dict(fs)
        if f not in d or f == "":
            # look through anonymous members
            for fn, ft in fs:
                if fn == "" and ft.k == "struct" and f in dict(self.prog.fields(ft.name)):
                    return self.field_lv(st, LStruct(s.obj, s.idx, ft), f)
            raise ExtractError("no field %s in %s" % (f, s.t.name))
        ft = d[f]
        if ft.k == "struct": return LStruct(self.emb(s.t.name, f, s.obj), s.idx, ft)
        if ft.k == "arr":
            if self.smallarr(ft): return LSmall("%s.%s" % (s.t.name, f), s.obj, s.idx, ft)
            return LArr(self.emb(s.t.name, f, s.obj, s.idx), IV(0), ft)
        return LMem("%s.%s" % (s.t.name, f), s.obj, s.idx, ft)

    def index_lv(self, st, a, i):
        el = a.t.to
        if isinstance(a, LSmall):
            i = z3.simplify(i)
            if z3.is_int_value(i):
                k = i.as_long()
                if k < 0 or k >= a.t.n: raise ExtractError("constant index out of bounds")
                return LMem("%s#%d" % (a.key, k), a.obj, a.idx, el)
            l = LMem(None, a.obj, a.idx, el); l.small = a; l.sidx = i
            return l
        if el.k == "struct": return LStruct(a.obj, z3.simplify(a.base + i), el)
        if el.k == "arr":
            if a.t.to.n and self.smallarr(a.t.to) or el.to.isscalar():
                # array of arrays: row-major single object
                return LArr(a.obj, z3.simplify((a.base + i) * el.n), el)
            raise ExtractError("array of arrays")
        return LMem(el.key() + "[]", a.obj, z3.simplify(a.base + i), el)

    def deref(self, st, p):
        if p.loc is not None: return p.loc
        if p.to.k == "struct": return LStruct(p.obj, p.idx, p.to)
        if p.to.k == "void": raise ExtractError("dereference of void*")
        if p.to.k == "arr": return LArr(p.obj, z3.simplify(p.idx * p.to.n), p.to)
        if p.to is U8VIEW: return LMem(CHAR.key() + "[]", p.obj, p.idx, p.to)
        return LMem(p.to.key() + "[]", p.obj, p.idx, p.to)

    def check_deref(self, st, p, n):
        if p.loc is not None: return
        if not self.bounds: return
        o = p.obj
        self.oblige(st, "memory", And([o != 0] + ([p.idx >= 0, p.idx < self.objlen(o)])), n.get("_line"),
                    "pointer dereference is valid")

    def read(self, st, l):
        if isinstance(l, LVar): return st.env[l.id]
        if isinstance(l, LMem):
            if l.key is None:
                a = l.small; r = None
                for k in reversed(range(a.t.n)):
                    v = self.load(st, "%s#%d" % (a.key, k), a.obj, a.idx, a.t.to)
                    r = v if r is None else (self.merge_val(l.sidx == k, v, r))
                return r
            return self.load(st, l.key, l.obj, l.idx, l.t)
        if isinstance(l, LIte): return self.merge_val(l.c, self.read(st, l.a), self.read(st, l.b))
        if isinstance(l, LStruct): return StructV(l.obj, l.idx, l.t)
        if isinstance(l, LFunc): return FuncV(l.name)
        if isinstance(l, LArr): return PtrV(l.obj, l.base, l.t.to)
        raise ExtractError("read of " + type(l).__name__)

    def assign(self, st, l, v):
        if isinstance(l, LVar):
            st.env[l.id] = self.coerce(v, l.t)
        elif isinstance(l, LMem):
            if l.key is None:
                a = l.small
                for k in range(a.t.n):
                    old = self.load(st, "%s#%d" % (a.key, k), a.obj, a.idx, a.t.to)
                    self.store(st, "%s#%d" % (a.key, k), a.obj, a.idx, a.t.to, self.merge_val(l.sidx == k, self.coerce(v, a.t.to), old))
            else: self.store(st, l.key, l.obj, l.idx, l.t, v)
        elif isinstance(l, LStruct):
            self.copy_struct(st, l.t, l.obj, l.idx, v.obj, v.idx)
        elif isinstance(l, LIte):      # both written: the one not meant keeps its value
            v = self.coerce(v, l.t)
            self.assign(st, l.a, self.merge_val(l.c, v, self.read(st, l.a)))
            self.assign(st, l.b, self.merge_val(l.c, self.read(st, l.b), v))
        else: raise ExtractError("assignment to " + type(l).__name__)

    def padd(self, st, p, i):
        if p.loc is not None: 
            if isinstance(p.loc, LSmall): 
                l = self.index_lv(st, p.loc, i)
                return PtrV(p.obj, p.idx, p.to, l)
            if z3.is_int_value(i) and i.as_long() == 0: return p
            raise ExtractError("arithmetic on the address of a scalar")
        return PtrV(p.obj, z3.simplify(p.idx + i * self.unit(p.to)), p.to)

    def unit(self, t):
        if t.k == "struct" and self.bytewise(t): return self.prog.sizeof(t)
        return 1

    def bytewise(self, t):
        return t.k == "struct" and (t.name in ("_Laik_Action", "_Laik_BackendAction") or t.name.startswith("Laik_A_"))

    # ------------------------------------------------------------ arithmetic
    def wrap(self, st, r, t):
        """value r reduced to unsigned/bool/int type t (modular)"""
        lo, hi = trange(t)
        r = z3.simplify(r)
        if z3.is_int_value(r):
            v = r.as_long(); m = 1 << t.bits
            v %= m
            if t.signed and v >= m // 2: v -= m
            return IV(v)
        x = self.fresh("w"); m = 1 << t.bits
        self.gfact(z3.And(Implies(z3.And(r >= lo, r <= hi), x == r), x >= lo, x <= hi))
        w = r % m
        if t.signed: w = z3.If(w >= m // 2, w - m, w)
        self.gfact(Implies(z3.Or(r < lo, r > hi), x == w))
        return x

    def fbin(self, op, a, b, bits=64):
        nm = {"+": "fadd", "-": "fsub", "*": "fmul", "/": "fdiv"}[op] + ("32" if bits == 32 else "")
        return self.uf(nm, RealS, RealS, RealS)(a, b)

    def i2d(self, v):
        v = z3.simplify(self.asInt(v))
        if z3.is_int_value(v) and (abs(v.as_long()) <= 1 << 53 or float(v.as_long()) == v.as_long()): return z3.RealVal(v.as_long())
        r = self.uf("i2d", IntS, RealS)(v)
        self.gfact(Implies(z3.And(v >= -(1 << 53), v <= (1 << 53)), r == z3.ToReal(v)))
        return r

    def arith(self, st, op, a, b, t, line):
        if t.k == "float":
            if a.sort() != RealS: a = self.i2d(a)
            if b.sort() != RealS: b = self.i2d(b)
            return self.fbin(op, a, b, t.bits)
        a = self.asInt(a); b = self.asInt(b)
        if op == "+": r = a + b
        elif op == "-": r = a - b
        elif op == "*": r = a * b
        elif op in ("/", "%"):
            self.oblige(st, "div-by-zero", b != 0, line, "divisor is not zero")
            if z3.is_int_value(b) and b.as_long() > 0:
                q = z3.If(a >= 0, a / b, -((-a) / b))
            elif not t.signed: q = a / b
            else: q = z3.If(a >= 0, z3.If(b > 0, a / b, -(a / (-b))), z3.If(b > 0, -((-a) / b), (-a) / (-b)))
            if not t.signed: q = a / b
            if not z3.is_int_value(b):
                # name quotient and remainder; give the defining facts directly
                qq = self.fresh("quo"); rr = self.fresh("rem")
                self.gfact(Implies(z3.And(a >= 0, b > 0), z3.And(a == b * qq + rr, rr >= 0, rr < b, qq >= 0, qq <= a)))
                self.gfact(Implies(Not(z3.And(a >= 0, b > 0)), z3.And(Implies(b != 0, qq == q), rr == a - b * q)))
                return qq if op == "/" else rr
            return z3.simplify(q) if op == "/" else z3.simplify(a - b * q)
        elif op == "<<":
            if z3.is_int_value(b): r = a * (1 << b.as_long())
            else:
                r = self.uf("shl", IntS, IntS, IntS)(a, b)
                if z3.is_int_value(a) and a.as_long() == 1:
                    r = self.uf("pow2", IntS, IntS)(b)
                    self.gfact(r >= 1)
                return r
        elif op == ">>":
            if z3.is_int_value(b): return z3.simplify(a / (1 << b.as_long()))
            return self.uf("shr", IntS, IntS, IntS)(a, b)
        elif op in ("&", "|", "^"):
            if z3.is_int_value(a) and z3.is_int_value(b):
                x, y = a.as_long(), b.as_long()
                return IV({"&": x & y, "|": x | y, "^": x ^ y}[op])
            if z3.is_int_value(a) and op == "&": a, b = b, a
            r = self.uf({"&": "band", "|": "bor", "^": "bxor"}[op], IntS, IntS, IntS)(a, b)
            if op == "&" and z3.is_int_value(b):
                c = b.as_long()
                if c > 0 and (c & (c + 1)) == 0: return z3.simplify(a % (c + 1))
                if c > 0 and (c & (c - 1)) == 0:
                    self.gfact(r == c * ((a / c) % 2))
                elif c >= 0: self.gfact(z3.And(r >= 0, r <= c))
            else:
                self.gfact(Implies(z3.And(a >= 0, b >= 0), r >= 0))
                if op == "&": self.gfact(Implies(z3.And(a >= 0, b >= 0), z3.And(r <= a, r <= b)))
            lo, hi = trange(t); self.gfact(z3.And(r >= lo, r <= hi))
            for w_ in (8, 16):          # bitwise operations stay within a two's complement width
                h_ = 1 << (w_ - 1)
                self.gfact(Implies(z3.And(a >= -h_, a < h_, b >= -h_, b < h_), z3.And(r >= -h_, r < h_)))
                self.gfact(Implies(z3.And(a >= 0, a < 2 * h_, b >= 0, b < 2 * h_), z3.And(r >= 0, r < 2 * h_)))
            return r
        else: raise ExtractError("operator " + op)
        r = z3.simplify(r)
        if t.k == "int" and t.signed:
            if not z3.is_int_value(r):
                lo, hi = trange(t)
                if self.opts.get("overflow", True): self.oblige(st, "overflow", z3.And(r >= lo, r <= hi), line, "no signed overflow in '%s'" % op)
            return r
        return self.wrap(st, r, t)

    def nameint(self, e): return e

    def compare(self, st, op, a, b):
        if isinstance(a, FuncV) or isinstance(b, FuncV):
            ta = self.functerm(a) if isinstance(a, FuncV) else a.obj
            tb = self.functerm(b) if isinstance(b, FuncV) else b.obj
            e = ta == tb
            return e if op == "==" else Not(e)
        if isinstance(a, PtrV) or isinstance(b, PtrV):
            if not isinstance(a, PtrV): a = PtrV(IV(0), IV(0), VOID) if z3.is_int_value(self.asInt(a)) and self.asInt(a).as_long() == 0 else a
            if not isinstance(b, PtrV): b = PtrV(IV(0), IV(0), VOID) if z3.is_int_value(self.asInt(b)) and self.asInt(b).as_long() == 0 else b
            if not (isinstance(a, PtrV) and isinstance(b, PtrV)): raise ExtractError("pointer compared with integer")
            if op in ("==", "!="):
                if z3.is_int_value(b.obj) and b.obj.as_long() == 0: e = a.obj == 0
                elif z3.is_int_value(a.obj) and a.obj.as_long() == 0: e = b.obj == 0
                else: e = z3.And(a.obj == b.obj, z3.Or(a.obj == 0, a.idx == b.idx))
                e = z3.simplify(e)
                return e if op == "==" else Not(e)
            return cmpop(op, a.idx, b.idx)
        if a.sort() == RealS or b.sort() == RealS:
            if a.sort() != RealS: a = self.i2d(a)
            if b.sort() != RealS: b = self.i2d(b)
            return cmpop(op, a, b)
        if a.sort() == BoolS and b.sort() == BoolS and op in ("==", "!="):
            return a == b if op == "==" else z3.Xor(a, b)
        return cmpop(op, self.asInt(a), self.asInt(b))

    def convert(self, st, v, src, dst):
        if dst.k == "bool": return self.asBool(v)
        if isinstance(v, (PtrV, FuncV)): raise ExtractError("pointer converted to integer")
        if dst.k == "int":
            v = self.asInt(v)
            if src.k == "float": return self.d2i(v, dst)
            if v.sort() == RealS: return self.d2i(v, dst)
            a, b = trange(src); lo, hi = trange(dst)
            if a >= lo and b <= hi: return v
            return self.wrap(st, v, dst)
        if dst.k == "float":
            if v.sort() == RealS:
                if src.k == "float" and src.bits > dst.bits and z3.is_rational_value(v) and v.denominator_as_long() == 1 and abs(v.numerator_as_long()) < 1 << 24: return v
                if src.k == "float" and src.bits > dst.bits: return self.uf("d2f", RealS, RealS)(v)
                return v
            return self.i2d(v)
        if dst.k == "void": return VoidV()
        raise ExtractError("conversion to %r" % dst)

    def d2i(self, v, t):
        r = self.fresh("d2i"); lo, hi = trange(t)
        fl = self.uf("trunc", RealS, IntS)(v)
        self.gfact(Implies(v >= 0, z3.And(z3.ToReal(fl) <= v, v < z3.ToReal(fl) + 1)))
        self.gfact(Implies(v < 0, z3.And(z3.ToReal(fl) >= v, v > z3.ToReal(fl) - 1)))
        self.gfact(Implies(z3.And(fl >= lo, fl <= hi), r == fl)); self.gfact(z3.And(r >= lo, r <= hi))
        return r

    # ------------------------------------------------------------ expressions
    def ev(self, st, n):
        k = n["kind"]
        m = getattr(self, "ev_" + k, None)
        if m is None: raise ExtractError("unsupported expression %s at line %s" % (k, n.get("_line")))
        return m(st, n)

    def ev_ParenExpr(self, st, n): return self.ev(st, n["inner"][0])
    def ev_ConstantExpr(self, st, n): return self.ev(st, n["inner"][0])
    def ev_FullExpr(self, st, n): return self.ev(st, n["inner"][0])
    def ev_IntegerLiteral(self, st, n): return IV(int(n["value"]))
    def ev_CharacterLiteral(self, st, n): return IV(int(n["value"]))
    def ev_FloatingLiteral(self, st, n):
        v = float(n["value"])
        if self.ntype(n).bits == 32: v = struct.unpack("f", struct.pack("f", v))[0]
        return z3.RealVal(str(fractions.Fraction(v)))       # the exact value of the nearest floating point number
    def ev_StringLiteral(self, st, n): return PtrV(self.strobj(n.get("value", "")), IV(0), CHAR)
    def ev_PredefinedExpr(self, st, n): return PtrV(self.strobj("__func__"), IV(0), CHAR)
    def ev_DeclRefExpr(self, st, n):
        rd = n["referencedDecl"]
        if rd["kind"] == "EnumConstantDecl":
            return IV(self.prog.enumconst[rd["name"]])
        if rd["kind"] == "FunctionDecl": return FuncV(rd["name"])
        return self.lv(st, n)
    def ev_MemberExpr(self, st, n): return self.lv(st, n)
    def ev_ArraySubscriptExpr(self, st, n): return self.lv(st, n)
    def ev_StmtExpr(self, st, n): raise ExtractError("statement expression")
    def ev_GNUNullExpr(self, st, n): return PtrV(IV(0), IV(0), VOID)
    def ev_ImplicitValueInitExpr(self, st, n): return self.zeroval(self.ntype(n))
    def ev_CompoundLiteralExpr(self, st, n): return self.read(st, self.lv(st, n))
    def ev_OffsetOfExpr(self, st, n): raise ExtractError("offsetof")
    def ev_VAArgExpr(self, st, n): return self.fresh_of("va", self.ntype(n))

    def ev_UnaryExprOrTypeTraitExpr(self, st, n):
        t = self.frames[-1].fn.unit.type(n["argType"]) if "argType" in n else self.ntype(n["inner"][0])
        return IV(self.prog.sizeof(t))

    def ev_ImplicitCastExpr(self, st, n): return self.cast(st, n)
    def ev_CStyleCastExpr(self, st, n): return self.cast(st, n)

    def cast(self, st, n):
        ck = n["castKind"]; sub = n["inner"][0]
        if ck == "LValueToRValue":
            x = sub
            while x["kind"] == "ParenExpr": x = x["inner"][0]
            if x["kind"] == "CompoundLiteralExpr": return self.read(st, self.lv(st, x))
            return self.read(st, self.lv(st, sub))
        if ck == "NoOp":
            v = self.ev(st, sub)
            if isinstance(v, (LVar, LMem, LStruct, LArr, LSmall)): return v
            return v
        if ck == "ArrayToPointerDecay":
            a = self.lv(st, sub)
            if isinstance(a, LArr): return PtrV(a.obj, a.base, a.t.to)
            if isinstance(a, LSmall): return PtrV(a.obj, a.idx, a.t.to, a)
            raise ExtractError("array decay")
        if ck == "FunctionToPointerDecay": return self.ev(st, sub)
        if ck == "NullToPointer":
            t = self.ntype(n)
            if t.k == "ptr" and t.to.k == "func": return FuncV(None, IV(0))
            return PtrV(IV(0), IV(0), t.to)
        if ck == "BitCast":
            v = self.ev(st, sub); t = self.ntype(n)
            if isinstance(v, FuncV):
                if t.k == "ptr" and t.to.k == "func": return v
                return PtrV(self.functerm(v), IV(0), t.to)
            if t.to.k == "func": return FuncV(None, v.obj)
            return self.ptrcast(st, v, t.to)
        dst = self.ntype(n)
        if ck == "ToVoid": 
            x = sub
            while x["kind"] == "ParenExpr": x = x["inner"][0]
            if x["kind"] in ("DeclRefExpr",): return VoidV()
            self.ev(st, sub); return VoidV()
        src = self.ntype(sub)
        v = self.ev(st, sub)
        if ck in ("IntegralCast", "IntegralToBoolean", "FloatingToIntegral", "IntegralToFloating",
                  "FloatingCast", "FloatingToBoolean", "BooleanToSignedIntegral"):
            if ck == "FloatingToBoolean": return v != 0
            return self.convert(st, v, src, dst)
        if ck == "PointerToBoolean": return self.asBool(v)
        if ck == "PointerToIntegral":
            raise ExtractError("pointer cast to integer")
        if ck == "IntegralToPointer":
            v = self.asInt(v)
            if z3.is_int_value(v) and v.as_long() == 0: return PtrV(IV(0), IV(0), dst.to)
            raise ExtractError("integer cast to pointer")
        raise ExtractError("cast kind " + ck)

    def ptrcast(self, st, v, to):
        if v.loc is not None and to.k in ("void",): return PtrV(v.obj, v.idx, v.to, v.loc)
        if v.loc is not None: return v
        key = v.obj.get_id()
        if v.to == CHAR and v.to is not U8VIEW and to == U8: return PtrV(v.obj, v.idx, U8VIEW)      # characters seen as bytes
        # bytes behind a struct at the start of an allocation:  (T*)((char*)p + sizeof(*p))
        if v.to == CHAR and to.k != "void" and to != CHAR and not self.bytewise(to) and not (z3.is_int_value(v.idx) and v.idx.as_long() == 0):
            sa = self.embinfo.get(("structalloc", key))
            if sa is None or not z3.is_int_value(v.idx) or v.idx.as_long() != self.prog.sizeof(sa[0]) or to.k == "struct":
                raise ExtractError("cast of a byte address into an object")
            t = self.tailobj(v.obj, to); sz = self.prog.sizeof(to); rest = sa[1] - v.idx.as_long()
            self.gfact(Implies(rest >= 0, z3.And(self.objlen(t) * sz <= rest, rest < self.objlen(t) * sz + sz)))
            return PtrV(t, IV(0), to)
        if self.bytewise(v.to) and to in (CHAR, U8): self.embinfo[("recobj", key)] = True; self._keep(v.obj)
        # allocation result: number of elements
        r = PtrV(v.obj, v.idx, to)
        al = self.embinfo.get(("alloc", key))
        if al is not None and v.to.k == "void" and to.k != "void" and ("len", key) not in self.embinfo:
            self.embinfo[("len", key)] = True
            bytes_, zero, guardst, obj = al
            if to.k == "struct": self.embinfo[("structalloc", key)] = (to, bytes_)
            sz = 1 if self.bytewise(to) else self.prog.sizeof(to)
            L = self.objlen(obj)
            flex = self.prog.fields(to.name)[-1] if to.k == "struct" and self.prog.fields(to.name) else None
            if flex is not None and flex[1].k == "arr" and not flex[1].n:      # flexible array member behind one struct
                ft = flex[1].to; fz = self.prog.sizeof(ft); rest = bytes_ - sz
                fo = self.emb(to.name, flex[0], obj, IV(0)); FL = self.objlen(fo)
                self.gfact(Implies(rest >= 0, z3.And(L == 1, FL >= 0, FL * fz <= rest, rest < FL * fz + fz)))
            else:
                self.gfact(Implies(bytes_ >= 0, z3.And(L * sz <= bytes_, bytes_ < L * sz + sz, L >= 0)))
            if zero:
                for key2, o, i, lt in self.elem_locs(to, obj):
                    for k3 in self.scalar_keys(key2, lt):
                        self.wr_inner(st, k3, o, z3.K(IntS, self.zsort(self.keyt[k3])))
        return r

    def recfields(self):
        """all scalar fields of action records: [(heap key, byte offset in the record, size, type)]"""
        if "recf" not in self.embinfo:
            out = {}
            for nm, rec in self.prog.records.items():
                t = T("struct", name=nm)
                if not rec["complete"] or not self.bytewise(t): continue
                off = 0
                for fn, ft in self.prog.fields(nm):
                    if nm == "_Laik_Action":
                        o = {"type": 0, "len": 1, "round": 2, "tid": 3, "mark": 3}[fn]
                        out["%s.%s" % (nm, fn)] = (o, 1, ft); continue
                    if ft.k == "struct":
                        if not self.bytewise(ft): raise ExtractError("record with embedded struct")
                        off += self.prog.sizeof(ft); continue
                    if not rec["packed"]: raise ExtractError("action record not packed: " + nm)
                    out["%s.%s" % (nm, fn)] = (off, self.prog.sizeof(ft), ft); off += self.prog.sizeof(ft)
            self.embinfo["recf"] = [(k, o, sz, ft) for k, (o, sz, ft) in sorted(out.items())]
        return self.embinfo["recf"]

    def memcpy_records(self, st, d, s, b, line):
        """bytes of packed action records: a field of the record at q moves with its bytes"""
        if self.bounds:
            for p in (d, s):
                self.oblige(st, "memory", z3.Or(b == 0, z3.And(p.obj != 0, p.idx >= 0, p.idx + b <= self.objlen(p.obj))), line, "memcpy stays within bounds")
        new = []
        for key, off, sz, ft in self.recfields():
            for k in self.scalar_keys(key, ft):
                h = self.hget(st, k); dst = self.sel_obj(h, d.obj); src = self.sel_obj(h, s.obj)
                ni = self.fresh("A:" + k, dst.sort()); q = z3.Const("mq!%d" % next(self.ctr), IntS); fo = q + off
                self.gfact(z3.ForAll([q], z3.And(Implies(z3.And(fo >= d.idx, fo + sz <= d.idx + b), ni[q] == z3.Select(src, q - d.idx + s.idx)),
                                                 Implies(z3.Or(fo + sz <= d.idx, fo >= d.idx + b), ni[q] == z3.Select(dst, q))), patterns=[ni[q]]))
                new.append((k, ni))
        for k, ni in new: self.wr_inner(st, k, d.obj, ni)

    def elem_locs(self, t, obj):
        if self.bytewise(t):
            for key, off, sz, ft in self.recfields(): yield (key, obj, None, ft)
            return
        if t.k == "struct":
            for (key, o, i, lt) in self.leaf_locs(t, obj, IV(0)):
                yield (key, o, i, lt)
        else: yield (t.key() + "[]", obj, None, t)

    def ev_UnaryOperator(self, st, n):
        op = n["opcode"]; sub = n["inner"][0]
        if op == "&":
            x = strip(sub)
            if x["kind"] == "DeclRefExpr" and x["referencedDecl"]["kind"] == "FunctionDecl": return FuncV(x["referencedDecl"]["name"])
            l = self.lv(st, sub) if x["kind"] != "ArraySubscriptExpr" else self.lv_noderef(st, x)
            return self.addr(l)
        if op == "*":
            return self.lv(st, n)
        if op == "!":
            return Not(self.asBool(self.ev(st, sub)))
        if op in ("++", "--"):
            l = self.lv(st, sub); v = self.read(st, l)
            t = self.ntype(sub)
            if isinstance(v, PtrV): nv = self.padd(st, v, IV(1 if op == "++" else -1))
            else: nv = self.incdec(st, v, t, op, n.get("_line"))
            self.assign(st, l, nv)
            return v if n.get("isPostfix") else nv
        v = self.ev(st, sub)
        t = self.ntype(n)
        if op == "-":
            if t.k == "float": return -v
            v = self.asInt(v)
            return self.arith(st, "-", IV(0), v, t, n.get("_line"))
        if op == "+": return v
        if op == "~":
            v = self.asInt(v)
            if z3.is_int_value(v): 
                r = ~v.as_long()
                if not t.signed: r %= 1 << t.bits
                return IV(r)
            if t.signed: return -v - 1
            return IV((1 << t.bits) - 1) - v
        if op == "__extension__": return v
        raise ExtractError("unary " + op)

    def incdec(self, st, v, t, op, line):
        if t.k == "float": return self.fbin("+" if op == "++" else "-", v, z3.RealVal(1))
        if t.bits and t.bits < 32:
            r = self.asInt(v) + (1 if op == "++" else -1)
            return self.wrap(st, r, t)
        return self.arith(st, "+" if op == "++" else "-", v, IV(1), t, line)

    def lv_noderef(self, st, n):
        """&a[i]: no dereference obligation"""
        base, ix = n["inner"]
        b0 = strip_decay(base)
        if b0 is not None: 
            a = self.lv(st, b0); i = self.asInt(self.ev(st, ix)); return self.index_lv(st, a, i)
        p = self.ev(st, base); i = self.asInt(self.ev(st, ix))
        return self.deref(st, self.padd(st, p, i))

    def addr(self, l):
        if isinstance(l, LStruct): return PtrV(l.obj, l.idx, l.t)
        if isinstance(l, LMem):
            if l.key is not None and l.key.endswith("[]"): return PtrV(l.obj, l.idx, l.t)
            return PtrV(l.obj, l.idx, l.t, l)
        if isinstance(l, LArr): return PtrV(l.obj, l.base, l.t.to)
        if isinstance(l, LSmall): return PtrV(l.obj, l.idx, l.t.to, l)
        if isinstance(l, FuncV): return l
        raise ExtractError("address of " + type(l).__name__)

    def ev_BinaryOperator(self, st, n):
        op = n["opcode"]; a, b = n["inner"]
        if op == "=":
            l = self.lv(st, a); v = self.ev(st, b)
            if isinstance(v, (LVar, LMem, LStruct)): v = self.read(st, v)
            # evaluation of b may not change where l points (locals evaluated first)
            self.assign(st, l, v); return v
        if op == ",":
            self.ev(st, a); return self.ev(st, b)
        if op in ("&&", "||"):
            x = self.asBool(self.ev(st, a))
            if st.dead(): return FALSE
            xs = z3.simplify(x)
            if op == "&&" and is_false(xs): return FALSE
            if op == "||" and is_true(xs): return TRUE
            x = self.nameit(x)
            g = x if op == "&&" else Not(x)
            s2 = st.with_guard(g)
            before = (s2.env.copy(), s2.heap.copy(), s2.top)
            y = self.asBool(self.ev(s2, b))
            if s2.env != before[0] or any(not self.hget(s2, k).eq(self.hget(st, k)) for k in s2.heap) or not s2.top.eq(st.top) or len(s2.guard) != len(st.guard) + (0 if is_true(g) else 1):
                s3 = st.with_guard(Not(g))
                m = self.merge([s2, s3])
                st.env, st.heap, st.guard, st.top = m.env, m.heap, m.guard, m.top
            return And([x, y]) if op == "&&" else Or([x, y])
        t = self.ntype(n)
        x = self.ev(st, a); y = self.ev(st, b)
        if op in ("==", "!=", "<", ">", "<=", ">="): return self.compare(st, op, x, y)
        if isinstance(x, PtrV) or isinstance(y, PtrV):
            if op == "+":
                if isinstance(y, PtrV): x, y = y, x
                return self.padd(st, x, self.asInt(y))
            if op == "-":
                if isinstance(y, PtrV): 
                    u = self.unit(x.to)
                    d = z3.simplify(x.idx - y.idx)
                    if u == 1: return d
                    q = self.uf("ptrdiff%d" % u, IntS, IntS)(d)
                    self.gfact(Implies(d % u == 0, q == d / u))
                    return q
                return self.padd(st, x, z3.simplify(-self.asInt(y)))
        return self.arith(st, op, x, y, t, n.get("_line"))

    def ev_CompoundAssignOperator(self, st, n):
        op = n["opcode"][:-1]; a, b = n["inner"]
        l = self.lv(st, a); v = self.read(st, l); y = self.ev(st, b)
        t = self.ntype(a)
        if isinstance(v, PtrV):
            i = self.asInt(y)
            r = self.padd(st, v, i if op == "+" else z3.simplify(-i))
        else:
            ct = self.frames[-1].fn.unit.type(n["computeResultType"])
            x = self.convert(st, v, t, ct)
            r = self.arith(st, op, x, y, ct, n.get("_line"))
            r = self.convert(st, r, ct, t)
        self.assign(st, l, r); return r

    def ev_ConditionalOperator(self, st, n):
        c, a, b = n["inner"]
        x = self.asBool(self.ev(st, c))
        s = z3.simplify(x)
        if is_true(s): return self.ev(st, a)
        if is_false(s): return self.ev(st, b)
        x = self.nameit(x)
        s1 = st.with_guard(x); s2 = st.with_guard(Not(x))
        va = self.ev(s1, a); vb = self.ev(s2, b)
        s1.env["$c"] = va; s2.env["$c"] = vb
        if isinstance(va, VoidV): s1.env.pop("$c"); s2.env.pop("$c")
        m = self.merge([s1, s2])
        if m is None: st.guard = st.guard + (FALSE,); return va
        st.env, st.heap, st.guard, st.top = m.env, m.heap, m.guard, m.top
        if isinstance(va, VoidV): return va
        if "$c" not in st.env: raise ExtractError("conditional operands")
        r = st.env.pop("$c")
        return r

    # ------------------------------------------------------------ calls
    def ev_CallExpr(self, st, n):
        callee = n["inner"][0]; argn = n["inner"][1:]
        x = callee
        while x["kind"] in ("ImplicitCastExpr", "ParenExpr") or (x["kind"] == "UnaryOperator" and x["opcode"] == "*"): x = x["inner"][0]
        if x["kind"] == "DeclRefExpr" and x["referencedDecl"]["kind"] == "FunctionDecl":
            name = x["referencedDecl"]["name"]
            return self.call_named(st, name, argn, n)
        # indirect call
        fv = self.ev(st, callee)
        if isinstance(fv, FuncV) and fv.name: return self.call_named(st, fv.name, argn, n)
        term = self.functerm(fv) if isinstance(fv, FuncV) else fv.obj
        if z3.is_int_value(term):
            for nm, i in self.embinfo.get("fids", {}).items():
                if i == term.as_long(): return self.call_named(st, nm, argn, n)
        # contract by field: fp:Struct.field
        if x["kind"] == "MemberExpr":
            bt = self.ntype(x["inner"][0])
            if bt.k == "ptr": bt = bt.to
            key = "fp_%s_%s" % (bt.name, x["name"])
        elif x["kind"] == "DeclRefExpr": key = "fp_" + self.ntype_name(x)
        else: key = "fp_?"
        self.oblige(st, "memory", term != 0, n.get("_line"), "function pointer is not null")
        c = self.sf.contracts.get(key)
        if c is None: raise ExtractError("indirect call without contract (%s) at line %s" % (key, n.get("_line")))
        if c.calls:
            self.oblige(st, "memory", term == IV(self.fid(c.calls)), n.get("_line"), "function pointer is %s" % c.calls)
            return self.call_named(st, c.calls, argn, n)
        args = [self.ev(st, a) for a in argn]
        return self.apply_contract(st, c, args, n, self.ntype(n), fterm=term)

    def ntype_name(self, x):
        return x["type"]["qualType"].replace(" ", "")

    def call_named(self, st, name, argn, n):
        if name in LOGFUNCS: 
            t = self.ntype(n)
            return VoidV() if t.k == "void" else self.fresh_of("log", t)
        if name in ("laik_log_begin", "laik_log_shown"): return self.fresh("log", BoolS)
        if name in NORETURN:
            f0 = self.frames[0]; ab = f0.c.aborts if f0.c is not None else None
            ok = self.sbool(SEnv(self, None, f0.oldst, f0.oldst, None, None, f0.c, f0), ab) if ab is not None else FALSE
            self.oblige(st, "noabort", ok, n.get("_line"), "%s is unreachable%s" % (name, " outside of the cases stated" if ab is not None else ""))
            st.guard = st.guard + (FALSE,)
            return VoidV()
        if self.frames[0].c is not None and name in self.frames[0].c.never:
            self.oblige(st, "nocall", FALSE, n.get("_line"), "%s is not called" % name); st.guard = st.guard + (FALSE,)
            return self.dummy(self.ntype(n))
        b = getattr(self, "bi_" + name, None)
        if b is not None and name not in self.sf.contracts:
            r = b(st, argn, n); fr = self.frames[-1]
            if fr.c is not None:
                for h in fr.c.aftercall.get((name, 0), []): self.assert_hint(st, self.senv(st, fr, None), h, "%s after %s" % (fr.fn.name, name))
            return r
        fn = self.prog.find(name, self.frames[-1].fn.unit)
        c = self.sf.contracts.get(name)
        if c is not None and c.file and fn is not None and fn.static and not fn.unit.path.endswith(c.file): c = None
        args = [self.argval(st, a) for a in argn]
        if st.dead(): return self.dummy(self.ntype(n))
        if c is not None and not c.inline and not (c.loops and not c.requires and not c.ensures and c.assigns is None):
            r = self.apply_contract(st, c, args, n, self.ntype(n), fn)
        elif fn is not None:
            r = self.inline(st, fn, args, n)
        else:
            raise ExtractError("call of %s: no body and no contract (line %s)" % (name, n.get("_line")))
        fr = self.frames[-1]
        cnt = fr.callcount.get(name, 0); fr.callcount[name] = cnt
        hs = []
        if fr.c is not None: 
            hs = fr.c.aftercall.get((name, 0), [])
        for h in hs:
            se = self.senv(st, fr, None); se.result = r
            self.assert_hint(st, se, h, "%s after %s" % (fr.fn.name, name))
        return r

    def argval(self, st, a):
        v = self.ev(st, a)
        if isinstance(v, (LVar, LMem, LStruct, LArr, LSmall)): v = self.read(st, v)
        return v

    def apply_contract(self, st, c, args, n, rt, fn=None, fterm=None):
        self.usedcontracts.add(c.name)
        line = n.get("_line")
        names = {}
        if fn is not None:
            for p, a in zip(fn.params, args): names[p.get("name", "?")] = a
            # parameter names of the contract may differ from the source: by position
            if c.params:
                for (ty, nm), a in zip(c.params, args): names[nm] = a
        elif c.params is not None:
            for (ty, nm), a in zip(c.params, args):
                t = self.prog.ptype(ty)
                if t.k == "ptr" and isinstance(a, PtrV) and a.loc is None and t.to.k != "func": a = PtrV(a.obj, a.idx, t.to)
                names[nm] = a
        elif c.name in self.prog.protos:
            u, pn = self.prog.protos[c.name]
            for p, a in zip([x for x in pn.get("inner", []) if x["kind"] == "ParmVarDecl"], args): names[p.get("name", "?")] = a
        if fterm is not None: names["$fn"] = fterm
        pre = st.copy()
        se = SEnv(self, names, pre, pre, None, None, c)
        for (nme, e, ln) in c.requires:
            self.oblige(st, "precondition", self.sbool(se, e), line, "%s requires[%s]" % (c.name, nme or ln))
        for r, e in c.assumes: self.assumed.add(r); self.fact(pre, self.sbool(se, e))
        # havoc
        newtop = self.fresh("top"); self.gfact(newtop >= pre.top); st.top = newtop
        for (key, obj, idx, cond) in self.assign_targets(se, c, pre):
            h = self.hget(st, key)
            if idx is None:
                nh = self.fresh("A:" + key, h.sort().range())
                self.wr_inner(st, key, obj, nh if is_true(cond) else If(cond, nh, self.sel_obj(h, obj)))
            elif isinstance(idx, tuple):
                nh = self.fresh("A:" + key, h.sort().range()); q = z3.Const("fi!%d" % next(self.ctr), IntS)
                oldin = self.sel_obj(h, obj)
                self.fact(st, z3.ForAll([q], Implies(z3.Or(q < idx[0], q >= idx[1]), nh[q] == z3.Select(oldin, q)), patterns=[nh[q]]))
                self.wr_inner(st, key, obj, nh, idx if is_true(cond) else None)
            else:
                nv = self.fresh("v:" + key, h.sort().range().range())
                self.wr(st, key, obj, idx, nv if is_true(cond) else If(cond, nv, self.rd(pre, key, obj, idx)))
        # result
        if rt.k == "void": r = VoidV()
        elif rt.k == "struct": r = StructV(self.alloc(st, IV(1)), IV(0), rt)
        else: r = self.fresh_of(c.name + ".result", rt)
        if isinstance(r, PtrV): self.ptr_facts(st, r)
        se2 = SEnv(self, names, st, pre, None, r, c)
        self.ghost_updates(se2, c, st)
        f0 = self.frames[0].c if self.frames else None
        for (nme, e, ln) in c.ensures:
            if f0 is not None and nme in f0.skip: continue
            self.fact(st, self.sbool(se2, e))
        return r

    def ghost_updates(self, se, c, st):
        vals = [(g, self.asInt(self.sval(se, e))) for g, e in c.updates]
        for g, v in vals:
            for (k, o, i) in self.lv_keys(se.lookup_lv(g)): self.wr(st, k, o, i, v)

    def assign_targets(self, se, c, st):
        out = []
        for g, e in c.updates: out += [(k, o, i, TRUE) for (k, o, i) in self.lv_keys(se.lookup_lv(g))]
        for e, g in (c.assigns or []):
            cond = TRUE if g is None else self.sbool(se, g)
            out += [(k, o, i, cond) for (k, o, i) in self.target(se, e)]
        return out

    def target(self, se, e):
        """assignable spec expression -> list of (heap key, obj, idx|None)"""
        if e[0] == "all" or e[0] == "slice":
            p = self.sval(se, e[1])
            if isinstance(p, (LArr,)): p = PtrV(p.obj, p.base, p.t.to)
            if isinstance(p, LSmall):
                res = []
                for i in range(p.t.n): res += [(k, p.obj, p.idx) for k in self.scalar_keys("%s#%d" % (p.key, i), p.t.to)]
                return res
            res = []
            rng = None
            if e[0] == "slice":
                lo = self.asInt(self.sval(se, e[2])); hi = self.asInt(self.sval(se, e[3]))
                rng = (p.idx + lo, p.idx + hi)
                if self.bytewise(p.to):      # bytes of records: the fields overlapping with them
                    return [(k, p.obj, (rng[0] - (off + sz - 1), rng[1] - off)) for key, off, sz, ft in self.recfields() for k in self.scalar_keys(key, ft)]
            for (key, o, i, lt) in self.elem_locs(p.to, p.obj):
                res += [(k, o, rng) for k in self.scalar_keys(key, lt)]
            return res
        if e[0] == "arrow" and e[2] == "all": pass
        # field selection over all elements:  p[*].f
        if e[0] in ("dot",) and e[1][0] == "all":
            p = self.sval(se, e[1][1])
            l = self.field_lv(se.st, LStruct(p.obj, p.idx, p.to), e[2])
            return [(k, o, None) for (k, o, i) in self.lv_keys(l)]
        l = self.slv(se, e)
        return self.lv_keys(l)

    def lv_keys(self, l):
        if isinstance(l, LMem): return [(k, l.obj, l.idx) for k in self.scalar_keys(l.key, l.t)]
        if isinstance(l, LStruct):
            res = []
            for (key, o, i, lt) in self.leaf_locs(l.t, l.obj, l.idx):
                res += [(k, o, i) for k in self.scalar_keys(key, lt)]
            return res
        if isinstance(l, LSmall):
            res = []
            for i in range(l.t.n): res += [(k, l.obj, l.idx) for k in self.scalar_keys("%s#%d" % (l.key, i), l.t.to)]
            return res
        if isinstance(l, LArr):
            return [(k, l.obj, None) for k in self.scalar_keys(l.t.to.key() + "[]", l.t.to)]
        raise S.SpecError("not assignable")

    # ------------------------------------------------------------ builtins
    def bi___lcv_assert(self, st, argn, n):
        c = self.assert_cond(st, argn[0])
        f0 = self.frames[0].c if self.frames else None
        if f0 is not None and f0.asserts_assumed and not is_false(c): self.assumed.add("assertion of %s: %s" % (f0.name, f0.asserts_assumed))
        else: self.oblige(st, "assert", c, n.get("_line"), "assertion in the code holds")
        if is_false(c): st.guard = st.guard + (FALSE,)
        else: self.fact(st, c)
        return VoidV()

    def assert_cond(self, st, a):
        return self.asBool(self.ev(st, a))

    def bi_malloc(self, st, argn, n):
        b = self.asInt(self.ev(st, argn[0]))
        return self.do_alloc(st, b, False)

    def do_alloc(self, st, b, zero):
        o = self.alloc(st)
        self.embinfo[("alloc", o.get_id())] = (b, zero, None, o); self._keep(o)
        self.assumed.add("malloc/calloc/realloc do not fail")
        self.gfact(o != 0)
        return PtrV(o, IV(0), VOID)

    def bi_calloc(self, st, argn, n):
        a = self.asInt(self.ev(st, argn[0])); b = self.asInt(self.ev(st, argn[1]))
        return self.do_alloc(st, z3.simplify(a * b), True)

    def bi_realloc(self, st, argn, n):
        x = argn[0]
        p = self.ev(st, x); b = self.asInt(self.ev(st, argn[1]))
        to = self.uncast_type(x)
        r = self.do_alloc(st, b, False)
        if to is not None and to.k != "void":
            # contents up to the old length are kept (reads beyond are unspecified, and unreachable by bounds checks)
            for (key, o, i, lt), (k2, o2, i2, l2) in zip(self.elem_locs(to, r.obj), self.elem_locs(to, p.obj)):
                for k in self.scalar_keys(key, lt):
                    src = self.sel_obj(self.hget(st, k), o2)
                    self.wr_inner(st, k, o, If(p.obj == 0, self.fresh("A:" + k, src.sort()), src) if not z3.is_int_value(p.obj) else src)
        return r

    def uncast_type(self, x):
        while x["kind"] in ("ImplicitCastExpr", "CStyleCastExpr", "ParenExpr"):
            t = self.ntype(x)
            if t.k == "ptr" and t.to.k != "void": return t.to
            x = x["inner"][0]
        t = self.ntype(x)
        return t.to if t.k == "ptr" else None

    def sizeof_type(self, x):
        """T of a sizeof(T) inside a size expression"""
        if x["kind"] == "UnaryExprOrTypeTraitExpr" and x.get("argType"): return self.frames[-1].fn.unit.type(x["argType"])
        for c in x.get("inner", []):
            r = self.sizeof_type(c)
            if r is not None: return r
        return None

    def bi_free(self, st, argn, n):
        self.ev(st, argn[0]); return VoidV()

    def bi_memcpy(self, st, argn, n, move=False):
        d = self.ev(st, argn[0]); s = self.ev(st, argn[1]); b = self.asInt(self.ev(st, argn[2]))
        td = self.uncast_type(argn[0]); ts = self.uncast_type(argn[1])
        t = td
        if td is None or td.k == "void" or (ts is not None and td in (CHAR, U8) and ts not in (CHAR, U8)): t = ts
        if t is None or t.k == "void": t = self.sizeof_type(argn[2]) or CHAR
        if t.k == "struct" and (td is None or td.k == "void" or td == ts or True):
            pass
        sz = self.prog.sizeof(t)
        if t.k == "struct" and not self.bytewise(t):
            b_ = z3.simplify(b)
            if z3.is_int_value(b_) and b_.as_long() == sz:
                self.copy_struct(st, t, d.obj, d.idx, s.obj, s.idx); return d
        if self.bytewise(t) or (t == CHAR and ("recobj", d.obj.get_id()) in self.embinfo and ("recobj", s.obj.get_id()) in self.embinfo):
            self.memcpy_records(st, d, s, b, n.get("_line")); return d
        if t == CHAR and (("recobj", d.obj.get_id()) in self.embinfo or ("recobj", s.obj.get_id()) in self.embinfo): raise ExtractError("memcpy between action records and bytes")
        # n elements
        cnt = self.fresh("cnt")
        self.gfact(Implies(b >= 0, z3.And(cnt * sz <= b, b < cnt * sz + sz, cnt >= 0)))
        if sz > 1: self.oblige(st, "memory", b % sz == 0, n.get("_line"), "memcpy copies whole elements")
        if self.bounds:
            for p in (d, s):
                self.oblige(st, "memory", z3.Or(cnt == 0, z3.And(p.obj != 0, p.idx >= 0, p.idx + cnt <= self.objlen(p.obj))), n.get("_line"), "memcpy stays within bounds")
        new = []
        for (key, o, i, lt), (k2, o2, i2, l2) in zip(self.elem_locs(t, d.obj), self.elem_locs(t, s.obj)):
            for k in self.scalar_keys(key, lt):
                h = self.hget(st, k)
                dst = self.sel_obj(h, o); src = self.sel_obj(h, o2)
                ni = self.fresh("A:" + k, dst.sort()); q = z3.Const("mq!%d" % next(self.ctr), IntS)
                self.gfact(z3.ForAll([q], ni[q] == z3.If(z3.And(q >= d.idx, q < d.idx + cnt), z3.Select(src, q - d.idx + s.idx), z3.Select(dst, q)), patterns=[ni[q]]))
                new.append((k, o, ni))
        for k, o, ni in new: self.wr_inner(st, k, o, ni)
        return d

    def bi_memset(self, st, argn, n):
        d = self.ev(st, argn[0]); v = self.asInt(self.ev(st, argn[1])); b = z3.simplify(self.asInt(self.ev(st, argn[2])))
        t = self.uncast_type(argn[0])
        if not (z3.is_int_value(v) and v.as_long() == 0): raise ExtractError("memset non-zero")
        if t is None or t.k == "void": raise ExtractError("memset of untyped memory")
        sz = self.prog.sizeof(t)
        if t.k == "struct" and z3.is_int_value(b) and b.as_long() == sz:
            self.zero(st, LStruct(d.obj, d.idx, t)); return d
        cnt = self.fresh("cnt")
        self.gfact(Implies(b >= 0, z3.And(cnt * sz <= b, b < cnt * sz + sz, cnt >= 0)))
        if self.bounds: self.oblige(st, "memory", z3.And(d.obj != 0, d.idx >= 0, d.idx + cnt <= self.objlen(d.obj)), n.get("_line"), "memset stays within bounds")
        for (key, o, i, lt) in list(self.elem_locs(t, d.obj)):
            for k in self.scalar_keys(key, lt):
                dst = self.sel_obj(self.hget(st, k), o)
                ni = self.fresh("A:" + k, dst.sort()); q = z3.Const("mq!%d" % next(self.ctr), IntS)
                self.gfact(z3.ForAll([q], ni[q] == z3.If(z3.And(q >= d.idx, q < d.idx + cnt), self.zsort(self.keyt[k]), z3.Select(dst, q)), patterns=[ni[q]]))
                self.wr_inner(st, k, o, ni)
        return d

    def bi_strdup(self, st, argn, n):
        self.ev(st, argn[0])
        o = self.alloc(st); self.assumed.add("strdup returns a fresh string")
        return PtrV(o, IV(0), CHAR)

    # formatted text: the content of a buffer, as a function of its bytes: which format printed it, and its arguments
    def fmtlit(self, n):
        while n["kind"] in ("ImplicitCastExpr", "ParenExpr", "CStyleCastExpr"): n = n["inner"][0]
        if n["kind"] != "StringLiteral": return None
        v = n.get("value", "")
        if not (v.startswith('"') and v.endswith('"')) or "\\" in v: return None
        return v[1:-1]

    FMTCONV = re.compile(r"%(%|[0-9.]*(?:ll|l|h|hh|z)?[a-zA-Z])")
    FMTLEN = {"d": 11, "i": 11, "u": 10, "ld": 20, "lld": 20, "lu": 20, "llu": 20, "zu": 20, "c": 1, "p": 18, "x": 8}

    def fmtparse(self, f):
        """-> conversions, literal length"""
        cs = [m.group(1) for m in self.FMTCONV.finditer(f)]
        cs = [re.sub(r"^0?([0-9]+)", lambda m: "" if int(m.group(1)) <= self.FMTLEN.get(c[m.end():], 0) else m.group(0), c) for c in cs]
        return [c for c in cs if c != "%"], len(self.FMTCONV.sub("", f)) + cs.count("%")

    def fmtfn(self): return self.uf("strfmt", z3.ArraySort(IntS, IntS), IntS, IntS)
    def fmtargfn(self, k): return self.uf("strfmtarg%d" % k, z3.ArraySort(IntS, IntS), IntS, IntS)
    def fmtid(self, f):
        t = self.embinfo.setdefault("fmts", {})
        if f not in t: t[f] = len(t) + 1
        return IV(t[f])

    def bi_sprintf(self, st, argn, n):
        d = self.ev(st, argn[0]); f = self.fmtlit(argn[1])
        args = [self.argval(st, a) for a in argn[2:]]
        self.assumed.add("sprintf writes only its target buffer, at most the longest text of its format")
        self.regkey("i8[]", CHAR)
        old = self.sel_obj(self.hget(st, "i8[]"), d.obj)
        A = self.fresh("A:i8", z3.ArraySort(IntS, IntS)); r = self.fresh("sprintf")
        self.gfact(z3.And(r >= 0, r < 1 << 20))
        cs = None
        if f is not None:
            cs, lit = self.fmtparse(f)
            if len(cs) == len(args) and all(c in self.FMTLEN for c in cs):
                mx = lit + sum(self.FMTLEN[c] for c in cs)
                self.gfact(z3.And(r >= lit + len([c for c in cs if c != "c"]), r <= mx))
                if self.bounds: self.oblige(st, "memory", z3.And(d.obj != 0, d.idx >= 0, d.idx + mx + 1 <= self.objlen(d.obj)), n.get("_line"), "longest text of the format fits into the buffer")
                self.gfact(self.fmtfn()(A, d.idx) == self.fmtid(f))
                for k, v in enumerate(args): self.gfact(self.fmtargfn(k)(A, d.idx) == self.asInt(v))
                for k, ch in enumerate(f.split("%")[0]): self.gfact(A[d.idx + k] == ord(ch))
                self.gfact(A[d.idx + r] == 0)
                q = z3.Const("pq!%d" % next(self.ctr), IntS)
                self.gfact(z3.ForAll([q], Implies(z3.Or(q < d.idx, q > d.idx + r), A[q] == z3.Select(old, q)), patterns=[A[q]]))
            else: cs = None
        self.wr_inner(st, "i8[]", d.obj, A)
        return r

    def bi_sscanf(self, st, argn, n):
        s = self.ev(st, argn[0]); f = self.fmtlit(argn[1])
        ps = [self.ev(st, a) for a in argn[2:]]
        if f is None: raise ExtractError("sscanf with computed format")
        cs, lit = self.fmtparse(f)
        if len(cs) != len(ps) or any(c not in ("d", "u", "ld", "lu", "lld", "llu", "i") for c in cs): raise ExtractError("sscanf conversions")
        want = {"d": 4, "i": 4, "u": 4, "ld": 8, "lu": 8, "lld": 8, "llu": 8}
        self.assumed.add("sscanf reads back the numbers which sprintf printed with the same format")
        self.regkey("i8[]", CHAR)
        C = self.sel_obj(self.hget(st, "i8[]"), s.obj); r = self.fresh("sscanf")
        self.gfact(z3.And(r >= -1, r <= len(cs)))
        hits = []
        for F in list(self.embinfo.get("fmts", {})):
            if F.endswith(f) and "%" not in F[:len(F) - len(f)]: hits.append((F, len(F) - len(f)))
        for k, (c, p) in enumerate(zip(cs, ps)):
            l = self.deref(st, p); t = l.t
            if t.k != "int" or self.prog.sizeof(t) != want[c]: raise ExtractError("sscanf target type")
            v = self.fresh_of("scan", t)
            for F, off in hits: self.fact(st, Implies(self.fmtfn()(C, s.idx - off) == self.fmtid(F), self.asInt(v) == self.fmtargfn(k)(C, s.idx - off)))
            old = self.read(st, l)
            self.assign(st, l, If(r > k, v, old))
        for F, off in hits: self.fact(st, Implies(self.fmtfn()(C, s.idx - off) == self.fmtid(F), r == len(cs)))
        return r

    def bi_strlen(self, st, argn, n):
        self.ev(st, argn[0]); r = self.fresh("strlen"); self.gfact(z3.And(r >= 0, r < (1 << 31))); return r

    def bi_abs(self, st, argn, n):
        v = self.asInt(self.ev(st, argn[0])); return z3.If(v >= 0, v, -v)

    def bi_getenv(self, st, argn, n): return self.fresh_of("getenv", Ptr(CHAR))

    def bi_qsort(self, st, argn, n):
        base = self.ev(st, argn[0]); cnt = self.asInt(self.ev(st, argn[1])); sz = self.asInt(self.ev(st, argn[2]))
        t = self.uncast_type(argn[0])
        cmpf = self.ev(st, argn[3])
        if not isinstance(cmpf, FuncV) or not cmpf.name: raise ExtractError("qsort comparator")
        nm = cmpf.name
        if t is None or t.k not in ("struct", "int"): raise ExtractError("qsort element type")
        s = z3.simplify(sz)
        if not z3.is_int_value(s) or s.as_long() != self.prog.sizeof(t): raise ExtractError("qsort element size")
        lt = "qsort_le_" + nm
        if lt not in self.sf.preds: raise ExtractError("no order predicate %s for comparator" % lt)
        self.oblige(st, "memory", z3.Or(cnt == 0, z3.And(base.obj != 0, base.idx >= 0, base.idx + cnt <= self.objlen(base.obj))), n.get("_line"), "qsort array is valid")
        self.assumed.add("qsort permutes and sorts (the comparator is proved to be a consistent order)")
        k = next(self.ctr)
        perm = z3.Function("perm!%d" % k, IntS, IntS); inv = z3.Function("perminv!%d" % k, IntS, IntS)
        q = z3.Const("sq!%d" % k, IntS)
        b0 = base.idx
        rng = lambda x: z3.And(x >= b0, x < b0 + cnt)
        pre = st.copy()
        for (key, o, i, lt_) in list(self.elem_locs(t, base.obj)):
            for kk in self.scalar_keys(key, lt_):
                old = self.sel_obj(self.hget(st, kk), o)
                ni = self.fresh("A:" + kk, old.sort())
                self.gfact(z3.ForAll([q], ni[q] == z3.If(rng(q), z3.Select(old, perm(q)), z3.Select(old, q)), patterns=[ni[q]]))
                self.wr_inner(st, kk, o, ni)
        self.gfact(z3.ForAll([q], Implies(rng(q), z3.And(rng(perm(q)), inv(perm(q)) == q)), patterns=[perm(q)]))
        self.gfact(z3.ForAll([q], Implies(rng(q), z3.And(rng(inv(q)), perm(inv(q)) == q)), patterns=[inv(q)]))
        # sortedness, pairwise
        x = z3.Const("sx!%d" % k, IntS); y = z3.Const("sy!%d" % k, IntS)
        se = SEnv(self, {}, st, st, None, None, None)
        le = self.predcall(se, lt, [PtrV(base.obj, x, t), PtrV(base.obj, y, t)])
        trig = self.sort_triggers(st, t, base, x, y)
        self.fact(st, z3.ForAll([x, y], Implies(z3.And(rng(x), rng(y), x < y), le), patterns=trig))
        self.lastsort = (perm, inv)
        # ghost names usable in invariants: qperm(i), qinv(i)
        self.logicf["qperm"] = perm; self.logicf["qinv"] = inv
        return VoidV()

    def sort_triggers(self, st, t, base, x, y):
        for (key, o, i, lt) in self.elem_locs(t, base.obj):
            k = self.scalar_keys(key, lt)[0]
            a = self.sel_obj(self.hget(st, k), o)
            ax, ay = z3.Select(a, x), z3.Select(a, y); self.keep.append((a, ax, ay))
            return [z3.MultiPattern(ax, ay)]
        return []

    # ============================================================ spec evaluation
    def senv(self, st, fr, entry):
        return SEnv(self, None, st, fr.oldst, entry, None, fr.c, fr)

    def sbool(self, se, e):
        v = self.sval(se, e)
        return self.asBool(v)

    def slv(self, se, e):
        k = e[0]
        if k == "id": return se.lookup_lv(e[1])
        if k == "arrow":
            p = self.sval(se, e[1])
            if isinstance(p, StructV): return self.field_lv(se.st, LStruct(p.obj, p.idx, p.t), e[2])
            if not isinstance(p, PtrV): raise S.SpecError("-> on non-pointer in spec: %r" % (e,))
            return self.field_lv(se.st, LStruct(p.obj, p.idx, p.to), e[2])
        if k == "dot":
            b = self.slv(se, e[1]) if e[1][0] in ("arrow", "dot", "index", "deref") else None
            if b is None:
                v = self.sval(se, e[1])
                if isinstance(v, StructV): b = LStruct(v.obj, v.idx, v.t)
                elif isinstance(v, LStruct): b = v
                else: raise S.SpecError(". on non-struct in spec %r" % (e,))
            return self.field_lv(se.st, b, e[2])
        if k == "index":
            b = e[1]
            base = None
            if b[0] in ("arrow", "dot", "index"):
                l = self.slv(se, b)
                if isinstance(l, (LArr, LSmall)): base = l
                else: p = self.sread(se, l)
            else:
                p = self.sval(se, b)
                if isinstance(p, (LArr, LSmall)): base = p
            i = self.asInt(self.sval(se, e[2]))
            if base is not None: return self.index_lv(se.st, base, i)
            if not isinstance(p, PtrV): raise S.SpecError("index of non-pointer %r" % (e,))
            if p.loc is not None and isinstance(p.loc, LSmall): return self.index_lv(se.st, p.loc, i)
            q = PtrV(p.obj, z3.simplify(p.idx + i * self.unit(p.to)), p.to)
            return self.deref(se.st, q)
        if k == "deref":
            p = self.sval(se, e[1]); return self.deref(se.st, p)
        if k == "old" : return self.slv(se.at(se.old), e[1])
        raise S.SpecError("not an lvalue: %r" % (e,))

    def sread(self, se, l):
        if isinstance(l, LMem):
            if l.key is None:
                a = l.small; r = None
                for k in reversed(range(a.t.n)):
                    v = self.load(se.st, "%s#%d" % (a.key, k), a.obj, a.idx, a.t.to, True)
                    r = v if r is None else self.merge_val(l.sidx == k, v, r)
                return r
            return self.load(se.st, l.key, l.obj, l.idx, l.t, True)
        if isinstance(l, LStruct): return StructV(l.obj, l.idx, l.t)
        if isinstance(l, LArr): return PtrV(l.obj, l.base, l.t.to)
        if isinstance(l, LSmall): return l
        if isinstance(l, LVar): return se.st.env[l.id]
        return l

    def sval(self, se, e):
        k = e[0]
        if k == "num": return IV(e[1])
        if k == "bool": return z3.BoolVal(e[1])
        if k == "null": return PtrV(IV(0), IV(0), VOID)
        if k == "str": return PtrV(self.strobj('"%s"' % e[1]), IV(0), CHAR)
        if k == "id": return se.lookup(e[1])
        if k in ("arrow", "dot", "index", "deref"): return self.sread(se, self.slv(se, e))
        if k == "addr":
            return self.addr(self.slv(se, e[1]))
        if k == "old":
            if se.old is None: raise S.SpecError("old() not available here")
            return self.sval(se.at(se.old), e[1])
        if k == "entry":
            if se.entry is None: raise S.SpecError("entry() outside a loop")
            return self.sval(se.at(se.entry), e[1])
        if k == "not": return Not(self.sbool(se, e[1]))
        if k == "neg":
            v = self.sval(se, e[1]); return -v if v.sort() == RealS else -self.asInt(v)
        if k == "cast":
            v = self.sval(se, e[2]); t = self.prog.ptype(e[1])
            if isinstance(v, PtrV): return PtrV(v.obj, v.idx, t.to, v.loc)
            return v
        if k == "ite":
            c = self.sbool(se, e[1]); a = self.sval(se, e[2]); b = self.sval(se, e[3])
            r = self.merge_val(c, a, b)
            return r
        if k == "let":
            v = self.sval(se, e[2]); return self.sval(se.bind(e[1], v), e[3])
        if k == "bin":
            op = e[1]
            if op == "&&":
                a = self.sbool(se, e[2])
                if is_false(a): return FALSE
                return And([a, self.sbool(se, e[3])])
            if op == "||":
                a = self.sbool(se, e[2])
                if is_true(a): return TRUE
                return Or([a, self.sbool(se, e[3])])
            if op == "==>":
                a = self.sbool(se, e[2])
                if is_false(a): return TRUE
                return Implies(a, self.sbool(se, e[3]))
            if op == "<==>": 
                a, b = self.sbool(se, e[2]), self.sbool(se, e[3])
                return a == b
            a = self.sval(se, e[2]); b = self.sval(se, e[3])
            if op in ("==", "!=", "<", "<=", ">", ">="):
                return self.compare(se.st, op, a, b)
            if isinstance(a, PtrV): return self.padd(se.st, a, self.asInt(b) if op == "+" else -self.asInt(b))
            if a.sort() == RealS or b.sort() == RealS:
                a = a if a.sort() == RealS else z3.ToReal(self.asInt(a)); b = b if b.sort() == RealS else z3.ToReal(self.asInt(b))
                return {"+": a + b, "-": a - b, "*": a * b, "/": a / b}[op]
            a = self.asInt(a); b = self.asInt(b)
            if op == "+": r = a + b
            elif op == "-": r = a - b
            elif op == "*": r = a * b
            elif op == "/": r = a / b
            elif op == "%": r = a % b
            else: raise S.SpecError("operator " + op)
            return z3.simplify(r) if z3.is_int_value(a) and z3.is_int_value(b) else r
        if k == "quant":
            _, q, bs, trig, body = e
            se2 = se; vs = []
            rng = []
            for ty, nm in bs:
                if ty.endswith("*"):
                    o = z3.Const("%s.o?%d" % (nm, next(self.ctr)), IntS); i = z3.Const("%s.i?%d" % (nm, next(self.ctr)), IntS)
                    vs += [o, i]; se2 = se2.bind(nm, PtrV(o, i, self.prog.ptype(ty).to))
                else:
                    srt = BoolS if ty == "bool" else (RealS if ty == "double" else IntS)
                    c = z3.Const("%s?%d" % (nm, next(self.ctr)), srt); vs.append(c); se2 = se2.bind(nm, c)
            b = self.sbool(se2, body)
            if is_true(b) or is_false(b): return b
            pats = []
            for g in trig:
                ts = []
                for t in g:
                    v = self.sval(se2, t)
                    if isinstance(v, PtrV): v = v.obj
                    if isinstance(v, StructV): v = v.obj
                    ts.append(self.patfix(v))
                if all(self.okpat(t) for t in ts): pats.append(z3.MultiPattern(*ts))
            f = z3.ForAll if q == "forall" else z3.Exists
            return f(vs, b, patterns=pats) if pats else f(vs, b)
        if k == "call": return self.scall(se, e)
        raise S.SpecError("cannot evaluate %r" % (e,))

    def okpat(self, t):
        if not has_var(t): return False
        stack = [t]
        while stack:
            x = stack.pop()
            if not z3.is_app(x): return False
            if not z3.is_const(x):
                k = x.decl().kind()
                if k in (z3.Z3_OP_ITE, z3.Z3_OP_NOT, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_IMPLIES): return False
                stack.extend(x.children())
        return True

    def patfix(self, t):
        """trigger terms must not contain ite: name composite array terms without bound variables"""
        if not z3.is_app(t) or z3.is_const(t): return t
        if not has_var(t):
            if t.sort().kind() != z3.Z3_ARRAY_SORT or t.num_args() == 0: return t
            k = ("pat", t.get_id())
            if k not in self.callvals:
                c = self.fresh("A", t.sort()); self.gfact(c == t); self._keep(t)
                self.callvals[k] = c
            return self.callvals[k]
        if t.decl().kind() == z3.Z3_OP_STORE: return t
        return t.decl()(*[self.patfix(x) for x in t.children()])

    def scall(self, se, e):
        _, name, argn, ln = e
        if name in self.sf.preds:
            return self.predcall(se, name, [self.sval(se, a) for a in argn])
        if name == "valid":       # pointer to one valid object
            p = self.sval(se, argn[0])
            return z3.And(p.obj != 0, p.idx >= 0, p.idx < self.objlen(p.obj))
        if name == "valid_array":
            p = self.sval(se, argn[0]); n = self.asInt(self.sval(se, argn[1]))
            return z3.Implies(n > 0, z3.And(p.obj != 0, p.idx >= 0, p.idx + n <= self.objlen(p.obj)))
        if name == "objlen": return self.objlen(self.sval(se, argn[0]).obj)
        if name == "array_start":
            p = self.sval(se, argn[0]); return p.idx == 0
        if name == "sameobj":
            p = self.sval(se, argn[0]); q = self.sval(se, argn[1]); return p.obj == q.obj
        if name == "separate":
            ps = [self.sval(se, a) for a in argn]
            return And([self.root(p.obj) != self.root(q.obj) for p, q in itertools.combinations(ps, 2)])
        if name == "base":        # p points into an object of its own (not embedded in a struct)
            p = self.sval(se, argn[0]); return z3.And(self.root(p.obj) == p.obj, self.tag(p.obj) == 0)
        if name == "fresh":
            p = self.sval(se, argn[0]); return z3.And(self.root(p.obj) >= se.old.top, self.root(p.obj) < se.st.top, self.root(p.obj) == p.obj, self.tag(p.obj) == 0, p.obj > 0)
        if name == "fresh_or_same":
            p = self.sval(se, argn[0]); q = self.sval(se, argn[1])
            return z3.Or(p.obj == q.obj, z3.And(self.root(p.obj) >= se.old.top, self.root(p.obj) < se.st.top, self.root(p.obj) == p.obj, self.tag(p.obj) == 0, p.obj > 0))
        if name == "loopfresh":   # allocated since loop entry
            p = self.sval(se, argn[0]); return z3.And(self.root(p.obj) >= se.entry.top, self.root(p.obj) < se.st.top)
        if name == "allocated":
            p = self.sval(se, argn[0]); return self.root(p.obj) < se.st.top
        if name == "rec":         # rec(p, k, "T"): action record of type T at byte k of the memory p points to
            p = self.sval(se, argn[0]); k = self.asInt(self.sval(se, argn[1]))
            return PtrV(p.obj, z3.simplify(p.idx + k), self.prog.ptype(argn[2][1] + "*").to)
        if name == "pars_same":   # pars_same(a, b, n): fields behind the header of two records of n bytes are the same
            p = self.sval(se, argn[0]); q = self.sval(se, argn[1]); m = self.asInt(self.sval(se, argn[2])); o = []
            for key, off, sz, ft in self.recfields():
                if off < 4: continue
                for k in self.scalar_keys(key, ft): o.append(Implies(off + sz <= m, self.rd(se.st, k, p.obj, p.idx) == self.rd(se.st, k, q.obj, q.idx)))
            return And(o)
        if name == "recs_same":   # recs_same(p, q, lo, hi): all fields of records stored in bytes lo <= k < hi of p are those of q, q in the old state
            p = self.sval(se, argn[0]); q = self.sval(se.at(se.old), argn[1]); lo = self.asInt(self.sval(se, argn[2])); hi = self.asInt(self.sval(se, argn[3])); o = []
            for key, off, sz, ft in self.recfields():
                for k in self.scalar_keys(key, ft):
                    A = self.patfix(self.sel_obj(self.hget(se.st, k), p.obj)); B = self.sel_obj(self.hget(se.old, k), q.obj); x = z3.Const("rq!%d" % next(self.ctr), IntS)
                    o.append(z3.ForAll([x], Implies(z3.And(x + off >= lo + p.idx, x + (off + sz) <= hi + p.idx), A[x] == B[x - p.idx + q.idx]), patterns=[A[x]]))
            return And(o)
        if name == "idx": return self.sval(se, argn[0]).idx
        if name == "obj": return self.sval(se, argn[0]).obj
        if name == "isfunc":
            p = self.sval(se, argn[0]); t = self.functerm(p) if isinstance(p, FuncV) else p.obj
            return t == self.fid(argn[1][1])
        if name == "fmtis":      # text printed by this format
            p = self.sval(se, argn[0]); f = argn[1][1]; self.regkey("i8[]", CHAR)
            A = self.sel_obj(self.hget(se.st, "i8[]"), p.obj)
            return And([self.fmtfn()(A, p.idx) == self.fmtid(f)] + [z3.Select(A, p.idx + k) == ord(ch) for k, ch in enumerate(f.split("%")[0])])
        if name == "fmtarg":     # its n-th argument
            p = self.sval(se, argn[0]); self.regkey("i8[]", CHAR)
            return self.fmtargfn(argn[1][1])(self.sel_obj(self.hget(se.st, "i8[]"), p.obj), p.idx)
        if name == "static_of":
            return PtrV(self.globobj(argn[0][1] + "::*"), IV(0), self.prog.ptype(argn[1][1]) if len(argn) > 1 else VOID)
        if name == "tailof":     # tailof(p, "int*"): array in the allocation of *p, right behind *p
            p = self.sval(se, argn[0]); t = self.prog.ptype(argn[1][1]).to
            return PtrV(self.tailobj(p.obj, t), IV(0), t)
        if name == "basep":      # element 0 of the array a pointer points into
            p = self.sval(se, argn[0]); return PtrV(p.obj, IV(0), p.to, p.loc)
        if name in ("fadd", "fmul", "fsub", "fdiv", "fadd32", "fmul32"):
            return self.uf(name, RealS, RealS, RealS)(self.sval(se, argn[0]), self.sval(se, argn[1]))
        if name in ("band", "bor"):
            return self.uf(name, IntS, IntS, IntS)(self.asInt(self.sval(se, argn[0])), self.asInt(self.sval(se, argn[1])))
        if name == "fn":
            return IV(self.fid(argn[0][1]))
        if name == "fval":
            p = self.sval(se, argn[0]); return self.functerm(p) if isinstance(p, FuncV) else p.obj
        if name == "ifnull":
            p = self.sval(se, argn[0]); return p.obj == 0
        if name == "same_array":  # all leaves of the element type equal in old and current state
            p = self.sval(se, argn[0]); o = []
            pold = self.sval(se.at(se.old), argn[0])
            for (key, ob, i, lt) in self.elem_locs(p.to, p.obj):
                for k in self.scalar_keys(key, lt): o.append(self.sel_obj(self.hget(se.st, k), ob) == self.sel_obj(self.hget(se.old, k), ob))
            return And(o)
        if name == "eq_elem":     # all leaves of *p == all leaves of *q (p,q struct pointers), in possibly different states
            def leafvals(en, x):
                p = self.sval(en, x)
                ob, ix, t = (p.obj, p.idx, p.to) if isinstance(p, PtrV) else (p.obj, p.idx, p.t)
                en2 = en
                if x[0] == "old": en2 = en.at(en.old)
                elif x[0] == "entry": en2 = en.at(en.entry)
                r = []
                for (key, o, i, lt) in self.leaf_locs(t, ob, ix):
                    if i is None: continue
                    for k in self.scalar_keys(key, lt): r.append(self.rd(en2.st, k, o, i))
                return r
            return And([a == b for a, b in zip(leafvals(se, argn[0]), leafvals(se, argn[1]))])
        if name == "i2d": return self.i2d(self.sval(se, argn[0]))
        if name == "real":
            return z3.ToReal(self.asInt(self.sval(se, argn[0])))
        if name in ("fadd", "fsub", "fmul", "fdiv"):
            return self.uf(name, RealS, RealS, RealS)(self.sval(se, argn[0]), self.sval(se, argn[1]))
        if name == "min":
            a, b = self.asInt(self.sval(se, argn[0])), self.asInt(self.sval(se, argn[1])); return z3.If(a <= b, a, b)
        if name == "max":
            a, b = self.asInt(self.sval(se, argn[0])), self.asInt(self.sval(se, argn[1])); return z3.If(a >= b, a, b)
        if name == "band":
            return self.arith(se.st, "&", self.sval(se, argn[0]), self.sval(se, argn[1]), U32, 0)
        if name == "sizeof":
            return IV(self.prog.sizeof(self.prog.ptype(argn[0][1])))
        if name == "triggered":
            # marks instantiation points; true everywhere
            f = self.uf("mark", IntS, BoolS)
            return f(self.asInt(self.sval(se, argn[0])))
        if "count:" + name in self.logicf:
            return self.logicf["count:" + name](self.asInt(self.sval(se, argn[0])))
        if name in ("qperm", "qinv"):
            f = self.logicf.get(name)
            if f is None: raise S.SpecError("%s before any qsort" % name)
            return f(self.asInt(self.sval(se, argn[0])))
        if name in self.sf.logics:
            rt, ps = self.sf.logics[name]
            f = self.logic(name)
            args = []
            for a in argn:
                v = self.sval(se, a)
                if isinstance(v, PtrV): args += [v.obj, v.idx]
                else: args.append(v)
            args = [self.asInt(a) if (p == IntS and a.sort() == BoolS) else a for a, p in zip(args, self.logicargs(name))]
            return f(*args)
        if name in self.prog.enumconst: return IV(self.prog.enumconst[name])
        raise S.SpecError("unknown predicate or function %s (line %d)" % (name, ln))

    def logicargs(self, name):
        out = []
        for p in self.sf.logics[name][1]:
            if p.endswith("*"): out += [IntS, IntS]
            else: out.append({"int": IntS, "bool": BoolS, "double": RealS}.get(p, IntS))
        return out

    def logic(self, name):
        if name not in self.logicf:
            rt, ps = self.sf.logics[name]
            rs = {"int": IntS, "bool": BoolS, "double": RealS}[rt]
            self.logicf[name] = z3.Function("L:" + name, *(self.logicargs(name) + [rs]))
        return self.logicf[name]

    def predcall(self, se, name, args):
        ps, body = self.sf.preds[name]
        if len(ps) != len(args): raise S.SpecError("wrong number of arguments for " + name)
        names = {}
        for (ty, nm), a in zip(ps, args):
            if isinstance(a, PtrV) and ty.endswith("*"):
                t = self.prog.ptype(ty)
                if a.loc is None and t.to.k != "void": a = PtrV(a.obj, a.idx, t.to)
            elif isinstance(a, StructV) and ty.endswith("*"):
                a = PtrV(a.obj, a.idx, a.t)
            names[nm] = a
        return self.sval(se.scoped(names), body)


INT64 = I64


class SEnv:
    def __init__(self, ex, names, st, old, entry, result, contract, fr=None, bound=None):
        self.ex = ex; self.names = names; self.st = st; self.old = old; self.entry = entry
        self.result = result; self.c = contract; self.fr = fr; self.bound = bound or {}

    def _dup(self): 
        return SEnv(self.ex, self.names, self.st, self.old, self.entry, self.result, self.c, self.fr, self.bound)

    def at(self, st):
        s = self._dup(); s.st = st; return s

    def bind(self, nm, v):
        s = self._dup(); s.bound = dict(self.bound); s.bound[nm] = v; return s

    def scoped(self, names):
        s = self._dup(); s.names = names; s.bound = {}; s.fr = None; return s

    def lookup(self, n):
        if n in self.bound: return self.bound[n]
        if n == "result": 
            if self.result is None: raise S.SpecError("result not available")
            return self.result
        ex = self.ex
        if self.fr is not None:
            # inside a function body: locals by name, in self.st; parameters under
            # old() mean their entry value
            if n in self.fr.names:
                kind, vid, t = self.fr.names[n]
                if vid in self.st.env:
                    v = self.st.env[vid]
                    if isinstance(v, tuple):
                        kind, o, t = v
                        if kind == "addr": return ex.load(self.st, t.key() + "[]", o, IV(0), t, True)
                        if kind == "array": return PtrV(o, IV(0), t.to) if not t.to.k == "arr" else LArr(o, IV(0), t)
                        if kind == "static":
                            l = ex.glob_lv(o, t); return ex.sread(self, l)
                    return v
                raise S.SpecError("local %s not in scope" % n)
        if self.names and n in self.names: return self.names[n]
        if self.fr is not None and n in self.fr.params: return self.fr.params[n]
        if n in ex.sf.preds and not ex.sf.preds[n][0]: return ex.sval(self, ex.sf.preds[n][1])
        if n in ex.prog.enumconst: return IV(ex.prog.enumconst[n])
        if n in ex.sf.logics and not ex.sf.logics[n][1]: return ex.logic(n)()
        # global variable
        for u in ex.prog.units.values():
            if n in u.globals:
                t = u.type(u.globals[n]["type"]); l = ex.glob_lv(ex.globobj(n), t)
                return ex.sread(self, l)
        if n in FPCONST: return FPCONST[n]
        raise S.SpecError("unknown name '%s' in specification" % n)

    def lookup_lv(self, n):
        if self.fr is not None and n in self.fr.names and self.fr.names[n][1] in self.st.env:
            v = self.st.env[self.fr.names[n][1]]
            if isinstance(v, StructV): return LStruct(v.obj, v.idx, v.t)
            if isinstance(v, tuple):
                kind, o, t = v
                if kind == "addr": return LMem(t.key() + "[]", o, IV(0), t)
                if kind == "array": return LArr(o, IV(0), t)
                return self.ex.glob_lv(o, t)
            return LVar(self.fr.names[n][1], self.fr.names[n][2])
        v = self.bound.get(n, (self.names or {}).get(n))
        if isinstance(v, StructV): return LStruct(v.obj, v.idx, v.t)
        for u in self.ex.prog.units.values():
            if n in u.globals:
                t = u.type(u.globals[n]["type"]); return self.ex.glob_lv(self.ex.globobj(n), t)
        raise S.SpecError("not an lvalue: " + n)


FPCONST = {}


class TermKey:
    def __init__(self, t): self.t = t
    def __eq__(self, o): return isinstance(o, TermKey) and self.t.eq(o.t)
    def __hash__(self): return hash(self.t.sexpr())


def self_env(st, envmods, base, k):
    return base.env.get(k)


def same_val(a, b):
    if a is b: return True
    if a is None or b is None: return False
    if isinstance(a, PtrV) and isinstance(b, PtrV):
        return a.obj.eq(b.obj) and a.idx.eq(b.idx)
    if isinstance(a, FuncV) and isinstance(b, FuncV):
        return a.name == b.name and (a.term is b.term or (a.term is not None and b.term is not None and a.term.eq(b.term)))
    if isinstance(a, StructV) and isinstance(b, StructV): return a.obj.eq(b.obj) and a.idx.eq(b.idx)
    if isinstance(a, tuple) or isinstance(b, tuple): return a == b
    if isinstance(a, (PtrV, FuncV, StructV, VoidV)) or isinstance(b, (PtrV, FuncV, StructV, VoidV)): return False
    return a.sort() == b.sort() and a.eq(b)


def chain(h):
    r = [h]
    while z3.is_app_of(h, z3.Z3_OP_STORE):
        h = h.arg(0); r.append(h)
    return r


def collect_consts(e, acc, seen=None):
    seen = seen if seen is not None else set()
    stack = [e]
    while stack:
        x = stack.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: acc.add(x)
        elif z3.is_app(x):
            for i in range(x.num_args()): stack.append(x.arg(i))


def has_var(e):
    s = set(); collect_consts(e, s)
    return any("?" in c.decl().name() for c in s)


def strip(n):
    while n.get("kind") in ("ParenExpr",): n = n["inner"][0]
    return n


def strip_decay(n):
    while n.get("kind") == "ParenExpr": n = n["inner"][0]
    if n.get("kind") == "ImplicitCastExpr" and n.get("castKind") == "ArrayToPointerDecay": return strip(n["inner"][0])
    return None


def cmpop(op, a, b):
    if op == "==": r = a == b
    elif op == "!=": r = a != b
    elif op == "<": r = a < b
    elif op == "<=": r = a <= b
    elif op == ">": r = a > b
    else: r = a >= b
    if z3.is_int_value(a) and z3.is_int_value(b): return z3.simplify(r)
    return r
