"""Front end: clang JSON AST of /repo's current sources -> typed function bodies.

Nothing is rewritten: every function body analysed is the AST clang builds from
the file in /repo's working tree (with inc/assert.h in place of the system's
assert.h, so that assert() is seen as an obligation).
"""
import json, re, subprocess, os, hashlib

REPO = os.environ.get("LCV_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))


class ExtractError(Exception):
    pass


# ---------------------------------------------------------------- types
class T:
    __slots__ = ("k", "bits", "signed", "name", "to", "n")

    def __init__(self, k, **kw):
        self.k = k
        self.bits = kw.get("bits"); self.signed = kw.get("signed")
        self.name = kw.get("name"); self.to = kw.get("to"); self.n = kw.get("n")

    def __repr__(self):
        if self.k == "int": return ("i" if self.signed else "u") + str(self.bits)
        if self.k == "ptr": return repr(self.to) + "*"
        if self.k == "arr": return "%r[%s]" % (self.to, self.n)
        if self.k == "struct": return self.name
        return self.k if self.k != "float" else "f%d" % self.bits

    def key(self): return repr(self)
    def __eq__(self, o): return isinstance(o, T) and repr(self) == repr(o)
    def __hash__(self): return hash(repr(self))

    def isint(self): return self.k in ("int", "bool")
    def isscalar(self): return self.k in ("int", "bool", "float", "ptr", "func")


def Int(bits, signed): return T("int", bits=bits, signed=signed)
VOID = T("void"); BOOL = T("bool", bits=8, signed=False); INT = Int(32, True)
I64 = Int(64, True); U64 = Int(64, False); U32 = Int(32, False); U8 = Int(8, False)
CHAR = Int(8, True); DOUBLE = T("float", bits=64); FLOAT = T("float", bits=32)
FUNC = T("func")
def Ptr(t): return T("ptr", to=t)

BASE = {
    "void": VOID, "char": CHAR, "signed char": CHAR, "unsigned char": U8,
    "short": Int(16, True), "unsigned short": Int(16, False), "int": INT, "unsigned int": U32,
    "unsigned": U32, "long": I64, "unsigned long": U64, "long long": I64, "unsigned long long": U64,
    "_Bool": BOOL, "bool": BOOL, "float": FLOAT, "double": DOUBLE, "long double": DOUBLE,
    "__builtin_va_list": T("struct", name="va_list"), "__int128": Int(128, True),
    "unsigned __int128": Int(128, False),
}


class Unit:
    """One translation unit."""

    def __init__(self, prog, path, ast):
        self.prog = prog; self.path = path
        self.typedefs = {}; self.recids = {}; self.funcs = {}; self.globals = {}
        self.enumconst = {}
        self._scan(ast)

    def _scan(self, ast):
        cur_file = None
        for n in ast["inner"]:
            k = n.get("kind")
            if k == "RecordDecl":
                self._record(n)
            elif k == "TypedefDecl":
                q = n["type"].get("desugaredQualType") or n["type"]["qualType"]
                rid = None
                stack = list(n.get("inner", []))
                top = stack[0] if stack else None
                if top is not None:
                    if top.get("ownedTagDecl"): rid = top["ownedTagDecl"]["id"]
                    elif top.get("kind") == "RecordType": rid = top["decl"]["id"]
                if rid in self.recids:
                    self.typedefs[n["name"]] = ("rec", rid)
                    rec = self.recids[rid]
                    if rec["name"] is None: rec["name"] = n["name"]; self.prog.records[n["name"]] = rec
                    self.prog.rectypedef[n["name"]] = rec
                self.typedefs.setdefault(n["name"], ("q", n["type"]["qualType"]))
            elif k == "EnumDecl":
                v = -1
                for c in n.get("inner", []):
                    if c.get("kind") != "EnumConstantDecl": continue
                    if c.get("inner") and c["inner"][0].get("value") is not None:
                        v = int(c["inner"][0]["value"])
                    else: v += 1
                    self.enumconst[c["name"]] = v
                    self.prog.enumconst[c["name"]] = v
                if n.get("name"): self.typedefs.setdefault("enum " + n["name"], ("q", "unsigned int"))
            elif k == "FunctionDecl":
                body = [x for x in n.get("inner", []) if x.get("kind") == "CompoundStmt"]
                if body: self.funcs[n["name"]] = Func(self, n, body[0])
                else: self.prog.protos.setdefault(n["name"], (self, n))
            elif k == "VarDecl":
                self.globals[n["name"]] = n
        self.prog.typedefs.update({k: v for k, v in self.typedefs.items() if k not in self.prog.typedefs})

    def _record(self, n):
        rec = {"name": n.get("name"), "fields": [], "union": n.get("tagUsed") == "union",
               "complete": n.get("completeDefinition", False), "unit": self, "packed": False}
        self.recids[n["id"]] = rec
        last = None
        for f in n.get("inner", []):
            if f.get("kind") == "RecordDecl":
                self._record(f); last = f["id"]
                if not self.recids[last]["name"]:
                    self.recids[last]["name"] = "anon_%s_%s" % (n.get("name"), f["id"][-6:])
                    self.prog.records.setdefault(self.recids[last]["name"], self.recids[last])
            elif f.get("kind") == "FieldDecl":
                if "name" not in f:      # anonymous struct member
                    rec["fields"].append(("", ("recid", last), False)); continue
                q = f["type"].get("desugaredQualType") or f["type"]["qualType"]
                anon = "(unnamed" in q or "(anonymous" in q
                rec["fields"].append((f["name"], ("recid", last) if anon else ("q", f["type"]["qualType"]), f.get("isBitfield", False)))
            elif f.get("kind") == "MaxFieldAlignmentAttr":
                rec["packed"] = True
        if rec["complete"]:
            if rec["name"]:
                self.prog.records.setdefault(rec["name"], rec)
        elif rec["name"]:
            pass

    # -- type strings
    def type(self, node_or_str):
        if isinstance(node_or_str, dict):
            return self.prog.ptype(node_or_str.get("qualType"), self)
        return self.prog.ptype(node_or_str, self)


class Func:
    def __init__(self, unit, node, body):
        self.unit = unit; self.node = node; self.body = body; self.name = node["name"]
        self.params = [x for x in node.get("inner", []) if x.get("kind") == "ParmVarDecl"]
        q = node["type"]["qualType"]
        self.variadic = node.get("variadic", False)
        # return type: text before the parameter list
        depth = 0
        for i in range(len(q) - 1, -1, -1):
            if q[i] == ")": depth += 1
            elif q[i] == "(":
                depth -= 1
                if depth == 0: break
        self.rettype_s = q[:i].strip()
        self.static = node.get("storageClass") == "static"

    @property
    def rettype(self): return self.unit.type(self.rettype_s)


class Program:
    def __init__(self):
        self.units = {}; self.records = {}; self.typedefs = {}; self.enumconst = {}
        self.protos = {}; self.rectypedef = {}; self._tc = {}; self._sz = {}

    def load(self, files):
        procs = []
        for f in files:
            if f in self.units: continue
            path = f if f.startswith("/") else os.path.join(REPO, f)
            cmd = ["clang", "-Xclang", "-ast-dump=json", "-fsyntax-only", "-w", "-std=gnu99",
                   "-I" + os.path.join(HERE, "inc"), "-I" + os.path.join(REPO, "include"),
                   "-I" + os.path.join(REPO, "src"), "-DUSE_TCP2", path]
            if "backend-mpi" in path: cmd[-1:] = ["-DUSE_MPI", "-I" + os.path.join(os.path.dirname(HERE), "native", "inc"), path]
            procs.append((f, path, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)))
        for f, path, p in procs:
            out, err = p.communicate()
            if p.returncode != 0:
                raise ExtractError("clang cannot parse %s: %s" % (path, err.decode()[:2000]))
            ast = json.loads(out)
            annotate_lines(ast)
            self.units[f] = Unit(self, path, ast)

    def find(self, name, unit=None):
        if unit is not None and name in unit.funcs: return unit.funcs[name]
        for u in self.units.values():
            if name in u.funcs and not u.funcs[name].static: return u.funcs[name]
        if unit is None:
            for u in self.units.values():
                if name in u.funcs: return u.funcs[name]
        return None

    def find_static(self, name, file):
        u = self.units.get(file)
        return u.funcs.get(name) if u else None

    # ------------------------------------------------------------ types
    def ptype(self, s, unit=None):
        key = s
        if key in self._tc: return self._tc[key]
        t = self._ptype(s, unit)
        self._tc[key] = t
        return t

    def _ptype(self, s, unit):
        s = re.sub(r"\b(const|volatile|restrict|__restrict|register|static|inline)\b", " ", s)
        s = re.sub(r"\s+", " ", s).strip()
        if "(*" in s: 
            m = re.match(r"^(.*)\(\*+\)\[(\d+)\]$", s)
            return Ptr(FUNC)
        if s.endswith(")"): return FUNC
        m = re.match(r"^(.*?)((?:\s*\[\d*\])+)$", s)
        if m:
            dims = re.findall(r"\[(\d*)\]", m.group(2))
            t = self.ptype(m.group(1).strip(), unit)
            for d in reversed(dims): t = T("arr", to=t, n=int(d) if d else 0)
            return t
        if s.endswith("*"): return Ptr(self.ptype(s[:-1].strip(), unit))
        if s.startswith("struct ") or s.startswith("union "):
            return T("struct", name=self.canon_rec(s.split(" ", 1)[1]))
        if s.startswith("enum "): return U32
        if s in BASE: return BASE[s]
        td = None
        if unit is not None: td = unit.typedefs.get(s)
        td = td or self.typedefs.get(s)
        if td:
            if td[0] == "rec":
                rec = (unit.recids.get(td[1]) if unit else None) or self.rectypedef.get(s)
                return T("struct", name=self.canon_rec(rec["name"]))
            if td[1] == s: raise ExtractError("cyclic typedef " + s)
            if td[1].startswith("enum"): return U32
            return self.ptype(td[1], unit)
        if s in self.records: return T("struct", name=s)
        if s.startswith("_") or s[0].isalpha(): return T("struct", name=s)
        raise ExtractError("cannot parse type '%s'" % s)

    def canon_rec(self, name): return name

    def fields(self, name):
        rec = self.records.get(name)
        if rec is None or not rec["complete"]: raise ExtractError("incomplete struct " + str(name))
        if "ft" not in rec:
            out = []
            for fn, ft, bf in rec["fields"]:
                if ft[0] == "recid": t = T("struct", name=rec["unit"].recids[ft[1]]["name"])
                else: t = rec["unit"].type(ft[1])
                if ft[0] == "q" and False: pass
                out.append((fn, t))
            rec["ft"] = out
        return rec["ft"]

    def sizeof(self, t): return self._layout(t)[0]

    def _layout(self, t):
        k = t.key()
        if k in self._sz: return self._sz[k]
        if t.k in ("int", "bool", "float"): r = (t.bits // 8, t.bits // 8)
        elif t.k in ("ptr",): r = (8, 8)
        elif t.k == "void": r = (1, 1)
        elif t.k == "func": r = (1, 1)
        elif t.k == "arr":
            s, a = self._layout(t.to); r = (s * t.n, a)
        elif t.k == "struct":
            rec = self.records.get(t.name)
            if rec is None: raise ExtractError("sizeof incomplete " + t.name)
            off = 0; al = 1
            if t.name == "_Laik_Action": r = (4, 1)
            else:
                for fn, ft in self.fields(t.name):
                    s, a = self._layout(ft)
                    if rec["packed"]: a = 1
                    if rec["union"]: off = max(off, s)
                    else: off = (off + a - 1) // a * a + s
                    al = max(al, a)
                r = ((off + al - 1) // al * al, al)
        else: raise ExtractError("sizeof " + repr(t))
        self._sz[k] = r
        return r


def annotate_lines(ast):
    """clang's JSON drops file/line when unchanged since the last one printed;
    restore the (expansion) line of every node that has a range."""
    st = {"file": None, "line": None}

    def upd(l):
        if "spellingLoc" in l or "expansionLoc" in l:
            if "spellingLoc" in l: upd(l["spellingLoc"])
            if "expansionLoc" in l: return upd(l["expansionLoc"])
            return (st["file"], st["line"])
        if "file" in l: st["file"] = l["file"]
        if "line" in l: st["line"] = l["line"]
        return (st["file"], st["line"])

    stack = [ast]
    def visit(n):
        # keys in print order; recursion depth may be large for long expressions
        for k, v in n.items():
            if k == "loc":
                if v: upd(v)
            elif k == "range":
                if v.get("begin"): n_line = upd(v["begin"]); n["_line"] = n_line[1]
                if v.get("end"): n["_end"] = upd(v["end"])[1]
            elif k == "inner":
                for c in v:
                    if isinstance(c, dict) and c: visit(c)
    import sys
    sys.setrecursionlimit(100000)
    # 'range' is annotated while iterating: copy item lists
    def visit2(n):
        for k, v in list(n.items()):
            if k == "loc":
                if v: upd(v)
            elif k == "range":
                if v.get("begin"): n["_line"] = upd(v["begin"])[1]
                if v.get("end"): n["_end"] = upd(v["end"])[1]
            elif k == "inner":
                for c in v:
                    if isinstance(c, dict) and c: visit2(c)
    visit2(ast)
