"""Contract language: parser.  C-like expressions over the real program's
types, plus quantifiers, old(), entry(), result, logic functions, predicates."""
import re

TOK = re.compile(r"""
  (?P<ws>\s+|//[^\n]*|/\*.*?\*/)
 |(?P<num>0[xX][0-9a-fA-F]+|\d+)
 |(?P<id>[A-Za-z_$\\][A-Za-z_0-9$]*)
 |(?P<str>"[^"]*")
 |(?P<op><==>|==>|<=|>=|==|!=|&&|\|\||->|::|:=|\.\.|[-+*/%<>!?:()\[\]{},.;&=|])
""", re.X | re.S)


class SpecError(Exception):
    pass


def tokenize(s, fn="?"):
    out = []; i = 0; line = 1
    while i < len(s):
        m = TOK.match(s, i)
        if not m: raise SpecError("%s:%d: bad character %r" % (fn, line, s[i]))
        if m.lastgroup != "ws":
            out.append((m.lastgroup, m.group(), line))
        line += m.group().count("\n")
        i = m.end()
    out.append(("eof", "", line))
    return out


class P:
    def __init__(self, text, fn="?"):
        self.t = tokenize(text, fn); self.i = 0; self.fn = fn

    def peek(self, k=0): return self.t[min(self.i + k, len(self.t) - 1)]
    def at(self, v): return self.peek()[1] == v and self.peek()[0] != "str"
    def next(self):
        x = self.t[self.i]; self.i += 1; return x

    def err(self, msg):
        raise SpecError("%s:%d: %s near %r" % (self.fn, self.peek()[2], msg, self.peek()[1]))

    def eat(self, v):
        if self.at(v): self.i += 1; return True
        return False

    def expect(self, v):
        if not self.eat(v): self.err("expected %r" % v)

    def ident(self):
        k, v, _ = self.next()
        if k != "id": self.i -= 1; self.err("identifier expected")
        return v

    # ---- types in binders: 'int', 'bool', 'Foo*'
    def ctype(self):
        n = self.ident()
        while n in ("const", "struct", "unsigned") :
            n2 = self.ident()
            n = (n + " " + n2) if n != "const" else n2
        while self.eat("*"): n += "*"
        return n

    def binders(self):
        bs = []
        while True:
            ty = self.ctype(); nm = self.ident()
            bs.append((ty, nm))
            while self.peek()[1] == "," :
                # same type if the next-but-one token is , or :: or {
                if self.peek(1)[0] == "id" and self.peek(2)[1] in (",", "::", "{"):
                    self.next(); bs.append((ty, self.ident()))
                else: break
            if not self.eat(","): break
        return bs

    # ---- expressions
    def expr(self):
        if self.peek()[1] in ("forall", "exists"):
            q = self.next()[1]
            bs = self.binders()
            trig = []
            while self.eat("{"):
                g = [self.expr()]
                while self.eat(","): g.append(self.expr())
                self.expect("}"); trig.append(g)
            self.expect("::")
            return ("quant", q, bs, trig, self.expr())
        if self.at("let"):
            self.next(); ty = None
            nm = self.ident(); self.expect("="); v = self.expr(); self.expect(";")
            return ("let", nm, v, self.expr())
        return self.iff()

    def iff(self):
        a = self.imp()
        while self.eat("<==>"): a = ("bin", "<==>", a, self.imp())
        return a

    def imp(self):
        a = self.cond()
        if self.eat("==>"):
            if self.peek()[1] in ("forall", "exists", "let"): return ("bin", "==>", a, self.expr())
            return ("bin", "==>", a, self.imp())
        return a

    def cond(self):
        a = self.orr()
        if self.eat("?"):
            b = self.cond(); self.expect(":"); c = self.cond()
            return ("ite", a, b, c)
        return a

    def orr(self):
        a = self.andd()
        while self.eat("||"):
            a = ("bin", "||", a, self.quantor(self.andd))
        return a

    def quantor(self, f):
        if self.peek()[1] in ("forall", "exists", "let"): return self.expr()
        return f()

    def andd(self):
        a = self.cmp()
        while self.eat("&&"):
            a = ("bin", "&&", a, self.quantor(self.cmp))
        return a

    def cmp(self):
        a = self.add()
        if self.peek()[1] in ("<", "<=", ">", ">=", "==", "!="):
            parts = []
            while self.peek()[1] in ("<", "<=", ">", ">=", "==", "!="):
                op = self.next()[1]; b = self.add()
                parts.append(("bin", op, a, b)); a = b
            r = parts[0]
            for p in parts[1:]: r = ("bin", "&&", r, p)
            return r
        return a

    def add(self):
        a = self.mul()
        while self.peek()[1] in ("+", "-"):
            op = self.next()[1]; a = ("bin", op, a, self.mul())
        return a

    def mul(self):
        a = self.un()
        while self.peek()[1] in ("*", "/", "%"):
            op = self.next()[1]; a = ("bin", op, a, self.un())
        return a

    def un(self):
        if self.eat("!"): return ("not", self.un())
        if self.eat("-"): return ("neg", self.un())
        if self.eat("*"): return ("deref", self.un())
        if self.eat("&"): return ("addr", self.un())
        if self.at("(") and self.peek(1)[1] in ("cast",):
            pass
        return self.post()

    def post(self):
        a = self.prim()
        while True:
            if self.eat("->"): a = ("arrow", a, self.ident())
            elif self.eat("."): a = ("dot", a, self.ident())
            elif self.eat("["):
                if self.eat("*"):
                    self.expect("]"); a = ("all", a)
                elif self.peek()[1] == ".." : self.err("range")
                else:
                    e = self.expr()
                    if self.eat(".."):
                        e2 = self.expr(); self.expect("]"); a = ("slice", a, e, e2)
                    else:
                        self.expect("]"); a = ("index", a, e)
            else: return a

    def prim(self):
        k, v, ln = self.peek()
        if k == "num": self.next(); return ("num", int(v, 0))
        if k == "str": self.next(); return ("str", v[1:-1])
        if v == "(":
            self.next(); e = self.expr(); self.expect(")"); return e
        if v == "cast":
            self.next(); self.expect("<"); ty = self.ctype(); self.expect(">")
            self.expect("("); e = self.expr(); self.expect(")")
            return ("cast", ty, e)
        if v in ("forall", "exists", "let"): return self.expr()
        if k == "id":
            self.next()
            if v in ("old", "entry"):
                self.expect("("); e = self.expr(); self.expect(")"); return (v, e)
            if v == "true": return ("bool", True)
            if v == "false": return ("bool", False)
            if v == "null": return ("null",)
            if self.at("("):
                self.next(); args = []
                if not self.at(")"):
                    args.append(self.expr())
                    while self.eat(","): args.append(self.expr())
                self.expect(")")
                return ("call", v, args, ln)
            return ("id", v)
        self.err("expression expected")


class Contract:
    def __init__(self, name):
        self.name = name; self.requires = []; self.ensures = []; self.assigns = None
        self.loops = {}; self.calls = None; self.inline = False; self.trusted = None; self.pure = False
        self.sites = {}; self.file = None; self.ghost_lets = []; self.params = None
        self.noproof = False; self.split = []; self.overflow = True; self.asserts = {}
        self.aftercall = {}; self.variants = []; self.timeout = None; self.where = None
        self.rettype = None; self.aborts = None; self.skip = set(); self.never = set(); self.updates = []; self.asserts_assumed = None; self.assumes = []


class Loop:
    def __init__(self):
        self.inv = []; self.unroll = None; self.decreases = None; self.lets = []; self.hints = []
        self.bodyhints = []; self.assigns = None; self.updates = []; self.counts = []


class SpecFile:
    def __init__(self):
        self.contracts = {}; self.preds = {}; self.logics = {}; self.axioms = []; self.lemmas = []
        self.consts = {}; self.pointer_contracts = {}; self.qsorts = {}; self.ghosts = []


def clause(p):
    """[name:] expr ;   -> (name, expr, line)"""
    ln = p.peek()[2]; nm = None
    if p.peek()[0] == "id" and p.peek(1)[1] == ":" and p.peek(2)[1] != ":":
        nm = p.ident(); p.expect(":")
    e = p.expr(); p.expect(";")
    return (nm, e, ln)


def parse_loop(p):
    L = Loop(); p.expect("{")
    while not p.eat("}"):
        w = p.ident()
        if w == "invariant": L.inv.append(clause(p))
        elif w == "unroll": L.unroll = int(p.next()[1]); p.expect(";")
        elif w == "decreases": L.decreases = clause(p)
        elif w == "hint": L.hints.append(clause(p))
        elif w == "assigns":
            L.assigns = L.assigns or []
            if p.eat("nothing"): p.expect(";")
            else:
                while True:
                    e = p.expr(); g = None
                    if p.eat("if"): g = p.expr()
                    L.assigns.append((e, g))
                    if not p.eat(","): break
                p.expect(";")
        elif w == "bodyhint": L.bodyhints.append(clause(p))
        elif w == "count":         # count NAME(i): lo, expr;   NAME(n) is the number of i, lo <= i < n, for which expr holds at loop entry
            nm = p.ident(); p.expect("("); v = p.ident(); p.expect(")"); p.expect(":"); lo = p.expr(); p.expect(","); L.counts.append((nm, v, lo, p.expr())); p.expect(";")
        else: p.err("unknown loop clause " + w)
    return L


def parse(text, fn, sf=None):
    sf = sf or SpecFile()
    p = P(text, fn)
    while p.peek()[0] != "eof":
        kw = p.ident()
        if kw == "pred" or kw == "fun":
            nm = p.ident(); p.expect("("); ps = []
            if not p.at(")"):
                while True:
                    ty = p.ctype(); ps.append((ty, p.ident()))
                    if not p.eat(","): break
            p.expect(")"); p.expect(":="); e = p.expr(); p.expect(";")
            if nm in sf.preds: p.err("duplicate pred " + nm)
            sf.preds[nm] = (ps, e)
        elif kw == "logic":
            rt = p.ctype(); nm = p.ident(); p.expect("("); ps = []
            if not p.at(")"):
                while True:
                    ps.append(p.ctype())
                    if p.peek()[0] == "id": p.ident()
                    if not p.eat(","): break
            p.expect(")"); p.expect(";")
            sf.logics[nm] = (rt, ps)
        elif kw == "ghost":            # ghost NAME;  a mathematical variable which only contracts of callees change
            sf.ghosts.append(p.ident()); p.expect(";")
        elif kw == "axiom":
            sf.axioms.append(clause(p) + (fn,))
        elif kw == "lemma":
            nm = p.ident(); ind = None; hyps = []
            uses = []
            while p.peek()[1] in ("induction", "uses"):
                w = p.ident()
                if w == "induction": p.expect("("); ind = p.ident(); p.expect(")")
                else:
                    p.expect("("); uses.append(p.ident())
                    while p.eat(","): uses.append(p.ident())
                    p.expect(")")
            p.expect(":"); e = p.expr(); p.expect(";")
            sf.lemmas.append((nm, e, ind, uses, fn))
        elif kw == "const":
            nm = p.ident(); p.expect(":="); sf.preds[nm] = ([], p.expr()); p.expect(";")
        elif kw == "contract":
            nm = p.ident(); c = Contract(nm); c.where = fn
            while p.eat("@"): pass
            if p.eat("."): c.file = None
            while p.peek()[1] != "{":
                w = p.ident()
                if w == "in": c.file = p.next()[1].strip('"')
                elif w == "inline": c.inline = True
                elif w == "variant": nm = "%s@%s" % (nm, p.ident()); c.name = nm      # another contract of the same function (not used at calls)
                elif w == "trusted":
                    c.trusted = p.next()[1].strip('"')
                elif w == "external":
                    c.trusted = p.next()[1].strip('"'); 
                elif w == "pointer": c.trusted = p.next()[1].strip('"')
                elif w == "calls": c.calls = p.ident()      # the pointer is proved to be this function at each call
                else: p.err("unknown contract attribute " + w)
            p.expect("{")
            while not p.eat("}"):
                w = p.ident()
                if w == "requires": c.requires.append(clause(p))
                elif w == "ensures": c.ensures.append(clause(p))
                elif w == "assigns":
                    if c.assigns is None: c.assigns = []
                    if p.eat("nothing"): p.expect(";")
                    else:
                        while True:
                            g = None
                            e = p.expr()
                            if p.eat("if"): g = p.expr()
                            c.assigns.append((e, g))
                            if not p.eat(","): break
                        p.expect(";")
                elif w == "loop":
                    n = p.next()[1]; c.loops[n if n == "*" else int(n)] = parse_loop(p)
                elif w == "assert_after":
                    # proof hint:  assert_after call NAME [#k] : expr ;
                    callee = p.ident(); k = 0
                    if p.eat("["): k = int(p.next()[1]); p.expect("]")
                    p.expect(":"); c.aftercall.setdefault((callee, k), []).append((None, p.expr(), p.peek()[2])); p.expect(";")
                elif w == "params":
                    c.params = []
                    if p.eat("("):
                        pass
                    if not p.at(")"):
                        while True:
                            ty = p.ctype(); c.params.append((ty, p.ident()))
                            if not p.eat(","): break
                    p.expect(")")
                    if p.eat("->"): c.rettype = p.ctype()
                    p.expect(";")
                elif w == "hint": c.asserts.setdefault("exit", []).append(clause(p))
                elif w == "never":            # functions which are proved not to be called
                    c.never.add(p.ident())
                    while p.eat(","): c.never.add(p.ident())
                    p.expect(";")
                elif w == "without":          # postconditions of callees (by name) not needed in the proof of this function
                    c.skip.add(p.ident())
                    while p.eat(","): c.skip.add(p.ident())
                    p.expect(";")
                elif w == "aborts": c.aborts = p.expr(); p.expect(";")      # may stop the process, with an error report, in these cases only
                elif w == "updates":          # ghost code at the return of the function:  updates GHOST := expr ;
                    g = p.ident(); p.expect(":="); c.updates.append((g, p.expr())); p.expect(";")
                    if g not in sf.ghosts: p.err("not a ghost variable: " + g)
                elif w == "asserts_assumed": c.asserts_assumed = p.next()[1].strip('"'); p.expect(";")     # assertions in the code of this function are assumptions
                elif w == "assumes":          # assumes "reason": expr;   holds at each call without proof (listed as an assumption)
                    r = p.next()[1].strip('"'); p.expect(":"); c.assumes.append((r, p.expr())); p.expect(";")
                elif w == "timeout": c.timeout = int(p.next()[1]); p.expect(";")
                elif w == "nooverflow": c.overflow = False; p.expect(";")
                else: p.err("unknown contract clause " + w)
            sf.contracts[nm] = c
        else: p.err("unknown top-level " + kw)
    return sf
