"""C21: scopes, name spaces, linkage and storage duration."""
import diffrun
from c01 import ExprCheck
from engine import Case
from cexpr import TYPEID_MACRO

SCALARS = ["char", "signed char", "unsigned char", "short", "unsigned short", "int", "unsigned", "long", "unsigned long", "long long"]
NAMES = ["@a", "@b", "@c", "@t", "@u", "@T", "@S", "@x1", "@fn", "@y", "@z", "@long_name_of_an_object"]

class Ent:
    """kind: var, enum, type, func; ty: ("i", name) | ("a", name, n) | ("s", ref, members); ref: text that names the type where it was declared"""
    __slots__ = ("kind", "ty", "const", "reg", "n", "static")
    def __init__(self, kind, ty=None, const=False, reg=False, n=0):
        self.kind, self.ty, self.const, self.reg, self.n, self.static = kind, ty, const, reg, n, False

class Scope:
    def __init__(self, fn=None):
        self.o, self.t, self.fn = {}, {}, fn

class G:
    def __init__(self, s):
        self.s, self.L, self.k, self.scopes, self.depth = s, set(), 100, [Scope()], 0
        self.maxd, self.shadow, self.globals, self.fuel, self.labels = 0, 0, [], 70, None
        self.xnew = []       # objects declared in blocks only and defined at the end of the file
    def uniq(self):
        self.k += 7
        return self.k
    def small(self):
        self.k += 1
        return self.k % 120
    def look(self, n):
        for sc in reversed(self.scopes):
            if n in sc.o: return sc.o[n]
        return None
    def looktag(self, n):
        for sc in reversed(self.scopes):
            if n in sc.t: return sc.t[n]
        return None
    def visible(self, pred):
        seen, r = set(), []
        for sc in reversed(self.scopes):
            for n, e in sc.o.items():
                if n not in seen:
                    seen.add(n)
                    if pred(e): r.append((n, e))
        return sorted(r, key=lambda x: x[0])
    def vistags(self, pred):
        seen, r = set(), []
        for sc in reversed(self.scopes):
            for n, e in sc.t.items():
                if n not in seen:
                    seen.add(n)
                    if pred(e): r.append((n, e))
        return sorted(r, key=lambda x: x[0])
    def put(self, n, e, sc=None):
        sc = sc or self.scopes[-1]
        for q in self.scopes:
            if q is not sc and n in q.o: self.shadow += 1; self.L.add("shadows:%s-%s" % (q.o[n].kind, e.kind))
        sc.o[n] = e
    def free(self, tags=False):
        """A name not yet declared in the current scope."""
        sc = self.scopes[-1]
        d = sc.t if tags else sc.o
        c = [n for n in NAMES if n not in d and n not in (sc.fn or ())]
        if not c: return "@z%d" % self.uniq()
        # prefer names that hide something
        h = [n for n in c if (self.looktag(n) if tags else self.look(n))]
        return self.s.pick(h) if h and self.s.chance(2, 3) else self.s.pick(c)
    # -- expressions
    def expr(self, d=1, const=False, calls=True):
        """calls: a call is not an operand, the order of evaluation would be unspecified."""
        s = self.s
        vs = self.visible(lambda e: e.kind in ("var", "enum", "type") or e.kind == "func" and e.n)
        if not calls: vs = [v for v in vs if v[1].kind != "func"]
        if const: vs = [v for v in vs if v[1].kind in ("enum", "type")]
        k = s.draw(10)
        if k < 6 and vs:
            n, e = s.pick(vs)
            return self.use(n, e, d, const)
        if k == 6:
            ts = self.vistags(lambda t: t[1] is not None)
            if ts:
                n, t = s.pick(ts)
                self.L.add("tag-use")
                return "sizeof(%s %s)" % (t[0], n)
        if k == 7 and d > 0: return "(%s %s %s)" % (self.expr(d - 1, const, False), s.pick(["+", "-", "^", "|"]), self.expr(d - 1, const, False))
        if k == 8 and vs:
            n, e = s.pick(vs)
            if e.kind != "func": return "sizeof(%s)" % n
        return str(self.small())
    def use(self, n, e, d, const=False):
        s = self.s
        if e.kind == "enum": return n
        if e.kind == "type":
            if e.ty[0] == "i":
                self.L.add("typedef-cast")
                return s.pick(["sizeof(%s)", "(%s)-1", "(%s)300", "sizeof(%s *)", "(%s)(1)", "sizeof(%s[3])", "_Alignof(%s)"]) % n
            return s.pick(["sizeof(%s)", "_Alignof(%s)"]) % n
        if e.kind == "func": return "%s(%s)" % (s.pick([n, "(%s)" % n, "(*%s)" % n]), self.expr(0, calls=False) if d <= 0 else self.small())
        t = e.ty
        if t[0] == "i": return s.pick(["%s", "%s", "(%s)", "sizeof %s", "(%s) + 1", "%s * 1"]) % n
        if t[0] == "a": return s.pick(["%s[0]", "%s[%d]" % ("%s", t[2] - 1), "sizeof %s", "*%s", "sizeof(%s)"]) % n
        m, mt = s.pick(t[2])
        self.L.add("member-use")
        return s.pick(["%s.%s" % (n, m), "sizeof %s.%s" % (n, m), "(&%s)->%s" % (n, m), "sizeof(%s)" % n][:2 if e.reg else 4])
    # -- declarations
    def tagdef(self, tag, kw, body_only=False):
        """A struct or union definition; its members may reuse any name. Registers the tag."""
        s = self.s
        sc = self.scopes[-1]
        ms, names = [], set()
        out = []
        if tag: sc.t[tag] = (kw, sc.t[tag][1] if tag in sc.t else None)
        for _ in range(s.range(1, 3)):
            c = [n for n in NAMES if n not in names]
            n = s.pick(c); names.add(n)
            ts = [v for v in self.visible(lambda e: e.kind == "type" and e.ty[0] == "i")]
            k = s.draw(8)
            if k < 2 and ts:
                tn, e = s.pick(ts)
                self.L.add("typedef-member" + ("-same-name" if tn == n else ""))
                out.append("%s %s;" % (tn, n)); ms.append((n, e.ty))
            elif k == 2:
                en, v = self.free(), -self.uniq()
                out.append("enum { %s = %d } %s;" % (en, v, n)); ms.append((n, ("i", "int")))
                self.put(en, Ent("enum")); self.L.add("enumerator-in-struct")
            elif k == 3 and tag:
                out.append("%s %s *%s;" % (kw, tag, n)); self.L.add("self-reference")
                out.append("char %s;" % (n + "_")); ms.append((n + "_", ("i", "char")))
            else:
                t = s.pick(SCALARS)
                if s.chance(1, 3):
                    m = s.range(2, 9)
                    out.append("%s %s[%d];" % (t, n, m)); ms.append((n + "[%d]" % s.draw(m), ("i", t)))
                else: out.append("%s %s;" % (t, n)); ms.append((n, ("i", t)))
        if s.chance(1, 2): out.append("char pad_[%d];" % s.range(1, 40))
        if tag: sc.t[tag] = (kw, True)
        return "%s %s{ %s }" % (kw, tag + " " if tag else "", " ".join(out)), ms
    def newtag(self):
        s = self.s
        n = self.free(tags=True)
        kw = s.pick(["struct", "struct", "union"])
        pre = ""
        if self.looktag(n): self.L.add("tag-shadow")
        if s.chance(1, 4):
            pre = "%s %s; " % (kw, n)
            self.L.add("tag-forward")
            self.scopes[-1].t[n] = (kw, None)
        d, ms = self.tagdef(n, kw)
        return pre, d, ms, kw, n
    def declare(self, file=False):
        """A declaration in the current scope; returns text."""
        s = self.s
        k = s.weighted([(8, "var"), (3, "array"), (4, "typedef"), (4, "enum"), (4, "struct"), (2, "static"), (2, "extern"), (1, "register"), (2, "self"), (2, "typename"), (1, "proto"), (1, "sizeof-tag"), (2, "two"), (2, "xnew")])
        if file and k in ("extern", "xnew", "register", "self", "sizeof-tag"): k = "static"
        st = "static " if file else ""
        n = self.free()
        old = self.look(n)
        self.L.add("declare:" + k)
        if k == "var":
            ts = self.visible(lambda e: e.kind == "type" and e.ty[0] == "i")
            if ts and s.chance(1, 3):
                tn, te = s.pick(ts)
                form = s.pick(["%s %s", "%s (%s)", "const %s %s", "%s const %s"])
                self.put(n, Ent("var", te.ty, const="const" in form))
                return st + (form % (tn, n)) + " = %s;" % (self.small() if file or tn == n else self.small())
            t = s.pick(SCALARS)
            c = s.chance(1, 6)
            i = str(self.small()) if file or s.chance(1, 2) else self.init(n)
            self.put(n, Ent("var", ("i", t), const=c))
            return "%s%s%s %s = %s;" % (st, "const " if c else "", t, n, i)
        if k == "array":
            t, m = s.pick(SCALARS), s.range(2, 7)
            self.put(n, Ent("var", ("a", t, m)))
            return "%s%s %s[%d] = { %s };" % (st, t, n, m, ", ".join(str(self.small()) for _ in range(m)))
        if k == "typedef":
            t = s.pick(SCALARS)
            ts = self.visible(lambda e: e.kind == "type" and e.ty[0] == "i")
            if ts and s.chance(1, 3): tn, te = s.pick(ts); t0, ty = tn, te.ty
            else: t0, ty = t, ("i", t)
            if s.chance(1, 4):
                m = s.range(2, 9)
                self.put(n, Ent("type", ("a", ty[1], m)))
                return "typedef %s %s[%d];" % (t0, n, m)
            self.put(n, Ent("type", ty))
            return s.pick(["typedef %s %s;", "%s typedef %s;"]) % (t0, n)
        if k == "enum":
            if old and old.kind == "enum" and s.chance(1, 2):
                # the scope of an enumerator starts after its value
                self.L.add("enumerator-from-hidden")
                self.put(n, Ent("enum"))
                m = self.free()
                self.put(m, Ent("enum"))
                return "enum { %s = %s + 3, %s = %s + 5 };" % (n, n, m, n)
            self.put(n, Ent("enum"))
            m = self.free()
            self.put(m, Ent("enum"))
            tag = self.free(tags=True) if s.chance(1, 3) else ""
            if tag: self.scopes[-1].t[tag] = ("enum", True)
            return "enum %s { %s = %d, %s };" % (tag, n, self.uniq(), m)
        if k == "struct":
            pre, d, ms, kw, tag = self.newtag() if s.chance(3, 4) else ("",) + self.tagdef("", s.pick(["struct", "union"])) + (None, None)
            n = self.free()
            if s.chance(1, 3):
                self.put(n, Ent("type", ("s", n, ms)))
                return pre + "typedef %s %s;" % (d, n)
            self.put(n, Ent("var", ("s", None, ms)))
            if tag and s.chance(1, 2): return "%s%s; %s%s %s %s = { 0 };" % (pre, d, st, kw, tag, n)
            return "%s%s%s %s = { 0 };" % (pre, st, d, n)
        if k == "static":
            t = s.pick(SCALARS)
            self.put(n, Ent("var", ("i", t)))
            i = "static %s %s = %d;" % (t, n, self.small())
            if file and s.chance(1, 2):
                i = s.pick(["static %s %s; " % (t, n), "static %s %s; static %s %s; " % (t, n, t, n), ""]) + i + s.pick(["", " extern %s %s;" % (t, n), " static %s %s;" % (t, n)])
                self.L.add("tentative")
            return i
        if k == "extern":
            if not self.globals: return ""
            g, e = s.pick(self.globals)
            if g in self.scopes[-1].o or g in (self.scopes[-1].fn or ()): return ""
            if e.static and self.look(g) is not e: return ""
            if self.look(g) is not e: self.L.add("extern-of-hidden")
            self.put(g, e)
            if e.kind == "func": return s.pick(["int %s(int);", "extern int %s(int);", "int %s(int a);"]) % g
            if e.ty[0] == "a": return "extern %s %s[%s];" % (e.ty[1], g, s.pick(["", str(e.ty[2])]) if False else e.ty[2])
            return "extern %s %s;" % (e.ty[1], g)
        if k == "xnew":
            r = []
            for _ in range(s.range(1, 3)):
                if self.xnew and s.chance(1, 3): g, t = s.pick(self.xnew)
                else:
                    g, t = "@xn%d" % self.uniq(), s.pick(SCALARS)
                    self.xnew.append((g, t))
                self.put(g, Ent("var", ("i", t)))
                r.append("extern %s %s;" % (t, g))
            return " ".join(r)
        if k == "register":
            self.put(n, Ent("var", ("i", "int"), reg=True))
            return "register int %s = %d;" % (n, self.small())
        if k == "self":
            # the scope starts at the end of the declarator
            t = s.pick(SCALARS)
            self.put(n, Ent("var", ("i", t)))
            return "%s %s = sizeof %s + %d;" % (t, n, s.pick([n, "(%s)" % n, "(%s[1 + 0 * sizeof %s])" % ("char", n)]), self.small())
        if k == "typename":
            # T T: the name is a type in the specifiers and an object afterwards
            ts = [v for v in self.visible(lambda e: e.kind == "type" and e.ty[0] == "i") if v[0] not in self.scopes[-1].o and v[0] not in (self.scopes[-1].fn or ())]
            if not ts: return ""
            tn, te = s.pick(ts)
            self.put(tn, Ent("var", te.ty))
            self.L.add("type-hides-itself")
            if file: return "static %s %s = %d;" % (tn, tn, self.small())
            if s.chance(1, 2):
                m = self.free()
                if m != tn:
                    self.put(m, Ent("var", te.ty))
                    return "%s %s = %d, %s = %s + 1;" % (tn, tn, self.small(), m, tn)
            return "%s %s = %s;" % (tn, tn, self.small())
        if k == "proto":
            # names of a prototype end with it
            a, b = s.pick(NAMES), s.pick(NAMES)
            ts = self.visible(lambda e: e.kind == "type" and e.ty[0] == "i")
            sc = self.scopes[-1]
            fnm = "z%d" % self.uniq()
            if ts and s.chance(1, 2):
                tn, te = s.pick(ts)
                self.L.add("prototype-typedef")
                return "int (*%s)(int %s, %s);" % (fnm, a if a != tn else "q_", tn) if not file else "static int (*%s)(%s, int %s, char (*)[sizeof %s]);" % (fnm, tn, a if a != tn else "q_", a if a != tn else "q_")
            return "%sint (*%s)(int %s, struct %s { char %s[%d]; } *, char (*)[sizeof(%s)]);" % (st, fnm, a, b, a, s.range(1, 9), a)
        if k == "sizeof-tag":
            # a tag or enumerators declared inside an expression belong to the enclosing block
            m = self.free()
            v = self.uniq()
            self.put(m, Ent("enum"))
            n = self.free()
            if n == m: return "obs(sizeof(enum { %s = %d })); obs(%s);" % (m, v, m)
            self.put(n, Ent("var", ("i", "int")))
            return "int %s = sizeof(enum { %s = %d }) + %s;" % (n, m, v, m)
        n2 = self.free()
        t = s.pick(SCALARS)
        self.put(n, Ent("var", ("i", t)))
        n3 = self.free()
        self.put(n3, Ent("var", ("i", t)))
        if file: return "static %s %s = %d, %s = %d;" % (t, n, self.small(), n3, self.small())
        return "%s %s = %d, %s = %s + 2;" % (t, n, self.small(), n3, n)
    def init(self, n):
        """Initialiser that does not use the object being declared."""
        e = self.look(n)
        sv = self.scopes[-1].o.get(n)
        for _ in range(3):
            t = self.expr(1)
            import re
            if n not in re.findall(r"@?\w+", t): return t
        return str(self.small())
    # -- statements
    def observe(self):
        return "obs(%s);" % self.expr(2)
    def simple(self):
        s = self.s
        k = s.draw(9)
        vs = self.visible(lambda e: e.kind == "var" and not e.const)
        if k < 4 or not vs: return self.observe()
        n, e = s.pick(vs)
        if k == 4 and e.ty[0] == "i": return "%s = %d;" % (s.pick([n, "(%s)" % n]), self.small())
        if k == 5 and e.ty[0] == "i": return "%s %s %d;" % (n, s.pick(["+=", "^=", "-="]), self.small() % 7)
        if e.ty[0] == "a": return "%s[%d] = %d;" % (n, s.draw(e.ty[2]), self.small())
        if e.ty[0] == "s": return "%s.%s = %d;" % (n, s.pick(e.ty[2])[0], self.small() % 50)
        if e.ty[0] == "i" and not e.reg and k == 6:
            return "{ %s *p_ = &%s; *p_ = *p_ + 1; obs(*p_); }" % (e.ty[1], n)
        if e.ty[0] == "i": return s.pick(["%s++;", "--%s;", "%s;", "%s * 2;", "(%s);"]) % n
        return self.observe()
    def items(self, d, nmax=7):
        """Declarations and statements of a block, whose scope has been pushed."""
        s = self.s
        out = []
        for _ in range(s.range(2, nmax)):
            self.fuel -= 1
            if self.fuel < 0: break
            k = s.draw(10)
            if k < 4: out.append(self.declare())
            elif k < 7 or d <= 0: out.append(self.simple())
            else: out.append(self.compound(d))
        out.append(self.observe())
        return " ".join(o for o in out if o)
    def push(self, fn=None):
        self.scopes.append(Scope(fn))
        self.maxd = max(self.maxd, len(self.scopes))
    def pop(self):
        self.scopes.pop()
    def block(self, d):
        self.push()
        b = "{ %s }" % self.items(d)
        self.pop()
        return b
    def body(self, d):
        """A substatement: a block of its own even without braces."""
        if self.s.chance(1, 3):
            self.push()
            self.L.add("unbraced")
            b = self.simple()
            self.pop()
            return b
        return self.block(d)
    def compound(self, d):
        s = self.s
        k = s.weighted([(5, "block"), (4, "for"), (2, "if"), (2, "while"), (2, "switch"), (2, "label"), (1, "do"), (1, "if-enum"), (1, "goto-back")])
        self.L.add("statement:" + k)
        if k == "block": return self.block(d - 1)
        if k == "for":
            self.push()
            v = self.free()
            t = s.pick(["int", "char", "unsigned", "long", "short"])
            i = self.init(v) if s.chance(1, 3) else str(self.small() % 5)
            # the counter stays out of reach of the body: it is hidden or const to the generator
            self.put(v, Ent("var", ("i", t), const=True))
            extra = ""
            if s.chance(1, 2):
                w = self.free()
                extra = ", %s = %s + 1" % (w, s.pick([v, "sizeof %s" % v]))
                self.put(w, Ent("var", ("i", t)))
            c = "lim_"
            b = self.body(d - 1) if s.chance(3, 4) else self.declared_for_body(d)
            r = "for (%s %s = %s%s; tickv(1) && lim_++ < %d; %s++) %s" % (t, v, i, extra, s.range(1, 3), v, b)
            self.pop()
            # a limit shared by no other loop
            u = "lim%d_" % self.uniq()
            return "{ int %s = 0; %s }" % (u, r.replace("lim_", u, 1))
        if k == "if":
            self.push()
            c = self.expr(1)
            a, b = self.body(d - 1), self.body(d - 1)
            self.pop()
            return "if (%s) %s else %s" % (c, a, b)
        if k == "if-enum":
            self.push()
            e, v = self.free(), self.uniq()
            self.put(e, Ent("enum"))
            r = "if (sizeof(enum { %s = %d }) > %s) %s else %s" % (e, v, s.pick(["1", "400", e]), self.body(d - 1), self.body(d - 1))
            self.pop()
            return r
        if k == "while":
            u = "lim%d_" % self.uniq()
            self.push()
            r = "while (tickv(1) && %s++ < %d) %s" % (u, s.range(1, 3), self.body(d - 1))
            self.pop()
            return "{ int %s = 0; %s }" % (u, r)
        if k == "do":
            u = "lim%d_" % self.uniq()
            self.push()
            r = "do %s while (tickv(1) && %s++ < %d);" % (self.body(d - 1), u, s.range(0, 2))
            self.pop()
            return "{ int %s = 0; %s }" % (u, r)
        if k == "switch":
            self.push()
            es = [n for n, e in self.visible(lambda e: e.kind == "enum")]
            e = s.pick(es) if es and s.chance(1, 2) else None
            v = "%s" % e if e else str(s.range(0, 2))
            b1, b2 = self.block(d - 1), self.block(d - 1)
            r = "switch (%s) { case %s: %s break; case 1000001: %s; default: %s }" % (v, e or 1, b1, self.simple(), b2)
            self.pop()
            return r
        if k == "label":
            c = [n for n in NAMES if n not in self.labels]
            if not c: return self.block(d - 1)
            l = s.pick(c); self.labels.add(l)
            o = self.look(l)
            self.L.add("label-%s" % (o.kind if o else "free"))
            return "goto %s; obs(1); %s: %s" % (l, l, self.simple_stmt(l))
        c = [n for n in NAMES if n not in self.labels]
        if not c: return self.block(d - 1)
        l = s.pick(c); self.labels.add(l)
        u = "lim%d_" % self.uniq()
        return "{ int %s = 0; %s: %s; if (tickv(1) && %s++ < %d) goto %s; }" % (u, l, self.block(d - 1), u, s.range(1, 2), l)
    def simple_stmt(self, l):
        r = self.simple()
        return r
    def declared_for_body(self, d):
        return self.block(d - 1)
    def function(self):
        s = self.s
        f = "@f%d" % self.uniq()
        if s.chance(1, 3): f = self.free()
        static = s.chance(1, 2)
        params, pn = [], s.pick(NAMES)
        out = ""
        g = Ent("func")
        g.static = static
        if s.chance(1, 3):
            out += "%sint %s(int%s);\n" % ("static " if static else "", f, s.pick(["", " " + s.pick(NAMES)]))
        self.scopes[0].o[f] = g
        self.push()
        self.put(pn, Ent("var", ("i", "int"), const=True))
        self.labels = set()
        self.fuel = 40
        self.scopes[-1].fn = None
        rec = s.chance(1, 3)
        b = self.items(3, 9)
        if rec:
            # an activation keeps its own objects across the recursive call
            self.L.add("recursion")
            vs = [n for n, e in self.visible(lambda e: e.kind == "var")]
            n1 = self.look(pn)
            if self.look(f) is g and pn in self.scopes[-1].o and n1.const and n1.ty == ("i", "int"):
                loc = "loc%d_" % self.uniq()
                b += " { int %s = %s; static int s%s = 3; s%s++; if (%s > 0 && %s < 4 && tickv(1)) { obs(%s(%s - 1)); } obs(%s); obs(s%s); obs(%s); }" % (loc, pn, loc, loc, pn, pn, f, pn, loc, loc, self.expr(1))
        b += " return %s;" % self.expr(1)
        self.pop()
        self.labels = None
        out += "%sint %s(int %s) { %s }\n" % ("static " if static else "", f, pn, b)
        if s.chance(1, 4): out += "extern int %s(int);\n" % f
        g.n = 1
        self.globals.append((f, g))
        return out, f
    def many(self):
        """A function with many parameters, whose scope fills the buckets of a symbol table."""
        s = self.s
        f = "@f%d" % self.uniq()
        names, ps, ob, args = set(), [], [], []
        for _ in range(s.range(4, 24)):
            n = "".join(s.pick("abcdefgh") for _ in range(s.range(1, 3))) + str(s.draw(1000))
            if n in names: continue
            names.add(n)
            k = s.draw(8)
            if k == 0:
                e = "".join(s.pick("ijklm") for _ in range(2)) + str(self.uniq())
                ps.append("enum { %s = %d } %s" % (e, s.draw(100), n)); ob.append("obs(%s); obs(%s);" % (n, e))
            elif k == 1:
                ps.append("struct %s { char %s[%d]; } *%s" % (n, n, s.range(1, 90), n)); ob.append("obs(%s == 0); obs(sizeof(struct %s)); obs(sizeof %s->%s);" % (n, n, n, n))
            else:
                t = s.pick(SCALARS)
                ps.append("%s %s" % (t, n)); ob.append("obs(%s);" % n)
            args.append("0" if k == 1 else str(self.small()))
        self.L.add("many-parameters")
        return "%sint %s(%s) { %s { %s } return %d; }\n" % (s.pick(["", "static "]), f, ", ".join(ps), " ".join(ob), " ".join(s.shuffle(ob)[:6]), self.small()), "obs(%s(%s));" % (f, ", ".join(args))
    def program(self):
        s = self.s
        out, mains = [], []
        for _ in range(s.range(1, 4)):
            for _ in range(s.range(1, 6)):
                if s.chance(1, 2):
                    n, t = self.free() if s.chance(1, 2) else "@g%d" % self.uniq(), s.pick(SCALARS)
                    e = Ent("var", ("i", t) if s.chance(3, 4) else ("a", t, s.range(2, 5)))
                    self.scopes[0].o[n] = e
                    ini = " = %d" % self.small() if e.ty[0] == "i" else "[%d] = { %s }" % (e.ty[2], ", ".join(str(self.small()) for _ in range(e.ty[2])))
                    k = s.draw(5)
                    e.static = k in (0, 3)
                    sh = "" if e.ty[0] == "i" else "[%d]" % e.ty[2]
                    if k == 0: out.append("static %s %s%s;" % (t, n, ini))
                    elif k == 1: out.append("extern %s %s%s;" % (t, n, sh)); mains.append("%s %s%s;" % (t, n, ini)); self.L.add("used-before-definition")
                    elif k == 2: out.append("%s %s%s;" % (t, n, sh)); mains.append(s.pick(["%s %s%s;" % (t, n, ini), "%s %s%s;" % (t, n, sh)])); self.L.add("tentative")
                    elif k == 3: out.append("static %s %s%s;" % (t, n, sh)); mains.append("static %s %s%s;" % (t, n, ini)); self.L.add("tentative")
                    else: out.append("%s %s%s;" % (t, n, ini))
                    self.globals.append((n, e))
                else:
                    out.append(self.declare(file=True))
            o, f = self.function()
            out.append(o)
        calls = []
        for _ in range(s.pick([0, 0, 0, 1, 1, 3])):
            o, c = self.many()
            out.append(o); calls.append(c)
        for _ in range(s.range(1, 5)):
            fs = [g for g, e in self.globals if e.kind == "func"]
            calls.append("obs(%s(%d));" % (s.pick(fs), s.range(0, 3)))
        for g, e in self.globals:
            if e.kind == "var": calls.append("obs(%s);" % (g if e.ty[0] == "i" else g + "[1]"))
        for g, t in self.xnew:
            mains.append(s.pick(["%s %s = %d;" % (t, g, self.small()), "%s %s;" % (t, g)]))
        return out, mains, calls

FILLER = "enum { %s };\n" % ", ".join("fill_%d" % i for i in range(1500))

class ScopeCheck(ExprCheck):
    prop = "C21"
    technique = "property-based differential testing: random nests of scopes reusing a small set of names in every name space, compared with gcc by the values each name yields, with shrinking"
    level_note = "Sampled programs; gcc (with clang as arbiter of failures) is the reference."
    batch = 12
    quick_time = 35.0
    rule = ("1-4 functions over ten reused names: objects (automatic, static, register, extern), arrays, typedefs, enumerators, tags (forward declared, defined in expressions, prototypes, members), labels and members of the same names, in blocks, for-inits, substatements, "
            "switch bodies and prototypes nested up to 5 deep, with uses before, inside and after each inner scope, assignments, recursion, gotos and tentative or extern declarations. Non-trivial: at least three declarations hide another.")
    def setup(self, work):
        super().setup(work)
        # enough names that the chains of the symbol table's buckets are used
        self.diff.decls += FILLER
    def generate(self, s):
        g = G(s)
        out, late, calls = g.program()
        text = "\n".join(out) + "\nvoid @case(void) {\n\t" + "\n\t".join(calls) + "\n}\n" + "\n".join(late) + "\n"
        return Case(text, nontrivial=g.shadow >= 3, labels=sorted(g.L) + ["depth:%d" % min(g.maxd, 8)])

CHECK = ScopeCheck()
