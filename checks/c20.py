"""C20: types of declarations and expressions, observed through _Generic, sizeof and use."""
from c01 import ExprCheck
from engine import Case

BASE = [("char",), ("signed", "char"), ("unsigned", "char"), ("short",), ("short", "int"), ("signed", "short", "int"), ("unsigned", "short"), ("unsigned", "short", "int"), ("int",), ("signed",), ("signed", "int"),
        ("unsigned",), ("unsigned", "int"), ("long",), ("long", "int"), ("signed", "long"), ("signed", "long", "int"), ("unsigned", "long"), ("unsigned", "long", "int"), ("long", "long"), ("long", "long", "int"),
        ("signed", "long", "long", "int"), ("unsigned", "long", "long"), ("unsigned", "long", "long", "int"), ("float",), ("double",), ("_Bool",)]
def canon(sp):
    w = sorted(sp)
    if w == ["char"]: return "char"
    if "char" in w: return ("unsigned " if "unsigned" in w else "signed ") + "char"
    if w[0] in ("float", "double", "_Bool"): return w[0]
    u = "unsigned " if "unsigned" in w else ""
    n = w.count("long")
    if "short" in w: return u + "short"
    return u + {0: "int", 1: "long", 2: "long long"}[n]
RANK = {"_Bool": 0, "char": 1, "signed char": 1, "unsigned char": 1, "short": 2, "unsigned short": 2, "int": 3, "unsigned int": 3, "long": 4, "unsigned long": 4, "long long": 5, "unsigned long long": 5}
ARITH = ["char", "signed char", "unsigned char", "short", "unsigned short", "int", "unsigned int", "long", "unsigned long", "long long", "unsigned long long", "float", "double", "_Bool"]

# types: ("b", name, quals) arithmetic, void or "struct @S"; ("p", T, quals); ("a", T, n); ("f", R, (params), variadic)
def quals(t): return t[2] if t[0] in "bp" else quals(t[1]) if t[0] == "a" else ""
def qual(t, q):
    if t[0] == "a": return ("a", qual(t[1], q), t[2])
    if t[0] == "f": return t
    return (t[0], t[1], "".join(sorted(set(t[2]) | set(q))))
def unqual(t):
    return (t[0], t[1], "") if t[0] in "bp" else ("a", unqual(t[1]), t[2]) if t[0] == "a" else t
def B(n, q=""): return ("b", n, q)
def P(t, q=""): return ("p", t, q)
INT = B("int")
def isarith(t): return t[0] == "b" and t[1] in ARITH
def isint(t): return isarith(t) and t[1] not in ("float", "double")
def promote(n): return "int" if n in RANK and RANK[n] < 3 else n
def common(a, b):
    for f in ("double", "float"):
        if f in (a, b): return f
    a, b = promote(a), promote(b)
    if a == b: return a
    ua, ub = a.startswith("u"), b.startswith("u")
    if ua == ub: return a if RANK[a] > RANK[b] else b
    if ub: a, b, ua, ub = b, a, ub, ua
    if RANK[a] >= RANK[b]: return a
    size = {"int": 4, "unsigned int": 4}
    return b if size.get(b, 8) > size.get(a, 8) else "unsigned " + b
def decay(t):
    if t[0] == "a": return P(t[1])
    if t[0] == "f": return P(t)
    return t
def rv(t): return unqual(decay(t)) if t[0] != "f" and t[0] != "a" else decay(t)
def param(t): return rv(t)
QN = {"c": "const", "v": "volatile"}

class G:
    def __init__(self, s):
        self.s, self.L, self.out, self.n = s, set(), [], 0
        self.tds = []
    def fresh(self, p):
        self.n += 1
        return "%s%d" % (p, self.n)
    # -- types
    def base(self):
        s = self.s
        if s.chance(1, 8): return B("struct @S" + s.pick("AB"), self.q())
        return B(canon(s.pick(BASE)), self.q())
    def q(self):
        return self.s.pick(["", "", "", "c", "v", "cv"])
    def type(self, d, fn=False, complete=True):
        s = self.s
        k = s.draw(10)
        if d <= 0 or k < 2 and not fn: return self.base()
        if k < 5 and not fn: return P(self.type(d - 1, complete=False) if s.chance(2, 3) else self.func(d - 1), self.q())
        if k < 8 and not fn: return ("a", self.type(d - 1), s.pick([1, 2, 3, 5]))
        if fn: return self.func(d - 1)
        return P(B("void", self.q()) if s.chance(1, 4) else self.func(d - 1), self.q())
    def func(self, d):
        s = self.s
        while 1:
            r = self.type(d)
            if r[0] != "a": break
            d -= 1
        if r[0] == "b" and s.chance(1, 8): r = B("void")
        ps = tuple(self.type(d - 1, fn=s.chance(1, 6)) for _ in range(s.range(0, 3)))
        self.L.add("function")
        return ("f", unqual(r), ps, bool(ps) and s.chance(1, 6))
    # -- spelling
    def spec(self, name, q, extra=()):
        s = self.s
        words = list(extra)
        if name.startswith("struct "): words.append(name)
        elif name in RANK or name in ("float", "double"):
            words += list(s.pick([b for b in BASE if canon(b) == name]))
        else: words.append(name)
        for c in q: words += [QN[c]] * s.weighted([(8, 1), (1, 2)])
        if len(words) > 2: self.L.add("permuted")
        r = []
        while words: r.append(words.pop(s.draw(len(words)) if s.chance(2, 3) else 0))
        return " ".join(r)
    def decl(self, t, name, extra=(), params=None):
        """Text of a declaration of name with type t; extra: storage words among the specifiers."""
        s = self.s
        d = name
        first = True
        while 1:
            if self.tds and s.chance(1, 4):
                m = [n for n, u in self.tds if u == t] + [n for n, u in self.tds if u == unqual(t) and t[0] in "bpa" and u != t] 
                m = [n for n in m if not (first and params)]
                if m:
                    n = s.pick(m)
                    u = dict(self.tds)[n]
                    q = quals(t) if u != t else ""
                    self.L.add("typedef-name" + ("-qualified" if q else "") + ("-array" if q and t[0] == "a" else ""))
                    return self.spec(n, q, extra) + " " + d
            if t[0] == "b":
                return self.spec(t[1], t[2], extra) + " " + d
            if t[0] == "p":
                d = "*" + "".join(" " + QN[c] for c in t[2]) + (" " if t[2] else "") + d
                if t[1][0] in "af": d = "(" + d + ")"
                elif s.chance(1, 12): d = "(" + d + ")"; self.L.add("redundant-parentheses")
                t = t[1]
            elif t[0] == "a":
                d = d + "[%s]" % self.size(t[2])
                t = t[1]
            else:
                ps = []
                for k, p in enumerate(t[2]):
                    nm = params[k] if first and params else s.pick(["", "", "p%d" % k])
                    if p[0] == "a" and s.chance(1, 2):
                        # an array parameter may be written in many ways
                        m = s.draw(4)
                        self.L.add("array-parameter")
                        if m == 0: ps.append(self.decl(P(p[1], s.pick(["", "c"])), nm)); continue
                        if m == 1 and nm: ps.append(self.decl(p[1], nm + "[%s]" % s.pick(["", "const", "static 1", "volatile 7", "const volatile"]))); continue
                        if m == 2: ps.append(self.decl(p[1], nm + "[]")); continue
                    elif p[0] == "f" and s.chance(1, 2):
                        self.L.add("function-parameter")
                        ps.append(self.decl(P(p), nm)); continue
                    elif p[0] in "bp" and s.chance(1, 4):
                        self.L.add("qualified-parameter")
                        p = (p[0], p[1], s.pick(["", "c", "v", "cv"]))
                    ps.append(self.decl(p, nm))
                a = ", ".join(ps) if ps else "void"
                d = d + "(" + a + (", ..." if t[3] else "") + ")"
                t = t[1]
            first = False
    def size(self, n):
        s = self.s
        return s.pick([str(n), str(n), "%d + %d" % (n - 1, 1), "sizeof(char[%d])" % n, "%s" % hex(n), "'%c' - '0'" % (48 + n), "1 ? %d : 2" % n, "@E%d" % n if n in (1, 2, 3, 5) else str(n)])
    def tn(self, t):
        return self.decl(t, "").rstrip()
    # -- mutation into incompatible types
    def mutate(self, t):
        s = self.s
        k = s.draw(4)
        if t[0] == "b":
            if k == 0: return (t[0], t[1], s.pick([q for q in ("", "c", "v", "cv") if q != t[2]]))
            return B(s.pick([n for n in ARITH if n != t[1]] + ["struct @S" + c for c in "AB" if not t[1].endswith(c)]), t[2])
        if t[0] == "p":
            if k == 0: return (t[0], t[1], s.pick([q for q in ("", "c", "v", "cv") if q != t[2]]))
            if k == 1 and t[1][0] != "f": return P(P(t[1]), t[2])
            if k == 2 and t[1][0] == "p": return P(t[1][1], t[2])
            return P(self.mutate(t[1]), t[2])
        if t[0] == "a":
            if k == 0: return ("a", t[1], t[2] + 1)
            if k == 1: return P(t[1])
            return ("a", self.mutate(t[1]), t[2])
        if k == 0 and t[2]: return ("f", t[1], t[2], not t[3])
        if k == 1 and t[2]:
            i = s.draw(len(t[2]))
            return ("f", t[1], t[2][:i] + (self.mutate(t[2][i]),) + t[2][i + 1:], t[3])
        if k == 2: return ("f", t[1], t[2] + (INT,), t[3])
        r = self.mutate(t[1])
        return ("f", unqual(r) if r[0] in "bp" else INT if t[1] != INT else B("long"), t[2], t[3])
    def canon(self, t):
        if t[0] in "b": return "%s %s" % (t[1], t[2])
        if t[0] == "p": return "*%s(%s)" % (t[2], self.canon(t[1]))
        if t[0] == "a": return "[%d](%s)" % (t[2], self.canon(t[1]))
        return "(%s)(%s%s)" % (self.canon(t[1]), ",".join(self.canon(param(p)) for p in t[2]), "..." if t[3] else "")
    def generic(self, e, t):
        """Statement observing which of t and its mutants e has; t is not a function or array type."""
        s = self.s
        alts, seen = [t], {self.canon(t)}
        for _ in range(s.range(1, 4)):
            m = self.mutate(s.pick(alts))
            if m[0] not in "bp" or m[0] == "b" and m[1] == "void" or m[0] == "a": continue
            if self.canon(m) not in seen:
                seen.add(self.canon(m)); alts.append(m)
        order = list(alts)
        if s.chance(1, 8) and len(order) > 1: order.remove(t)
        for i in range(len(order) - 1, 0, -1):
            j = s.draw(i + 1)
            order[i], order[j] = order[j], order[i]
        items = ["%s: %d" % (self.tn(a), k + 1) for k, a in enumerate(order)]
        items.insert(s.draw(len(items) + 1), "default: 99")
        return "obsi(_Generic(%s, %s));" % (e, ", ".join(items))
    # -- values
    def value(self, t, d=3):
        """An expression of type t (after conversion as by assignment), building the objects it needs."""
        s = self.s
        t = unqual(t) if t[0] in "bp" else t
        if t[0] == "b":
            if t[1] == "void": return ""
            if t[1].startswith("struct"): return "@v%s" % t[1][-1]
            return str(s.range(0, 1)) if t[1] == "_Bool" else str(s.range(1, 100))
        u = t[1]
        if u[0] == "b" and u[1] == "void": return "(void *)&@vA"
        if u[0] == "f":
            return s.pick(["", "&", "*"]) + self.define(u)
        o = self.fresh("@o")
        self.object(u, o)
        return "&" + o
    def init(self, t):
        if t[0] == "a":
            return "{ " + ", ".join(self.init(t[1]) for _ in range(t[2])) + " }"
        if t[0] == "b" and t[1].startswith("struct"): return "{ %d, %d }" % (self.s.range(1, 50), self.s.range(1, 50))
        return self.value(t)
    def object(self, t, name):
        i = self.init(t)
        self.out.append(self.decl(t, name, ["static"]) + " = %s;" % i)
    def define(self, t):
        f = self.fresh("@f")
        r = t[1]
        if r[0] == "b" and r[1] == "void": body = "obsi(%d);" % self.s.range(1, 99)
        else: body = "return %s;" % self.value(r)
        if self.s.chance(1, 2): self.out.append(self.decl(t, f, ["static"]) + ";")
        # a definition needs a declarator that is a function, hence no typedef for it
        names = ["a%d" % k for k in range(len(t[2]))]
        self.out.append(self.decl(t, f, ["static"], names if names else ["x"]) + " { %s }" % body)
        return f
    def walk(self, e, t):
        """Follows the type to a scalar and observes it."""
        s = self.s
        for _ in range(12):
            if t[0] == "a":
                i = s.draw(t[2])
                e = s.pick(["%s[%d]", "(*(%s + %d))", "%s[%d]"]) % (self.pf(e), i); t = t[1]
            elif t[0] == "p":
                u = t[1]
                if u[0] == "b" and u[1] == "void":
                    return ["obsi(%s != 0);" % self.pf(e)]
                if u[0] == "f": e, t = s.pick(["(*%s)" % e, self.pf(e), "(**%s)" % e]), u
                else: e, t = s.pick(["(*%s)" % e, "%s[0]" % self.pf(e)]), u
            elif t[0] == "f":
                e = "%s(%s)" % (self.pf(e), ", ".join([self.value(p if p[0] in "bp" else decay(p)) for p in t[2]] + (["1", "2.5"] if t[3] else [])))
                t = t[1]
                if t[0] == "b" and t[1] == "void": return [e + ";"]
            else:
                if t[1].startswith("struct"): e, t = "%s.%s" % (self.pf(e), "x"), INT
                r = ["obsd(%s);" % e if t[1] in ("float", "double") else "obs(%s);" % e]
                return r
        return []
    def pf(self, e):
        import re
        return e if re.fullmatch(r"[@\w]+|\(.*\)|[@\w]+(\[\d+\])+", e) and not e.startswith("(*") or e.startswith("(") and e.endswith(")") else "(%s)" % e
    # -- expressions: (text, type, lvalue); text is fully parenthesised
    def expr(self, d):
        s = self.s
        k = s.draw(24)
        if d <= 0 or k < 5:
            if s.chance(1, 4):
                return s.pick([("1", INT), ("'a'", INT), ("2u", B("unsigned int")), ("3l", B("long")), ("4ull", B("unsigned long long")), ("0x80000000", B("unsigned int")), ("2147483648", B("long")), ("1.5f", B("float")), (".5", B("double")),
                               ("L'x'", INT), ("\"abc\"", ("a", B("char"), 4)), ("@E2", INT), ("sizeof(int)", B("unsigned long")), ("(int[]){1, 2}", ("a", INT, 2)), ("(const short){3}", B("short", "c")), ("u\"ab\"", ("a", B("unsigned short"), 3)), ("U\"a\"", ("a", B("unsigned int"), 2)), ("L\"abc\"", ("a", INT, 4))])
            return s.pick(self.vars)
        e, t = self.expr(d - 1)
        if k < 7:
            op = s.pick(["+", "-", "~", "!"])
            self.L.add("unary")
            r = rv(t)
            if op == "!" and (isarith(r) or r[0] == "p"): return "(!%s)" % e, INT
            if isarith(r) and not (op == "~" and not isint(r)): return "(%s%s)" % (op, e), B(promote(r[1]))
            return e, t
        if k < 11:
            f, u = self.expr(d - 1)
            a, b = rv(t), rv(u)
            self.L.add("binary")
            if isarith(a) and isarith(b):
                op = s.pick(["+", "-", "*", "<", "==", "&&", "||", "<<", "&", "%", "^"])
                if op in ("<", "==", "&&", "||"): return "(%s %s %s)" % (e, op, f), INT
                if op in ("<<", "&", "%", "^") and not (isint(a) and isint(b)): op = "+"
                if op == "<<": return "(%s << %s)" % (e, f), B(promote(a[1]))
                return "(%s %s %s)" % (e, op, f), B(common(a[1], b[1]))
            if a[0] == "p" and isint(b) and self.complete(a[1]):
                self.L.add("pointer-arithmetic")
                return s.pick(["(%s + %s)", "(%s - %s)"]) % (e, f), a
            if b[0] == "p" and isint(a) and self.complete(b[1]): return "(%s + %s)" % (e, f), b
            if a[0] == "p" and b[0] == "p" and self.complete(a[1]) and self.canon(unqual(a[1])) == self.canon(unqual(b[1])): return "(%s - %s)" % (e, f), B("long")
            return "(%s && %s)" % (e, f) if a[0] in "p" and b[0] in "p" else e, INT if a[0] in "p" and b[0] in "p" else t
        if k < 14:
            f, u = self.expr(d - 1)
            a, b = rv(t), rv(u)
            c = s.pick(["@c", "1", "0", "@c > 2"])
            self.L.add("conditional")
            r = None
            if isarith(a) and isarith(b): r = B(common(a[1], b[1]))
            elif a[0] == "p" and b[0] == "p":
                q = "".join(sorted(set(quals(a[1])) | set(quals(b[1]))))
                if self.canon(unqual(a[1])) == self.canon(unqual(b[1])) and a[1][0] != "a": r = P(qual(unqual(a[1]), q) if a[1][0] != "f" else a[1]); self.L.add("conditional-pointers")
                elif "f" not in (a[1][0], b[1][0]) and "a" not in (a[1][0], b[1][0]) and "void" in (a[1][1], b[1][1]): r = P(B("void", q)); self.L.add("conditional-void")
            elif a[0] == "p" and s.chance(1, 2): f, r = s.pick(["0", "(void *)0", "0ul", "(1 - 1)"]), a; self.L.add("conditional-null")
            elif a == b and a[0] == "b": r = a
            if r is None: return e, t
            return "(%s ? %s : %s)" % (c, e, f), r
        if k < 17:
            r = rv(t)
            if r[0] == "p" and r[1] != B("void") and not (r[1][0] == "b" and r[1][1] == "void"):
                self.L.add("indirection")
                if s.chance(1, 2) or r[1][0] == "f": return "(*%s)" % e, r[1]
                return "%s[0]" % e, r[1]
            if r[0] == "b" and r[1].startswith("struct") and t[0] == "b":
                m, mt = s.pick(self.members)
                self.L.add("member")
                return "%s.%s" % (e, m), qual(mt, t[2])
            return e, t
        if k < 19:
            if (e.replace("@", "").isalnum() and not e[0].isdigit() and e not in ("@E2", "@c") or e.startswith(("(*", "\"", "(int[]", "(const short)")) or e.endswith("[0]") and e[0] != "\"") and not e.startswith("(*0") and e != "''":
                self.L.add("address")
                return "(&%s)" % e, P(t)
            return e, t
        if k == 19:
            u = s.pick([B(s.pick(ARITH)), B(s.pick(ARITH), "c"), self.ptype()])
            r = rv(t)
            if isarith(r) and isarith(u) or r[0] == "p" and u[0] == "p" and "f" not in (r[1][0],):
                self.L.add("cast")
                return "((%s)%s)" % (self.tn(u), e), unqual(u)
            return e, t
        if k == 20:
            f, u = self.expr(d - 1)
            self.L.add("comma")
            return "(%s, %s)" % (e, f), rv(u)
        if k == 21:
            u = s.pick([v for v in self.mut])
            r = rv(t)
            if isarith(r) and isarith(u[1]):
                op = s.pick(["=", "+=", "-=", "*="])
                self.L.add("assignment")
                return "(%s %s %s)" % (u[0], op, e), unqual(u[1])
            return s.pick(["(%s++)", "(--%s)"]) % u[0], unqual(u[1])
        if k == 22:
            self.L.add("sizeof-expression")
            if t[0] == "f": return e, t
            return s.pick(["sizeof %s" % e if e[0] == "(" or e.replace("@", "").isalnum() else "sizeof (%s)" % e]), B("unsigned long")
        r = rv(t)
        if r[0] == "p" and r[1][0] == "f" and not (r[1][1] == B("void")):
            self.L.add("call")
            return "%s(%s)" % (self.pf(e), ", ".join(self.value(p if p[0] in "bp" else decay(p)) for p in r[1][2])), r[1][1]
        return e, t
    def ptype(self):
        return P(self.type(1, complete=False))
    def complete(self, t):
        return t[0] != "f" and not (t[0] == "b" and t[1] == "void")

class TypeCheck(ExprCheck):
    prop = "C20"
    technique = "property-based differential testing: random declarators, specifier permutations, typedefs and expression forms, types observed by _Generic against mutated alternatives, sizeof and use, compared with gcc, with shrinking"
    level_note = "Sampled types and expressions; gcc (with clang as arbiter of failures) is the reference."
    batch = 12
    rule = ("1-5 declarations of random types (pointers, arrays, functions and qualifiers nested up to 5 deep, typedef names at any level, redundant parentheses, constant-expression sizes, parameters in equivalent spellings, every permutation of the specifiers), "
            "each checked with _Generic(&entity) against the exact type and 1-4 incompatible mutants of it, sizeof, compatible redeclarations, and a walk through calls, indices and dereferences to a scalar; and 2-8 random expressions over typed operands whose C17 type the generator knows, "
            "again checked against mutants. Non-trivial: some type is nested at least 2 deep.")
    def generate(self, s):
        g = G(s)
        g.members = [("x", INT), ("y", B("short")), ("c", B("int", "c")), ("a", ("a", B("char"), 3)), ("p", P(B("int", "c"))), ("v", B("long", "v"))]
        g.out = ["enum { @E0, @E1, @E2, @E3, @E5 = 5 };", "struct @SA { int x; short y; const int c; char a[3]; const int *p; volatile long v; };", "struct @SB { int x; short y; const int c; char a[3]; const int *p; volatile long v; char big[9]; };",
                 "static struct @SA @vA = { 7, 8 }; static struct @SB @vB = { 9, 10 };", "static int @c = 3;"]
        main = []
        deep = 0
        for _ in range(s.range(0, 4)):
            t = g.type(s.range(1, 3), fn=False)
            if t[0] == "b" and t[1] == "void": continue
            n = g.fresh("@T")
            g.out.append(g.decl(t, n, ["typedef"]) + ";")
            if s.chance(1, 4): g.out.append(g.decl(t, n, ["typedef"]) + ";"); g.L.add("typedef-redeclared")
            g.tds.append((n, t))
        g.vars = []
        for _ in range(s.range(1, 5)):
            t = g.type(s.range(1, 5))
            dep = 0
            u = t
            while u[0] != "b": dep += 1; u = u[1]
            deep = max(deep, dep)
            g.L.add("depth:%d" % min(dep, 5))
            n = g.fresh("@d")
            if s.chance(1, 3):
                fn = ("f", INT, (INT,), False)
            if s.chance(1, 3):
                g.L.add("redeclaration")
                i = g.init(t)
                g.out.append(g.decl(t, n, ["extern"]) + ";")
                if t[0] == "a" and s.chance(1, 2): g.out.append(g.decl(t[1], n + "[]", ["extern"]) + ";"); g.L.add("incomplete-redeclaration")
                g.out.append(g.decl(t, n) + " = %s;" % i)
                g.out.append(g.decl(t, n, ["extern"]) + ";")
            else:
                g.object(t, n)
            main.append(g.generic("&" + n, P(t)))
            r = rv(t)
            if not (r[0] == "b" and r[1].startswith("struct")) or s.chance(1, 2): main.append(g.generic(n, r))
            main.append("obs(sizeof %s); obs(sizeof(%s)); obs(_Alignof(%s));" % (n, g.tn(t), g.tn(t)))
            main += g.walk(n, t)
            if s.chance(1, 2): main += g.walk(n, t)
            g.vars.append((n, t))
        for k in range(s.range(0, 2)):
            t = g.type(s.range(2, 4), fn=True)
            f = g.define(t)
            deep = max(deep, 2)
            if s.chance(1, 2): g.out.append(g.decl(t, f, ["static"]) + ";")
            main.append(g.generic(s.pick(["", "&", "*"]) + f, P(t)))
            main += g.walk(f, t)
            g.vars.append((f, t))
        # operands of expressions
        g.mut = []
        for n in [s.pick(ARITH) for _ in range(3)]:
            v = g.fresh("@m")
            t = B(n, s.pick(["", "", "v"]))
            g.out.append(g.decl(t, v, ["static"]) + " = 1;")
            g.vars.append((v, t)); g.mut.append((v, t))
        for t in (B("struct @SA", s.pick(["", "c", "v"])), P(B("struct @SA", s.pick(["", "c"]))), P(B("void", s.pick(["", "c"]))), P(B("int", s.pick(["", "c", "v", "cv"]))), P(B("int", s.pick(["", "c", "v"]))), B(s.pick(ARITH), "c")):
            v = g.fresh("@w")
            g.object(t, v)
            g.vars.append((v, t))
        for _ in range(s.range(2, 8)):
            e, t = g.expr(s.range(1, 4))
            r = rv(t)
            if r[0] == "b" and r[1] == "void": continue
            main.append(g.generic(e, r))
            if t[0] != "f": main.append("obs(sizeof(%s));" % e)
        text = "\n".join(g.out) + "\nvoid @case(void) {\n\t" + "\n\t".join(main) + "\n}\n"
        return Case(text, nontrivial=deep >= 2, labels=sorted(g.L))

CHECK = TypeCheck()
