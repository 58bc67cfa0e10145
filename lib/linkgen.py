"""Random programs divided into n translation units that share objects and functions."""

SCALARS = ["char", "signed char", "unsigned char", "short", "unsigned short", "int", "unsigned", "long", "unsigned long", "float", "double"]

class G:
    def __init__(self, s, nunits):
        self.s, self.n = s, nunits
        self.u = [[] for _ in range(nunits)]      # file-scope lines
        self.objs, self.funs = [], []
        self.labels = set()
        self.k = 0
    def num(self, t):
        s = self.s
        if t in ("float", "double"):
            return "%d.%d" % (s.range(-1000, 1000), s.pick([0, 25, 5, 75]))
        return str(s.range(0, 127) if "char" in t else s.range(-3000, 3000) if "unsigned" not in t else s.range(0, 60000))
    def fresh(self):
        self.k += 1
        return self.k
    def put(self, u, line):
        self.u[u].append(line)
    def object(self):
        s, k = self.s, self.fresh()
        kind = s.weighted([(5, "scalar"), (4, "array"), (3, "struct"), (3, "static"), (2, "string"), (3, "ptr"), (1, "const"), (1, "far")])
        own = s.draw(self.n)
        t = s.pick(SCALARS)
        self.labels.add("obj:" + kind)
        if kind in ("scalar", "const"):
            n = "@g%d" % k
            q = "const " if kind == "const" else ""
            pre, post = self.redecl(q + t, n, "")
            init = " = %s" % self.num(t) if s.chance(2, 3) or q else ""
            al = s.pick(["", "", "", "_Alignas(16) ", "_Alignas(32) ", "_Alignas(64) "])
            for x in pre: self.put(own, x)
            self.put(own, "%s%s%s%s %s%s;" % (al, s.pick(["", "", "extern "]) if init else "", q, t, n, init))
            for x in post: self.put(own, x)
            if al: self.labels.add("alignas")
            for u in range(self.n):
                if u != own and s.chance(2, 3):
                    self.extern(u, q + t, n, "")
            self.objs.append(("scalar" if not q else "const", n, t, set(range(self.n)), own, 1, int(al[9:11]) if al else 1))
        elif kind == "array":
            n, z = "@a%d" % k, s.pick([1, 2, 3, 5, 8, 17, 100, 1000])
            init = "" if s.chance(1, 3) else " = { %s }" % ", ".join(("[%d] = " % s.draw(z) if s.chance(1, 4) else "") + self.num(t) for _ in range(1))
            pre, post = self.redecl(t, n, "[%d]" % z, "[]")
            for x in pre: self.put(own, x)
            self.put(own, "%s %s[%s]%s;" % (t, n, z, init))
            for x in post: self.put(own, x)
            for u in range(self.n):
                if u != own and s.chance(2, 3):
                    self.extern(u, t, n, s.pick(["[]", "[%d]" % z]))
            self.objs.append(("array", n, t, set(range(self.n)), own, z, 1))
        elif kind == "struct":
            n = "@s%d" % k
            init = s.pick(["", " = { %s, { 1, 2, 3 } }" % self.num(t), " = { .v = { [2] = 9 }, .p = &%s.v[1] }" % n])
            self.put(own, "struct @R%s %s%s;" % (self.rec(t), n, init))
            for u in range(self.n):
                if u != own:
                    self.put(u, "extern struct @R%s %s;" % (self.rec(t), n))
            self.objs.append(("struct", n, t, set(range(self.n)), own, 1, 1))
        elif kind == "static":
            n = "@st%d" % k
            for u in range(self.n):
                if s.chance(3, 4):
                    tt = s.pick(SCALARS)
                    z = s.pick([0, 0, 3, 20])
                    dim = "[%d]" % z if z else ""
                    if s.chance(1, 3): self.put(u, "static %s %s%s;" % (tt, n, dim))
                    ini = ("{ %s }" if z else "%s") % self.num(tt)
                    self.put(u, "static %s %s%s%s;" % (tt, n, dim, " = " + ini if s.chance(2, 3) else ""))
                    if s.chance(1, 3): self.put(u, "extern %s %s%s;" % (tt, n, dim)); self.labels.add("extern-after-static")
                    self.objs.append(("array" if z else "scalar", n, tt, {u}, u, z or 1, 1))
        elif kind == "string":
            n = "@str%d" % k
            c = "".join(s.pick("abcXYZ 09") for _ in range(s.range(0, 9)))
            if s.chance(1, 2):
                self.put(own, "char %s[] = \"%s\";" % (n, c))
                for u in range(self.n):
                    if u != own: self.extern(u, "char", n, "[]")
                self.objs.append(("array", n, "char", set(range(self.n)), own, len(c) + 1, 1))
            else:
                self.put(own, "const char *%s = \"%s\"%s;" % (n, c, s.pick(["", " + %d" % s.range(0, len(c))])))
                for u in range(self.n):
                    if u != own: self.put(u, "extern const char *%s;" % n)
                self.objs.append(("strptr", n, "char", set(range(self.n)), own, 1, 1))
        elif kind == "far":
            # an address far from its object: the addend does not fit 32 bits
            cands = [o for o in self.objs if o[0] in ("scalar", "array", "const")]
            if not cands:
                return
            o = s.pick(cands)
            u = s.pick(sorted(o[3]))
            n = "@far%d" % k
            b = "(char *)&%s" % o[1]
            self.declare(u, o)
            off = s.pick([1 << 31, (1 << 31) - 1, -(1 << 31), -(1 << 31) - 1, 1 << 32, 0x180000000, 0x123456789abc, -0x123456789abc, 0x7fffffff0000, s.bits(46)])
            self.put(u, "static char *volatile %s = %s %s %dL;" % (n, b, "-" if off < 0 else "+", abs(off)))
            self.objs.append(("far", n, b, {u}, u, 1, 1))
            self.labels.add("far-address")
        else:
            cands = [o for o in self.objs if o[0] in ("scalar", "array", "struct")]
            if not cands:
                return
            o = s.pick(cands)
            u = s.pick(sorted(o[3]))
            n = "@p%d" % k
            st = s.pick(["", "static "])
            if o[0] == "array":
                e = s.pick(["%s + %d", "&%s[%d]"]) % (o[1], s.range(0, o[5] - 1))
            elif o[0] == "struct":
                e = s.pick(["&%s.x", "&%s.x + 0"]) % o[1]
            else:
                e = "&" + o[1]
            self.declare(u, o)
            self.put(u, "%s%s *%s = %s;" % (st, o[2], n, e))
            if not st:
                for v in range(self.n):
                    if v != u: self.put(v, "extern %s *%s;" % (o[2], n))
            self.objs.append(("ptr", n, o[2], {u} if st else set(range(self.n)), u, 1, 1))
            self.labels.add("address-constant")
    def rec(self, t):
        return t.replace(" ", "_")
    def redecl(self, t, n, dim, dim2=None):
        """Redundant legal redeclarations before and after the definition."""
        s = self.s
        f = lambda: s.pick(["extern %s %s%s;", "extern %s %s%s;"] + ([] if "const" in t else ["%s %s%s;"])) % (t, n, s.pick([dim, dim2 if dim2 else dim]))
        pre = [f() for _ in range(s.pick([0, 0, 1, 2]))]
        post = [f() for _ in range(s.pick([0, 0, 1, 1]))]
        if pre or post: self.labels.add("redeclaration")
        fix = lambda x: x if x.startswith("extern") or "[]" not in x else "extern " + x
        return [fix(x) for x in pre], [fix(x) for x in post]
    def extern(self, u, t, n, dim):
        for _ in range(self.s.pick([1, 1, 2])):
            self.put(u, "extern %s %s%s;" % (t, n, dim))
    def declare(self, u, o):
        """Makes sure o is declared in unit u (harmless redeclaration)."""
        if o[4] == u or len(o[3]) == 1:
            return
        c = "const " if o[0] == "const" else ""
        if o[0] in ("scalar", "const"): self.put(u, "extern %s%s %s;" % (c, o[2], o[1]))
        elif o[0] == "array": self.put(u, "extern %s %s[];" % (o[2], o[1]))
    def use(self, u, body, local_ext):
        """Statements observing and changing an object from unit u."""
        s = self.s
        vis = [o for o in self.objs if u in o[3]]
        if not vis:
            return
        o = s.pick(vis)
        kind, n, t, _us, own, z, al = o
        ob = "obsd" if t in ("float", "double") else "obs"
        if own != u and kind in ("scalar", "array", "const"):
            if s.chance(1, 4) and len(o[3]) > 1:
                local_ext.append("extern %s%s %s%s;" % ("const " if kind == "const" else "", t, n, "[%d]" % z if kind == "array" else ""))
                self.labels.add("block-extern")
            else:
                self.declare(u, o)
        if kind == "scalar":
            body.append(s.pick(["%s(%s);" % (ob, n), "%s = %s; %s(%s);" % (n, self.num(t), ob, n), "%s(++%s);" % (ob, n), "%s += 2;" % n, "{ %s *q = &%s; *q = *q / 2; %s(*q); }" % (t, n, ob), "obs((unsigned long)&%s %% %d);" % (n, max(al, 1))]))
        elif kind == "const":
            body.append("%s(%s);" % (ob, n))
        elif kind == "array":
            i = s.range(0, z - 1)
            body.append(s.pick(["%s(%s[%d]);" % (ob, n, i), "%s[%d]++;" % (n, i), "obsm(%s, %d * sizeof(%s));" % (n, z, t), "{ %s *q = %s + %d; *q = %s; %s(q[-%d]); }" % (t, n, i, self.num(t), ob, i)]))
        elif kind == "struct":
            body.append(s.pick(["%s(%s.x);" % (ob, n), "obs(%s.v[%d]);" % (n, s.draw(3)), "obs(%s.p - %s.v == 1);" % (n, n) , "%s.v[%d]++; obs(%s.v[%d]);" % (n, s.draw(3), n, s.draw(3))]).replace("obs(%s.p - %s.v == 1);" % (n, n), "obs(%s.p == &%s.v[1]);" % (n, n)))
        elif kind == "far":
            body.append("obs((unsigned long)%s - (unsigned long)%s);" % (n, t))
        elif kind == "strptr":
            body.append("obss(%s);" % n)
        elif kind == "ptr":
            cands = [x for x in vis if x[0] in ("scalar", "array") and x[2] == t]
            body.append("%s(*%s);" % (ob, n) if not cands or s.chance(1, 2) else None or "%s(*%s); *%s = %s;" % (ob, n, n, self.num(t)))
            if cands:
                c = s.pick(cands)
                if c[4] == u or len(c[3]) == 1:
                    body.append("obs(%s == %s%s);" % (n, "&" if c[0] == "scalar" else "", c[1]))
    def function(self):
        s, k = self.s, self.fresh()
        own = s.draw(self.n)
        kind = s.weighted([(5, "ext"), (2, "static"), (1, "inline"), (1, "sinline")])
        rt = s.pick(["int", "long", "double", "unsigned char"])
        params = [s.pick(["int", "long", "double", "char", "unsigned"]) for _ in range(s.range(0, 3))]
        n = "@f%d" % k if kind != "static" else "@sf%d" % s.draw(3)
        self.labels.add("fn:" + kind)
        if kind == "static" and any(f[0] == n and f[3] == own for f in self.funs):
            return
        proto = "%s %s(%s)" % (rt, n, ", ".join(params) or "void")
        def definition(u, head):
            body, ext = [], []
            if s.chance(1, 2):
                body.append("static %s cnt%s; cnt++; obs(cnt);" % (s.pick(["int", "char"]), s.pick(["", " = 5", " = 100"])))
                self.labels.add("static-local")
            for _ in range(s.range(1, 4)):
                self.use(u, body, ext)
            self.call(u, body, ext)
            r = " + ".join(["p%d" % i for i in range(len(params))] + [str(s.range(0, 50))])
            b = "\t".join("%s\n" % x for x in body if x)
            self.put(u, "%s {\n\t%s\n\t%s\treturn (long)(%s);\n}" % (head, " ".join(ext), b, r))
        head = lambda pre: "%s%s %s(%s)" % (pre, rt, n, ", ".join("%s p%d" % (t, i) for i, t in enumerate(params)) or "void")
        if kind == "ext":
            for u in range(self.n):
                if u != own or s.chance(1, 3): self.put(u, "%s%s;" % (s.pick(["", "extern "]), proto))
            definition(own, head(s.pick(["", "", "extern "])))
            units = set(range(self.n))
        elif kind == "static":
            if s.chance(1, 2): self.put(own, "static %s;" % proto)
            before = len(self.u[own])
            definition(own, head(s.pick(["static ", "static "]) if not any(x == "static %s;" % proto for x in self.u[own]) else s.pick(["static ", "", "extern "])))
            units = {own}
        elif kind == "sinline":
            for u in range(self.n):
                self.put(u, "%s { return (long)(%s); }" % (head("static inline "), " + ".join(["p%d" % i for i in range(len(params))] + ["7"])))
            units = set(range(self.n))
        else:
            # one inline definition per unit, one of them external
            for u in range(self.n):
                e = s.pick(["extern inline ", "inline "])
                if u == own:
                    after = e == "inline "
                    self.put(u, "%s { return (long)(%s); }" % (head(e), " + ".join(["p%d" % i for i in range(len(params))] + ["9"])))
                    if after: self.put(u, s.pick(["extern %s;", "%s;", "extern inline %s;"]) % proto)
                elif s.chance(1, 2):
                    self.put(u, "%s { return (long)(%s); }" % (head("inline "), " + ".join(["p%d" % i for i in range(len(params))] + ["9"])))
                else:
                    self.put(u, "%s;" % proto)
            units = set(range(self.n))
        self.funs.append((n, rt, params, own, units, k))
    def call(self, u, body, ext, maxdepth=None):
        s = self.s
        fs = [f for f in self.funs if u in f[4]]
        for _ in range(s.range(0, 2)):
            if not fs:
                return
            n, rt, params, own, units, k = s.pick(fs)
            args = ", ".join(self.num({"unsigned": "unsigned char"}.get(p, p)) for p in params)
            ob = "obsd" if rt == "double" else "obs"
            if s.chance(1, 3):
                body.append("{ %s (*fp)(%s) = %s%s; %s(fp(%s)); }" % (rt, ", ".join(params) or "void", s.pick(["", "&"]), n, ob, args))
            else:
                body.append("%s(%s(%s));" % (ob, n, args))

def make(s, n=3):
    """(texts of the units, generator); unit 0 defines @case(), unit i>0 @main<i>()."""
    g = G(s, n)
    for _ in range(s.range(2, 9)):
        g.object()
    for _ in range(s.range(2, 7)):
        g.function()
        if s.chance(1, 3): g.object()
    if s.chance(1, 2) and [f for f in g.funs if len(f[4]) > 1 and f[1] == "int" and not f[2]]:
        fs = [f for f in g.funs if len(f[4]) > 1 and f[1] == "int" and not f[2]]
        u = s.draw(n)
        g.put(u, "int (*@tab[])(void) = { %s };" % ", ".join(s.pick(fs)[0] for _ in range(3)))
        for v in range(n):
            if v != u: g.put(v, "extern int (*@tab[])(void);")
        g.labels.add("function-table")
    tab = "function-table" in g.labels
    for u in range(n):
        body, ext = [], []
        for _ in range(s.range(1, 5)):
            g.use(u, body, ext)
            g.call(u, body, ext)
        if tab:
            body.append("obs(@tab[%d]());" % s.draw(3))
        g.put(u, "void %s(void) {\n\t%s\n\t%s\n}" % ("@case" if u == 0 else "@main%d" % u, "\n\t".join(ext), "\n\t".join(x for x in body if x) + ("\n\t%s obs(1);" % " ".join("@main%d();" % i for i in range(1, n)) if u == 0 else "")))
    recs = "".join("struct @R%s { %s x; int v[3]; int *p; };\n" % (g.rec(t), t) for t in SCALARS if any("struct @R%s " % g.rec(t) in x for p in g.u for x in p))
    parts = [recs + ("".join("void @main%d(void);\n" % i for i in range(1, n)) if u == 0 else "") + "\n".join(g.u[u]) + "\n" for u in range(n)]
    return parts, g
