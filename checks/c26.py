"""C26: variable-length arrays and variably modified types, compared with gcc."""
from c01 import ExprCheck
from engine import Case

ELEMS = [("char", "(char)", 1), ("unsigned char", "(unsigned char)", 1), ("short", "(short)", 1), ("int", "", 2), ("unsigned", "(unsigned)", 1), ("long", "", 1), ("double", "(double)", 1), ("float", "(float)", 1), ("struct @s3", None, 1), ("struct @s16", None, 1), ("struct @s24", None, 1), ("struct @s32", None, 1), ("void *", "(void *)(long)", 1), ("_Bool", None, 1)]
PRE = """struct @s3 { char a[3]; };
struct @s16 { long a; int b; };
struct @s24 { double a; short b[7]; };
struct @s32 { _Alignas(32) char a; int b; };
struct @big { long a[5]; };
static int @cnt;
static long @len(long v) { @cnt++; obs(v); return v; }
static unsigned char @pat(unsigned long i, int seed) { return (i * 7 + seed * 13 + (i >> 8)) & 127; }
static void @fill(void *p, unsigned long n, int seed) { for (unsigned long i = 0; i < n; i++) ((unsigned char *)p)[i] = @pat(i, seed); }
static unsigned long @bad(const void *p, unsigned long n, int seed) { unsigned long b = 0; for (unsigned long i = 0; i < n; i++) b += ((const unsigned char *)p)[i] != @pat(i, seed); return b; }
static struct @big @mkbig(long x) { struct @big b; for (int i = 0; i < 5; i++) b.a[i] = x + i; return b; }
static long @many(int a, long b, char c, double d, float e, struct @big f, int g, int h, long i, short j, double k, int l, struct @s16 m) { return a + b * 2 + c * 3 + (long)d * 4 + (long)e * 5 + f.a[0] * 6 + f.a[4] * 7 + g * 8 + h * 9 + i * 10 + j * 11 + (long)k * 12 + l * 13 + m.a * 14 + m.b * 15; }
static char *@lo, *@hi;
static void @seen(void *p) { if (!@lo || (char *)p < @lo) @lo = p; if ((char *)p > @hi) @hi = p; }
"""

class A:
    """A live variable length array (or variably modified pointer to one)."""
    def __init__(self, name, el, dims, seed=None, total=None):
        self.name, self.el, self.dims, self.seed, self.total = name, el, dims, seed, total

class G:
    def __init__(self, s):
        self.s, self.u, self.funs, self.labels, self.nv, self.depth, self.arith = s, 0, [], set(), 0, 0, 0
        self.scopes = [[]]
        self.lens = [["n"]]
        self.ret = None
    def uid(self):
        self.u += 1
        return self.u
    def live(self): return [a for sc in self.scopes for a in sc]
    def indent(self): return "\t" * (1 + min(self.depth, 4))
    def count(self, big=False):
        """A length variable: (declaration, name)."""
        s, k = self.s, "k%d" % self.uid()
        ty = s.pick(["int", "int", "long", "unsigned", "unsigned char", "short", "unsigned long", "signed char"])
        base = s.pick(["%d" % s.range(1, 9), "%d" % s.pick([1, 2, 3, 5, 8, 13, 17, 33, 64, 100]), "n", "n + %d" % s.range(0, 5), "n % 4 + 1" , "n * 2"] + (["i %% %d + 1" % s.range(2, 9)] if "i" in self.lens[-1] else []))
        return "%s %s = %s;" % (ty, k, base), k
    def lexpr(self, k):
        s = self.s
        return s.pick([k, k, k, "@len(%s)" % k, "%s + 0" % k, "(long)%s" % k, "*&%s" % k, "(%s ? %s : 1)" % (k, k), "%s * 2 - %s" % (k, k), "(0, %s)" % k, "(unsigned char)%s" % k, "sizeof(char[%s])" % k])
    # -- statements
    def decl(self, out):
        s = self.s
        d, k = self.count()
        out.append(d)
        el = s.pick([e for e in ELEMS for _ in range(e[2])])
        nd = s.weighted([(5, 1), (4, 2), (1, 3)])
        dims, txt, ticked = [], "", False
        for j in range(nd):
            if s.chance(1, 3) and (j or nd > 1) and (j + 1 < nd or any(not x.isdigit() for x in dims)):
                c = str(s.range(1, 5)); dims.append(c); txt += "[%s]" % c; continue
            if j and s.draw(2):
                d2, k = self.count(); out.append(d2)
            e = self.lexpr(k)
            if "@len" in e:
                if ticked: e = k
                ticked = True
            dims.append(k); txt += "[%s]" % e
        nm, seed = "a%d" % self.uid(), s.range(1, 99)
        how = s.weighted([(8, "plain"), (2, "typedef"), (2, "inc"), (1, "aligned"), (1, "cv"), (1, "paren")])
        if how == "typedef":
            q = "q%d" % self.uid()
            if nd == 1:
                out.append("int %s = %s; typedef %s t%d[%s]; %s = %s;" % (q, dims[0], el[0], self.u, q, q, s.pick(["999", "0", q + " + 1", "-1"])))
                out.append("t%d %s;" % (self.u, nm))
            else:
                out.append("typedef %s t%d%s; t%d %s;" % (el[0], self.u, txt, self.u, nm))
        elif how == "inc" and nd == 1:
            q = "q%d" % self.uid()
            out.append("int %s = %s; %s %s[%s]; obs(%s - %s);" % (q, k, el[0], nm, q + "++", q, k)); dims = [k]
        elif how == "aligned" and "32" not in el[0]:
            al = s.pick([16, 32, 64])
            out.append("_Alignas(%d) %s %s%s; obs((unsigned long)%s %% %d);" % (al, el[0], nm, txt, nm, al))
        elif how == "paren": out.append("%s (%s)%s;" % (el[0], nm, txt))
        else: out.append("%s%s %s%s;" % ("volatile " if how == "cv" and el[1] is not None else "", el[0], nm, txt))
        if s.draw(2):
            out.append("%s = %s;" % (k, k))
        out.append("obs(sizeof %s); obs((unsigned long)%s %% _Alignof(%s)); @seen((void *)%s);" % (nm, nm, el[0], nm))
        out.append("@fill((void *)%s, sizeof %s, %d);" % (nm, nm, seed))
        a = A(nm, el, dims, seed)
        self.scopes[-1].append(a)
        self.nv += 1
        self.labels.add("dims:%d" % nd); self.labels.add("decl:" + how)
        return a
    def verify(self, a):
        return "obs(@bad((void *)%s, sizeof %s, %d));" % (a.name, a.name, a.seed)
    def access(self, a, out):
        """Typed element access; the arrays stay filled with their pattern."""
        s = self.s
        idx = []
        for d in a.dims:
            idx.append(s.pick(["0", "(%s) - 1" % d, "(%s) / 2" % d, "%s %% (%s)" % (s.pick(["n", "@cnt", "7", "3u"]), d)]))
        lv = s.pick([a.name + "".join("[%s]" % i for i in idx)] * 3 + ["(*(%s + %s))" % (a.name, idx[0]) if len(idx) == 1 else "(*(%s + %s))%s" % (a.name, idx[0], "".join("[%s]" % i for i in idx[1:]))])
        if len(idx) == 1 and s.chance(1, 5): lv = "(%s)[%s]" % (idx[0], a.name)
        if a.el[1] is None:
            if a.el[0] == "_Bool": return
            out.append("{ %s *p = &%s, v = *p; obs((unsigned long)((char *)p - (char *)%s)); @fill(p, sizeof *p, 3); obs(@bad(&%s, sizeof v, 3)); %s = v; }" % (a.el[0], lv, a.name, lv, lv))
            return
        self.arith += 1
        ob = {"double": "obsd", "float": "obsf"}.get(a.el[0], "obs")
        cast = "(unsigned long)" if "*" in a.el[0] else ""
        if "double" in a.el[0] or "float" in a.el[0]:
            out.append("{ %s v = %s; %s = %d.5; %s(%s); %s *= 2; %s(%s + 1); %s = v; }" % (a.el[0], lv, lv, s.range(0, 99), ob, lv, lv, ob, lv, lv))
        else:
            v = s.range(0, 120)
            out.append("{ %s v = %s; %s = %s%d; obs(%s%s); %sobs(%s%s); obs((unsigned long)((char *)&%s - (char *)%s)); %s = v; }" % (a.el[0], lv, lv, a.el[1] if "*" in a.el[0] else "", v, cast, lv, "" if "*" in a.el[0] else s.pick(["%s++; ", "%s += 3; ", "--%s; ", "%s ^= 5; "]) % lv, cast, lv, lv, a.name, lv))
    def pointers(self, a, out):
        s, u = self.s, self.uid()
        self.labels.add("pointer")
        dims = a.dims
        el = ("volatile " if 0 else "") + a.el[0]
        if len(dims) == 1:
            k = s.draw(4)
            if k == 0: out.append("{ %s (*p)[%s] = (void *)&%s; obs(sizeof *p); obs((char *)(p + 1) - (char *)p); obs((*p) + %s == (void *)(*p + (sizeof *p / sizeof **p))); }" % (el, self.lexpr(dims[0]), a.name, dims[0]))
            elif k == 1: out.append("{ %s *p = (void *)%s, *e = p + %s; long c = 0; while (p != e) p++, c++; obs(c); obs(e - (%s *)%s); }" % (el, a.name, dims[0], el, a.name))
            elif k == 2: out.append("{ %s (*p)[%s] = (%s (*)[%s])%s; obs(sizeof(*p)); obs(@bad(p, sizeof *p, %d)); }" % (el, dims[0], el, self.lexpr(dims[0]), a.name, a.seed))
            else: out.append("{ typedef %s t[%s]; t *p = (t *)%s, *q = p; obs(sizeof(t)); p++; obs(p - q); obs((char *)p - (char *)q); --p; obs(p == q); }" % (el, self.lexpr(dims[0]), a.name))
        else:
            row = "".join("[%s]" % (self.lexpr(d) if i == 0 else d) for i, d in enumerate(dims[1:]))
            k = s.draw(4)
            if k == 0: out.append("{ %s (*p)%s = (void *)%s; for (long j = 0; j < (long)(%s); j++, p++) { obs((char *)p - (char *)%s); obs(p - (void *)0 ? 1 : 0); } obs(sizeof *p); }".replace("obs(p - (void *)0 ? 1 : 0); ", "") % (el, row, a.name, dims[0], a.name))
            elif k == 1: out.append("{ %s (*p)%s = (void *)%s, (*q)%s = p + (%s); obs(q - p); q -= %s; obs(q == p); obs(sizeof p[0]); obs((char *)&p[(%s) - 1] - (char *)p); }" % (el, row, a.name, "".join("[%s]" % d for d in dims[1:]), dims[0], dims[0], dims[0]))
            elif k == 2: out.append("{ %s (*p)%s = (%s (*)%s)%s; p++; obs((char *)p[-1] - (char *)%s); obs((char *)(p--) - (char *)%s); obs(sizeof *p); obs(sizeof **p); }" % (el, row, el, "".join("[%s]" % d for d in dims[1:]), a.name, a.name, a.name))
            else: out.append("{ typedef %s t%s; t *p = (t *)%s; obs(sizeof(t)); obs((char *)(p + 1) - (char *)p); obs(sizeof(t[3])); obs(sizeof(t[n])); }" % (el, row, a.name))
    def sizes(self, out):
        s = self.s
        d, k = self.count()
        el = s.pick(ELEMS)[0]
        ty = "%s[@len(%s)]%s" % (el, k, s.pick(["", "[3]", "[n]"]))
        f = s.pick(["obs(sizeof(%s));", "obs(n > 3 && sizeof(%s) > 10);", "obs(n %% 2 ? sizeof(%s) : 7);", "obs(sizeof sizeof(%s));", "obs((int)sizeof(%s) + (int)sizeof(%s) * 2);" % ("%s", "char[n]"), "if (n > 100) obs(sizeof(%s)); else obs(@cnt);", "for (long j = 1; j < 40; j += sizeof(%s)) obs(j);",
                    "{ int g = 0; while (sizeof(%s) > 1 && g++ < 2) obs(g); }", "obs(_Alignof(%s));" if 0 else "obs((sizeof(%s), 4));", "do obs(1); while (sizeof(%s) == 0);", "switch (sizeof(%s)) { case 4: obs(1); break; default: obs(2); }", "obs(!sizeof(%s));"])
        if s.draw(3) == 0:
            f = s.pick(["{ int j = %s; for (unsigned long z = 0; z < 40; z += sizeof(char[j]), j++) obs(z); }" % k, "{ int j = 0; while (sizeof(char[j + 1]) < 9) j += 2; obs(j); }", "{ int j = 3; obs(sizeof(int[j++])); obs(j); obs(sizeof(int[j][2])); }", "{ int j = 1; int (*p)[n + 1] = 0; obs(sizeof p[j++]); obs(sizeof *p); obs(j); }"])
        else: f = f.replace("%s", ty, 1).replace("%%", "%") if "%s" in f else f.replace("%%", "%")
        out.append("{ %s %s obs(@cnt); }" % (d, f)); self.labels.add("sizeof")
    def call(self, a, out):
        s, u = self.s, self.uid()
        dims = a.dims
        el = a.el[0]
        ps = ["long d%d" % i for i in range(len(dims))]
        form = s.draw(5)
        first = ["[d0]", "[static d0]" if 0 else "[d0 + 0]", "[]", "[const d0]", "[*]"][form]
        rest = "".join("[%s]" % (x if i % 2 == 0 or s.draw(2) else "%s + 0" % x) for i, x in enumerate("d%d" % j for j in range(1, len(dims))))
        par = "%s x%s%s" % (el, first if form != 4 else "[d0]", rest) if not (form == 1 and len(dims) > 1) else "%s (*x)%s" % (el, rest)
        body = "obs(@bad(x, (unsigned long)d0 * sizeof *x, %d)); obs(sizeof *x); obs(sizeof x == sizeof(void *)); " % a.seed
        if len(dims) > 1: body += "obs((char *)(x + 1) - (char *)x); obs((char *)x[d0 - 1] - (char *)x); "
        if s.draw(2): body += "%s y[d0]%s; @fill(y, sizeof y, %d); obs(sizeof y); obs(@bad(x, (unsigned long)d0 * sizeof *x, %d)); d0 = 1; obs(@bad(y, sizeof y, %d)); " % (el, rest, a.seed + 1, a.seed, a.seed + 1)
        if s.draw(2):
            self.funs.append("static long @h%d(%s, %s%s);" % (u, ", ".join(ps), el + " x", s.pick(["[]" + "[*]" * (len(dims) - 1), "[d0]" + rest, "[*]" + "[*]" * (len(dims) - 1)])))
        self.funs.append("static long @h%d(%s, %s) { %sreturn sizeof *x + d%d; }" % (u, ", ".join(ps), par, body, len(dims) - 1))
        if s.chance(1, 3): out.append("{ long @h%d(%s, %s x[%s]%s); (void)sizeof(&@h%d); }" % (u, ", ".join(ps), el, s.pick(["d0", "", "*"]), rest, u) if 0 else "{ int w%d(int n, %s x[n]%s); }" % (u, el, s.pick(["", "[n + 1]", "[*]"])))
        out.append("obs(@h%d(%s, (void *)%s));" % (u, ", ".join("(%s)" % d for d in dims), a.name)); self.labels.add("parameter")
    def block(self, out, stats, loop=False, budget=None):
        """A list of statements in a scope of its own; every array is verified at its end."""
        self.scopes.append([]); self.lens.append(self.lens[-1] + (["i"] if loop else [])); self.depth += 1
        body = []
        for _ in range(stats):
            self.stmt(body)
        for a in self.scopes[-1]: body.append(self.verify(a))
        self.depth -= 1; self.lens.pop()
        dead = self.scopes.pop()
        out += ["\t" + x for x in body]
    def stmt(self, out):
        s = self.s
        L = self.live()
        opts = [(5, "decl"), (2, "sizes"), (1, "local")]
        if L: opts += [(3, "access"), (2, "pointers"), (2, "call"), (2, "check"), (1, "many")]
        if self.depth < 3: opts += [(2, "block"), (2, "for"), (1, "while"), (1, "goto"), (1, "switch"), (1, "if"), (1, "recurse"), (1, "heavy"), (1, "leave"), (1, "sibling")]
        k = s.weighted(opts)
        if k == "decl": self.decl(out)
        elif k == "sizes": self.sizes(out)
        elif k == "local":
            nm = "a%d" % self.uid()
            out.append("%s %s[%d]; @fill(%s, sizeof %s, %d);" % (s.pick(["char", "int", "_Alignas(16) long", "_Alignas(64) char", "struct @s24"]), nm, s.range(1, 6), nm, nm, 5))
            self.scopes[-1].append(A(nm, ("int", None, 0), [], 5))
        elif k in ("access", "pointers", "call"):
            V = [a for a in L if a.dims]
            if V: getattr(self, k)(s.pick(V), out)
        elif k == "check": out.append(self.verify(s.pick(L)))
        elif k == "many":
            out.append("{ struct @s16 m = { 3, 4 }; obs(@many(1, n, 3, 4.0, 5.0f, @mkbig(n), 6, 7, sizeof(char[n]), 9, 10.0, @mkbig(4).a[2], m)); }"); self.labels.add("call")
        elif k == "block":
            out.append("{"); self.block(out, s.range(1, 4)); out.append("}")
        elif k == "sibling":
            for _ in range(s.range(2, 3)):
                out.append("{"); self.block(out, s.range(1, 2)); out.append("}")
        elif k == "if":
            out.append("if (n %% %d) {" % s.range(2, 4)); self.block(out, s.range(1, 3)); out.append("} else {"); self.block(out, s.range(1, 3)); out.append("}")
        elif k == "for":
            v = "i%d" % self.uid()
            out.append("for (int %s = 0, i; %s < %d; %s++) { i = %s;" % (v, v, s.range(1, 6), v, v)); self.block(out, s.range(1, 4), True)
            if s.draw(3) == 0:
                out.append("\tif (i == %d) %s; { char z[i + 1]; z[i] = 1; obs(z[i]); }" % (s.range(0, 4), s.pick(["continue", "break"])))
            out.append("}"); self.labels.add("loop")
        elif k == "while":
            v = "i%d" % self.uid()
            out.append("{ int %s = %d, i; %s { i = %s;" % (v, s.range(1, 5), s.pick(["while (%s-- > 0)" % v, "do" ]), v)); do = out[-1].split("; ")[1].startswith("do")
            self.block(out, s.range(1, 3), False); out.append("\t" + ("%s--;" % v if do else "if (i == 2) continue;")); out.append("} %s }" % ("while (%s > 0);" % v if do else "")); self.labels.add("loop")
        elif k == "goto":
            v = self.uid()
            out.append("{ int c%d = 0; again%d: ; {" % (v, v)); self.block(out, s.range(1, 3))
            out.append("\t{ char z[c%d * 50 + 1]; @fill(z, sizeof z, 2); if (++c%d < %d) goto again%d; obs(sizeof z); } } }" % (v, v, s.range(2, 5), v)); self.labels.add("goto")
        elif k == "switch":
            out.append("for (int i = 0; i < 3; i++) switch (i) { case 0: {"); self.block(out, s.range(1, 2)); out.append("} %s case 1: {" % s.pick(["break;", ""])); self.block(out, s.range(1, 2)); out.append("} default: ; }"); self.labels.add("switch")
        elif k == "recurse":
            u, el = self.uid(), s.pick(ELEMS)[0]
            self.funs.append("static long @r%d(int d, int n) { %s a[n]; @fill(a, sizeof a, d); long x = 0; if (d) { %s x = @r%d(d - 1, n %s); } obs(@bad(a, sizeof a, d)); { char b[d + 1]; b[d] = d; x += b[d]; } return x + sizeof a; }" % (u, el, s.pick(["", "char c[d];  @fill(c, sizeof c, 1);"]), u, s.pick(["+ 1", "", "* 2 % 17 + 1"])))
            out.append("obs(@r%d(%d, n));" % (u, s.range(1, 12))); self.labels.add("recursion")
        elif k == "leave":
            u, el = self.uid(), s.pick(ELEMS)[0]
            self.funs.append("static long @l%d(int n) { for (int i = 1; i < n + 3; i++) { %s a[i * %d]; @seen(a); @fill(a, sizeof a, i); { char b[n]; b[n - 1] = i; if (i == n) return sizeof a + b[n - 1] + @bad(a, sizeof a, i); } } return 0; }" % (u, el, s.pick([1, 3, 10])))
            out.append("@lo = @hi = 0; { long x = 0; for (int j = 0; j < %d; j++) x += @l%d(j %% n + 1); obs(x); } obs(@hi - @lo < 100000);" % (s.pick([3, 100, 2000]), u)); self.labels.add("return")
        elif k == "heavy":
            el, kk = s.pick(ELEMS)[0], s.pick([200, 700, 2000])
            inner = s.pick(["", "{ char y[i % 61 + 1]; y[i % 61] = 3; x += y[i % 61]; }", "if (i % 3 == 0) { int y[i % 11 + 1]; y[i % 11] = 4; x += y[i % 11]; continue; }", "if (i & 1) { long y[n]; y[0] = i; x += y[0]; } else { char w[i % 300 + 1]; w[0] = 1; x += w[0] + sizeof w; }"])
            form = s.pick(["for (int i = 0; i < %d; i++) { %%s }" % kk, "int i = -1; while (++i < %d) { %%s }" % kk, "int i = 0; h%d: if (i < %d) { %%s i++; goto h%d; }" % (self.uid(), kk, self.u)])
            if "goto" in form or "while" not in form and "for" not in form: inner = inner.replace(" continue;", "")
            core = "%s z[(i * %d) %% %d + 1]; @seen(z); ((char *)z)[0] = i; ((char *)z)[sizeof z - 1] = i; %s x += ((char *)z)[0] + sizeof z;" % (el, s.range(1, 9), s.pick([40, 300, 1500]), inner)
            out.append("{ long x = 0; @lo = @hi = 0; %s obs(x); obs(@hi - @lo < 400000); }" % (form % core)); self.labels.add("heavy")

class VlaCheck(ExprCheck):
    prop = "C26"
    technique = "property-based testing: random programs that declare, index, pass and leave the scope of variable-length arrays, observed values, sizes, alignments and stack spread compared with gcc; shrinking"
    level_note = "Sampled programs; gcc (with clang, -O2 and UBSan as arbiters of failures) is the reference."
    batch = 12
    rule = ("functions with 1-3-dimensional arrays of 14 element types (records, over-aligned ones too) whose lengths are variables of several types, calls with side effects, increments, modified afterwards; typedefs and pointers to arrays, pointer arithmetic and casts; "
            "sizeof of variably modified types and operands in conditional positions; parameters of variably modified type with [*] and qualified redeclarations; blocks, loops, continue/break, goto, switch, recursion, early returns, thousands of iterations with varying sizes. "
            "Every byte of every array is filled with a pattern and verified at the end of its scope; sizes, alignment, element distances, evaluation counts and the spread of the addresses used by loops are observed. Non-trivial: at least 2 arrays and one of loop, goto, parameter, pointer, recursion, return.")
    assumptions = ["sizes that would overflow the stack are not generated"]
    def generate(self, s):
        g = G(s)
        body = []
        g.block(body, s.range(2, 9))
        n = s.range(1, 9)
        text = PRE + "\n".join(g.funs) + "\nstatic long @run(int n) {\n" + "\n".join(body) + "\n\treturn n;\n}\nvoid @case(void) { @cnt = 0; volatile long before = 77; obs(@run(%d)); obs(before); obs(@cnt);%s }\n" % (n, " obs(@run(%d));" % s.range(1, 20) if s.draw(2) else "")
        return Case(text, nontrivial=g.nv >= 2 and bool(g.labels & {"loop", "goto", "parameter", "pointer", "recursion", "return", "heavy", "switch"}), labels=sorted(g.labels))

CHECK = VlaCheck()
