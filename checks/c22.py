"""C22: programs that violate a constraint or the grammar are rejected with a diagnostic, and their valid twins accepted."""
import os, re
import cc as T, viol, mutate, corpus, diffrun
from engine import Check, Case, OK, FAIL, DISCARD

E, S, F, P = viol.build()
E = [x for x in E if x[0] != "argument-pointer"]
S = [x for x in S if x[0] != "assign-type"]
ALL = [("E", x) for x in E] + [("S", x) for x in S] + [("F", x) for x in F] + [("P", x) for x in P]
CLASSES = {}
for k, x in ALL: CLASSES.setdefault((k, x[0]), []).append(x)
CLASSKEYS = sorted(CLASSES)

JUMP = re.compile(r"\b(break|continue|case|default)\b")
ECTX = ["(%s);", "(void)((%s), 0);", "if (((%s), 1)) ;", "while (((%s), 0)) ;", "return ((%s), 1);", "f1(((%s), 1));", "for ((%s); ; ) break;", "la[((%s), 0)] = 1;", "switch (((%s), 1)) { default: ; }", "li = 1 ? ((%s), 1) : 2;",
        "li = li && ((%s), 1);", "int q%%u = ((%s), 1);", "li = (int)sizeof(((%s), 1));", "for (; ((%s), 0); ) ;", "do ; while (((%s), 0));", "la[1] = f2(1, ((%s), 2)) + 1;", "struct T q%%u = { ((%s), 1) };", "for (;; (%s)) break;",
        "li += _Generic(1, int: ((%s), 1), default: 2);", "li = -((%s), 1);", "lab%%u: (%s);", "f1(f1(((%s), 3)));", "lp[((%s), 1)]++;", "fv(1, 2, ((%s), 1));"]
SCTX = ["%s", "%s", "{ %s }", "if (li) { %s }", "if (li) ; else { %s }", "{ int q%%u; { %s } }", "lab%%u: { %s }"]
SLOOP = ["while (li--) { %s }", "for (int q%%u = 0; q%%u < 3; q%%u++) { %s }", "do { %s } while (li--);", "switch (li) { case 1: { %s } default: ; }", "switch (li) { case 1: case 2: if (li) { %s } break; case 3: ; }"]
FILLS = ["li = li + 1;", "if (li) li = 2; else li = 3;", "while (li > 100) li--;", "{ int q%u = li; li = q%u; }", "la[li & 1] = li;", "lt.m = li;", "gs.m = f2(li, 3);", "for (int q%u = 0; q%u < 3; q%u++) li += q%u;", "ld = ld * 2;", "sp->n.x = 3;",
         "switch (li) { case 1: li = 4; break; default: li = 5; }", "lp = &la[1];", "gs.bf = 3;", ";", "goto lab%u; lab%u: ;", "do li--; while (li > 3);", "(void)sizeof(int[3]);", "lt = rt();", "*lp2 = lp;", "lu.d = li;"]
FFILLS = ["int q%u(int a, int b) { return a ? b : a + 1; }", "struct q%u { int a : 3; struct q%u *b; };", "static int q%u[3] = { 1, 2 };", "typedef int (*q%u)(int);", "enum q%u { Q%u, R%u = 4 };", "extern int q%u;", "#define Q%u(x) #x x ## x",
          "#if 0\n#error no\n#elif 1\n#endif", "_Static_assert(sizeof(int) == 4, \"\");", "static void q%u(void) { }"]

ATOMS = ("gi gci gs gcs gp gd gca ga ginc gfp gt gct gv gc ga2 pi pci pa pca ppc pcp pcs ps li lci lp lpc lcp ltc lpp lp2 sp spc lt lct ld lr lrs lst lsc la lca la2 lb2 lu lv lc lvi EA 0 1 2 1.5 'a' \"str\" "
         "f0 f1 f2 fv fs rs rt rp rf fvoid").split()
TYPES = ["int", "char", "double", "int *", "const int *", "void", "struct S", "struct T", "char *", "void *", "unsigned long", "_Bool", "union U", "struct S *", "int (*)(int)", "int[3]", "struct Inc", "float", "CInt", "unsigned short"]
MEM = "m cm a n p pc cp bf fp next x cx i d zz".split()
ESTMT = ["%s;"] * 8 + ["if (%s) ;", "while (%s) break;", "return %s;", "int q = %s;", "double q = %s;", "int *q = %s;", "struct S q = %s;", "switch (%s) { default: ; }", "f1(%s);", "struct T q = { %s };", "for (;%s;) break;",
                   "int q[%s];", "struct T q[2] = { [1].m = %s };", "do ; while (%s);", "li += %s;", "lt.m = %s;", "lu = %s;", "char q[] = %s;", "fs(%s);", "int q = { %s };"]
SINIT = ["static int q = %s;", "static int *q = %s;", "enum { q = %s };", "struct { int q : %s; } q;", "switch (li) { case %s: ; }", "_Static_assert(%s, \"\");", "_Alignas(%s) int q;", "int q[3] = { [%s] = 1 };"]
BIN = "+ - * / % << >> & | ^ == != < > <= >= && ||".split()

class Rx:
    def __init__(self, s): self.s, self.ops = s, []
    def p(self, e): return e if e.replace("_", "").isalnum() else "(%s)" % e
    def ex(self, d):
        s = self.s
        if d <= 0 or s.chance(1, 4): return s.pick(ATOMS)
        k = s.draw(17)
        e = lambda: self.p(self.ex(d - 1))
        self.ops.append(k)
        if k < 4: return "%s %s %s" % (e(), s.pick(BIN), e())
        if k == 4: return s.pick("- + ~ ! * * & & ++ --".split()) + e()
        if k == 5: return e() + s.pick(["++", "--"])
        if k == 6: return "%s %s %s" % (e(), s.pick("= = = += -= *= /= %= <<= >>= &= |= ^=".split()), e())
        if k == 7: return "%s ? %s : %s" % (e(), e(), e())
        if k == 8: return "%s, %s" % (e(), e())
        if k == 9: return "%s(%s)" % (e(), ", ".join(e() for _ in range(s.draw(3))))
        if k == 10: return "%s[%s]" % (e(), self.ex(d - 1))
        if k == 11: return "%s.%s" % (e(), s.pick(MEM))
        if k == 12: return "%s->%s" % (e(), s.pick(MEM))
        if k == 13: return "(%s)%s" % (s.pick(TYPES), e())
        if k == 14: return s.pick(["sizeof %s", "_Alignof(int) + %s"]) % e()
        if k == 15: return "_Generic(%s, %s: %s, default: %s)" % (e(), s.pick(TYPES), e(), e())
        return "(%s){ %s }" % (s.pick(TYPES), e())
    def cx(self, d):
        """Mostly constant."""
        s = self.s
        if d <= 0 or s.chance(1, 3): return s.pick(["1", "2", "8", "EA", "EB", "'a'", "0", "-1", "64", "33", "sizeof(int)", "1.5", "gi", "li", "lci", "lp", "&gi", "ga", "&li", "f0()", "\"a\"", "(int)1.5", "&ga[1]", "f1", "_Alignof(int)", "3", "16"])
        k = s.draw(5)
        if k < 3: return "(%s %s %s)" % (self.cx(d - 1), s.pick(BIN[:12]), self.cx(d - 1))
        if k == 3: return "(%s ? %s : %s)" % (self.cx(d - 1), self.cx(d - 1), self.cx(d - 1))
        return s.pick(["-%s", "!%s", "(long)%s", "~%s", "+%s"]) % self.cx(d - 1)
    SPECS = ["int"] * 6 + ["const", "volatile", "unsigned", "signed", "long", "short", "char", "static", "extern", "typedef", "register", "inline", "auto", "void", "float", "double", "_Bool", "struct T", "struct Inc", "struct S", "union U", "Int", "Arr",
             "struct { int a; }", "enum En", "_Alignas(8)", "_Alignas(16)", "_Noreturn", "const", "long", "CInt", "enum { Q%u }"]
    def decl(self, d, name):
        s = self.s
        if d <= 0 or s.chance(1, 3): return name
        k = s.draw(8)
        if k < 2: return "*%s" % self.decl(d - 1, name)
        if k == 2: return "*const %s" % self.decl(d - 1, name)
        x = self.decl(d - 1, name)
        if x[:1] == "*": x = "(%s)" % x
        if k == 3: return x + "[%s]" % s.pick(["3", "1", "", "-1", "0 + 1", "li", "1.5", "EA", "EB", "static 3", "sizeof(int)", "*", "const 3"])
        if k == 4: return x + "[2]"
        if k in (5, 6): return x + "(%s)" % ", ".join(self.param() for _ in range(s.draw(3)))
        return "(%s)" % x
    def param(self):
        s = self.s
        if s.chance(1, 6): return s.pick(["void", "...", "static int a", "register int b", "int a[]", "int a[static 2]", "struct Inc c", "int x, int x", "Int", "int Int", "void *", "int ()", "int (*)(void)", "int a[2][]", "int a[][2]", "const int", "struct q { int a; }"])
        return s.pick(["int", "char *", "double a%u", "int a%u", "struct S", "int a%u[3]", "int (*a%u)(int)"])
    def specs(self):
        s = self.s
        return " ".join(s.pick(self.SPECS) for _ in range(s.pick([1, 1, 2, 2, 2, 3, 4])))
    def declaration(self, where):
        s = self.s
        t = "%s %s" % (self.specs(), self.decl(s.range(0, 4), "q%u"))
        for _ in range(s.pick([0, 0, 0, 1])): t += ", " + self.decl(s.range(0, 2), s.pick(["q%u", "r%u"]))
        if where == "member":
            if s.chance(1, 3): t += " : " + s.pick(["1", "3", "0", "33", "-1", "8", "1.5", "li", "64", "9"])
            return "struct w%%u { int first; %s; %s };" % (t, s.pick(["", "int last;", "int q%u;", "struct { int q%u; };", "char first;", ": 0;", "int : 3;", "int;"]))
        if s.chance(1, 3): t += " = " + s.pick(["1", "{ 1 }", "{ 1, 2 }", "0", "\"abc\"", "{ 0 }", "{ { 1 }, { 2 } }", "1.5", "{ [1] = 2 }", "{ .m = 1 }", "{ .zz = 1 }", "{ \"ab\" }", "&gi", "{ }", "{ 1, 2, 3, 4 }", "{ [5] = 1 }", "f0()", "li"])
        return t + ";"
    def stmt(self, d):
        s = self.s
        k = s.draw(20)
        if d <= 0 or k < 9:
            return s.pick(["li++;", ";", "break;", "continue;", "return 1;", "return;", "case 1: ;", "case 2: ;", "default: ;", "goto a;", "goto b;", "a: ;", "b: ;", "int x;", "int x = 1;", "x = 2;", "else ;", "case li: ;", "li--;", "{ }", "_Static_assert(1, \"\");", "typedef int tt;",
                           "tt y;", "case 1 + 1: li = 2;", "break; break;", "struct zz { int a; };", "struct zz w;", "enum { ee = 3 };", "li = ee;"])
        b = lambda: self.stmt(d - 1)
        blk = lambda: "{ %s }" % " ".join(self.stmt(d - 1) for _ in range(s.draw(5)))
        if k < 11: return "if (li) %s" % s.pick([b, blk])()
        if k < 12: return "if (li) %s else %s" % (blk(), s.pick([b, blk])())
        if k < 14: return "while (li--) %s" % s.pick([b, blk])()
        if k < 15: return "for (%s li < 3; li++) %s" % (s.pick([";", "int x = 0;", "li = 0;", "static int z;", "extern int gi;"]), s.pick([b, blk])())
        if k < 16: return "do %s while (li--);" % s.pick([b, blk])()
        if k < 19: return "switch (li) %s" % s.pick([blk, blk, b])()
        return blk()

class ViolCheck(Check):
    prop = "C22"
    technique = ("property-based testing of accept/reject decisions: constraint violations planted with a valid twin at random positions of random valid programs, unbalanced edits of generated programs, and random expressions, declarations and statements judged by two "
                 "reference compilers, with shrinking")
    level_note = "Sampled programs; the classes of violations are those of lib/viol.py and of the random grammars in checks/c22.py."
    batch = 40
    quick_cases = 100000
    quick_time = 36.0
    thorough_cases = 4000000
    rule = ("A violation (%d templates in %d classes) and its twin in a random context; or a bracket or keyword removed from, or added to, a generated program; or a random expression / constant expression / declaration / statement list that gcc and clang both accept with "
            "-pedantic-errors, or both reject. Invalid: exit status 1, a diagnostic, no output file. Valid: exit status 0 and an output file. Non-trivial: a template or an edit, or a random program that the references decide." % (len(ALL), len(CLASSKEYS)))
    assumptions = ["mismatches between pointer types, and between integers and pointers, are not judged (accepted as in traditional compilers)", "programs on which gcc -w, gcc -pedantic-errors and clang do not agree are not judged"]
    def setup(self, work):
        self.cc = T.build(work)
        for n in corpus.NAMES: corpus.check(n)
    # -- generation
    def generate(self, s):
        self.n = 0
        k = s.weighted([(10, "pair"), (3, "edit"), (5, "expr"), (2, "const"), (6, "decl"), (4, "stmt")])
        c = getattr(self, "g_" + k)(s)
        return c
    def number(self, t):
        self.n += 1
        return t.replace("%u", str(self.n))
    def body(self, s, mid):
        pre = [self.number(s.pick(FILLS)) for _ in range(s.draw(4))]
        post = [self.number(s.pick(FILLS)) for _ in range(s.draw(3))]
        return "\n".join(pre + [mid] + post)
    def func(self, name, body):
        return "int %s(%s) {\n%s%s\nreturn 0;\n}\n" % (name, viol.PARAMS, viol.LOCAL, body)
    def program(self, s, f, b):
        """f: file-scope text, b: statement text."""
        out = [self.number(s.pick(FFILLS)) for _ in range(s.draw(4))]
        if s.chance(1, 3): out.append(self.func("qa_", self.body(s, ";")))
        ctx = "%s"
        for _ in range(s.pick([0, 0, 1, 1, 2, 3])):
            c = self.number(s.pick(SCTX + ([] if JUMP.search(b) else SLOOP)))
            ctx = ctx.replace("%s", c.replace("%%", "%"))
        body = self.body(s, ctx)
        tail = [self.number(s.pick(FFILLS)) for _ in range(s.draw(3))]
        fpos = s.draw(3)
        def mk(f, b):
            x = list(out)
            if fpos == 0: x.insert(0, f)
            if fpos == 1: x.append(f)
            x.append(self.func("q_", body.replace("%s", b)))
            if fpos == 2: x.append(f)
            return viol.ENV + "\n".join(x + tail) + "\n"
        return mk
    def g_pair(self, s):
        key = s.pick(CLASSKEYS)
        k, (cls, v, i) = key[0], s.pick(CLASSES[key])
        if s.chance(1, 2): k, (cls, v, i) = s.pick(ALL)
        self.n += 1
        v, i = v.replace("%u", str(self.n)), i.replace("%u", str(self.n))
        if k == "E":
            c = self.number(s.pick(ECTX)).replace("%%u", str(self.n + 1))
            self.n += 1
            mk = self.program(s, "", c)
            a, b = mk("", c.replace("%s", v)), mk("", c.replace("%s", i))
        elif k == "S":
            mk = self.program(s, "", i + v)
            a, b = mk("", v), mk("", i)
        else:
            mk = self.program(s, v, ";")
            a, b = mk(v, ";"), mk(i, ";")
        return Case("/* valid twin: %s */\n%s" % (v.replace("*/", "* /"), b), nontrivial=True, labels=["pair", k + ":" + cls], data=("pair", a, b))
    def g_edit(self, s):
        u = corpus.unit(s, "x_") if s.chance(1, 2) else None
        if u is not None: t = u[1].replace("@", "x_")
        else: t = self.program(s, "", ";")("", ";")
        if "#" in re.sub(r'"(\\.|[^"\\])*"', "", t): t2 = t
        k = mutate.tokens(t)
        # brackets outside directives
        idx, line = [], True
        indir = False
        for j, x in enumerate(k):
            if x == "\n": indir, line = (indir and k[j - 1] == "\\"), True
            elif x.strip() == "": continue
            else:
                if line and x.startswith("#"): indir = True
                line = False
                if not indir and x in ("(", ")", "{", "}", "[", "]"): idx.append(j)
        if not idx: return None
        j = s.pick(idx)
        op = s.draw(3)
        what = k[j]
        if op == 0: k[j] = " "
        elif op == 1: k.insert(j, what)
        else:
            k[j] = s.pick([x for x in "(){}[]" if x != what])
        return Case("".join(k), nontrivial=True, labels=["edit", "edit-" + what], data=("edit", t, "".join(k)))
    def judged(self, t, kind, labels):
        return Case(t, nontrivial=True, labels=[kind] + labels, data=("judge", t, kind))
    def g_expr(self, s):
        r = Rx(s)
        e = r.ex(s.pick([1, 2, 2, 3]))
        b = s.pick(ESTMT) % e
        return self.judged(viol.ENV + self.func("q_", b), "expr", ["expr-%d" % o for o in set(r.ops)])
    def g_const(self, s):
        r = Rx(s)
        return self.judged(viol.ENV + self.func("q_", s.pick(SINIT) % r.cx(s.pick([0, 1, 1, 2]))), "const", [])
    def g_decl(self, s):
        r = Rx(s)
        w = s.pick(["file", "block", "member", "member", "definition", "two"])
        if w == "definition":
            self.n += 1
            d = "%s %s" % (r.specs(), "%s(%s)" % (s.pick(["q%u", "*q%u", "(q%u)"]), ", ".join(r.param().replace("%u", "%u" + "ab"[i]) for i in range(s.draw(3)))))
            d = "%s { %s }" % (d, s.pick(["", "return 0;", "return;", "int a1a; return 1;"]))
        elif w == "two":
            d = r.declaration("file") + "\n" + r.declaration("file")
        else: d = r.declaration(w)
        d = d.replace("%u", "1")
        t = viol.ENV + (self.func("q_", d) if w == "block" or w == "two" and s.chance(1, 2) or w == "member" and s.chance(1, 3) else d + "\n")
        return self.judged(t, "decl", ["decl-" + w])
    def g_stmt(self, s):
        r = Rx(s)
        return self.judged(viol.ENV + self.func("q_", " ".join(r.stmt(s.range(0, 3)) for _ in range(s.range(1, 4)))), "stmt", [])
    # -- decision
    def evaluate(self, cases, d):
        return [self.one(c, os.path.join(d, str(k))) for k, c in enumerate(cases)]
    def compile(self, t, d, tag):
        os.makedirs(d, exist_ok=True)
        p, o = os.path.join(d, tag + ".c"), os.path.join(d, tag + ".o")
        open(p, "w").write(t)
        r = T.run([self.cc, "-c", p, "-o", o], cwd=d, cpu=10, mem=4 << 30)
        return r, os.path.exists(o), p
    def must_accept(self, r, o):
        if r.rc != 0: return "a valid program is rejected (status %d): %s" % (r.rc, (r.err + r.out).strip()[:300])
        if not o: return "no output file for a valid program"
    def must_reject(self, r, o):
        if r.timeout: return "the compiler does not end on an invalid program"
        if r.rc < 0: return "the compiler is killed by signal %d instead of rejecting an invalid program: %s" % (-r.rc, (r.err + r.out).strip()[:200])
        if r.rc == 0: return "an invalid program is accepted"
        if r.rc != 1: return "exit status %d" % r.rc
        if not (r.err + r.out).strip(): return "an invalid program is rejected without a diagnostic"
        if o: return "an invalid program is rejected, but an output file is left"
    def refs(self, p):
        """(both accept pedantically, both reject)"""
        g = T.run(["gcc", "-std=c17", "-pedantic-errors", "-w", "-fsyntax-only", p], cpu=20)
        k = None
        if g.rc == 0:
            g2 = T.run(["gcc", "-std=c17", "-pedantic-errors", "-fsyntax-only", p], cpu=20)
            if g2.rc: return False, False, g2.err
            k = T.run(["clang", "-std=c17", "-pedantic-errors", "-fsyntax-only", p], cpu=20)
            return k.rc == 0, False, ""
        return False, True, g.err
    def one(self, c, d):
        kind, a, b = c.data
        if kind == "judge":
            r, o, p = self.compile(a, d, "x")
            acc, rej, err = self.refs(p)
            if rej:
                # Constraint violations that gcc only warns about without -pedantic-errors are not judged.
                g = T.run(["gcc", "-std=c17", "-w", "-fsyntax-only", p], cpu=20)
                if g.rc == 0: return (DISCARD, "extension of gcc")
                if "undefined type" in g.err or "too large" in g.err or "overflow" in g.err: return (DISCARD, "not judged")
                m = self.must_reject(r, o)
                if m:
                    k = T.run(["clang", "-std=c17", "-w", "-Wno-error=int-conversion", "-fsyntax-only", p], cpu=20)
                    if k.rc == 0: return (DISCARD, "clang accepts")
                    if "error:" in g.err and self.leniency(g.err): return (DISCARD, "leniency")
                    # the integer type of an enumeration, and the forms of constant expressions beyond the standard's, are the implementation's choice
                    if "conflicting types" in g.err and "enum" in a[len(viol.ENV):]: return (DISCARD, "type of an enumeration")
                    if "not an integer constant" in g.err and "1.5" in a: return (DISCARD, "other form of constant expression")
                    return (FAIL, m + " | gcc: " + g.err.split("error:")[-1].split("\n")[0][:120])
                return (OK, None)
            if acc:
                if b == "const": return (OK, None) if r.rc in (0, 1) else (FAIL, "the compiler is killed by signal %d" % -r.rc)
                m = self.must_accept(r, o)
                if m and self.unsupported(a, r): return (DISCARD, "unsupported")
                return (FAIL, m) if m else (OK, None)
            return (DISCARD, "references disagree")
        if kind == "pair":
            r, o, p = self.compile(a, d, "v")
            m = self.must_accept(r, o)
            if m and not self.refs(p)[0]: return (DISCARD, "gcc or clang rejects the valid twin")
            if m: return (FAIL, m)
            r, o, p = self.compile(b, d, "i")
            m = self.must_reject(r, o)
            if m and not self.refs(p)[1]: return (DISCARD, "gcc accepts the invalid twin")
            return (FAIL, m) if m else (OK, None)
        r, o, p = self.compile(b, d, "e")
        m = self.must_reject(r, o)
        if m and not self.refs(p)[1]: return (DISCARD, "gcc accepts the edited program")
        return (FAIL, m) if m else (OK, None)
    def leniency(self, err):
        return all(re.search(r"incompatible type.*(_Bool|pointer)|pointer.*_Bool", l) for l in err.split("\n") if "error:" in l)
    def unsupported(self, t, r):
        return False

CHECK = ViolCheck()
