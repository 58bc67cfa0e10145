"""Constraint violations with their valid twins, for C22.

ENV is at file scope of every program, LOCAL at the start of every function body.  Each entry of EXPRS/STMTS/FILES/PP is
(class, valid text, invalid text); the invalid text differs in the violation only."""
ENV = """struct S { int m; const int cm; int a[3]; struct { int x; const int cx; } n; int *p; const int *pc; int * const cp; unsigned bf : 5; int (*fp)(int, int); struct S *next; };
struct T { int m; };
union U { int i; double d; };
struct Inc; enum En { EA, EB = 5 };
typedef int Int; typedef const int CInt; typedef struct S SS; typedef const struct S CSS;
typedef int Arr[3]; typedef const int CArr[3];
int f0(void); int f1(int); int f2(int, int); int f3(int, int *, struct T); int fv(int, ...); int fs(struct S); int fp(int *); int fcp(const int *); int fd(double); int fstr(const char *); void fvoid(void); struct S rs(void); struct T rt(void); int *rp(void); int (*rf(int))(int, int); int fpp(int **); int fcb(int (*)(int)); int fvp(void *); int fsp(struct S *); int farr(int [3][2]);
extern int gi; extern const int gci; extern struct S gs; extern const struct S gcs; extern int *gp; extern double gd; extern const int gca[3]; extern int ga[3]; extern volatile const int gcv; extern struct Inc *ginc; extern int (*gfp)(int, int); extern struct T gt; extern const struct T gct; extern void *gv; extern char *gc; extern int ga2[3][2];
"""
PARAMS = "int pi, const int pci, int pa[3], int pca[const 3], const int *ppc, int *const pcp, const struct S pcs, struct S ps"
LOCAL = """int li = 1; const int lci = 2; int *lp = &li; const int *lpc = &li; int *const lcp = &li; CInt ltc = 3; const int *const *lpp = (const int *const *)0; int **lp2 = (int **)0;
struct S *sp = &gs; const struct S *spc = &gs; struct T lt = { 1 }; const struct T lct = { 2 }; double ld = 1.5; register int lr = 3; register struct T lrs = { 4 }; static int lst = 5; static const int lsc = 6; int la[3] = { 1 }; CArr lca = { 1, 2, 3 }; const int la2[2][2] = { { 1 } }; int lb2[2][2] = { { 1 } }; union U lu = { 1 }; void *lv = &li; char *lc = (char *)0; volatile int lvi = 1;
"""
def build():
    E, S, F, P = [], [], [], []
    # -- modification of const objects
    pairs = [("li", "lci"), ("gi", "gci"), ("*lp", "*lpc"), ("lp", "lcp"), ("*lcp", "*lpc"), ("li", "ltc"), ("**lp2", "**lpp"), ("*lp2", "*lpp"), ("sp->m", "spc->m"), ("sp->m", "sp->cm"), ("gs.m", "gcs.m"), ("gs.m", "gs.cm"), ("gs.a[1]", "gcs.a[1]"),
             ("gs.n.x", "gcs.n.x"), ("gs.n.x", "gs.n.cx"), ("sp->n.x", "spc->n.x"), ("gs.p", "gs.cp"), ("gs.p", "gcs.p"), ("*gs.p", "*gs.pc"), ("*gcs.p", "*gcs.pc"), ("gs.next->m", "((const struct S *)gs.next)->m"), ("la[1]", "lca[1]"), ("ga[2]", "gca[2]"), ("*la", "*lca"),
             ("lb2[1][1]", "la2[1][1]"), ("*lb2[1]", "*la2[1]"), ("pi", "pci"), ("pa", "pca"), ("pa[1]", "ppc[1]"), ("*pcp", "*ppc"), ("pa", "pcp"), ("ps.m", "pcs.m"), ("ps.m", "ps.cm"), ("lst", "lsc"), ("lvi", "gcv"), ("(*sp).m", "(*spc).m"), ("sp[0].m", "spc[0].m"),
             ("(&gs)->m", "(&gcs)->m"), ("*&li", "*&lci"), ("(int){ 1 }", "(const int){ 1 }"), ("(struct T){ 1 }.m", "(const struct T){ 1 }.m"), ("*(int *)lpc", "*(const int *)lp"), ("(li)", "(lci)"), ("lt.m", "lct.m"), ("gs.bf", "gcs.bf"), ("lp[0]", "lpc[0]"), ("1[la]", "1[lca]"), ("*(la + 1)", "*(lca + 1)"), ("*(li ? &li : &gi)", "*(li ? &li : &gci)")]
    for v, i in pairs:
        if v[0] in "*&(": v, i = "(%s)" % v, "(%s)" % i
        isp = v in ("lp", "(*lp2)", "gs.p", "pa") and i != "(*lpc)"
        for op in ("%s += 1", "%s -= 1", "%s++", "++%s", "--%s", "%s--") + (("%s = 0",) if isp else ("%s = 7", "%s *= 2", "%s /= 2", "%s %%= 3", "%s <<= 1", "%s >>= 1", "%s &= 3", "%s |= 4", "%s ^= 5", "%s = 7")):
            E.append(("const" + ("-pointer" if isp else ""), "(" + op % v + ")", "(" + op % i + ")"))
    for v, i in (("gs.n", "gs"), ("lt", "lct"), ("lt", "gct")):
        if v == "lt": S.append(("const-struct", "%s = rt();" % v, "%s = rt();" % i))
    # -- arguments
    for v, i in (("f0()", "f0(1)"), ("f1(1)", "f1()"), ("f1(1)", "f1(1, 2)"), ("f2(1, 2)", "f2(1)"), ("f2(1, 2)", "f2(1, 2, 3)"), ("f2(1, 2)", "f2()"), ("fv(1)", "fv()"), ("fv(1, 2)", "fv()"), ("f3(1, lp, lt)", "f3(1, lp)"), ("gs.fp(1, 2)", "gs.fp(1)"), ("gs.fp(1, 2)", "gs.fp(1, 2, 3)"),
                 ("(*gs.fp)(1, 2)", "(*gs.fp)(1, 2, 3)"), ("rf(1)(2, 3)", "rf(1)(2)"), ("rf(1)(2, 3)", "rf()(2, 3)"), ("rf(1)(2, 3)", "rf(1)(2, 3, 4)"), ("(&f1)(1)", "(&f1)()"), ("(*f1)(1)", "(*f1)(1, 2)"), ("gfp(1, 2)", "gfp(1)"), ("f1(f2(1, 2))", "f1(f2(1))"), ("f1(f2(1, 2))", "f1(f2(1, 2), 3)"), ("sp->next->fp(1, 2)", "sp->next->fp(1)"),
                 ("((int (*)(int))f0)(1)", "((int (*)(int))f0)()"), ("(li ? f1 : f1)(1)", "(li ? f1 : f1)(1, 1)")):
        E.append(("argument-count", v, i))
    for v, i in (("f1(li)", "f1(lt)"), ("f1(1)", "f1(gs)"), ("f3(1, lp, lt)", "f3(1, lp, gs)"), ("f3(1, lp, lt)", "f3(1, lp, 5)"), ("f3(1, lp, lt)", "f3(lt, lp, lt)"), ("fs(gs)", "fs(lt)"), ("fs(gs)", "fs(1)"), ("fs(gs)", "fs(sp)"), ("fd(ld)", "fd(lt)"), ("fp(lp)", "fp(lt)"), ("gs.fp(1, 2)", "gs.fp(1, lt)"), ("fd(1.5)", "fd(lp)"), ("rf(1)(2, 3)", "rf(1)(lt, 3)"), ("gfp(1, 2)", "gfp(gs, 2)"), ("fvp(lp)", "fvp(lt)"), ("fp(lp)", "fp(1.5)"), ("f1(1)", "f1(fvoid())"), ("fs(gs)", "fs(lu)")):
        E.append(("argument-type", v, i))
    for v, i in (("fp(lp)", "fp(1)"), ("f1(1)", "f1(lp)"), ("fp(lp)", "fp(&ld)"), ("fp(lp)", "fp(lc)"), ("fp(lp)", "fp(lp2)"), ("fpp(lp2)", "fpp(lp)"), ("fcp(lpc)", "fp(lpc)"), ("fp(lp)", "fp(&gci)"), ("fsp(sp)", "fsp(spc)"), ("fsp(sp)", "fsp(&lt)"), ("fcb(f1)", "fcb(f2)"), ("fstr(\"a\")", "fp(\"a\")"), ("farr(ga2)", "farr(ga)"), ("fp(la)", "fp(lca)")):
        E.append(("argument-pointer", v, i))
    # -- identifiers and members
    for v, i in (("li", "lz"), ("f1(li)", "f1(lz)"), ("li + gi", "li + gz"), ("f0()", "fz()"), ("gs.m", "gz.m"), ("EB", "EZ"), ("sizeof(li)", "sizeof(lz)"), ("la[li]", "la[lz]"), ("*lp", "*lz"), ("&li != lp", "&lz != lp"), ("(Int)1", "(Intz)1"), ("sizeof(Int)", "sizeof(Intz)"), ("li = 2", "lz = 2"), ("li++", "lz++"), ("li ? 1 : 2", "li ? lz : 2"), ("li && 1", "li && lz"), ("(li, 2)", "(lz, 2)")):
        E.append(("undeclared", "(%s)" % v, "(%s)" % i))
    for v, i in (("gs.m", "gs.z"), ("sp->m", "sp->z"), ("gs.n.x", "gs.n.z"), ("gs.n.x", "gs.x"), ("lt.m", "lt.cm"), ("gs.next->m", "gs.next->z"), ("rs().m", "rs().z"), ("lu.i", "lu.m"), ("(*sp).m", "(*sp).z"), ("sp[0].m", "sp[0].z"), ("sizeof(gs.m)", "sizeof(gs.z)"), ("(struct T){ 1 }.m", "(struct T){ 1 }.x"), ("gs.m", "gs.li")):
        E.append(("unknown-member", v, i))
    for v, i in (("gs.m", "li.m"), ("gs.m", "gs->m"), ("sp->m", "sp.m"), ("sp->m", "lp->m"), ("gs.m", "gs.m.m"), ("lt.m", "f0.m"), ("ginc != 0", "ginc->m"), ("gs.m", "ga.m"), ("sp->m", "li->m")):
        E.append(("member-of-nonstruct", "(%s)" % v, "(%s)" % i))
    # -- register
    for v, i in (("&li", "&lr"), ("&(li)", "&(lr)"), ("&lt", "&lrs"), ("(int *)&lt", "(int *)&lrs"), ("&lt.m", "&lrs.m"), ("lp + (&li - lp)", "lp + (&lr - lp)")):
        E.append(("register-address", "(%s != 0)" % v, "(%s != 0)" % i))
    # -- lvalues
    for v, i in (("li = 1", "1 = li"), ("li = 1", "(li + 1) = 1"), ("li = 1", "f0() = 1"), ("gs.m = 1", "rs().m = 1"), ("li = 1", "-li = 1"), ("li = 1", "(int)li = 1"), ("li++", "(li++)++"), ("++li", "++f0()"), ("li++", "5++"), ("--li", "--(li + 1)"), ("li = 1", "(li ? li : gi) = 1"), ("li += 1", "(li + 1) += 1"), ("li = 1", "(li, gi) = 1"), ("li = 1", "sizeof(li) = 1"), ("li = 1", "EA = 1"), ("*lp = 1", "&li = lp"), ("li = (gi = 1)", "(li = gi) = 1"), ("li = 1", "f0 = 0"), ("li = 1", "!li = 1"), ("la[0] = 1", "la = ga"), ("li = 1", "(li && gi) = 1"), ("li ++", "(li = 1)++")):
        E.append(("lvalue", "(%s)" % v, "(%s)" % i))
    for v, i in (("&li", "&1"), ("&li", "&(li + 1)"), ("&li", "&f0()"), ("&gs.m", "&gs.bf"), ("&li", "&rs()") , ("&li", "&(li++)"), ("&li", "&(int)li"), ("&li", "&EB"), ("&li", "&(li = 1)"), ("&li", "&-li"), ("&gs.m", "&rs().m"), ("&li", "&&li"), ("&*lp", "&(li ? li : gi)")):
        E.append(("address-of-rvalue", "(%s != 0)" % v, "(%s != 0)" % i))
    # -- operands
    for v, i in (("*lp", "*li"), ("*lp", "*ld"), ("la[1]", "li[1]"), ("la[1]", "la[ld]"), ("la[1]", "la[lp]"), ("*lp", "*gs"), ("f1(1)", "li(1)"), ("f1(1)", "gs.m(1)"), ("f1(1)", "(*lp)(1)"), ("*lp", "**lp"), ("ld + 1", "~ld"), ("-li", "-lp"), ("~li", "~lp"), ("-li", "-lt"), ("!li", "!lt"), ("+li", "+lp"), ("~li", "~lt"), ("-ld", "-gs"),
                 ("li % 2", "ld % 2"), ("li % 2", "li % 2.0"), ("li & 2", "ld & 2"), ("li | 2", "2 | ld"), ("li ^ 2", "ld ^ 2"), ("li << 2", "ld << 2"), ("li >> 2", "li >> 2.0"), ("li * 2", "lp * 2"), ("li * 2", "2 * lp"), ("li / 2", "lp / 2"), ("li % 2", "lp % 2"), ("li << 2", "lp << 2"), ("li & 2", "lp & 2"), ("lp + 1 != 0", "lp + lp != 0"), ("lp - lp == 0", "1 - lp == 0"), ("lp + 1 != 0", "lp + 1.0 != 0"), ("lp - 1 != 0", "lp - 1.5 != 0"),
                 ("li + 1", "lt + 1"), ("li - 1", "1 - lt"), ("li * 2", "lt * lt"), ("li == 2", "lt == lt"), ("li < 2", "lt < lt"), ("li && 1", "lt && 1"), ("li || 1", "1 || lt"), ("lt.m ? 1 : 2", "lt ? 1 : 2"), ("li ? li : 2", "li ? lt : 2"), ("li ? lt.m : gs.m", "li ? lt : gs"), ("li += 1", "li += lt"), ("li %= 2", "li %= 2.0"), ("ld += 1", "ld %= 2"), ("ld *= 2", "ld <<= 2"), ("lp += 1", "lp += lp"), ("lp -= 1", "lp *= 2"), ("lp += 1", "lp += 1.0"), ("li = 1", "li = lt"), ("lt = lt", "lt = gs"), ("lt = lt", "lt = 1"), ("li = 1", "li = fvoid()"), ("fvp(lp)", "lp + ginc"), ("ld = 1", "ld = lt"), ("lp == 0", "lp == lt"), ("lp == lp", "lp == ld")):
        E.append(("operand", "((%s), 1)" % v, "((%s), 1)" % i))
    for v, i in (("(int)ld", "(int)lt"), ("(int)ld", "(struct T)li"), ("(double)li", "(double)gs"), ("(int *)lv", "(int *)lt"), ("(int *)li", "(int *)ld"), ("(double)li", "(double)lp"), ("(Int)li", "(Arr)la"), ("(int)ld", "(int)lu"), ("(int)1", "(int)fvoid()")):
        E.append(("cast", "((%s), 1)" % v, "((%s), 1)" % i))
    for v, i in (("sizeof(struct S)", "sizeof(struct Inc)"), ("sizeof(gs.m)", "sizeof(gs.bf)"), ("sizeof(ginc)", "sizeof(*ginc)"), ("sizeof(int)", "sizeof(int"), ("sizeof(lp)", "sizeof(f1)"), ("sizeof(int)", "sizeof(void)"), ("_Alignof(struct S)", "_Alignof(struct Inc)")):
        E.append(("sizeof", "((int)%s)" % v, "((int)%s)" % i))
    for v, i in (("f1(1)", "f1(1"), ("f1(1)", "f1 1)"), ("f2(1, 2)", "f2(1, 2,)"), ("f2(1, 2)", "f2(1 2)"), ("la[1]", "la[1"), ("la[1]", "la 1]"), ("la[1]", "la[]"), ("(li + 1)", "(li + )"), ("(li + 1)", "(+ )"), ("(li)", "()"), ("li * 2", "li * "), ("li + 2", "li 2"), ("li ? 1 : 2", "li ? 1"), ("li ? 1 : 2", "li ? : "), ("li ? 1 : 2", "li ? 1 ; 2"), ("gs.m", "gs."), ("gs.m", "gs.1"), ("sp->m", "sp->"), ("(int)1", "(int 1"), ("sizeof li", "sizeof"), ("!li", "!"), ("-li", "-"), ("&li != 0", "& != 0"), ("*lp", "*"), ("li == 2", "li == "), ("li = 2", "li = "), ("li, 2", ", 2"), ("li, 2", "li, "), ("li && 1", "li && "), ("li || 1", "|| 1"), ("li", "li li"), ("1", "1 1"), ("\"a\"[0]", "\"a\" 0]"), ("li", "int"), ("li", "return"), ("li + 1", "li + }"), ("(int){ 1 }", "(int){ 1"), ("_Generic(1, int: 2)", "_Generic(1, int 2)"), ("_Generic(1, int: 2)", "_Generic(1)"), ("li", "li $"), ("li++", "li+++"), ("li <= 2", "li <=> 2"), ("li", "li @"), ("++li", "++"), ("li->m + 1", "li->->m + 1") if 0 else ("li", "li ->"), ("la[0]", "la[0]]"), ("(li)", "(li))"), ("li", "li :"), ("la[0]", "la[0;]"), ("f1(li)", "f1(li;)"), ("f1(1)", "f1(int)"), ("li", "else")):
        E.append(("syntax", v, i))
    for v, i in (("_Generic(1, int: 2, default: 3)", "_Generic(1, int: 2, int: 3)"), ("_Generic(1, default: 3)", "_Generic(1, long: 3)"), ("_Generic(1, int: 2, default: 3)", "_Generic(1, default: 2, default: 3)"), ("_Generic(1, int: 2, double: 3)", "_Generic(1.5f, int: 2, double: 3)"), ("_Generic(1, int: 2, long: 3)", "_Generic(1, int: 2, Int: 3)")):
        E.append(("generic", v, i))
    for v, i in (("1", "09"), ("1", "1x"), ("1.5", "1.5q"), ("1.5 > 0", "1.5.5 > 0"), ("0x1", "0x"), ("1", "1ulll"), ("'a'", "''"), ("'a'", "'a"), ("\"a\"[0]", "\"a[0]"), ("1", "0b2"), ("1", "1lul"), ("1.5 > 0", "1.5e > 0"), ("1", "0xg"), ("'\\n'", "'\\q'") if 0 else ("'\\x41'", "'\\x'")):
        E.append(("constant", "(%s)" % v, "(%s)" % i))
    # -- statements
    for c, v, i in (("break", "while (li--) break;", "if (li) break;"), ("break", "do { if (li) break; } while (0);", "{ if (li) { break; } }"), ("continue", "for (; li--;) continue;", "switch (li) { case 1: continue; }"), ("continue", "while (li--) { continue; }", "{ continue; }"), ("case", "switch (li) { case 1: ; }", "case 1: ;"), ("case", "switch (li) { default: ; }", "default: ;"), ("case", "switch (li) { case 1: li++; }", "switch (li) { case li: li++; }"),
                    ("duplicate-case", "switch (li) { case 1: case 2: ; }", "switch (li) { case 1: case 1: ; }"), ("duplicate-case", "switch (li) { case 'a': case 2: ; }", "switch (li) { case 'a': case 97: ; }"), ("duplicate-case", "switch (li) { case 1: { case 2: ; } case 3: ; }", "switch (li) { case 1: { case 2: ; } case 1 + 1: ; }"), ("duplicate-case", "switch (li) { case EB: case EA: ; }", "switch (li) { case EB: case 5: ; }"), ("duplicate-case", "switch (li) { case -1: case 1: ; }", "switch (li) { case -1: case 0xffffffff: ; }"), ("duplicate-case", "switch (li) { case 1: switch (gi) { case 1: ; } case 2: ; }", "switch (li) { case 1: switch (gi) { case 1: case 1: ; } case 2: ; }"), ("duplicate-case", "switch (li) { case 1: for (;li--;) { case 3: ; } break; case 2: ; }", "switch (li) { case 1: for (;li--;) { case 3: ; } break; case 3: ; }"),
                    ("duplicate-case", "switch (li) { default: ; }", "switch (li) { default: default: ; }"), ("duplicate-case", "switch (li) { default: switch (gi) { default: ; } }", "switch (li) { default: if (gi) { default: ; } }"), ("case-constant", "switch (li) { case 3: ; }", "switch (li) { case 3.0: ; }"), ("switch-type", "switch (li) { case 3: ; }", "switch (ld) { case 3: ; }"), ("switch-type", "switch (li) { case 3: ; }", "switch (lp) { case 3: ; }"), ("switch-type", "switch (li) { case 3: ; }", "switch (lt) { case 3: ; }"),
                    ("label", "goto L%u; L%u: ;", "goto L%u; M%u: ;"), ("label", "L%u: ; M%u: ;", "L%u: ; L%u: ;"), ("label", "L%u: { M%u: ; }", "L%u: { L%u: ; }"), ("label", "goto L%u; L%u: ;", "goto L%u;"), ("label", "goto L%u; L%u: ;", "goto 1; L%u: ;"), ("label", "goto L%u; L%u: ;", "goto ; L%u: ;"),
                    ("condition", "if (li) ;", "if (lt) ;"), ("condition", "while (lp == 0) ;", "while (lt) ;"), ("condition", "for (; lp == 0;) ;", "for (; gs;) ;"), ("condition", "do ; while (lp == 0);", "do ; while (gs);"),
                    ("syntax", "if (li) ;", "if li ;"), ("syntax", "if (li) ;", "if () ;"), ("syntax", "if (li) ; else ;", "else ;"), ("syntax", "while (li--) ;", "while li-- ;"), ("syntax", "for (;;) break;", "for (;) break;"), ("syntax", "for (;;) break;", "for () break;"), ("syntax", "for (;;) break;", "for (;;;) break;"), ("syntax", "do ; while (0);", "do ; while (0)"), ("syntax", "do ; while (0);", "do ;"), ("syntax", "{ li = 1; }", "{ li = 1 }"), ("syntax", "{ }", "{"), ("syntax", "{ }", "}"), ("syntax", "li = 1;", "li = 1"), ("syntax", "int q%u;", "int q%u"), ("syntax", "int q%u = 1;", "int q%u = ;"), ("syntax", "int q%u, r%u;", "int q%u r%u;"), ("syntax", "int q%u[2];", "int q%u[2;"), ("syntax", "int q%u[2] = { 1 };", "int q%u[2] = { 1 ;"), ("syntax", "int q%u[2] = { 1, 2 };", "int q%u[2] = { 1 2 };"), ("syntax", "switch (li) { }", "switch (li { }"), ("syntax", "switch (li) { case 1: ; }", "switch (li) { case 1 ; }"), ("syntax", "switch (li) { default: ; }", "switch (li) { default ; }"), ("syntax", "switch (li) { case 1: ; }", "switch (li) { case : ; }"), ("syntax", ";", ")"), ("syntax", ";", "]"), ("syntax", "li = 1;", "li = 1);"), ("syntax", "struct { int x; } q%u;", "struct { int x } q%u;"), ("syntax", "struct { int x; } q%u;", "struct { int x; q%u;"), ("syntax", "enum { Q%u = 1 };", "enum { Q%u = };"), ("syntax", "enum { Q%u };", "enum { };"), ("syntax", "enum { Q%u, R%u };", "enum { Q%u R%u };"), ("syntax", "int (*q%u)(int);", "int (*q%u(int);"), ("syntax", "typedef int q%u;", "typedef int;+"), ("syntax", "if (li) { } else { }", "if (li) { } else else { }"), ("syntax", "li = 1;", "li = 1;; else;"), ("syntax", "goto L%u; L%u: ;", "goto L%u L%u: ;"), ("syntax", "{ if (li) ; }", "{ if (li) }"), ("syntax", "{ while (li--) ; }", "{ while (li--) }"),
                    ("static-assert", "_Static_assert(1, \"x\");", "_Static_assert(0, \"x\");"), ("static-assert", "_Static_assert(sizeof(int) == 4, \"\");", "_Static_assert(sizeof(int) == 5, \"\");"), ("static-assert", "_Static_assert(EB == 5, \"\");", "_Static_assert(EB != 5, \"\");"), ("static-assert", "_Static_assert(1, \"x\");", "_Static_assert(li, \"x\");"), ("static-assert", "_Static_assert(1, \"x\");", "_Static_assert(1, 2);"), ("static-assert", "_Static_assert(-1 < 0, \"\");", "_Static_assert(-1 < 0u, \"\");"), ("static-assert", "_Static_assert(1, \"x\");", "_Static_assert(1 \"x\");"), ("static-assert", "{ _Static_assert(!0, \"x\"); }", "{ _Static_assert(!1, \"x\"); }"), ("static-assert", "_Static_assert(1 ? 2 : 0, \"x\");", "_Static_assert(1 ? 0 : 2, \"x\");"),
                    ("redeclaration", "int q%u; { int q%u; }", "int q%u; int q%u;"), ("redeclaration", "int q%u; { double q%u; }", "int q%u; double q%u;"), ("redeclaration", "int q%u; { enum { q%u }; }", "int q%u; enum { q%u };"), ("redeclaration", "int q%u; { typedef int q%u; }", "int q%u; typedef int q%u;"), ("redeclaration", "typedef int q%u; { int q%u; }", "typedef int q%u; int q%u;"), ("redeclaration", "enum { q%u }; { int q%u; }", "enum { q%u }; int q%u;"), ("redeclaration", "typedef int q%u; { typedef long q%u; }", "typedef int q%u; typedef long q%u;"), ("redeclaration", "struct q%u { int a; }; { struct q%u { int b; }; }", "struct q%u { int a; }; struct q%u { int b; };"), ("redeclaration", "struct q%u { int a; }; { union q%u { int b; }; }", "struct q%u { int a; }; union q%u { int b; };"), ("redeclaration", "enum q%u { Q%u }; { enum q%u { R%u }; }", "enum q%u { Q%u }; enum q%u { R%u };"), ("redeclaration", "struct q%u { int a; }; { enum q%u { R%u }; }", "struct q%u { int a; }; enum q%u { R%u };"), ("redeclaration", "{ int pi; pi = 1; }", "int pi; pi = 1;"), ("redeclaration", "{ extern int gi; }", "{ extern long gi; }"), ("redeclaration", "{ int f1(int); }", "{ int f1(long); }"), ("redeclaration", "{ int f1(int); }", "{ long f1(int); }"), ("redeclaration", "{ extern int gi; }", "{ int gi(void); }"), ("redeclaration", "{ int f1(int); }", "{ extern int f1; }"), ("redeclaration", "enum { Q%u, R%u };", "enum { Q%u, Q%u };"), ("redeclaration", "for (int q%u = 0, r%u = 0; q%u < r%u;) ;", "for (int q%u = 0, q%u = 0; ;) ;"), ("redeclaration", "{ extern int ga[3]; }", "{ extern int ga[4]; }"), ("redeclaration", "{ extern const int gci; }", "{ extern int gci; }"),
                    ("extern-init", "extern int gi;", "extern int gi = 1;"), ("incomplete", "struct Inc *q%u;", "struct Inc q%u;"), ("incomplete", "void *q%u;", "void q%u;"), ("incomplete", "int q%u[2];", "int q%u[];"), ("incomplete", "struct Inc *q%u[2];", "struct Inc q%u[2];"), ("incomplete", "int q%u[2][2];", "int q%u[2][];"), ("incomplete", "void *q%u[2];", "void q%u[2];"),
                    ("declarator", "int (*q%u)(void);", "int q%u(void)(void);"), ("declarator", "int (*q%u(void))[3];", "int q%u(void)[3];"), ("declarator", "int (*q%u[3])(void);", "int q%u[3](void);"), ("declarator", "int q%u[3];", "int q%u[-1];"), ("declarator", "int q%u[3];", "int q%u[2.5];"), ("declarator", "int q%u[3];", "int q%u[lp];"), ("declarator", "int q%u(int a, int b);", "int q%u(int a, int a);"), ("declarator", "int q%u(void);", "int q%u(void, int);"), ("declarator", "int q%u(int, ...);", "int q%u(int, ..., int);"), ("declarator", "int q%u[3];", "int q%u[lt];"), ("declarator", "int q%u(register int a);", "int q%u(static int a);"), ("declarator", "int *q%u;", "int *const volatile;*"), ("declarator", "int q%u(int a[static 3]);", "int q%u[static 3];"), ("declarator", "int q%u(int a[const 3]);", "int q%u[const 3];"),
                    ("specifiers", "long int q%u;", "long char q%u;"), ("specifiers", "short int q%u;", "short double q%u;"), ("specifiers", "unsigned int q%u;", "unsigned float q%u;"), ("specifiers", "int q%u;", "int int q%u;"), ("specifiers", "signed q%u;", "signed unsigned q%u;"), ("specifiers", "long long q%u;", "long long long q%u;"), ("specifiers", "static int q%u;", "static extern int q%u;"), ("specifiers", "static int q%u;", "static register int q%u;"), ("specifiers", "typedef int q%u;", "typedef static int q%u;"), ("specifiers", "int q%u;", "const q%u;"), ("specifiers", "unsigned q%u;", "unsigned Int q%u;"), ("specifiers", "struct T q%u;", "int struct T q%u;"), ("specifiers", "_Bool q%u;", "unsigned _Bool q%u;"), ("specifiers", "int q%u;", "short long q%u;"), ("specifiers", "int q%u;", "void int q%u;"), ("specifiers", "Int q%u;", "Int Int2 q%u;"), ("specifiers", "int q%u;", "int q%u static;"), ("specifiers", "inline int q%u(void);", "inline int q%u;"),
                    ("member", "struct { int a, b; } q%u;", "struct { int a, a; } q%u;"), ("member", "struct { int a; struct { int b; }; } q%u;", "struct { int a; struct { int a; }; } q%u;"), ("member", "struct { int a : 3; } q%u;", "struct { int a : 33; } q%u;"), ("member", "struct { int a : 3; } q%u;", "struct { int a : -1; } q%u;"), ("member", "struct { int : 0; int a; } q%u;", "struct { int a : 0; } q%u;"), ("member", "struct { int a : 3; } q%u;", "struct { double a : 3; } q%u;"), ("member", "struct { int a : 3; } q%u;", "struct { int a : li; } q%u;"), ("member", "struct { struct Inc *a; } q%u;", "struct { struct Inc a; } q%u;"), ("member", "struct { int (*a)(void); } q%u;", "struct { int a(void); } q%u;"), ("member", "struct { void *a; } q%u;", "struct { void a; } q%u;"), ("member", "struct q%u { struct q%u *a; };", "struct q%u { struct q%u a; };"), ("member", "struct { int a; int b[]; } *q%u;", "struct { int b[]; int a; } q%u;"), ("member", "struct { int a; } q%u;", "struct { static int a; } q%u;"), ("member", "struct { int a; } q%u;", "struct { int a = 1; } q%u;"), ("member", "struct { int a; } q%u;", "struct { int; } q%u;") if 0 else ("member", "struct { _Bool a : 1; } q%u;", "struct { _Bool a : 2; } q%u;"),
                    ("initializer", "int q%u[2] = { 1, 2 };", "int q%u[2] = { 1, 2, 3 };"), ("initializer", "struct T q%u = { 1 };", "struct T q%u = { 1, 2 };"), ("initializer", "struct T q%u = { .m = 1 };", "struct T q%u = { .z = 1 };"), ("initializer", "int q%u[2] = { [1] = 1 };", "int q%u[2] = { [2] = 1 };"), ("initializer", "int q%u[2] = { [1] = 1 };", "int q%u[2] = { [-1] = 1 };"), ("initializer", "int q%u[2] = { [1] = 1 };", "int q%u[2] = { [li] = 1 };"), ("initializer", "int q%u[2] = { [1] = 1 };", "int q%u[2] = { .a = 1 };"), ("initializer", "struct T q%u = { .m = 1 };", "struct T q%u = { [0] = 1 };"), ("initializer", "int q%u[2] = { 1 };", "int q%u[2] = 1;"), ("initializer", "struct T q%u = lt;", "struct T q%u = gs;"), ("initializer", "struct T q%u = lt;", "struct T q%u = 1;"), ("initializer", "int q%u = 1;", "int q%u = lt;"), ("initializer", "int q%u[3] = { 1 };", "int q%u[3] = la;"), ("initializer", "int *q%u = lp;", "int *q%u = lt;"), ("initializer", "int q%u = { 1 };", "int q%u = { 1, 2 };"), ("initializer", "char q%u[4] = \"abc\";", "int q%u[4] = \"abc\";"), ("initializer", "typedef int q%u;", "typedef int q%u = 1;"), ("initializer", "int q%u[2][2] = { { 1 } };", "int q%u[2][2] = { { 1, 2, 3 } };"), ("initializer", "int q%u = 1;", "int q%u(void) = 1;"), ("initializer", "int q%u = fd(1);", "int q%u = fvoid();"),
                    ("static-initializer", "static int q%u = 1;", "static int q%u = li;"), ("static-initializer", "static int *q%u = &gi;", "static int *q%u = &li;"), ("static-initializer", "static int q%u = sizeof(li);", "static int q%u = f0();"), ("static-initializer", "static int q%u = 1 + 2;", "static int q%u = gi + 2;"), ("static-initializer", "static int q%u[2] = { 1 };", "static int q%u[2] = { 1, li };"), ("static-initializer", "static int *q%u = ga + 1;", "static int *q%u = gp;"), ("static-initializer", "static struct T q%u = { 1 };", "static struct T q%u = { gi };"), ("static-initializer", "static struct T q%u = { 1 };", "static struct T q%u = gt;") , ("static-initializer", "static int q%u = 5;", "static int q%u = (gi = 5);"),
                    ("return", "return 1;", "return lt;"), ("return", "return li;", "return gs;"), ("return", "return li;", "return fvoid();"), ("nested-function", "int q%u(void);", "int q%u(void) { return 1; }"), ("static-function", "int q%u(void);", "static int q%u(void);"), ("scope", "{ int q%u = 1; li = q%u; }", "{ int q%u = 1; } li = q%u;"), ("scope", "for (int q%u = 0; q%u < 1; q%u++) ;", "for (int q%u = 0; q%u < 1; q%u++) ; li = q%u;"), ("scope", "int q%u = 1; li = q%u;", "li = q%u; int q%u = 1;"), ("scope", "int (*q%u)(int r%u);", "int (*q%u)(int r%u) = (int (*)(int))r%u;"), ("scope", "{ enum { q%u }; li = q%u; }", "{ enum { q%u }; } li = q%u;"), ("scope", "{ typedef int q%u; q%u r%u; }", "{ typedef int q%u; } q%u r%u;"), ("scope", "{ struct q%u { int a; }; struct q%u r%u; }", "{ struct q%u { int a; }; } struct q%u r%u;"), ("scope", "if (li) { int q%u = 1; li = q%u; }", "if (li) { int q%u = 1; } else li = q%u;"),
                    ("vla", "{ int q%u[li]; }", "{ static int q%u[li]; }"), ("vla", "{ int q%u[li]; }", "{ extern int q%u[li]; }"), ("vla", "{ int q%u[li]; }", "{ int q%u[li] = { 1 }; }"), ("assign-type", "lp = &li;", "lp = li;"), ("assign-type", "lp = &li;", "li = lp;"), ("assign-type", "lp = &li;", "lp = &ld;"), ("assign-type", "lpc = lp;", "lp = lpc;"), ("assign-type", "lp = *lp2;", "lp = lp2;"), ("assign-type", "sp = sp->next;", "sp = &lt;"), ("assign-type", "int *q%u = lp;", "int *q%u = li;"), ("assign-type", "int *q%u = lp;", "int *q%u = lpc;"), ("assign-type", "lp = 0;", "lp = 1;"), ("assign-type", "lp = lv;", "lp = ld;")):
        S.append((c, v, i))
    # -- file scope
    for c, v, i in (("redeclaration", "int q%u(int); int q%u(int);", "int q%u(int); int q%u(long);"), ("redeclaration", "extern int q%u; extern int q%u;", "extern int q%u; extern long q%u;"), ("redeclaration", "int q%u; int q%u;", "int q%u; double q%u;"), ("redeclaration", "int q%u = 1; extern int q%u;", "int q%u = 1; int q%u = 2;"), ("redeclaration", "int q%u(void) { return 1; } int q%u(void);", "int q%u(void) { return 1; } int q%u(void) { return 2; }"), ("redeclaration", "int q%u(void); int r%u;", "int q%u(void); int q%u;"), ("redeclaration", "typedef int q%u; int r%u;", "typedef int q%u; int q%u;"), ("redeclaration", "typedef int q%u; typedef int q%u;", "typedef int q%u; typedef long q%u;"), ("redeclaration", "enum { Q%u }; int R%u;", "enum { Q%u }; int Q%u;"), ("redeclaration", "struct q%u { int a; }; struct r%u { int a; };", "struct q%u { int a; }; struct q%u { int a; };"), ("redeclaration", "struct q%u; struct q%u { int a; };", "struct q%u; union q%u { int a; };"), ("redeclaration", "static int q%u; static int q%u;", "int q%u; static int q%u;"), ("redeclaration", "static int q%u(void); static int q%u(void);", "int q%u(void); static int q%u(void);"), ("redeclaration", "int q%u[3]; extern int q%u[];", "int q%u[3]; extern int q%u[4];"), ("redeclaration", "int *q%u; int *q%u;", "int *q%u; const int *q%u;"), ("redeclaration", "int q%u(int, ...); int q%u(int, ...);", "int q%u(int, ...); int q%u(int);"), ("redeclaration", "int q%u(int a) { return a; } int q%u(int);", "int q%u(int a) { return a; } int q%u(int, int);"), ("redeclaration", "enum { Q%u }; enum { R%u };", "enum { Q%u }; enum { Q%u };"),
                    ("specifiers", "int q%u;", "auto int q%u;"), ("specifiers", "int q%u;", "register int q%u;"), ("specifiers", "static int q%u;", "static static int q%u;"), ("specifiers", "int q%u(void);", "inline struct T { int a; };"),
                    ("function-definition", "int q%u(int a) { return a; }", "int q%u(int) (int a) { return a; }"), ("function-definition", "int q%u(int a, int b) { return a + b; }", "int q%u(int a, int a) { return a; }"), ("function-definition", "int q%u(int a) { return a; }", "int q%u { return 1; }"), ("function-definition", "int q%u(void) { return 1; }", "int q%u(void) { return 1;"), ("function-definition", "int q%u(void) { return 1; }", "int q%u(void) return 1; }"), ("function-definition", "int q%u(void) { return 1; }", "int q%u(void) { return 1; } }"), ("function-definition", "int q%u(void) { return 1; }", "int q%u(void), r%u(void) { return 1; }"), ("function-definition", "int q%u(void) { return 1; }", "typedef int q%u(void) { return 1; }"), ("function-definition", "int (*q%u(void))[3] { return 0; }", "int q%u(void)[3] { return 0; }"), ("function-definition", "struct T q%u(void) { return gt; }", "struct Inc q%u(void) { return *ginc; }"), ("function-definition", "int q%u(struct T a) { return a.m; }", "int q%u(struct Inc a) { return 1; }"), ("function-definition", "int q%u(int a) { { int a = 1; return a; } }", "int q%u(int a) { int a = 1; return a; }"),
                    ("static-assert", "_Static_assert(1, \"\");", "_Static_assert(0, \"\");"), ("static-assert", "_Static_assert(sizeof(struct S) > 8, \"\");", "_Static_assert(sizeof(struct S) < 8, \"\");"), ("static-assert", "struct q%u { int a; _Static_assert(1, \"\"); };", "struct q%u { int a; _Static_assert(0, \"\"); };"),
                    ("static-initializer", "int q%u = 1;", "int q%u = gi;"), ("static-initializer", "int q%u = sizeof gi;", "int q%u = f0();"), ("static-initializer", "int *q%u = &gi;", "int *q%u = gp;"), ("static-initializer", "int q%u[2] = { 1, 2 };", "int q%u[2] = { 1, gi };"), ("static-initializer", "struct T q%u = { 1 };", "struct T q%u = { gi };"), ("static-initializer", "int *q%u = gs.a;", "int *q%u = gs.p;"), ("static-initializer", "int *q%u = (int[]){ 1 };", "int *q%u = (int[]){ gi };"), ("static-initializer", "double q%u = 1.5 * 2;", "double q%u = gd * 2;"), ("static-initializer", "int q%u = 1 ? 2 : 3;", "int q%u = gi ? 2 : 3;"),
                    ("vla", "int q%u[3];", "int q%u[gi];"), ("vla", "typedef int q%u[3];", "typedef int q%u[gi];"), ("vla", "struct q%u { int a[3]; };", "struct q%u { int a[gi]; };"), ("declarator", "int q%u[3];", "int q%u[0 - 1];"), ("initializer", "int q%u[3] = { 1, 2, 3 };", "int q%u[3] = { 1, 2, 3, 4 };"), ("initializer", "struct T q%u = { .m = 1 };", "struct T q%u = { .n = 1 };"),
                    ("syntax", "int q%u;", "int q%u"), ("syntax", "int q%u;", "int q%u;)"), ("syntax", "int q%u;", "int q%u; }"), ("syntax", "int q%u;", "q%u q%u q%u;"), ("syntax", "int q%u;", "1;"), ("syntax", "int q%u;", "li = 1;"), ("syntax", "int q%u;", "int 5;"), ("syntax", "int q%u(int a);", "int q%u(int a;"), ("syntax", "int q%u(int a);", "int q%u(int a,);"), ("syntax", "int q%u;", "int q%u,;"), ("syntax", "struct q%u { int a; };", "struct q%u { int a; }"), ("syntax", "struct q%u { int a; };", "struct { int a; } q%u"), ("syntax", "enum q%u { Q%u };", "enum q%u { 1 };"), ("syntax", "int q%u;", "if (1) ;"), ("syntax", "int q%u;", "return 1;"), ("syntax", "int q%u[3];", "int q%u[3;"), ("syntax", "int q%u;", "int;;x"), ("syntax", "int q%u = 1;", "int q%u == 1;"), ("syntax", "int q%u;", "int *;&"), ("syntax", "int q%u;", "goto q%u;"),
                    ("alignas", "_Alignas(16) int q%u;", "_Alignas(3) int q%u;"), ("alignas", "_Alignas(8) int q%u;", "_Alignas(gi) int q%u;"), ("alignas", "_Alignas(8) int q%u;", "_Alignas(1) int q%u;"), ("enum", "enum { Q%u = 1 };", "enum { Q%u = gi };"), ("enum", "enum { Q%u = 1 };", "enum { Q%u = 1.5 };")):
        F.append((c, v, i))
    # -- preprocessor, on lines of their own
    for c, v, i in (("error", "#if 0\n#error x\n#endif", "#if 1\n#error x\n#endif"), ("error", "#ifdef UNDEF\n#error x\n#endif", "#error x"), ("error", "#if 1\n#else\n#error\n#endif", "#if 0\n#else\n#error\n#endif"), ("error", "#if 0\n#if 1\n#error a\n#endif\n#endif", "#if 1\n#if 1\n#error a\n#endif\n#endif"), ("error", "#if 1\n#elif 1\n#error\n#endif", "#if 0\n#elif 1\n#error\n#endif"), ("error", "/*\n#error x\n*/", "/* */ #error x"),
                    ("include", "#if 0\n#include <no_such_file.h>\n#endif", "#include <no_such_file.h>"), ("include", "#if 0\n#include \"no_such_file.h\"\n#endif", "#include \"no_such_file.h\""), ("include", "#if 0\n#include stddef.h\n#endif", "#include stddef.h"), ("include", "#if 0\n#include <stddef.h\n#endif", "#include <stddef.h"), ("include", "#if 0\n#include\n#endif", "#include"),
                    ("conditional", "#if 1\n#endif", "#if 1"), ("conditional", "#if 0\n#endif", "#if 0"), ("conditional", "#if 1\n#endif", "#endif"), ("conditional", "#if 1\n#else\n#endif", "#else"), ("conditional", "#if 1\n#else\n#endif", "#if 1\n#else\n#else\n#endif"), ("conditional", "#if 0\n#elif 1\n#endif", "#elif 1"), ("conditional", "#if 0\n#else\n#endif", "#if 0\n#else\n#elif 1\n#endif"), ("conditional", "#if 1\n#endif", "#if\n#endif"), ("conditional", "#ifdef A\n#endif", "#ifdef\n#endif"), ("conditional", "#ifndef A\n#endif", "#ifndef 3\n#endif"), ("conditional", "#if 0\n#if 1\n#endif\n#endif", "#if 0\n#if 1\n#endif"), ("conditional", "#if (1)\n#endif", "#if (1\n#endif"), ("conditional", "#if 1 + 1\n#endif", "#if 1 +\n#endif"), ("conditional", "#if 1 + 1\n#endif", "#if 1 1\n#endif"), ("conditional", "#if defined(A)\n#endif", "#if defined(\n#endif"), ("conditional", "#if defined A\n#endif", "#if defined\n#endif"), ("conditional", "#if 1 ? 2 : 3\n#endif", "#if 1 ? 2\n#endif"), ("conditional", "#if 4 / 2\n#endif", "#if 4 / 0\n#endif"), ("conditional", "#if 4\n#endif", "#if 4.0\n#endif"), ("conditional", "#if 4\n#endif", "#if \"a\"\n#endif"), ("conditional", "#if 1\n#endif", "#if 1 = 1\n#endif"),
                    ("define", "#define Q%u(a) a", "#define Q%u(a, a) a"), ("define", "#define Q%u(a) #a", "#define Q%u(a) #b"), ("define", "#define Q%u(a) a ## a", "#define Q%u(a) ## a"), ("define", "#define Q%u(a) a ## a", "#define Q%u(a) a ##"), ("define", "#define Q%u 1", "#define"), ("define", "#define Q%u 1", "#define 3 1"), ("define", "#define Q%u(a) a", "#define Q%u(a a"), ("define", "#define Q%u(a, b) a", "#define Q%u(a b) a"), ("define", "#define Q%u(a, ...) a", "#define Q%u(..., a) a"), ("define", "#undef Q%u", "#undef"), ("define", "#undef Q%u", "#undef 3"), ("define", "#define Q%u(a) a", "#define Q%u(1) 1"), ("define", "#define Q%u(a) a", "#define Q%u(a,) a"),
                    ("macro-call", "#define Q%u(a) a\nint q%u = Q%u(1);", "#define Q%u(a) a\nint q%u = Q%u(1, 2);"), ("macro-call", "#define Q%u(a, b) a + b\nint q%u = Q%u(1, 2);", "#define Q%u(a, b) a + b\nint q%u = Q%u(1);"), ("macro-call", "#define Q%u() 1\nint q%u = Q%u();", "#define Q%u() 1\nint q%u = Q%u(1);"), ("macro-call", "#define Q%u(a, b) a ## b\nint q%u = Q%u(1, 2);", "#define Q%u(a, b) a ## b\nint q%u = Q%u(1, +);"), 
                    ("directive", "#pragma x", "#foo"), ("line", "#line 5", "#line x"), ("line", "#line 5 \"a.c\"", "#line 5 a.c"), ("line", "#line 5", "#line"), ("static-assert", "_Static_assert(1, \"\");", "#define Q%u 0\n_Static_assert(Q%u, \"\");")):
        P.append((c, v, i))
    # calls with too few or too many arguments to a macro whose expansion would do either way
    for n in range(1, 6):
        ps = "abcde"[:n]
        for body in ("1", "a + 1", "sizeof(#%s)" % ps[-1], "(1, 2)"):
            for va in ("", ", ...") if n < 4 else ("",):
                d = "#define Q%%u(%s%s) %s\nint q%%u(void) { return " % (", ".join(ps), va, body)
                ok = d + "Q%u(" + ", ".join("123456"[:n]) + (", 9" if va else "") + "); }"
                for k in range(0 if n > 1 else n + 1, n + (3 if not va else 0)):
                    if k == n: continue
                    if k == 0: bad = [""]
                    else: bad = [", ".join("123456789"[:k]), ", ".join("(%d, 2)" % j for j in range(k)), "," * (k - 1)] if k > 1 else ["1", "(1, 2, 3, 4)"]
                    for b in bad:
                        P.append(("macro-arguments", ok, d + "Q%u(" + b + "); }"))
    for x in ("inline", "_Noreturn", "register", "auto"):
        for y in ("struct Q%u { int a; };", "enum { Q%u };", "struct Q%u;"):
            F.append(("empty-declaration", y, x + " " + y))
    P.append(("macro-arguments", "#define Q%u(a) 1\nint q%u = Q%u(1);", "#define Q%u(a) 1\nint q%u = Q%u(1;"))
    return E, S, F, P
