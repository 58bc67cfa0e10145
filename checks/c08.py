"""C08: initialisers in static and automatic storage and compound literals, compared with gcc."""
from c01 import ExprCheck
from engine import Case
from cexpr import *
from cty import *
from cinit import *

def self_ref(s, g):
    """An object whose initialiser refers to the object itself."""
    st, k = s.pick(["", "", "static ", "volatile ", "const "]), s.draw(6)
    if k == 0: return "%svoid *q = %s&q;\n\tobs(q == (void *)&q);\n" % (st.replace("volatile ", ""), s.pick(["", "(void *)", "(char *)"]))
    if k == 1: return "%sunsigned long q = sizeof q * %d;\n\tobs(q);\n" % (st, s.range(1, 9))
    if k == 2: return "%sint q[3] = { %d, sizeof q, [2] = sizeof q[0] };\n\tobs(q[0]); obs(q[1]); obs(q[2]);\n" % (st, s.range(0, 9))
    if k == 3: return "struct n { int v; struct n *next; } q = { %d, &q }, r = { %d, &q }, *p = &r;\n\tobs(p->v); obs(p->next->v); obs(p->next->next == &q);\n" % (s.range(1, 9), s.range(1, 9))
    if k == 4:
        ty = decl(g.scalar(), "m")
        return "%sstruct { int a; void *p[2]; %s; unsigned n; } q = { 3, { (void *)&q.m, (void *)&q.p[1] }, .n = sizeof q };\n\tobs(q.a); obs(q.p[0] == (void *)&q.m); obs(q.p[1] == (void *)(q.p + 1)); obs(q.n); obs(q.m == 0);\n" % (st, ty)
    return "for (int *p = (int *)&p, k = 0; k < 2; k++) obs(p == (int *)&p);\n"

class InitCheck(ExprCheck):
    prop = "C08"
    technique = "property-based testing: random object types with random valid initialisers (elided braces, designators, overriding, strings, address constants), every scalar of the object compared with gcc, with shrinking"
    level_note = "Sampled types and initialisers; gcc (with clang, -O2 and UBSan as arbiters of failures) is the reference. Only the active member of a union is observed. Flexible array members and GNU extensions are not generated."
    batch = 12
    rule = ("1-4 objects per case of random record/array types (known and unknown size) with a random initialiser; the same constant initialiser is given to a static object, an automatic object, a compound literal (at file or block "
            "scope) in random combination, after the stack was filled with a pattern; automatic ones also use variables and record-valued expressions and may sit in a loop. Every scalar (pointers as an offset from their target or as a "
            "string) and the size of the object are observed. Non-trivial: at least 3 initialised items and one of: elided braces, designator, nested braces, string.")
    def generate(self, s):
        bools = True
        g = TypeGen(s, depth=s.range(1, 3), maxmem=s.pick([3, 5, 8]), maxarr=s.pick([3, 4, 4, 12]), flex=False)
        glob, code, labels, items = [], [], set(), 0
        funs = []
        for i in range(s.range(1, 4)):
            pre = "@o%d_" % i
            t = g.record() if s.draw(3) else T("a", elem=g.type(s.range(0, 2)), n=s.range(1, 5))
            unknown = False
            if t.kind == "a" and s.draw(2): t = T("a", elem=t.elem, n=None); unknown = True
            elif s.chance(1, 8):
                t = T("a", elem=T("s", ty=s.pick([CHAR, SCHAR, UCHAR, USHORT, UINT, INT])), n=None if s.draw(2) else s.range(1, 9)); unknown = t.n is None
            elif s.chance(1, 10): t = g.scalar()
            auto = [] if s.chance(2, 5) else None
            gl = []
            where = []
            if auto is None:
                where = s.pick([["glob"], ["auto"], ["glob", "auto"], ["sloc", "loop"], ["lit"], ["flit"], ["glob", "flit", "auto"], ["extern"], ["slit"], ["sloc", "auto", "lit"]])
            else: where = s.pick([["auto"], ["lit"], ["loop"], ["arg"], ["auto", "lit"]])
            I = Init(s, g, gl, pre, auto)
            I.clit = not {"sloc", "slit"} & set(where)
            if t.kind == "r" or t.kind == "a" and not I.isstr(t): txt = I.braced(t, "")
            else:
                txt = I.value(t, None, "", False)
            if t.kind == "a" and t.n is None: raise AssertionError(txt)
            du = T("a", elem=t.elem, n=None) if unknown else t
            glob += gl
            funs += I.funs
            labels |= I.labels
            items += I.items
            q = s.pick(["", "", "const "])
            al = s.pick(["", "", "", "", "_Alignas(16) ", "_Alignas(32) "])
            decls = "\n\t".join(auto or [])
            n = 0
            for w in where:
                n += 1
                nm = "o%d_%d" % (i, n)
                labels.add("in:" + w)
                sz = "obs(sizeof %s); obs((unsigned long)&%s %% _Alignof(%s));\n"
                d = decl(du, nm)
                pt = decl(du if unknown else t, "(*%s)")
                if w == "glob": glob.append("static %s%s%s = %s;" % (al, q, decl(du, "@" + nm), txt)); obj = "@" + nm
                elif w == "extern": glob.append("%s%s%s = %s;" % (al, q, decl(du, "@" + nm), txt)); obj = "@" + nm
                elif w == "flit":
                    ty = decl(du, "")
                    glob.append("static %s = &(%s)%s;" % (q + decl(du, "(*@%s)" % nm), ty, txt if txt.startswith("{") else "{%s}" % txt)); obj = "(*@%s)" % nm
                if w in ("glob", "extern", "flit"):
                    code.append("\t{\n%s\t}\n" % (I.dump(t, obj) + "\tobs(sizeof %s);\n" % obj if not (w == "flit" and unknown) else I.dump(t, obj)))
                    continue
                if w == "auto": body = "\t%s%s%s = %s;\n" % (al, q, d, txt); obj = nm
                elif w == "sloc": body = "\tstatic %s%s%s = %s;\n" % (al, q, d, txt); obj = nm
                elif w == "slit":
                    body = "\tstatic %s = %s;\n" % (q + d, txt); obj = nm
                elif w in ("lit", "arg"):
                    body = "\t%s = &(%s)%s;\n" % (q + decl(du, "(*%s)" % nm), decl(du, ""), txt if txt.startswith("{") else "{%s}" % txt); obj = "(*%s)" % nm
                    labels.add("lit")
                elif w == "loop":
                    body = "\tfor (int k = 0; k < 2; k++) {\n\t%s%s = %s;\n%s\tfor (unsigned i = 0; i < sizeof %s; i++) ((char *)&%s)[i] = -1;\n\t}\n" % (al, d, txt, I.dump(t, nm), nm, nm); obj = None
                if obj:
                    body += I.dump(t, obj)
                    if not (unknown and obj.startswith("(*")): body += "\tobs(sizeof %s);\n" % obj
                    if al and w in ("auto", "sloc"): body += "\tobs((unsigned long)&%s %% _Alignof(%s));\n" % (obj, decl(t, ""))
                code.append("\t{\n\t%s\n%s\t}\n" % (decls, body))
        for i in range(s.weighted([(3, 0), (2, 1), (1, 2)])):
            code.append("\t{\n\t%s\t}\n" % self_ref(s, g)); labels.add("self-reference"); items += 2
        text = "".join(record_def(t) for t in g.defs) + "\n".join(glob) + "\n" + "\n".join(funs) + "\nstatic void @dirty(void) { volatile char b[3000]; for (int i = 0; i < 3000; i++) b[i] = 0xA7; }\n"
        if len(code) > 1 and s.draw(2):
            text += "".join("static void @run%d(void) {\n%s}\n" % (k, c) for k, c in enumerate(code))
            text += "void @case(void) {\n%s}\n" % "".join("\t@dirty(); @run%d();\n" % k for k in range(len(code)))
        else:
            text += "static void @run(void) {\n%s}\nvoid @case(void) { @dirty(); @run(); }\n" % "".join(code)
        return Case(text, nontrivial=items >= 3 and bool(labels & {"elided", "designator", "nested-brace"} or any(l.startswith("string") for l in labels)), labels=sorted(labels))

CHECK = InitCheck()
