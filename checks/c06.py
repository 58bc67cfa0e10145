"""C06: sizes, alignments, offsets, bit-field positions and object addresses against gcc."""
import cc, diffrun
from engine import Check, Case
from cty import *
from c01 import ExprCheck

class LayoutCheck(ExprCheck):
    prop = "C06"
    technique = "property-based testing: random type definitions, layout observed by program and compared with gcc, with shrinking"
    level_note = "Sampled type definitions; trusts gcc as the reference of the x86-64 System V layout rules (including its treatment of packed and pragma pack)."
    batch = 24
    rule = ("random struct/union/array types (nested, anonymous, bit-fields of every declared type and width, zero-width, packed attribute, pragma pack, flexible arrays, _Alignas members); "
            "observed: sizeof, _Alignof, offsetof of every member, the byte image after writing each bit-field over all-zero and all-one backgrounds, and the address residues of static, automatic, parameter and _Alignas objects. "
            "Non-trivial: a record with at least 3 members, and either nesting, bit-fields or packing.")
    assumptions = ["gcc 13 on x86-64 Linux defines the ABI"]
    def generate(self, s):
        g = TypeGen(s, depth=s.range(0, 3), flex=True, alignas=True)
        t = g.record()
        roots = [t]
        if s.chance(1, 2):
            roots.append(g.type())
        body, objs = [], []
        pre = []
        nb = 0
        for ri, r in enumerate(roots):
            nm = tname(r) if r.kind != "a" else decl(r, "")
            body.append("\tobs(sizeof(%s)); obs(_Alignof(%s));" % (nm, nm))
            if r.kind == "r":
                for p, m, bits in members_flat(r):
                    if bits is None:
                        if m.kind == "a" and m.n is None:
                            body.append("\tobs((unsigned long)__builtin_offsetof(%s, %s));" % (nm, p[1:]) if False else "\tobs((unsigned long)&((%s *)0)->%s);" % (nm, p[1:]))
                        else:
                            body.append("\tobs((unsigned long)&((%s *)0)->%s); obs(sizeof(((%s *)0)->%s));" % (nm, p[1:], nm, p[1:]))
                bl = [(p, m, b) for p, m, b in members_flat(r) if b is not None]
                if bl:
                    body.append("\tunion { %s; unsigned char c[sizeof(%s)]; } u%d;" % (decl(r, "o"), nm, ri))
                    for p, m, b in bl:
                        nb += 1
                        v = bf_value(s, m.ty, b)
                        for bg in (0, 255):
                            body.append("\tfor (int i = 0; i < (int)sizeof u%d; i++) u%d.c[i] = %d;\n\tu%d.o%s = %s; obsm(&u%d, sizeof(%s)); obs(u%d.o%s);" % (
                                ri, ri, bg, ri, p, literal(v, m.ty), ri, nm, ri, p))
            # objects in memory satisfy their alignment
            for k in range(s.range(0, 3)):
                st = s.draw(3)
                al = s.pick([None, None, 1, 2, 4, 8, 16, 32, 64])
                at = None
                if r.kind == "r" and r.flex:
                    continue
                n = "z%d_%d" % (ri, k)
                d = decl(r, ("@" if st == 2 else "") + n)
                a = "_Alignas(%s) " % al if al and al >= 16 else ""
                mod = "(unsigned long)&%s %% %s" % (("@" if st == 2 else "") + n, al if a else "_Alignof(%s)" % nm)
                if st == 2:
                    pre.append("static char @pad%s = 1;\n%sstatic %s;" % (n, a, d) if s.draw(2) else "static char @pad%s = 1;\nstatic %s%s = {0};" % (n, a, d) if r.kind in "ra" else "static char @pad%s = 1;\nstatic %s%s;" % (n, a, d))
                    objs.append("\tobs(%s); obs(@pad%s);" % (mod, n))
                else:
                    if True and al == 64:
                        a = ""
                        mod = "(unsigned long)&%s %% _Alignof(%s)" % (n, nm)
                    objs.append("\tchar pad%s = 1; %s%s%s; obs(%s); obs(pad%s);" % (n, "static " if st else "", a, d, mod, n))
        text = "".join(record_def(x) for x in g.defs) + "\n".join(pre) + "\nvoid @case(void) {\n" + "\n".join(body + objs) + "\n}\n"
        labels = []
        if nb: labels.append("bitfields")
        if any(x.packed for x in g.defs): labels.append("packed")
        if any(x.packed and x.packed != "attr" for x in g.defs): labels.append("pragma-pack")
        if any(x.flex for x in g.defs): labels.append("flexible")
        if any(x.union for x in g.defs): labels.append("union")
        if len(g.defs) > 1: labels.append("nested")
        if any(m.align for x in g.defs for m in x.members): labels.append("member-alignas")
        if objs: labels.append("objects")
        return Case(text, nontrivial=len(t.members) >= 3 and bool(labels), labels=labels)

CHECK = LayoutCheck()
