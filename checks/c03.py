"""C03: constant expressions against run-time evaluation and gcc."""
from c01 import ExprCheck
from engine import Case
from cexpr import *

KINDS = [(2, "leaf"), (9, "bin"), (3, "un"), (4, "cast"), (2, "cond"), (2, "logic"), (1, "sizeof")]

class ConstCheck(ExprCheck):
    prop = "C03"
    technique = "property-based testing: random constant expressions evaluated in every constant context, against run-time evaluation of the same expression and gcc, with shrinking"
    level_note = "Sampled expressions; gcc and an exact evaluator are the reference."
    rule = ("random constant expressions over integer constants of every base/suffix/type, character constants and floating constants; each is placed in a static initialiser, enumerator, array bound, case label, "
            "bit-field width, _Static_assert and folded expression and also evaluated at run time from volatile operands; all must agree with gcc. Non-trivial: at least 4 operators.")
    def generate(self, s):
        stats = {}
        top, body = [], []
        nf = 0
        def gen(types, depth, kinds=KINDS):
            g = ExprGen(s, [], types, effects=False, stats=stats)
            g.spell = True
            g.kinds = kinds
            return g.full(depth, s.range(4, 20))
        for n in range(s.range(1, 5)):
            fl = s.chance(1, 4)
            e = gen(INTS + FLOATS * 3 if fl else INTS, s.range(0, 4))
            isf = e.ty.kind == "f"
            k = s.weighted([(3, "static"), (2, "runtime"), (2, "enum"), (2, "bound"), (2, "case"), (1, "bits"), (2, "assert"), (1, "lit"), (1, "nested"), (1, "local"), (1, "elem"), (2, "conv")])
            if k == "conv":
                # integer constants converted to floating types, implicitly and explicitly, in initialisers and folded
                t = s.pick(FLOATS)
                for i in range(s.range(1, 3)):
                    it = s.pick([INT, UINT, LONG, ULONG, LONG, ULONG])
                    lit = literal(gen_value(s, it, s.pick(["tie", "tie", "edge", "rand"])), it)
                    c = s.pick(["%s", "(" + t.name + ")%s", "%s + (" + t.name + ")0", "1 ? %s : (" + t.name + ")1", "(" + t.name + ")0 - %s"]) % lit
                    top.append("static %s @v%d_%d = %s; static volatile %s @w%d_%d = %s;" % (t.name, n, i, c, it.name, n, i, lit))
                    body.append("\t%s %s %s" % (self.obs(t, "@v%d_%d" % (n, i)), self.obs(t, "(%s)(%s)" % (t.name, c)), self.obs(t, "(%s)@w%d_%d" % (t.name, n, i))))
                    stats["conv"] = stats.get("conv", 0) + 2
                continue
            # integer constant expressions may not contain floating operands except as cast operands; keep those contexts to pure integer expressions
            if fl and k not in ("static", "runtime", "local", "elem"):
                k = "static"
            x = e.t
            if k in ("static", "local", "elem"):
                t = s.pick(INTS + FLOATS) if fl else s.pick(INTS)
                v = convert(e.v, e.ty, t)
                if v is None:
                    t = e.ty
                if k == "static":
                    top.append("static %s @v%d = %s;" % (t.name, n, x)); r = "@v%d" % n
                elif k == "elem":
                    top.append("static %s @v%d[3] = {[1] = %s};" % (t.name, n, x)); r = "@v%d[1]" % n
                    body.append("\tobsm(@v%d, sizeof @v%d);" % (n, n)) if t.isint else None
                else:
                    body.append("\tstatic %s v%d = %s;" % (t.name, n, x)); r = "v%d" % n
                body.append("\t%s" % self.obs(t, r))
                body.append("\tobs(TID(%s)); %s" % (x, self.obs(e.ty, par(e, 2))))
            elif k == "runtime":
                # the same tree, with its leaves read from volatile objects
                g = ExprGen(s, [], INTS if not fl else INTS + FLOATS * 3, effects=False, stats=stats)
                vs = []
                for i in range(s.range(1, 3)):
                    t = s.pick([t for t in g.types if t.kind == "f" or t.rank >= 3])
                    v = gen_value(s, t)
                    top.append("static volatile %s @w%d_%d = %s;" % (t.name, n, i, literal(v, t)))
                    vs.append(Var("@w%d_%d" % (n, i), t, v, const=True))
                g2 = ExprGen(s, vs, g.types, effects=False, stats=stats)
                g2.kinds = KINDS; g2.spell = True
                e = g2.full(s.range(1, 3), 12)
                ct = e.t
                for v in vs:
                    ct = ct.replace(v.lv, "(%s)" % literal(v.val, v.ty))
                body.append("\t%s %s obs(TID(%s)); obs(TID(%s));" % (self.obs(e.ty, par(e, 2)), self.obs(e.ty, "(" + ct + ")"), e.t, ct))
                if e.ty.isint and not fl:
                    top.append("static %s @c%d = %s;" % (e.ty.name, n, ct))
                    body.append("\t" + self.obs(e.ty, "@c%d" % n))
            elif k == "enum":
                if not INT.lo <= e.v <= INT.hi:
                    x = "(int)(%s)" % x
                v = wrap(e.v, INT)
                nxt = ", @F%d" % n if v < INT.hi else ""
                top.append("enum { @E%d = %s%s };" % (n, x, nxt))
                body.append("\tobsi(@E%d); obs(TID(@E%d)); obs(sizeof @E%d);" % (n, n, n))
                if nxt:
                    body.append("\tobsi(@F%d); obs(TID(@F%d));" % (n, n))
            elif k == "bound":
                m = s.pick([7, 15, 255])
                top.append("static unsigned char @b%d[((%s) & %d) + 1];" % (n, x, m))
                body.append("\tobs(sizeof @b%d); { char l[2][((%s) & %d) + 1]; obs(sizeof l); }" % (n, x, m))
            elif k == "case":
                t = s.pick(INTS)
                e2 = gen(INTS, 2)
                pt = promote(t)
                vals = {convert(e.v, e.ty, pt), convert(e2.v, e2.ty, pt)}
                lab2 = "\tcase %s: obs(2); break;\n" % e2.t if len(vals) == 2 else ""
                cv = s.pick([wrap(e.v, t), wrap(e2.v, t), gen_value(s, t)])
                body.append("\t{ %s sw = %s;\n\tswitch (sw) {\n\tcase %s: obs(1); break;\n%s\tdefault: obs(3); }\n\t}" % (t.name, literal(cv, t), x, lab2))
            elif k == "bits":
                body.append("\t{ struct { unsigned f: ((%s) & 15) + 1; } b; b.f = -1; obs(b.f); obs(sizeof b); }" % x)
            elif k == "assert":
                body.append("\t_Static_assert((%s) == %s, \"value\"); _Static_assert(TID(%s) == %d, \"type\");" % (x, literal(e.v, e.ty), x, e.ty.tid))
                top.append("_Static_assert(sizeof(%s) == %d && !((%s) != %s), \"\");" % (x, e.ty.size, x, literal(e.v, e.ty)))
                if s.draw(2):
                    top.append("_Static_assert(1 || (%s) / 0, \"short circuit\"); _Static_assert(%s || 1, \"\");" % (x, par(e, 4)))
            elif k == "lit":
                t, ty, v = int_spelling(s)
                body.append("\tobs(TID(%s)); obs(%s); obs(sizeof(%s));" % (t, t, t))
                c = s.pick(["'\\0'", "'\\n'", "'\\x7f'", "'\\377'", "'\\xff'", "'a'", "L'x'", "u'\\u00e9'", "U'\\U0001F600'", "'\\''", "'\"'", "'\\\\'", "L'\\xffff'", "'\\a'", "'\\v'", "'?'"])
                body.append("\tobsi(%s); obs(sizeof(%s)); obs(TID(%s));" % (c, c, c))
            else:
                e2 = gen(INTS, 2)
                body.append("\tobs(sizeof(char[((%s) & 7) + 1][((%s) & 3) + 1])); obs(_Alignof(struct { char a[((%s) & 7) + 1]; %s b; }));" % (x, e2.t, x, s.pick(INTS).name))
            body.append("\tobs(%d);" % n)
        text = "\n".join(top) + "\nvoid @case(void) {\n" + "\n".join(body) + "\n}\n"
        nops = sum(stats.values())
        return Case(text, nontrivial=nops >= 4, labels=sorted(stats))

CHECK = ConstCheck()
