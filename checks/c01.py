"""C01: integer expressions against gcc (and an exact evaluator that keeps them UB-free)."""
import os
import cc, diffrun
from engine import Check, Case, OK, FAIL
from cexpr import *

class ExprCheck(Check):
    prop = "C01"
    technique = "property-based testing: random typed UB-free integer expression programs, differential against gcc, with shrinking"
    level_note = "Sampled: thousands of generated programs per run; trusts gcc/clang as the C17 reference and the generator's exact evaluator to exclude undefined behaviour."
    types = INTS
    batch = 24
    quick_cases = 100000
    quick_time = 35.0
    thorough_cases = 4000000
    rule = ("random typed expression programs, UB-free by exact evaluation; each is compiled by the compiler under test and by gcc -O0, both are run, and every "
            "observed value, type id, size and final object value must agree. Non-trivial: at least 6 operators and at least two different operand types.")
    assumptions = ["gcc 13 is the reference for C17/x86-64 semantics; a disagreement counts only when gcc -O0, gcc -O2, clang -O0, clang -O2 and a UBSan build of gcc all agree with each other"]
    ccflags = ()
    mode = "c"
    def setup(self, work):
        self.cc = cc.build(work)
        self.h = diffrun.build_harness(work)
        self.diff = diffrun.Diff(self.cc, self.h, ccflags=self.ccflags, mode=self.mode, decls=diffrun.DECLS + TYPEID_MACRO)
    def evaluate(self, cases, d):
        return self.diff.evaluate([c.text for c in cases], d)
    def replay_files(self, case):
        return {"case.c": diffrun.DECLS + TYPEID_MACRO + case.text.replace("@", "x_")}
    # generation
    def mkvars(self, s):
        """Declarations and variables of all lvalue kinds."""
        glob, loc, params, args, obs = [], [], [], [], []
        vars = []
        n = s.range(3, 8)
        for i in range(n):
            t = s.pick(self.types)
            v = gen_value(s, t)
            k = s.weighted([(4, "local"), (2, "param"), (2, "global"), (2, "deref"), (2, "elem"), (2, "member"), (1, "slocal"), (1, "arrow")])
            c = literal(v, t)
            if k == "local":
                loc.append("\t%s x%d = %s;" % (t.name, i, c)); vars.append(Var("x%d" % i, t, v, kind=k))
            elif k == "param":
                params.append("%s p%d" % (t.name, i)); args.append(c); vars.append(Var("p%d" % i, t, v, kind=k))
            elif k == "global":
                glob.append("static %s @g%d = %s;" % (t.name, i, c)); vars.append(Var("@g%d" % i, t, v, kind=k))
            elif k == "slocal":
                loc.append("\tstatic %s x%d = %s;" % (t.name, i, c)); vars.append(Var("x%d" % i, t, v, kind=k))
            elif k == "deref":
                if s.draw(2):
                    glob.append("static %s @t%d = %s;" % (t.name, i, c)); tgt = "@t%d" % i
                else:
                    loc.append("\t%s t%d = %s;" % (t.name, i, c)); tgt = "t%d" % i
                loc.append("\t%s *q%d = &%s;" % (t.name, i, tgt)); vars.append(Var("(*q%d)" % i, t, v, kind=k)); obs.append(tgt)
            elif k == "elem":
                m = s.range(2, 4); j = s.draw(m)
                vals = [v if e == j else gen_value(s, t) for e in range(m)]
                st = s.draw(2)
                name = "@a%d" % i if st else "a%d" % i
                (glob if st else loc).append("%s%s %s[%d] = {%s};" % ("static " if st else "\t", t.name, name, m, ", ".join(literal(x, t) for x in vals)))
                ix = str(j)
                if s.draw(2):
                    loc.append("\tint i%d = %d;" % (i, j)); ix = "i%d" % i
                vars.append(Var("%s[%s]" % (name, ix), t, v, kind=k))
                for e in range(m):
                    if e != j:
                        obs.append("%s[%d]" % (name, e))
            else:
                t2, t3 = s.pick(self.types), s.pick(self.types)
                v2, v3 = gen_value(s, t2), gen_value(s, t3)
                st = s.draw(2)
                name = "@s%d" % i if st else "s%d" % i
                (glob if st else loc).append("%sstruct { %s a; %s b; %s c; } %s = {%s, %s, %s};" % ("static " if st else "\t", t2.name, t.name, t3.name, name, literal(v2, t2), c, literal(v3, t3)))
                if k == "arrow":
                    loc.append("\t__typeof__(%s) *w%d = &%s;" % (name, i, name) if False else "\tvoid *w%d = &%s;" % (i, name))
                    vars.append(Var("%s.b" % name, t, v, kind="member"))
                else:
                    vars.append(Var("%s.b" % name, t, v, kind=k))
                obs += ["%s.a" % name, "%s.c" % name]
                for nm, tt, vv in (("a", t2, v2), ("c", t3, v3)):
                    if s.draw(2):
                        vars.append(Var("%s.%s" % (name, nm), tt, vv, kind=k))
        return vars, glob, loc, params, args, obs
    def obs(self, t, e):
        return ("obsf(%s);" if t.tid == FLOAT.tid else "obsd(%s);" if t.kind == "f" else "obs(%s);") % e
    def statement(self, s, g, stats, body, n):
        e = g.full(s.range(1, 4), s.range(6, 30))
        k = s.weighted([(6, "obs"), (2, "init"), (1, "if"), (2, "type"), (1, "not"), (1, "ret"), (2, "stmt")])
        f = e.ty.kind == "f"
        if k == "obs":
            body.append("\t" + self.obs(e.ty, par(e, 2)))
        elif k == "init":
            t = s.pick(self.types)
            v = convert(e.v, e.ty, t)
            if v is None:
                t, v = e.ty, e.v
            body.append("\t%s n%d = %s; %s" % (t.name, n, par(e, 2), self.obs(t, "n%d" % n)))
            g.vars.append(Var("n%d" % n, t, v))
        elif k == "if":
            body.append("\tif (%s) obs(%d); else obs(%d);" % (e.t, 2 * n, 2 * n + 1))
        elif k == "type":
            body.append("\tobs(TID(%s)); obs(sizeof(%s)); %s" % (e.t, e.t, self.obs(e.ty, par(e, 2))))
        elif k == "not":
            body.append("\tobsi(!(%s));" % e.t)
        elif k == "ret":
            body.append("\t%s" % self.obs(e.ty, "@i%d(%s)" % (e.ty.tid, par(e, 2))))
        else:
            body.append("\t%s;" % e.t)
        return e
    def generate(self, s):
        vars, glob, loc, params, args, obs = self.mkvars(s)
        stats = {}
        funs = {t.tid: "@i%d" % t.tid for t in self.types}
        g = ExprGen(s, vars, self.types, funs, stats=stats)
        body = []
        for n in range(s.range(1, 7)):
            self.statement(s, g, stats, body, n)
            if s.chance(1, 3):
                for v in vars:
                    body.append("\t" + self.obs(v.ty, v.lv))
        for v in g.vars:
            body.append("\t" + self.obs(v.ty, v.lv))
        for o in obs:
            body.append("\t" + "OB(%s);" % o)
        text = "".join("static %s @i%d(%s x) { return x; }\n" % (t.name, t.tid, t.name) for t in dict.fromkeys(self.types))
        text += "\n".join(glob) + "\nstatic void @run(%s) {\n" % (", ".join(params) or "void") + "\n".join(loc) + "\n" + "\n".join(body) + "\n}\nvoid @case(void) { @run(%s); }\n" % ", ".join(args)
        text = text.replace("OB(", "obs(" if self.types is INTS else "obsd(")
        nops = sum(stats.values())
        tys = {v.ty.tid for v in vars}
        return Case(text, nontrivial=nops >= 6 and len(tys) >= 2, labels=sorted(stats) + ["kind:" + k for k in {v.kind for v in vars}] + ["ty:" + v.ty.name for v in vars])

CHECK = ExprCheck()
