"""C09: calls between code of the compiler under test and gcc, in both directions."""
import cc, diffrun
from c01 import ExprCheck
from engine import Case
from cexpr import *
from cty import *
from diffrun import Split

class Fn:
    __slots__ = ("name", "ret", "params", "side", "variadic", "callees", "text", "named")

class CallCheck(ExprCheck):
    prop = "C09"
    technique = "property-based differential testing: random signatures, caller and callee split between the compiler under test and gcc -O2, compared with an all-gcc build, with shrinking"
    level_note = "Sampled signatures and values; gcc on x86-64 Linux is the reference of the System V ABI."
    batch = 12
    rule = ("2-5 functions with random return and 0-14 parameter types (integers, pointers, float, double, structs and unions of 1-40 bytes with nesting, arrays, bit-fields, packing, over-alignment), each compiled by the compiler "
            "under test or by gcc -O2 at random and calling each other directly, through pointers, nested in arguments; every scalar of every argument and result is observed on the far side. "
            "The harness checks callee-saved registers, the stack pointer and stack alignment. Non-trivial: at least one call crosses the compilers with 3 or more parameters or an aggregate.")
    ms = False
    maxpar = 14
    def setup(self, work):
        self.cc = cc.build(work)
        self.h = diffrun.build_harness(work)
        self.diff = diffrun.Diff(self.cc, self.h, splits=True)
    def evaluate(self, cases, d):
        return self.diff.evaluate([c.data for c in cases], d)
    def replay_files(self, case):
        if case.data is None: return {}
        return {"cc.c": diffrun.DECLS + (case.data.common + case.data.cc).replace("@", "x_"), "gcc.c": diffrun.DECLS + (case.data.common + case.data.gcc).replace("@", "x_")}
    scal = INTS + FLOATS
    # types
    def ptype(self):
        s = self.s
        k = s.weighted([(5, "i"), (4, "f"), (1, "p"), (6, "r"), (3, "sr")])
        if k == "i": return T("s", ty=s.pick(self.ints))
        if k == "f": return T("s", ty=s.pick(FLOATS))
        if k == "p": return T("p", ty=s.pick([CHAR, INT, DOUBLE]))
        if k == "r" and self.g.defs: return s.pick(self.g.defs)
        if k == "r" and s.draw(3): return self.g.record()
        # a small record of a few scalars: interesting classes
        t = T("r", union=s.chance(1, 6) and not self.bools, members=[])
        if s.chance(1, 4):
            # every size, in one class
            u = s.pick([CHAR, CHAR, SHORT, FLOAT, INT])
            t.members.append(Member(self.g.fname(), T("a", elem=T("s", ty=u), n=s.range(1, 17 // u.size))))
            t.union = False
            t.tag = "@S%d" % self.g.nrec; self.g.nrec += 1; self.g.defs.append(t)
            return t
        for _ in range(s.range(1, 4)):
            u = T("s", ty=s.pick([CHAR, INT, LLONG, FLOAT, DOUBLE, FLOAT, SHORT]))
            if s.chance(1, 4): u = T("a", elem=u, n=s.range(1, 3))
            m = Member(self.g.fname(), u)
            if s.chance(1, 16): m.align = s.pick(["8", "16"])
            t.members.append(m)
        t.tag = "@S%d" % self.g.nrec; self.g.nrec += 1; self.g.defs.append(t)
        return t
    def start(self, s):
        self.s = s
        self.bools = s.chance(1, 4)
        self.ints = [t for t in INTS if (self.bools or t is not BOOL) and (not self.ms or t.tid not in (LONG.tid, ULONG.tid))]
        bf = [t for t in [INT, UINT, UCHAR, SCHAR, SHORT, USHORT, LONG, ULONG, LLONG, ULLONG] if not self.ms or t.tid not in (LONG.tid, ULONG.tid)]
        self.g = TypeGen(s, depth=s.range(0, 2), maxmem=s.range(1, 5), maxarr=3, bools=self.bools, unions=not self.bools, ints=self.ints, bftypes=bf, unnamed=False, bitfields=not self.ms)
        self.nv = 0
        self.cross = 0
    def tn(self, t): return tname(t) if t.kind != "p" else "%s *" % (t.ty.name)
    def proto(self, f):
        ps = [self.tn(p) for p in f.params] + (["..."] if f.variadic else [])
        return "%s %s%s(%s);\n" % (self.tn(f.ret) if f.ret else "void", "ABI " if self.ms else "", f.name, ", ".join(ps) or "void")
    def newfn(self, i):
        s = self.s
        f = Fn()
        f.name = "@f%d" % i
        f.ret = self.ptype() if s.draw(5) else None
        n = s.weighted([(4, "few"), (3, "many")])
        n = s.range(0, 4) if n == "few" else s.range(0, self.maxpar) if s.draw(2) else s.range(6, 12)
        f.params = [self.ptype() for _ in range(n)]
        f.variadic = False
        f.side = s.draw(2)
        return f
    def objects(self, t, pre):
        """A static object of type t filled with some value: (declaration, fill, name)"""
        s = self.s
        self.nv += 1
        n = "@%s%d" % (pre, self.nv)
        return "static %s;\n" % decl(t, n), fill_code(s, t, n, self.bools), n
    def arg(self, t, fns, sc, depth):
        """Expression for an argument; declarations go to sc."""
        s = self.s
        if depth > 0 and not sc.get("nested") and s.chance(1, 4):
            c = [f for f in fns if f.ret is t or (f.ret and f.ret.kind == "s" and t.kind == "s" and f.ret.ty is t.ty)]
            c = [f for f in c if not f.variadic]
            if c:
                sc["nested"] = 1        # one per argument list: their order is unspecified
                e = self.call(s.pick(c), fns, sc, depth - 1)
                sc["nested"] = 1
                return e
        k = s.draw(4)
        if t.kind == "s" and k == 1:
            v = gen_value(s, t.ty) if t.ty.isint else gen_float(s, t.ty, True)
            return literal(v, t.ty)
        d, fill, n = self.objects(t, "a")
        sc["glob"].append(d); sc["pre"].append(fill)
        if k == 2:
            sc["loc"].append("\t%s;\n" % decl(t, "l" + n[1:])); sc["pre"].append("\tl%s = %s;\n" % (n[1:], n))
            sc.setdefault("after", []).append((t, "l" + n[1:]))
            return "l" + n[1:]
        if k == 3 and t.kind == "r":
            sc["loc"].append("\t%s = &%s;\n" % (decl(t, "(*q%s)" % n[1:]), n))
            return "*q" + n[1:]
        return n
    def call(self, f, fns, sc, depth):
        s = self.s
        sc["nested"] = 0
        args = []
        for p in f.params:
            args.append(self.arg(p, fns, sc, depth))
            if sc["nested"]: depth = 0
        if f.side != sc["side"] and (len(args) >= 3 or any(p.kind == "r" for p in f.params + [f.ret] if p)):
            self.cross += 1
        if s.chance(1, 5):
            self.nv += 1
            sc["loc"].append("\t%s (%s*volatile fp%d)(%s) = %s;\n" % (self.tn(f.ret) if f.ret else "void", "ABI " if self.ms else "", self.nv, ", ".join(self.tn(p) for p in f.params) or "void", f.name))
            return "%s(%s)" % (s.pick(["fp%d", "(*fp%d)"]) % self.nv, ", ".join(args))
        return "%s(%s)" % (f.name, ", ".join(args))
    def callstmts(self, f, fns, sc, depth=1):
        """Statements that call f, observe its result, and what the call must leave alone."""
        s = self.s
        sc["after"] = []
        if s.chance(1, 4):
            # objects that only live across the call
            for _ in range(s.range(1, 4)):
                self.nv += 1
                t = s.pick([LLONG, DOUBLE, INT])
                sc["loc"].append("\t%s w%d;\n" % (t.name, self.nv)); sc["pre"].append("\tw%d = @v%d + %d;\n" % (self.nv, t.size, s.draw(100)))
                sc["after"].append((T("s", ty=t), "w%d" % self.nv))
        return self.callstmt(f, fns, sc, depth) + "".join(dump_code(t, n) for t, n in sc["after"] if s.chance(2, 3))
    def callstmt(self, f, fns, sc, depth=1):
        s = self.s
        e = self.call(f, fns, sc, depth)
        pre = "".join(sc["pre"]); sc["pre"] = []
        if not f.ret:
            return pre + "\t%s;\n" % e
        self.nv += 1
        r = "r%d" % self.nv
        k = s.draw(4)
        if f.ret.kind == "r" and k == 0:
            lv = list(leaves(f.ret))
            if lv:
                p, t, b = s.pick(lv)
                return pre + "\t%s\n" % obs_code(t, "%s%s" % (e, p))
        if f.ret.kind == "r" and k == 1:
            sc["loc"].append("\t%s[2];\n" % decl(f.ret, r).replace("[2]", ""))
            return pre + "\t%s[%s] = %s;\n%s" % (r, s.draw(2), e, "") + dump_code(f.ret, "%s[%d]" % (r, 0), 1) if False else pre + "\t%s[1] = %s;\n" % (r, e) + dump_code(f.ret, "%s[1]" % r, 1)
        if f.ret.kind == "s" and k == 0:
            return pre + "\t%s\n" % obs_code(f.ret, e)
        sc["loc"].append("\t%s;\n" % decl(f.ret, r))
        return pre + "\t%s = %s;\n" % (r, e) + dump_code(f.ret, r)
    def body(self, f, i, fns):
        s = self.s
        sc = dict(glob=[], pre=[], loc=[], side=f.side)
        ps = ["p%d" % k for k in range(len(f.params))]
        out = ""
        early = f.ret and f.ret.kind == "r" and s.chance(1, 3)
        if early:
            # the members of the result come straight from the parameters: they may be written while parameters are still to be read
            d, fill, n = self.objects(f.ret, "r")
            sc["glob"].append(d); sc["loc"].append("\t%s;\n" % decl(f.ret, "res"))
            pre = fill + "\tres = %s;\n" % n
            src = [(t, p) for t, p in zip(f.params, ps) if t.kind == "s"]
            for path, t, bits in leaves(f.ret):
                c = [p for u, p in src if t.kind == "s" and u.ty.isint == t.ty.isint]
                if c and s.draw(4): pre += "\tres%s = %s;\n" % (path, s.pick(c[-3:] if s.draw(2) else c))
            if s.draw(2):
                return "".join(sc["glob"]) + self.head(f, ps) + "".join(sc["loc"]) + pre + "\treturn res;\n}\n"
            out += pre
        out += "".join(dump_code(t, p) for t, p in zip(f.params, ps))
        # live values across the calls
        live = []
        for k in range(s.draw(6)):
            t = s.pick([INT, LLONG, DOUBLE, UINT])
            sc["loc"].append("\t%s lv%d;\n" % (t.name, k)); out += "\tlv%d = @v%d + %d;\n" % (k, t.size, k); live.append((t, "lv%d" % k))
        if s.chance(1, 8):
            sc["loc"].append("\t_Alignas(%s) char big[64];\n" % s.pick(["32", "64", "16"])); out += "\tobs((unsigned long long)big & 15);\n"
        below = fns[:i]
        for _ in range(s.draw(3) if below else 0):
            out += self.callstmts(s.pick(below), below, sc)
        if s.draw(2):
            for t, p in zip(f.params, ps):
                if t.kind != "p" and s.draw(2): out += fill_code(s, t, p, self.bools)
        out += "".join("\t%s\n" % obs_code(T("s", ty=t), n) for t, n in live)
        if s.draw(2): out += "".join(dump_code(t, p) for t, p in zip(f.params, ps) if s.draw(2))
        if early:
            out += "\treturn res;\n"
        elif f.ret:
            same_ = [p for t, p in zip(f.params, ps) if t is f.ret or (t.kind == "s" == f.ret.kind and t.ty is f.ret.ty)]
            if same_ and s.draw(2):
                out += "\treturn %s;\n" % s.pick(same_)
            else:
                d, fill, n = self.objects(f.ret, "r")
                sc["glob"].append(d); out += fill
                k = s.draw(3)
                if k == 0: out += "\treturn %s;\n" % n
                elif k == 1: sc["loc"].append("\t%s;\n" % decl(f.ret, "res")); out += "\tres = %s;\n\treturn res;\n" % n
                else: sc["loc"].append("\t%s = &%s;\n" % (decl(f.ret, "(*res)"), n)); out += "\treturn *res;\n"
        return "".join(sc["glob"]) + self.head(f, ps) + "".join(sc["loc"]) + out + "}\n"
    def head(self, f, ps):
        return "%s %s%s(%s) {\n" % (self.tn(f.ret) if f.ret else "void", "ABI " if self.ms else "", f.name, ", ".join(decl(t, p) for t, p in zip(f.params, ps)) or "void")
    def generate(self, s):
        self.start(s)
        fns = [self.newfn(i) for i in range(s.range(1, 4))]
        return self.finish(fns)
    def main(self, parts, sc, main):
        head = "void ABI @body(void)" if self.ms else "void @case(void)"
        parts[sc["side"]] += "".join(sc["glob"]) + head + " {\n\tobs(1);\n" + "".join(sc["loc"]) + main + "}\n"
        if self.ms: parts[0] = "void ABI @body(void);\n" + parts[0] + "void @case(void) { mscall(@body); }\n"
        return parts
    def finish(self, fns):
        s = self.s
        parts = ["", ""]
        for i, f in enumerate(fns):
            parts[f.side] += self.body(f, i, fns)
        sc = dict(glob=[], pre=[], loc=[], side=s.draw(2))
        main = "".join(self.callstmts(s.pick(fns) if k else fns[-1], fns, sc, 2) for k in range(s.range(1, 3)))
        parts = self.main(parts, sc, main)
        common = "".join(record_def(t) for t in self.g.defs) + "static volatile int @v4 = 5; static volatile long long @v8 = 77;\n" + "".join(self.proto(f) for f in fns)
        common = common.replace("static volatile int @v4", "static volatile int @v4") 
        data = Split(common, parts[1], parts[0])
        labels = ["params:%d" % min(9, len(f.params)) for f in fns] + ["ret:" + (f.ret.kind if f.ret else "void") for f in fns]
        return Case("/* common */\n" + common + "/* compiled by the compiler under test */\n" + parts[1] + "/* compiled by gcc */\n" + parts[0], nontrivial=self.cross > 0, labels=labels, data=data)

CHECK = CallCheck()
