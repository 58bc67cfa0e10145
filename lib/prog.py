"""Random multi-function programs with arbitrary control flow.

All operators used are total (unsigned arithmetic, masked shifts, guarded division), every back edge
calls tick(), so every program is well defined and finite.  The text contains markers that a
renderer turns into a plain program or into an equivalent variant (C05):
  $Vn$      use of variable n           $Dn$     declaration of variable n
  $<n$ $>n$ around a statement          $Xn$     point where unused computation may be inserted
  $(n$ $)n$ around an rvalue
"""
import re
from cexpr import *

UT = [UINT, ULONG]
VT = [UINT, ULONG, INT, LONG, UCHAR, CHAR, SHORT, USHORT, BOOL, SCHAR]

class PV:
    __slots__ = ("id", "ty", "ro", "glob", "param", "name", "scope", "loopvar")
    def __init__(self, id, ty, **k):
        self.id, self.ty = id, ty
        for a in self.__slots__[2:]:
            setattr(self, a, k.get(a))

class Prog:
    def __init__(self, s, size=40, floats=False, maxfn=4, gotos=True, switches=True, depth=4):
        self.s, self.size, self.floats, self.depth = s, size, floats, depth
        self.gotos, self.switches = gotos, switches
        self.labels = {}
        self.vars = {}
        self.nv = self.nw = self.nx = self.ne = self.nl = 0
        self.wraps = {}
        self.exprs = {}
        self.points = {}
        self.depthn = 0
        self.maxdepth = 0
        self.stmts = 0
        self.gen(maxfn)
    def note(self, k):
        self.labels[k] = self.labels.get(k, 0) + 1
    # -- variables
    def newvar(self, ty, **k):
        v = PV(self.nv, ty, **k)
        self.nv += 1
        self.vars[v.id] = v
        return v
    def use(self, v):
        return v.name if v.glob else "\x01V%d\x02" % v.id
    # -- expressions: (text, type); wr: may have side effects; ro: only read-only variables may be read
    def rtypes(self):
        return VT + (FLOATS if self.floats else [])
    def readable(self, ro):
        return [v for v in self.scopevars if v.ro or not ro]
    def leaf(self, ro):
        s = self.s
        c = self.readable(ro)
        if c and s.draw(4):
            v = s.pick(c)
            return self.use(v), v.ty
        t = s.pick(UT + [INT, INT])
        v = s.pick([0, 1, 2, 3, 5, 7, 10, 0xff, 0x80, 0x7f, 100])
        if s.chance(1, 6):
            t = s.pick(UT); v = gen_value(s, t)
        return literal(v, t), t
    def expr(self, d, wr=False, ro=False):
        s = self.s
        t, ty = self.expr0(d, wr, ro)
        if s.chance(1, 10):
            n = self.ne; self.ne += 1
            self.exprs[n] = ty
            return "\x01(%d\x02%s\x01)%d\x02" % (n, t, n), ty
        return t, ty
    def conv(self, t, ty):
        return "((%s)(%s))" % (ty.name, t)
    def expr0(self, d, wr, ro):
        s = self.s
        if d <= 0:
            return self.leaf(ro)
        k = s.weighted([(3, "leaf"), (6, "arith"), (3, "cmp"), (2, "bit"), (1, "shift"), (1, "div"), (2, "cast"), (1, "not"), (2, "logic"), (2, "cond"),
                        (1, "comma"), (2 if wr else 0, "call"), (2 if wr else 0, "assign"), (1 if wr else 0, "inc"), (1, "arr")])
        if k == "leaf":
            return self.leaf(ro)
        if k in ("arith", "cmp", "bit", "shift", "div"):
            # at most one operand has side effects; the other reads only read-only objects then
            w = s.draw(3) if wr else 2
            a, at = self.expr(d - 1, wr and w == 0, ro or (wr and w == 1))
            b, bt = self.expr(d - 1, wr and w == 1, ro or (wr and w == 0))
            if k == "cmp":
                if at.isint and bt.isint or s.draw(2):
                    return "(%s %s %s)" % (a, s.pick(["<", ">", "<=", ">=", "==", "!="]), b), INT
                return "(%s %s %s)" % (a, s.pick(["<", ">"]), b), INT
            if k == "arith" and self.floats and (at.kind == "f" or bt.kind == "f"):
                t = usual(at, bt)
                return "(%s %s %s)" % (a, s.pick("+-"), b), t
            if not at.isint: a, at = self.f2i(a, at)
            if not bt.isint: b, bt = self.f2i(b, bt)
            if k == "bit":
                return "(%s %s %s)" % (a, s.pick("&|^"), b), usual(at, bt)
            t = s.pick(UT)
            if k == "arith":
                if at.rank >= 3 and bt.rank >= 3 and not usual(at, bt).signed:
                    return "(%s %s %s)" % (a, s.pick("+-*"), b), usual(at, bt)
                if bt.rank > 3: t = ULONG
                return "((%s)%s %s %s)" % (t.name, a, s.pick("+-*"), b), usual(t, bt)
            if k == "shift":
                op = s.pick(["<<", ">>"])
                if op == "<<" or s.draw(2):
                    a, at = "(%s)%s" % (t.name, a), t
                p = promote(at)
                n = "(%s & %d)" % (b, p.bits - 1) if s.draw(2) else str(s.draw(p.bits))
                return "(%s %s %s)" % (a, op, n), p
            return "((%s)%s %s ((%s)%s | 1))" % (t.name, a, s.pick("/%"), t.name, b), t
        if k == "cast":
            a, at = self.expr(d - 1, wr, ro)
            t = s.pick(self.rtypes())
            if not at.isint and t.isint and t.kind != "b":
                a, at = self.f2i(a, at)
            return "(%s)%s" % (t.name, a), t
        if k == "not":
            a, at = self.expr(d - 1, wr, ro)
            if at.isint and s.draw(2):
                return "(~%s)" % a, promote(at)
            return "(!%s)" % a, INT
        if k == "logic":
            a, _ = self.expr(d - 1, wr, ro)
            b, _ = self.expr(d - 1, wr, ro)
            self.note("logic")
            return "(%s %s %s)" % (a, s.pick(["&&", "||"]), b), INT
        if k == "cond":
            c, _ = self.expr(d - 1, wr, ro)
            a, at = self.expr(d - 1, wr, ro)
            b, bt = self.expr(d - 1, wr, ro)
            self.note("cond")
            return "(%s ? %s : %s)" % (c, a, b), usual(at, bt)
        if k == "comma":
            a, _ = self.expr(d - 1, wr, ro)
            b, bt = self.expr(d - 1, wr, ro)
            self.note("comma")
            return "(%s, %s)" % (a, b), bt
        if k == "call":
            return self.call(d, ro)
        if k == "arr":
            i, it = self.expr(d - 1, wr, ro)
            if ro: return self.leaf(ro)
            if not it.isint: i, it = self.f2i(i, it)
            return "@arr[%s & 7u]" % i, UINT
        w = [v for v in self.scopevars if not v.ro and not v.loopvar]
        if not w or ro:
            return self.leaf(ro)
        v = s.pick(w)
        if k == "inc":
            if v.ty.isint and not v.ty.signed:
                o = s.pick(["++", "--"])
                return ("(%s%s)" % (self.use(v), o) if s.draw(2) else "(%s%s)" % (o, self.use(v))), v.ty
            return self.leaf(ro)
        # assignment: the right operand must not write v; it has no side effects here
        e, et = self.expr(d - 1, False, ro)
        return self.assign(v, e, et), v.ty
    def f2i(self, t, ty):
        return "(%s > 0)" % t, INT
    def assign(self, v, e, et):
        s = self.s
        if v.ty.isint and et.isint and not v.ty.signed and s.draw(3) == 0:
            return "(%s %s= (unsigned long)%s)" % (self.use(v), s.pick(["+", "-", "*", "&", "|", "^"]), e)
        if not et.isint and v.ty.isint and v.ty.kind != "b":
            e, et = self.f2i(e, et)
        return "(%s = %s)" % (self.use(v), e)
    def call(self, d, ro):
        s = self.s
        name, ret, params = s.pick(self.fns)
        args = []
        for p in params:
            # arguments are evaluated in unspecified order: no side effects
            e, et = self.expr(d - 2, False, ro)
            if not et.isint and p.isint:
                e, et = self.f2i(e, et)
            args.append(e)
        self.note("call")
        return "%s(%s)" % (name, ", ".join(args)), ret
    def cond(self, d=2):
        e, t = self.expr(d, wr=self.s.chance(1, 3))
        return e
    # -- statements.  ctx: loop (break/continue allowed), sw (case labels may be added)
    def stmt(self, ctx, ind):
        s = self.s
        self.stmts += 1
        self.maxdepth = max(self.maxdepth, ind)
        if self.left <= 0 or ind > self.depth + 1:
            k = s.weighted([(1, "empty"), (5, "expr"), (4, "obs"), (2 if ctx["loop"] else 0, "break"), (1 if ctx["cont"] else 0, "continue"), (1, "return")])
        else:
            self.left -= 1
            k = s.weighted([(1, "empty"), (7, "expr"), (6, "obs"), (5, "if"), (3, "for"), (2, "while"), (2, "do"), (3 if self.switches else 0, "switch"), (2, "block"),
                            (2 if ctx["loop"] else 0, "break"), (2 if ctx["cont"] else 0, "continue"), (1, "return"),
                            (2 if self.gotos else 0, "goto"), (2 if self.gotos else 0, "label"), (1, "tick"), (1, "loopinf")])
        t = self.st(k, ctx, ind)
        if s.chance(1, 5) and k not in ("label",):
            n = self.nw; self.nw += 1
            self.wraps[n] = not re.search(r"\b(break|continue)\b", t) and not re.search(r"\bcase\b|\bdefault\b|L\d+:", t)
            t = "\x01<%d\x02%s\x01>%d\x02" % (n, t, n)
        if s.chance(1, 8):
            n = self.nx; self.nx += 1
            self.points[n] = [v.id for v in self.scopevars if not v.glob]
            t = "\x01X%d\x02" % n + t
            if k == "label" or ctx.get("single"):
                t = "{ " + t + " }"
        return t
    def st(self, k, ctx, ind):
        s = self.s
        I = "\t" * min(ind, 8)
        if k == "empty":
            return ";"
        if k == "tick":
            return "tick();"
        if k == "expr":
            w = [v for v in self.scopevars if not v.ro and not v.loopvar]
            if not w or s.draw(6) == 0:
                e, t = self.expr(3, wr=True)
                return "%s;" % e
            v = s.pick(w)
            e, et = self.expr(3, wr=False)
            if s.draw(6) == 0:
                i, it = self.expr(1)
                if not it.isint: i, it = self.f2i(i, it)
                return "@arr[%s & 7u] = %s;" % (i, e if et.isint else self.f2i(e, et)[0])
            return "%s;" % self.assign(v, e, et)[1:-1]
        if k == "obs":
            e, et = self.expr(2, wr=s.chance(1, 4))
            if et.kind == "f":
                return "obsd(%s);" % e
            return "obs(%s);" % e
        if k == "break":
            self.note("break"); return "if (%s) break;" % self.cond() if s.draw(3) else "break;"
        if k == "continue":
            self.note("continue"); return "if (%s) continue;" % self.cond() if s.draw(3) else "continue;"
        if k == "return":
            self.note("return")
            r = "return;"
            if self.ret:
                e, et = self.expr(2, wr=True)
                if not et.isint and self.ret.isint: e, et = self.f2i(e, et)
                r = "return %s;" % e
            return "if (%s) %s" % (self.cond(), r) if s.draw(4) else r
        if k == "if":
            self.note("if")
            t = "if (%s) %s" % (self.cond(3), self.body(ctx, ind))
            if s.draw(2):
                t += " else %s" % self.body(ctx, ind)
            elif t.rstrip().endswith("}") is False:
                pass
            return "{ %s }" % t if not t.endswith("}") else t
        if k in ("for", "while", "do", "loopinf"):
            self.note(k)
            c2 = dict(ctx, loop=True, cont=True, single=False)
            n = s.range(1, 6)
            save = list(self.scopevars)
            if k == "loopinf":
                head = s.pick(["for (;;)", "while (1)", "for (;; %s)" % self.cond(1), "do"])
                b = self.body(c2, ind, pre="tick();")
                t = "%s %s" % (head, b)
                if head == "do":
                    t += " while (1);"
            elif k == "for":
                st = s.weighted([(4, "decl"), (2, "old"), (1, "odd")])
                if st == "decl":
                    v = self.newvar(s.pick([UINT, UINT, ULONG, UCHAR, INT]), loopvar=True, name="i")
                    self.scopevars = self.scopevars + [v]
                    u = self.use(v)
                    up = s.draw(2)
                    h = "for (\x01I%d\x02 = %d; %s; %s)" % (v.id, 0 if up else n, "%s < %d" % (u, n) if up else "%s > 0" % u if s.draw(2) else u,
                                                                          s.pick(["%s++", "++%s", "%s += 1"]) % u if up else s.pick(["%s--", "--%s", "%s -= 1"]) % u)
                elif st == "old":
                    h = "for (%s; tickv(%s); %s)" % (self.cond(2) if s.draw(2) else "", self.cond(2), self.cond(2) if s.draw(2) else "")
                else:
                    h = "for (; %s; tick())" % self.cond(2)
                self.nodecl += st == "decl"      # no goto into the scope of the loop variable
                t = "%s %s" % (h, self.body(c2, ind))
                self.nodecl -= st == "decl"
            elif k == "while":
                c = self.cond(2)
                t = "while (%s) %s" % ("tickv(%s)" % c if s.draw(2) else "tick(), %s" % c, self.body(c2, ind))
            else:
                c = self.cond(2)
                t = "do %s while (%s);" % (self.body(c2, ind), "tickv(%s)" % c if s.draw(2) else "(tick(), %s)" % c)
            self.scopevars = save
            return t
        if k == "block":
            self.note("block")
            return self.block(ctx, ind)
        if k == "goto":
            self.note("goto")
            g = "{ tick(); goto \x01L\x02; }"
            return "if (%s) %s" % (self.cond(), g) if s.draw(4) else g
        if k == "label":
            if self.nodecl > 0:
                return "tick();"
            n = self.nl; self.nl += 1
            self.flabels.append("L%d" % n)
            self.note("label")
            return "L%d: %s" % (n, self.stmt(dict(ctx, single=False), ind + 1))
        if k == "switch":
            return self.switch(ctx, ind)
        raise AssertionError(k)
    def body(self, ctx, ind, pre=""):
        s = self.s
        if not pre and s.draw(4) == 0:
            t = self.stmt(dict(ctx, single=True), ind + 1)
            return "{ " + t + " }" if t.startswith(("if", "\x01<", "{ \x01X")) or " if (" in t or t.startswith("L") else t
        return self.block(ctx, ind, pre)
    def block(self, ctx, ind, pre="", decls=True):
        s = self.s
        I = "\t" * min(ind + 1, 8)
        save = list(self.scopevars)
        out = []
        nd = 0
        if decls and s.chance(1, 3):
            nd = s.range(1, 2)
            self.nodecl += 1
            for _ in range(nd):
                v = self.newvar(s.pick(self.rtypes()))
                e, et = self.expr(2)
                if not et.isint and v.ty.isint: e, et = self.f2i(e, et)
                out.append("\x01D%d\x02\x01=%d\x02%s;" % (v.id, v.id, e))
                self.scopevars = self.scopevars + [v]
        if pre:
            out.append(pre)
        for _ in range(s.range(1, 4)):
            out.append(self.stmt(dict(ctx, single=False), ind + 1))
        if nd:
            self.nodecl -= 1
        self.scopevars = save
        return "{\n" + "".join("%s%s\n" % (I, x) for x in out) + "\t" * min(ind, 8) + "}"
    def switch(self, ctx, ind):
        s = self.s
        self.note("switch")
        I = "\t" * min(ind + 1, 8)
        e, t = self.expr(2, wr=s.chance(1, 4))
        if not t.isint: e, t = self.f2i(e, t)
        if s.draw(3):
            # make small values likely
            e, t = "(%s) & %du" % (e, s.pick([3, 7, 15])), usual(promote(t), UINT)
        p = promote(t)
        n = s.range(0, 6)
        used = set()
        consts = []
        for _ in range(n):
            v = s.weighted([(6, "small"), (2, "any")])
            v = s.draw(16) if v == "small" else gen_value(s, s.pick([INT, UINT, LONG, ULONG]))
            v = wrap(v, p)
            if v not in used:
                used.add(v)
                lit = literal(v, p) if s.draw(2) else literal(v, s.pick([q for q in (INT, UINT, LONG, ULONG) if q.lo <= v <= q.hi]))
                consts.append("case %s:" % lit)
        if s.draw(3) or not consts:
            consts.insert(s.draw(len(consts) + 1), "default:")
        c2 = dict(ctx, loop=True, single=False)
        style = s.weighted([(6, "flat"), (2, "nested"), (1, "loop"), (1, "bare")])
        save = list(self.scopevars)
        self.nodecl_save = self.nodecl
        nd0 = self.nodecl
        if style == "bare":
            return "switch (%s) %s" % (e, " ".join(consts) + " " + self.stmt(dict(c2, single=True), ind + 1))
        out = []
        depth = 0
        if style == "loop":
            # Duff's device
            self.note("duff")
            out.append("%s{ do {" % consts[0])
            consts = consts[1:]
            c3 = dict(c2, cont=True)
        else:
            c3 = c2
        i = 0
        open_ = 0
        if s.chance(1, 6):
            out.append(self.stmt(c2, ind + 1))       # unreachable before the first label
        while consts:
            k = min(len(consts), 1 if s.draw(4) else 2)
            lab = " ".join(consts[:k]); consts = consts[k:]
            if style == "nested" and s.draw(3) == 0:
                w = s.pick(["{", "if (%s) {" % self.cond(1), "else_"])
                if w == "else_":
                    out.append("if (%s) obs(1); else {" % self.cond(1))
                else:
                    out.append(w)
                open_ += 1
            out.append(lab + " " + self.stmt(c3, ind + 1))
            for _ in range(s.draw(3)):
                out.append(self.stmt(c3, ind + 1))
            if s.draw(2):
                out.append("break;")
            if open_ and s.draw(3) == 0:
                out.append("}"); open_ -= 1
        out += ["}"] * open_
        if style == "loop":
            out.append("} while (tickv(%s)); }" % self.cond(2))
        self.scopevars = save
        return "switch (%s) {\n" % e + "".join("%s%s\n" % (I, x) for x in out) + "\t" * min(ind, 8) + "}"
    # -- functions
    def function(self, name, ret, params):
        s = self.s
        self.ret = ret
        self.nodecl = 0
        self.flabels = []
        self.left = max(4, self.size // len(self.fns) + s.draw(6) - 3)
        ps = []
        for i, t in enumerate(params):
            ps.append(self.newvar(t, param=True, ro=(i == 0 or s.draw(2) == 0), name="p%d" % i))
        self.scopevars = list(self.globs) + ps
        decls, init = [], []
        for i in range(s.range(1, 5)):
            v = self.newvar(s.pick(self.rtypes()))
            e, et = self.leaf(False)
            if not et.isint and v.ty.isint: e, et = self.f2i(e, et)
            decls.append("\t\x01D%d\x02\n" % v.id)
            init.append("\t\x01=%d\x02%s;\n" % (v.id, e))
            self.scopevars.append(v)
        body = []
        while self.left > 0 and s.draw(30):
            body.append("\t" + self.stmt(dict(loop=False, cont=False, single=False), 1) + "\n")
        fin = "".join("\tobs%s(%s);\n" % ("d" if v.ty.kind == "f" else "", self.use(v)) for v in self.scopevars if not v.glob and s.draw(2))
        end = ""
        if ret:
            e, et = self.expr(2)
            if not et.isint and ret.isint: e, et = self.f2i(e, et)
            end = "\treturn %s;\n" % e
        text = "".join(body)
        if self.flabels:
            text = re.sub(r"\x01L\x02", lambda m: s.pick(self.flabels), text)
        else:
            text = text.replace("goto \x01L\x02;", "obs(77);")
        pd = "".join("\x01P%d\x02" % v.id for v in ps)
        return "%s %s(%s) {\n%s%s\ttick();\n%s%s%s%s}\n" % (ret.name if ret else "void", name, ", ".join("%s \x01N%d\x02" % (v.ty.name, v.id) for v in ps) or "void",
                                                    pd, "".join(decls), "".join(init), text, fin, end)
    def gen(self, maxfn):
        s = self.s
        self.globs = [self.newvar(s.pick(VT), glob=True, name="@g%d" % i) for i in range(s.range(1, 4))]
        n = s.range(1, maxfn)
        self.fns = []
        for i in range(n):
            ret = s.pick([UINT, ULONG, INT, UCHAR, LONG, SHORT] + ([DOUBLE] if self.floats else []) )
            self.fns.append(("@f%d" % i, ret, [s.pick(self.rtypes()) for _ in range(s.range(1, 4))]))
        protos = "".join("static %s %s(%s);\n" % (r.name, f, ", ".join(p.name for p in ps) or "void") for f, r, ps in self.fns)
        self.proto = protos
        self.gdecl = "static unsigned @arr[8];\nstatic volatile unsigned @one, @zero;\n" + "".join("static %s %s;\n" % (v.ty.name, v.name) for v in self.globs)
        self.ginit = "\t@one = 1; @zero = 0; for (int i = 0; i < 8; i++) @arr[i] = i * 0x9e3779b9u;\n" + "".join("\t%s = %s;\n" % (v.name, literal(gen_value(s, v.ty), v.ty)) for v in self.globs)
        self.ftext = ["static " + self.function(*f) for f in self.fns]
        f, r, ps = self.fns[-1]
        self.main = "".join("\tobs%s(%s(%s));\n" % ("d" if self.fns[-1][1].kind == "f" else "", f, ", ".join(literal(gen_value(s, p) if p.isint else gen_float(s, p, True), p) for p in ps)) for _ in range(s.range(1, 3)))
        self.mainend = "".join("\tobs(%s);\n" % v.name for v in self.globs) + "\tfor (int i = 0; i < 8; i++) obs(@arr[i]);\n"
    # -- rendering
    def render(self, s=None, pre="@"):
        """The plain program, or (with a Source) an equivalent variant of it."""
        text = "".join(self.ftext)
        style = {}
        recursive = True
        for i, v in self.vars.items():
            if v.glob:
                continue
            style[i] = s.weighted([(4, "plain"), (2, "vol"), (3, "addr"), (2, "member"), (2, "elem"), (2, "init"), (1, "reg"), (1, "union"), (1, "big"), (2, "mixed"), (1, "pp"), (1, "self"), (1, "self2"), (1, "idp"), (1, "swap")]) if s else "plain"
            if v.loopvar and style[i] not in ("plain", "vol"):
                style[i] = "plain"
        nm = {}
        for i, v in self.vars.items():
            nm[i] = (v.name if v.name and not v.loopvar else "v") + ("" if v.param else "%d" % i if v.loopvar else "%d" % i)
        def base(i):
            return nm[i]
        def use(i):
            st = style[i]
            if st == "mixed": return s.pick(["%s", "(*q%s)"]) % base(i)
            if st in ("self", "self2", "pp", "idp", "swap"): return {"self": "(*(%s *)q%s)" % (self.vars[i].ty.name, base(i)), "self2": "(*(%s *)q%s)" % (self.vars[i].ty.name, base(i)), "pp": s.pick(["(**r%s)", "(*q%s)", "%s"]) % base(i), "idp": s.pick(["%s", "(*q%s)"]) % base(i), "swap": "(*q%s)" % base(i)}[st]
            return {"addr": "(*q%s)", "member": "s%s.m", "elem": "a%s[1]", "union": "u%s.m", "big": "b%s.x.y[2]"}.get(st, "%s") % base(i)
        def dcl(i):
            v = self.vars[i]; t = v.ty.name; b = base(i); st = style[i]
            return {"plain": "%s %s;" % (t, b), "init": "%s %s = 0;" % (t, b), "vol": "volatile %s %s;" % (t, b), "reg": "register %s %s;" % (t, b),
                    "mixed": "%s %s; %s *q%s = &%s;" % (t, b, t, b, b), "pp": "%s %s; %s *q%s = &%s; %s **r%s = &q%s;" % (t, b, t, b, b, t, b, b),
                    "self": "%s %s; void *q%s; q%s = &q%s; *(void **)q%s = &%s;" % (t, b, b, b, b, b, b), "self2": "void *q%s; %s %s; q%s = &q%s; { void **z%s = q%s; *z%s = &%s; }" % (b, t, b, b, b, b, b, b, b), "idp": "%s %s; %s *q%s = @idp(&%s);" % (t, b, t, b, b),
                    "swap": "%s %s, t%s; %s *q%s = &t%s, *r%s = &%s; { %s *x%s = q%s; q%s = r%s; r%s = x%s; }" % (t, b, b, t, b, b, b, b, t, b, b, b, b, b, b),
                    "addr": "%s %s; %s *q%s = &%s;" % (t, b, t, b, b), "member": "struct { char c; %s m; char d; } s%s;" % (t, b),
                    "elem": "%s a%s[3];" % (t, b), "union": "union { %s m; char c[16]; } u%s;" % (t, b), "big": "struct { char c[40]; struct { %s y[5]; } x; } b%s;" % (t, b)}[st]
        text = re.sub(r"\x01D(\d+)\x02", lambda m: dcl(int(m[1])), text)
        text = re.sub(r"\x01=(\d+)\x02", lambda m: "%s = " % use(int(m[1])), text)
        text = re.sub(r"\x01I(\d+)\x02", lambda m: "%s%s %s" % ("volatile " if style[int(m[1])] == "vol" else "", self.vars[int(m[1])].ty.name, base(int(m[1]))), text)
        def pdcl(m):
            i = int(m[1]); v = self.vars[i]; st = style[i]
            if st in ("plain", "vol", "reg", "init"):
                return ""
            return "\t%s %s = p_%s;\n" % (dcl(i), use(i), base(i))
        text = re.sub(r"\x01P(\d+)\x02", pdcl, text)
        text = re.sub(r"\x01N(\d+)\x02", lambda m: base(int(m[1])) if style[int(m[1])] in ("plain", "vol", "reg", "init") else "p_" + base(int(m[1])), text)
        text = re.sub(r"\x01V(\d+)\x02", lambda m: use(int(m[1])), text)
        W = {}
        for n, ok in self.wraps.items():
            ws = [("", ""), ("{ ", " }"), ("if (@one) { ", " }"), ("if (@zero) obs(98); else { ", " }")]
            if ok:
                ws += [("do { ", " } while (0);"), ("do { ", " } while (@zero);"), ("switch (@one) { case 0: obs(97); break; default: ", " }"), ("for (int w = 0; w < (int)@one; w++) { ", " }"),
                       ("while (1) { ", " break; }"), ("{ int w = @one; while (w) { w = 0; ", " } }")]
            W[n] = s.pick(ws) if s else ws[0]
        text = re.sub(r"\x01<(\d+)\x02", lambda m: W[int(m[1])][0], text)
        text = re.sub(r"\x01>(\d+)\x02", lambda m: W[int(m[1])][1], text)
        def point(m):
            n = int(m[1])
            if not s:
                return ""
            vs = self.points[n]
            u = use(s.pick(vs)) if vs else "1"
            isf = False
            k = s.draw(6)
            return ["", "{ unsigned long d = (unsigned long)(%s != 0) * 3 + 1; (void)d; } " % u, "{ unsigned long d[4]; d[1] = (%s > 0); d[d[1]] = 2; } " % u,
                    "if (@zero) obs(99); ", "(void)(%s > 3 && @zero); " % u, "@id1(%s > 0); " % u][k]
        text = re.sub(r"\x01X(\d+)\x02", point, text)
        X = {}
        for n, ty in self.exprs.items():
            p = promote(ty)
            k = s.draw(5) if s else 0
            X[n] = [("", ""), ("(0, ", ")"), ("(@one ? ", " : (%s)0)" % ty.name) if p.tid == ty.tid else ("(", ")"), ("(%s)(" % ty.name, ")"), ("*&(%s){" % ty.name, "}")][k]
            if k == 4 and False:
                pass
        text = re.sub(r"\x01\((\d+)\x02", lambda m: X[int(m[1])][0], text)
        text = re.sub(r"\x01\)(\d+)\x02", lambda m: X[int(m[1])][1], text)
        t = self.gdecl + "static unsigned @id1(unsigned x) { return x; }\nstatic void *@idp(void *p) { return p; }\n" + self.proto + text + "static void @main(void) {\n" + self.ginit + self.main + self.mainend + "}\n"
        return t.replace("@", pre)
