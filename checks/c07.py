"""C07: sequences of loads and stores through all access paths, compared with gcc."""
from c01 import ExprCheck
from engine import Case
from cexpr import *
from cty import *

def same(a, b):
    if a.kind != b.kind: return False
    if a.kind == "s": return a.ty is b.ty
    if a.kind == "p": return a.ty is b.ty
    if a.kind == "a": return a.n == b.n and same(a.elem, b.elem)
    return a is b

class MemCheck(ExprCheck):
    prop = "C07"
    technique = "stateful property-based testing: random sequences of loads, stores and copies over random object types and access paths, the value of every scalar of every object compared with gcc after the steps, with shrinking"
    level_note = "Sampled sequences; gcc (with clang, -O2 and UBSan as arbiters of failures) is the reference."
    batch = 12
    rule = ("2-5 objects of random record/array types with static, automatic or parameter storage and 4-16 steps: plain, compound, ++/-- and chained assignments to scalars and bit-fields, whole struct and union copies, "
            "through direct paths, pointers to the object or a sub-object, pointer arithmetic, indices of every integer type, casts through char *, function results and parameters. After steps every scalar of every object is "
            "observed. Non-trivial: at least 3 kinds of step and at least one path of depth 2.")
    def generate(self, s):
        bools = s.chance(1, 3)
        g = TypeGen(s, depth=s.range(1, 3), maxmem=s.pick([3, 5, 8]), maxarr=s.pick([3, 4, 4, 40]), bools=bools, unions=not bools)
        self_types = []
        n = s.range(2, 4)
        objs = []      # (expr, type, volatile)
        glob, loc, params, args = [], [], [], []
        for i in range(n):
            if i and s.draw(2):
                t = s.pick(self_types)
            else:
                t = g.record() if s.draw(3) else T("a", elem=g.type(), n=s.range(1, 5))
            self_types.append(t)
            st = s.weighted([(3, "local"), (3, "glob"), (1, "sloc"), (1, "param"), (1, "alloc")])
            if st == "param" and t.kind != "r": st = "local"
            nm = "%s%d" % ({"local": "o", "glob": "@o", "sloc": "so", "param": "pa", "alloc": "(*pp"}[st], i)
            if st == "glob":
                glob.append("static %s;" % decl(t, nm))
            elif st == "sloc":
                loc.append("static %s;" % decl(t, nm))
            elif st == "local":
                loc.append("%s;" % decl(t, nm))
            elif st == "param":
                glob.append("static %s;" % decl(t, "@arg%d" % i)); params.append(decl(t, nm)); args.append("@arg%d" % i)
            else:
                glob.append("static %s;" % decl(t, "@st%d" % i)); loc.append("%s = &@st%d;" % (decl(t, "(*pp%d)" % i), i)); nm += ")"
            objs.append((nm, t))
        self.s, self.g, self.objs, self.labels = s, g, objs, set()
        self.depth2 = 0
        self.loc, self.glob, self.n = loc, glob, 0
        self.funs = {}
        body = []
        # initial contents
        for nm, t in objs:
            if bools:
                body.append("for (unsigned long i = 0; i < sizeof %s; i++) ((char *)&%s)[i] = 0;" % (nm, nm))
            else:
                body.append("for (unsigned long i = 0; i < sizeof %s; i++) ((unsigned char *)&%s)[i] = i * %d + %d;" % (nm, nm, s.pick([37, 101, 255, 1]), s.draw(256)))
        for k in range(s.range(3, 16)):
            body += self.step()
            if s.chance(1, 4):
                body.append(s.pick(["@dump%d(&%s);" % (j, o) for j, (o, _) in enumerate(objs)]))
        body += ["@dump%d(&%s);" % (j, o) for j, (o, _) in enumerate(objs)]
        dumps = []
        for j, (o, t) in enumerate(objs):
            dumps.append("static void @dump%d(%s) {\n%s}\n" % (j, decl(t, "(*p)"), self.dump(t, "(*p)", 0)))
        text = "".join(record_def(t) for t in g.defs) + "\n".join(glob) + "\n" + "".join(dumps) + "".join(self.funs.values())
        text += "static void @run(%s) {\n\t%s\n\t%s\n}\n" % (", ".join(params) or "void", "\n\t".join(loc), "\n\t".join(body))
        pre = ""
        text += "void @case(void) { %s@run(%s); }\n" % (pre, ", ".join(args))
        kinds = {l for l in self.labels if l.startswith("step:")}
        return Case(text, nontrivial=len(kinds) >= 3 and self.depth2 > 0, labels=sorted(self.labels))
    def dump(self, t, p, d):
        if t.kind == "a":
            return "\tfor (int i%d = 0; i%d < %d; i%d++) {\n%s\t}\n" % (d, d, t.n, d, self.dump(t.elem, "%s[i%d]" % (p, d), d + 1))
        if t.kind == "r":
            out = ""
            for m in t.members:
                if m.bits is not None:
                    if m.name: out += "\tobs(%s.%s);\n" % (p, m.name)
                elif m.name is None:
                    out += self.dump(m.type, p, d)
                else:
                    out += self.dump(m.type, "%s.%s" % (p, m.name), d)
            return out
        return "\t" + self.ob(t, p) + "\n"
    def ob(self, t, p):
        if t.kind == "p": return "obs((unsigned long)%s);" % p
        return ("obsf(%s);" if t.ty is FLOAT else "obsd(%s);" if t.ty.isint is False else "obs(%s);") % p
    # -- paths
    def index(self, n):
        s = self.s
        k = s.draw(n)
        f = s.weighted([(4, "lit"), (4, "var"), (1, "expr"), (1, "glob")])
        if f == "lit": return str(k)
        if f == "var":
            t = s.pick([INT, UINT, LONG, ULONG, UCHAR, SCHAR, SHORT, USHORT, CHAR])
            self.n += 1
            self.loc.append("%s ix%d = %d;" % (t.name, self.n, k))
            return "ix%d" % self.n
        if f == "glob":
            self.n += 1
            self.glob.append("static %s @ix%d = %d;" % (s.pick([INT, UCHAR, SHORT, LONG]).name, self.n, k))
            return "@ix%d" % self.n
        return s.pick(["%d + %d - %d" % (k, 3, 3), "(char)%d" % k, "%dul" % k, "(%d ? %d : 99)" % (k + 1, k)])
    def walk(self, p, t, addressable=True):
        """Yields candidate (path, T, bits, addressable, depth)."""
        s = self.s
        d = 0
        while True:
            if t.kind == "a":
                if s.chance(1, 8) and d: break
                i = self.index(t.n)
                f = s.weighted([(6, "[]"), (1, "*"), (1, "rev"), (1, "mid")])
                if f == "[]" or not addressable: p = "%s[%s]" % (p, i)
                elif f == "*": p = "(*(%s + %s))" % (p, i)
                elif f == "rev": p = "(%s)[%s]" % (i, p)
                else:
                    m = s.draw(t.n)
                    p = "(&%s[%d])[%s%s]" % (p, m, "(int)(%s)" % i, " - %d" % m)
                t = t.elem; d += 1
            elif t.kind == "r":
                ms = []
                def add(u):
                    for m in u.members:
                        if m.name: ms.append((m, addressable and not u.packed))
                        elif m.bits is None: add(m.type)
                add(t)
                if not ms or (s.chance(1, 6) and d): break
                m, addressable = s.pick(ms)
                if p.startswith("(*") and s.draw(3): p = "%s->%s" % (p[2:-1] if p[2:-1].isidentifier() or p[2:-1].startswith("@") and p[3:-1].isidentifier() else "(&%s)" % p, m.name)
                else: p = "%s.%s" % (p, m.name)
                d += 1
                if m.bits is not None:
                    self.labels.add("bitfield")
                    return p, m.type, m.bits, False, d
                t = m.type
            else:
                break
        return p, t, None, addressable, d
    def lv(self):
        """A random lvalue: (text, T, bits). May add pointer declarations to self.pre."""
        s = self.s
        o, t = s.pick(self.objs)
        p, addr = o, True
        k = s.weighted([(5, "direct"), (2, "ptr"), (3, "sub"), (1, "cast"), (1, "walk")])
        self.n += 1
        n = self.n
        if k == "ptr":
            self.pre.append("%s = &%s;" % (decl(t, "(*p%d)" % n), p))
            p = "(*p%d)" % n
        elif k == "sub":
            q, u, bits, ad, d = self.walk(p, t)
            if bits is None and ad:
                self.depth2 += d >= 2
                self.pre.append("%s%s = &%s;" % ("volatile " if u.kind == "s" and s.chance(1, 6) else "", decl(u, "(*p%d)" % n), q))
                p, t = "(*p%d)" % n, u
        elif k == "cast":
            q, u, bits, ad, d = self.walk(p, t)
            if bits is None and ad and u.kind in "sp":
                self.pre.append("char *b%d = (char *)&%s; unsigned long d%d = (unsigned long)((char *)&%s - b%d);" % (n, o, n, q, n))
                self.labels.add("path:cast")
                ty = decl(u, "*")
                return s.pick(["(*(%s)(b%d + d%d))", "(*(%s)&b%d[d%d])", "(*(%s)(d%d + b%d))"][0:2]) % (ty, n, n), u, None, d
        elif k == "walk":
            arrs = []
            q, u, bits, ad, d = self.walk(p, t)
            # stop at an enclosing array: use the object itself when it is an array
            if t.kind == "a":
                i = s.draw(t.n)
                j = s.draw(t.n)
                self.pre.append("%s = %s;" % (decl(t.elem, "*w%d" % n if t.elem.kind != "a" else "(*w%d)" % n), "%s + %d" % (p, i)))
                st = s.weighted([(2, "+="), (2, "++"), (1, "sub")])
                if st == "+=" :
                    self.pre.append("w%d += %s;" % (n, j - i))
                elif st == "++" and abs(j - i) == 1:
                    self.pre.append("w%d%s;" % (n, "++" if j > i else "--"))
                elif st == "++":
                    self.pre.append("for (int k = 0; k < %d; k++) %s;" % (abs(j - i), ("w%d++" if j > i else "--w%d") % n))
                else:
                    self.pre.append("w%d = &w%d[%d] - (%d);" % (n, n, 0, i - j))
                self.pre.append("obs(w%d - %s); obs(w%d == %s + %d); obs(w%d > %s);" % (n, p, n, p, s.draw(t.n), n, p))
                self.pre += self.ptrexp("w%d" % n, p, t.n, j)
                self.labels.add("path:walk")
                p, t = "(*w%d)" % n, t.elem
        self.labels.add("path:" + k)
        q, u, bits, ad, d = self.walk(p, t, addr)
        self.depth2 += d >= 2
        return q, u, bits, d
    def ptrexp(self, w, p, n, j):
        """Values of pointer expressions over the pointer w, which points to element j of the array p of n elements, and goes back there."""
        s = self.s
        out = []
        for _ in range(s.weighted([(2, 0), (3, 1), (2, 2)])):
            d = s.pick([1, -1])
            if not 0 <= j + d <= n: d = -d
            m = s.draw(n + 1)
            k = s.draw(8)
            o = "++" if d > 0 else "--"
            u = "--" if d > 0 else "++"
            if k == 0: e = "obs((%s%s) - %s); obs(%s - %s); %s%s;" % (w, o, p, w, p, w, u)
            elif k == 1: e = "obs((%s%s) - %s); obs((%s%s) - %s);" % (o, w, p, w, u, p)
            elif k == 2: e = "obs(%s - %s);" % (p, w)
            elif k == 3: e = "obs((%s + %d) - %s); obs(%s - (%s + %d));" % (p, m, w, w, p, m)
            elif k == 4: e = "obs((%s += %d) - %s); obs((%s -= %d) - %s);" % (w, m - j, p, w, m - j, p)
            elif k == 5: e = "obs(%s < %s + %d); obs(%s >= %s + %d); obs(%s <= %s + %d);" % (w, p, m, w, p, m, w, p, m)
            elif k == 6: e = "obs((char *)(%s%s) - (char *)%s); obs((char *)%s - (char *)%s); %s%s;" % (w, o, p, w, p, w, u)
            else: e = "obs(&%s[%d] - &%s[%d]); obs(&%s[%d] - %s);" % (p, m, p, s.draw(n + 1), w, m - j, p)
            out.append(e)
            self.labels.add("ptrexp:%d" % k)
        return out
    def scalar_lv(self):
        for _ in range(6):
            q, u, bits, d = self.lv()
            if u.kind in "sp":
                return q, u, bits
        # give up: an array or record was reached; descend
        while u.kind not in "sp":
            if u.kind == "a":
                q, u = "%s[0]" % q, u.elem
            else:
                m = [m for m in u.members if m.name or m.bits is None][0]
                if m.name: q = "%s.%s" % (q, m.name)
                u, bits = m.type, m.bits
                if bits is not None: return q, u, bits
        return q, u, bits
    def value(self, u, bits):
        s = self.s
        if u.kind == "p":
            return "(%s)%dul" % (decl(u, ""), s.draw(65536))
        if u.ty.isint:
            if bits is not None and s.draw(2): return literal(bf_value(s, u.ty, bits), u.ty)
            t = s.pick([u.ty, u.ty] + [INT, ULONG, LONG])
            return literal(gen_value(s, t), t)
        return "%s%d.5" % (s.pick(["", "-"]), s.draw(100)) if s.draw(2) else literal(gen_float(s, u.ty, True), u.ty)
    def fun(self, t, what):
        k = (id(t), what)
        if k in self.funs:
            return "@%s%s" % (what, t.tag[1:])
        nm = "@%s%s" % (what, t.tag[1:])
        tn = tname(t)
        if what == "ret": b = "static %s %s(%s *p) { return *p; }\n" % (tn, nm, tn)
        elif what == "id": b = "static %s %s(%s x) { return x; }\n" % (tn, nm, tn)
        elif what == "set": b = "static void %s(%s *d, %s x) { *d = x; }\n" % (nm, tn, tn)
        else:
            self.n += 1
            b = "static void %s(%s x) {\n%s\tfor (unsigned long i = 0; i < sizeof x; i++) ((char *)&x)[i] = 1;\n%s}\n" % (nm, tn, self.dump(t, "x", 0), self.dump(t, "x", 0))
        self.funs[k] = b
        return nm
    def step(self):
        s = self.s
        self.pre = []
        k = s.weighted([(6, "set"), (4, "op"), (2, "incdec"), (3, "load"), (3, "move"), (4, "copy"), (2, "chain"), (2, "call"), (1, "addr"), (1, "cond")])
        self.labels.add("step:" + k)
        out = None
        if k in ("set", "op", "incdec", "load", "chain", "addr"):
            q, u, bits = self.scalar_lv()
            fl = u.kind == "s" and not u.ty.isint
            o = (lambda e: self.ob(u, e)) 
            if k == "set":
                e = "%s = %s" % (q, self.value(u, bits))
                out = o("(%s)" % e) if s.chance(1, 3) else e + ";"
            elif k == "load":
                out = s.pick([o(q), "if (%s) obs(1); else obs(2);" % q, "obs(!%s);" % q]) if not bits or s.draw(2) else "obs(%s + 1ul);" % q
            elif k == "addr":
                out = "obs(sizeof %s);" % q if bits is None else o(q)
            elif k == "op" or k == "chain":
                if u.kind == "p":
                    out = "%s = (%s)((unsigned long)%s + 5);" % (q, decl(u, ""), q)
                elif k == "chain":
                    q2, u2, b2 = self.scalar_lv()
                    if u2.kind != "s" or (not u2.ty.isint and u.ty.isint) or q2.replace("->", ".") == q:
                        out = "%s = %s;" % (q, self.value(u, bits))
                    else:
                        # both could designate the same object; sequence with a comma then
                        v = self.value(u2, b2) if u2.ty.isint else "%d.25" % s.draw(50)
                        out = "%s = (%s = %s);" % (q, q2, v)
                elif fl:
                    out = "%s %s= %s;" % (q, s.pick("+-*"), s.pick(["1", "0.5", "2.5f", "3ul"]))
                else:
                    op = s.pick(["^", "|", "&", "+", "-", "^", "<<", ">>", "*", "/", "%"])
                    if op in ("<<", ">>"):
                        if u.ty.signed: op = ">>"
                        r = str(s.draw(8))
                    elif op in "/%":
                        r = s.pick(["3", "7u", "16", "-3", "100ul"])
                    elif op in "+-*":
                        r = s.pick(["1u", "3u", "255u", "1ul"]) if op == "*" or u.ty.bits >= 32 else s.pick(["1", "77", "-3"])
                    else:
                        r = literal(gen_value(s, s.pick([INT, UINT, LONG])), LONG) if s.draw(2) else s.pick(["1", "0x55", "0xf0", "-1", "0xff00ff00ul"])
                    e = "%s %s= %s" % (q, op, r)
                    out = o("(%s)" % e) if s.chance(1, 3) else e + ";"
            else:
                if u.kind == "p" and u.ty is None:
                    out = "%s = (char *)%s + 1;" % (q, q)
                else:
                    e = s.pick(["%s++", "%s--", "++%s", "--%s"]) % q
                    out = o("(%s)" % e) if s.chance(1, 2) else e + ";"
        elif k == "move":
            q, u, bits = self.scalar_lv()
            q2, u2, b2 = self.scalar_lv()
            if u.kind == "p" and u2.kind == "p": out = "%s = (void *)%s;" % (q, q2)
            elif u.kind == "p": out = "%s = (void *)(unsigned long)%s;" % (q, q2) if u2.ty.isint else "obs(3);"
            elif u2.kind == "p": out = "%s = (unsigned long)%s;" % (q, q2)
            elif u.ty.isint and not u2.ty.isint: out = "obs(%s == %s);" % (q, q2)
            elif u.ty is FLOAT and u2.ty is DOUBLE: out = "%s = 1;" % q
            else: out = "%s = %s;" % (q, q2)
        else:
            # struct-valued things
            cands = []
            for _ in range(8):
                q, u, bits, d = self.lv()
                while u.kind == "a":
                    q, u = "%s[%s]" % (q, self.index(u.n)), u.elem
                if u.kind == "r": cands.append((q, u))
            if not cands:
                return self.pre + ["obs(4);"]
            q, u = s.pick(cands)
            same_ = [c for c in cands if c[1] is u]
            q2 = s.pick(same_)[0]
            if u.flex or not u.tag or u not in self.g.defs:
                return self.pre + ["obs(5);"]
            tn = tname(u)
            if k == "copy":
                f = s.weighted([(4, "assign"), (2, "temp"), (2, "ret"), (1, "id"), (1, "set"), (1, "lit"), (1, "chain")])
                self.labels.add("copy:" + f)
                self.n += 1
                # overlapping copies of partially overlapping objects are undefined; identical or disjoint are fine:
                # sub-objects of the same type can only be identical or disjoint
                if f == "assign": out = "%s = %s;" % (q, q2)
                elif f == "temp": out = "{ %s t = %s; %s = t; }" % (tn, q2, q)
                elif f == "ret": out = "%s = %s(&%s);" % (q, self.fun(u, "ret"), q2)
                elif f == "id": out = "%s = %s(%s);" % (q, self.fun(u, "id"), q2)
                elif f == "set": out = "%s(&%s, %s);" % (self.fun(u, "set"), q, q2)
                elif f == "chain": out = "{ %s t; t = %s = %s; @dump_%s(&t); }" % (tn, q, q2, u.tag[1:]); self.funs[(id(u), "dump")] = "static void @dump_%s(%s *p) {\n%s}\n" % (u.tag[1:], tn, self.dump(u, "(*p)", 0))
                else:
                    out = "%s = *&(%s){0};" % (q, tn) if s.draw(2) else "%s = (%s){0};" % (q, tn)
            elif k == "call":
                out = "%s(%s);" % (self.fun(u, "use"), q)
            else:
                lv = [x for x in leaves(u)]
                if not lv: return self.pre + ["obs(6);"]
                pth, lt, b = s.pick(lv)
                f = s.draw(4)
                if f == 0: e = "(obs(7), %s)%s" % (q, pth)
                elif f == 1: e = "%s(&%s)%s" % (self.fun(u, "ret"), q, pth)
                elif f == 2: e = "(%s = %s)%s" % (q, q2, pth)
                else: e = "(%s > 3 ? %s : %s)%s" % (s.pick(["@one", "7", "1"]), q, q2, pth); e = e.replace("@one", "(int)sizeof(int)")
                out = self.ob(lt, e)
        return ["{ " + " ".join(self.pre), "  " + out + " }"] if self.pre else [out]

CHECK = MemCheck()
