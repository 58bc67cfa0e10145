"""Random valid C17 initialisers (brace elision, designators, overriding, strings, address constants) together with
what is needed to observe the initialised object: which union member is active, what a pointer points into."""
from cexpr import *
from cty import *

def children(t):
    """Direct sub-objects in initialisation order: (path suffix, T, bits, index)."""
    if t.kind == "a":
        return None
    out = []
    for i, m in enumerate(t.members):
        if m.bits is not None and not m.name: continue
        out.append(("." + m.name if m.name else "", m.type, m.bits, i))
    return out[:1] if t.union else out

def named(t):
    """All members a designator can name in t: (list of (suffix, T, bits, index, owner)) to reach it through anonymous records."""
    for i, m in enumerate(t.members):
        if m.name:
            yield [(t, i)], m
        elif m.bits is None:
            for p, x in named(m.type):
                yield [(t, i)] + p, x

class Init:
    """consts: the initialiser must be constant. globs: list for global helper objects."""
    def __init__(self, s, g, glob, prefix="@", auto=None, wide=True):
        self.s, self.g, self.glob, self.prefix, self.auto, self.wide = s, g, glob, prefix, auto, wide
        self.clit = True
        self.n = 0
        self.labels = set()
        self.items = 0
        self.info = {}      # leaf path -> how to observe a pointer
        self.active = {}    # union path -> member index
        self.targets = []
        self.funs = []
    # -- helper objects pointers may point to
    def target(self):
        s = self.s
        if not self.targets or s.chance(1, 4):
            k = len(self.targets)
            nm = "%sg%d" % (self.prefix, k)
            f = s.draw(3)
            if f == 0: self.glob.append("static char %s[9];" % nm); self.targets.append((nm, ["%s" % nm, "&%s[4]" % nm, "%s + 3" % nm, "&%s[5] - 2" % nm, "3 + %s" % nm, "(char *)&%s + 1" % nm], CHAR))
            elif f == 1: self.glob.append("static int %s[3][4];" % nm); self.targets.append((nm, ["%s[1]" % nm, "&%s[2][3]" % nm, "*%s + 2" % nm, "%s[1] + 1" % nm, "*(%s + 2)" % nm], INT))
            else: self.glob.append("static struct { int a; double d; double e[3]; } %s;" % nm); self.targets.append((nm, ["&%s.d" % nm, "%s.e" % nm, "&%s.e[2]" % nm, "%s.e + 1" % nm], DOUBLE))
        return s.pick(self.targets)
    def mark(self, path, t):
        """path is initialised now: forget what was below it."""
        for d in (self.info, self.active):
            for k in [k for k in d if k == path or k.startswith(path + ".") or k.startswith(path + "[") or k.startswith(path + "\\")]:
                del d[k]
    def path_key(self, frames):
        pass
    def scalar(self, t, bits, path):
        s = self.s
        self.items += 1
        self.mark(path, t)
        if t.kind == "p":
            k = s.weighted([(2, "null"), (4, "obj"), (3, "str"), (1, "int"), (2 if self.clit else 0, "clit")])
            if k == "null": return s.pick(["0", "(void *)0", "0l", "(char *)0"])
            if k == "clit":
                ty = t.ty if t.ty is not None else s.pick([CHAR, INT, DOUBLE])
                v = lambda: literal(gen_value(s, ty) if ty.isint else gen_float(s, ty, True), ty)
                e = s.pick(["(%s[]){%s, %s}", "(%s[2]){%s, %s}", "(%s[3]){%s, %s} + 1", "&(%s[]){%s, %s}[1]", "&(%s){%s}", "&(%s){%s,}", "((%s[]){%s, [3] = %s} + 3)"] + ["&((struct { %s x, y; }){%s, %s}).y", "((struct { %s x[2]; }){%s, %s}).x"] * (self.auto is not None))
                e = e % ((ty.name,) + tuple(v() for _ in range(e.count("%s") - 1)))
                if t.ty is None and s.draw(2): e = "(void *)(%s)" % e
                self.info[path] = ("deref", ty)
                self.labels.add("clit")
                return e
            if k == "int":
                return "(void *)%dul" % s.draw(99999)
            if k == "str":
                if t.ty in (None, CHAR):
                    txt = s.pick(['"abc"', '"x" "yz"', '""', '"hello" + 2', '&"world"[1]', '"\\0q"', '"a\\tb\\n\\"q\\\\"', '(char *)"wxyz" + 1', '"same"', '"same"'])
                    self.info[path] = ("str",)
                    self.labels.add("pstr")
                    return txt
            nm, es, ty = self.target()
            e = s.pick(es)
            if t.ty is not None and t.ty is not ty: e = "(%s)(%s)" % (decl(t, ""), e)
            self.info[path] = ("off", nm)
            self.labels.add("paddr")
            return e
        ty = t.ty
        if ty.isint:
            v = bf_value(s, ty, bits) if bits else gen_value(s, ty)
            k = s.weighted([(6, "lit"), (2, "conv"), (1, "chr"), (1, "expr"), (1, "flt"), (1, "sizeof")] + ([(3, "var")] if self.auto is not None else []))
            if k == "conv":
                u = s.pick([INT, UINT, LONG, ULONG, UCHAR]); return literal(gen_value(s, u), u)
            if k == "chr": return s.pick(["'a'", "'\\0'", "'\\n'", "'\\x7f'", "'\\377'"])
            if k == "expr": return s.pick(["%d + %d" % (s.draw(100), s.draw(100)), "(%d, %d) ? 3 : 4" % (1, 2) if self.auto is not None else "1 ? 3 : 4", "-%d" % s.draw(128), "~%d" % s.draw(99), "1 << %d" % s.draw(30), "!%d" % s.draw(2), "(char)%d" % s.draw(300), "%d > %d" % (s.draw(9), s.draw(9))])
            if k == "flt" and bits: return s.pick(["0.75", "0.0f", "-0.5"])
            if k == "flt" and ty.kind != "b": return s.pick(["1.75", "2.5f", "0.0", "100.99"] + (["-3.99"] if ty.signed else []))
            if k == "sizeof": return s.pick(["sizeof(int)", "sizeof \"abc\"", "_Alignof(long)"])
            if k == "var":
                u = s.pick(INTS)
                return self.local(u, literal(gen_value(s, u), u))
            return literal(v, ty)
        k = s.weighted([(5, "lit"), (2, "int"), (1, "expr"), (1, "oth")] + ([(2, "var")] if self.auto is not None else []))
        if k == "int": return literal(gen_value(s, INT), INT)
        if k == "expr": return s.pick(["1.5 + 2", "-0.25", "3 / 2", "1.0f * 3", "1 ? 2.5 : 1"])
        if k == "oth": return "%d.%d%s" % (s.draw(100), s.draw(100), s.pick(["", "f"]))
        if k == "var": return self.local(ty, literal(gen_float(s, ty, True), ty))
        return literal(gen_float(s, ty, True), ty)
    def local(self, ty, v):
        self.n += 1
        self.auto.append("%s v%d = %s;" % (ty.name, self.n, v))
        return "v%d" % self.n
    def string(self, t):
        """A string literal for an array of character type, or None."""
        s = self.s
        ty = t.elem.ty
        if ty in (CHAR, SCHAR, UCHAR): pre = s.pick(["", "", "u8"])
        elif not self.wide: return None
        elif ty is INT: pre = "L"
        elif ty is USHORT: pre = "u"
        elif ty is UINT: pre = "U"
        else: return None
        mx = t.n if t.n is not None else 12
        n = s.pick([s.draw(mx + 1), mx, max(0, mx - 1)])
        chars = [s.pick(list("abcXYZ 019?'~") + ["\\n", "\\0", "\\\\", '\\"', "\\x41\" \"", "\\101", "\\377", "\\t", "\\a", "%"]) for _ in range(n)]
        out = []
        for i, c in enumerate(chars):
            # an octal escape must not swallow a following digit
            if c in ("\\0", "\\101", "\\377") : c += '" "'
            out.append(c)
        txt = "".join(out)
        # every piece needs the prefix only once
        pieces = ("%s\"%s\"" % (pre, txt)).replace('\\x41" ""', '\\x41"')
        self.labels.add("string" + pre)
        if n == mx and t.n is not None: self.labels.add("string-full")
        if t.n is None: t.n = n + 1
        return pieces
    def isstr(self, t):
        return t.kind == "a" and t.elem.kind == "s" and t.elem.ty in ((CHAR, SCHAR, UCHAR, INT, USHORT, UINT) if self.wide else (CHAR, SCHAR, UCHAR))
    def value(self, t, bits, path, elide, brace=True):
        """Initialiser text for sub-object t; returns None when the caller should elide the braces (only if elide)."""
        s = self.s
        if t.kind in "sp":
            v = self.scalar(t, bits, path)
            if brace and s.chance(1, 16): v = "{%s%s}" % (v, s.pick(["", ","])); self.labels.add("scalar-brace")
            return v
        if self.isstr(t) and s.draw(3) and not (elide and getattr(self, "nostr", False)):
            txt = self.string(t)
            if txt is not None:
                self.mark(path, t); self.items += 1
                if brace and s.chance(1, 6): txt = "{%s}" % txt; self.labels.add("string-brace")
                return txt
        if t.kind == "r" and self.auto is not None and t in self.g.defs and s.chance(1, 4):
            # an expression of the record type
            sub = Init(s, self.g, self.glob, self.prefix, self.auto, self.wide)
            sub.n, sub.targets, sub.funs = self.n, self.targets, self.funs
            txt = sub.braced(t, "")
            self.n = sub.n; self.labels |= sub.labels | {"record-expr"}; self.items += sub.items
            self.mark(path, t)
            for d, e in ((self.info, sub.info), (self.active, sub.active)):
                for k in e: d[path + k] = e[k]
            self.sealed.append(path)
            if s.draw(2): return "(%s)%s" % (tname(t), txt)
            self.n += 1
            self.auto.append("%s v%d = %s;" % (tname(t), self.n, txt))
            if s.draw(2): return "v%d" % self.n
            fn = "%sid%s" % (self.prefix, t.tag[1:])
            d = "static %s %s(%s x) { return x; }" % (tname(t), fn, tname(t))
            if d not in self.funs: self.funs.append(d)
            return "%s(v%d)" % (fn, self.n)
        if not brace or elide and s.draw(2):
            self.labels.add("elided")
            return None
        self.labels.add("nested-brace")
        return self.braced(t, path)
    def index(self, i):
        s = self.s
        return s.pick(["%d"] * 6 + ["%d + 0", "0x%x", "(char)%d", "sizeof(char) * %d", "1 ? %d : 9"]) % i
    def braced(self, t, path):
        s = self.s
        self.mark(path, t)
        saved = getattr(self, "sealed", [])
        self.sealed = list(saved)
        items = []
        frames = [[t, 0, path]]
        unknown = t.kind == "a" and t.n is None
        size = 0
        want = s.weighted([(2, 1), (4, 3), (3, 6), (2, 12), (1, 30)])
        want = s.range(1, want)
        while len(items) < want:
            if s.chance(1, 4):
                r = self.designator(t, path, unknown)
                if r is None: continue
                txt, frames, u, bits, p = r
                if frames[0][0] is t and unknown: size = max(size, frames[0][1])
                v = self.value(u, bits, p, True)
                if v is not None:
                    items.append("%s = %s" % (txt, v))
                    continue
                # braces elided after a designator: the first leaf takes the value
                frames.append([u, 0, p])
                lead = txt + " = "
            else:
                lead = ""
            # next sub-object of the innermost frame that has one
            self.nostr = False
            while frames and not self.has_next(frames[-1], unknown and len(frames) == 1, size):
                if self.isstr(frames.pop()[0]): self.nostr = True   # gcc looks for the string's array in the wrong place then
            if not frames: break
            brace = not lead
            while True:
                u, bits, p = self.next(frames[-1])
                if unknown and len(frames) == 1: size = max(size, frames[0][1])
                v = self.value(u, bits, p, True, brace)
                if v is not None:
                    items.append(lead + v)
                    break
                brace = False
                frames.append([u, 0, p])
        if unknown: t.n = max(size, 1)
        self.sealed = saved
        if len(items) == 1 and s.chance(1, 4) and 0: return items[0]
        return "{%s%s}" % (s.pick([" ", "", "\n\t\t"]) + ", ".join(items), s.pick(["", "", ",", ", "]))
    def has_next(self, f, unknown, size):
        t, i, p = f
        if t.kind == "a": return (unknown and size < 40) or (t.n is not None and i < t.n)
        return i < len(t.members) if not t.union else i < 1
    def next(self, f):
        """Takes the next sub-object of frame f (skipping unnamed bit-fields); the caller checked there is one left."""
        t, i, p = f
        if t.kind == "a":
            f[1] += 1
            return t.elem, None, "%s[%d]" % (p, i)
        c = [x for x in children(t) if x[3] >= i] if not t.union else children(t)
        suf, u, bits, k = c[0]
        f[1] = k + 1
        rest = [x for x in children(t) if x[3] > k]
        if not rest or t.union: f[1] = len(t.members) + 1
        if t.union:
            if self.active.get(self.ukey(p, t), k) != k: self.mark(p, t)
            self.active[self.ukey(p, t)] = k
        return u, bits, p + suf if suf else self.anon(p, t, k)
    # anonymous records have no name of their own: their paths carry a marker that the dump strips
    def anon(self, p, t, k): return "%s\\%d" % (p, k)
    def ukey(self, p, t): return p + "\\u"
    def designator(self, t, path, unknown):
        s = self.s
        txt, frames, cur, bits, p = "", [], t, None, path
        depth = 0
        while cur.kind in "ar" and (depth == 0 or s.chance(1, 2)):
            if any(p == q or p.startswith(q + ".") or p.startswith(q + "[") or p.startswith(q + "\\") for q in self.sealed): return None
            if cur.kind == "a":
                n = cur.n if cur.n is not None else s.pick([3, 6, 12])
                if n == 0: return None
                i = s.draw(n)
                frames.append([cur, i + 1, p])
                txt += "[%s]" % self.index(i)
                p = "%s[%d]" % (p, i)
                cur, bits = cur.elem, None
            else:
                way, m = s.pick(list(named(cur)))
                for owner, k in way:
                    last = owner.members[k] is m
                    if owner.union:
                        key = self.ukey(p, owner)
                        if self.active.get(key, 0) != k:
                            self.mark(p, owner)
                        self.active[key] = k
                    nxt = k + 1
                    rest = [x for x in (children(owner) if not owner.union else []) if x[3] > k]
                    frames.append([owner, nxt if rest else len(owner.members) + 1, p])
                    p = p + "." + m.name if last else self.anon(p, owner, k)
                txt += "." + m.name
                cur, bits = m.type, m.bits
            depth += 1
        if any(p.startswith(q + ".") or p.startswith(q + "[") or p.startswith(q + "\\") for q in self.sealed): return None
        self.labels.add("designator")
        if depth > 1: self.labels.add("designator-path")
        return txt, frames, cur, bits, p
    # -- observation
    def dump(self, t, p, path=""):
        """Statements observing the object expression p of type t."""
        if t.kind == "a":
            if not has(t, lambda u: u.kind == "r" and u.union or u.kind == "p"):
                return dump_code(t, p)
            return "".join(self.dump(t.elem, "%s[%d]" % (p, i), "%s[%d]" % (path, i)) for i in range(t.n))
        if t.kind == "r":
            out = ""
            for i, m in enumerate(t.members):
                if m.bits is not None and not m.name: continue
                if t.union and i != self.active.get(self.ukey(path, t), children(t)[0][3]): continue
                if m.bits is not None: out += "\tobs(%s.%s);\n" % (p, m.name)
                elif m.name is None: out += self.dump(m.type, p, self.anon(path, t, i))
                else: out += self.dump(m.type, "%s.%s" % (p, m.name), path + "." + m.name)
            return out
        if t.kind == "p" and path in self.info:
            i = self.info[path]
            if i[0] == "deref": return "\tif (%s) %s\n" % (p, obs_code(T("s", ty=i[1]), "(*(%s *)%s)" % (i[1].name, p)))
            if i[0] == "str": return "\tobss((char *)%s);\n" % p
            return "\tobs((char *)%s - (char *)&%s);\n" % (p, i[1])
        return "\t%s\n" % obs_code(t, p)
