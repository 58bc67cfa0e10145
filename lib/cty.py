"""Random C object types: scalars, pointers, arrays, nested structs/unions, bit-fields, packed, anonymous members."""
from cexpr import *

class T:
    """kind: s (scalar Ty), p (pointer), a (array), r (record)"""
    __slots__ = ("kind", "ty", "elem", "n", "tag", "union", "members", "packed", "name", "flex")
    def __init__(self, kind, **k):
        self.kind = kind
        for a in self.__slots__[1:]:
            setattr(self, a, k.get(a))

class Member:
    __slots__ = ("name", "type", "bits", "align")
    def __init__(self, name, type, bits=None, align=None):
        self.name, self.type, self.bits, self.align = name, type, bits, align

def decl(t, name):
    """C declarator text declaring name with type t."""
    if t.kind == "a":
        return decl(t.elem, "%s[%s]" % (name, "" if t.n is None else t.n))
    if t.kind == "p":
        if t.name:
            return t.name % name
        return "%s *%s" % (t.ty.name if t.ty else "void", name)
    if t.kind == "r":
        return "%s %s" % (tname(t), name)
    return "%s %s" % (t.name or t.ty.name, name)

def tname(t):
    if t.kind == "r":
        return "%s %s" % ("union" if t.union else "struct", t.tag) if not t.name else t.name
    return decl(t, "").strip()

def record_body(t, ind="\t"):
    out = []
    for m in t.members:
        al = "_Alignas(%s) " % m.align if m.align else ""
        if m.type.kind == "r" and m.name is None and m.bits is None:
            out.append("%s%s%s {\n%s%s};" % (ind, "union" if m.type.union else "struct", packs(m.type), record_body(m.type, ind + "\t"), ind))
        elif m.bits is not None:
            out.append("%s%s %s: %d;" % (ind, m.type.name or m.type.ty.name, m.name or "", m.bits))
        else:
            out.append("%s%s%s;" % (ind, al, decl(m.type, m.name)))
    return "\n".join(out) + "\n"

def packs(t):
    return " __attribute__((packed))" if t.packed == "attr" else ""

def record_def(t):
    body = "%s%s %s {\n%s}" % ("union" if t.union else "struct", packs(t), t.tag, record_body(t))
    if t.packed and t.packed != "attr":
        return "#pragma pack(push, %d)\n%s;\n#pragma pack(pop)\n" % (t.packed, body)
    return body + ";\n"

class TypeGen:
    """Options: bitfields, packed, floats, pointers, anon, unions, arrays, flex, enums."""
    def __init__(self, s, depth=3, maxmem=6, maxarr=4, pre="@", **o):
        self.s, self.depth, self.maxmem, self.maxarr, self.pre, self.o = s, depth, maxmem, maxarr, pre, o
        self.defs = []          # record types in order of definition
        self.nrec = 0
        self.nfield = 0
    def opt(self, k):
        return self.o.get(k, True)
    def scalar(self):
        s = self.s
        k = s.weighted([(8, "i")] + ([(3, "f")] if self.opt("floats") else []) + ([(2, "p")] if self.opt("pointers") else []))
        if k == "i":
            return T("s", ty=s.pick(self.o.get("ints") or (INTS if self.opt("bools") else [t for t in INTS if t is not BOOL])))
        if k == "f":
            return T("s", ty=s.pick(FLOATS))
        return T("p", ty=s.pick([CHAR, INT, DOUBLE, None]))
    def type(self, d=None, flex=False):
        s = self.s
        d = self.depth if d is None else d
        k = s.weighted([(5, "s"), (2 if d > 0 and self.opt("arrays") else 0, "a"), (3 if d > 0 else 0, "r")])
        if k == "s":
            return self.scalar()
        if k == "a":
            return T("a", elem=self.type(d - 1), n=s.range(1, self.maxarr))
        if self.defs and s.draw(3) == 0:
            return s.pick(self.defs)
        return self.record(d)
    def record(self, d=None, union=None, anon=False):
        s = self.s
        d = self.depth if d is None else d
        if union is None:
            union = self.opt("unions") and s.chance(1, 4)
        t = T("r", union=union, members=[])
        if self.opt("packed") and s.chance(1, 6) and not anon:
            t.packed = s.pick(["attr", "attr", 1, 2, 4, 8])
        n = s.range(1, self.maxmem)
        named = 0
        for i in range(n):
            k = s.weighted([(6, "m"), (4 if self.opt("bitfields") else 0, "b"), (1 if self.opt("anon") and d > 0 else 0, "anon")])
            if k == "b" and not (self.opt("packed_bits") is False and t.packed):
                ty = s.pick(self.o.get("bftypes") or [INT, UINT, UCHAR, SCHAR, CHAR, SHORT, USHORT, LONG, ULONG, LLONG, ULLONG] + ([BOOL] if self.opt("bools") else []))
                mx = 1 if ty is BOOL else ty.bits
                z = s.weighted([(10, "w"), (1, "unnamed"), (1, "zero")]) if self.opt("unnamed") else "w"
                if z == "zero":
                    t.members.append(Member(None, T("s", ty=ty), 0))
                elif z == "unnamed":
                    t.members.append(Member(None, T("s", ty=ty), s.range(1, mx)))
                else:
                    w = s.range(1, mx)
                    if s.draw(2):
                        w = min(w, s.range(1, 8))
                    t.members.append(Member(self.fname(), T("s", ty=ty), w)); named += 1
            elif k == "anon":
                m = self.record(d - 1, anon=True)
                self.defs.remove(m)
                t.members.append(Member(None, m)); named += 1
            else:
                m = Member(self.fname(), self.type(d - 1)); named += 1
                if self.o.get("alignas") and s.chance(1, 12):
                    m.align = s.pick(["16", "32", "16"] + (["double"] if m.type.kind == "s" else []))
                t.members.append(m)
        if not named:
            t.members.append(Member(self.fname(), T("s", ty=s.pick([INT, UCHAR, LONG]))))
        if self.opt("flex") and self.o.get("flex") and not union and not anon and s.chance(1, 8):
            t.members.append(Member(self.fname(), T("a", elem=self.scalar(), n=None)))
            t.flex = True
        t.tag = "%sS%d" % (self.pre, self.nrec)
        self.nrec += 1
        self.defs.append(t)
        return t
    def fname(self):
        self.nfield += 1
        return "m%d" % self.nfield

def leaves(t, path="", bits=None):
    """(path, leaf T, bits, inunion) of every named scalar sub-object."""
    if t.kind == "a":
        for i in range(t.n or 0):
            yield from leaves(t.elem, "%s[%d]" % (path, i))
    elif t.kind == "r":
        for m in t.members:
            if m.bits is not None:
                if m.name:
                    yield ("%s.%s" % (path, m.name), m.type, m.bits)
            elif m.name is None:
                yield from leaves(m.type, path)
            else:
                yield from leaves(m.type, "%s.%s" % (path, m.name))
    else:
        yield (path, t, bits)

def members_flat(t, path=""):
    """(path, type, bits) of every member at every level, including aggregates."""
    if t.kind == "a":
        if t.n:
            yield (path + "[%d]" % (t.n - 1), t.elem, None)
            yield from members_flat(t.elem, path + "[%d]" % (t.n - 1))
    elif t.kind == "r":
        for m in t.members:
            if m.name is None:
                if m.bits is None:
                    yield from members_flat(m.type, path)
                continue
            p = path + "." + m.name
            yield (p, m.type, m.bits)
            if m.bits is None:
                yield from members_flat(m.type, p)

def has(t, pred):
    if pred(t):
        return True
    if t.kind == "a":
        return has(t.elem, pred)
    if t.kind == "r":
        return any(has(m.type, pred) for m in t.members)
    return False

def bf_value(s, ty, bits):
    if ty.kind == "b":
        return s.draw(2)
    v = s.pick([0, 1, -1, (1 << bits) - 1, 1 << (bits - 1), (1 << (bits - 1)) - 1, s.bits(bits), s.bits(bits)]) & ((1 << bits) - 1)
    if ty.signed and v >> (bits - 1):
        v -= 1 << bits
    return v

def obs_code(t, p):
    if t.kind == "p": return "obs((unsigned long long)%s);" % p
    return ("obsf(%s);" if t.ty.tid == FLOAT.tid else "obsd(%s);" if not t.ty.isint else "obs(%s);") % p

def dump_code(t, p, d=0, ind="\t"):
    """Statements that observe every named scalar of the object p."""
    if t.kind == "a":
        return "%sfor (int i%d = 0; i%d < %d; i%d++) {\n%s%s}\n" % (ind, d, d, t.n or 0, d, dump_code(t.elem, "%s[i%d]" % (p, d), d + 1, ind), ind)
    if t.kind == "r":
        out = ""
        for m in t.members:
            if m.bits is not None:
                if m.name: out += "%sobs(%s.%s);\n" % (ind, p, m.name)
            elif m.name is None:
                out += dump_code(m.type, p, d, ind)
            elif not (m.type.kind == "a" and m.type.n is None):
                out += dump_code(m.type, "%s.%s" % (p, m.name), d, ind)
        return out
    return "%s%s\n" % (ind, obs_code(t, p))

def fill_code(s, t, p, bools, ind="\t"):
    """Statements that give every byte (or, with _Bool members, every scalar) of p some value."""
    if not bools or t.kind in "sp" and (t.kind == "p" or t.ty.kind != "b"):
        if t.kind == "s" and s.draw(2):
            v = gen_value(s, t.ty) if t.ty.isint else gen_float(s, t.ty, True)
            return "%s%s = %s;\n" % (ind, p, literal(v, t.ty))
        if t.kind == "s" and t.ty.kind == "b":
            return "%s%s = %d;\n" % (ind, p, s.draw(2))
        return "%sfor (unsigned i = 0; i < sizeof %s; i++) ((unsigned char *)&%s)[i] = i * %d + %d;\n" % (ind, p, p, s.pick([37, 101, 1, 255]), s.draw(256))
    out = "%sfor (unsigned i = 0; i < sizeof %s; i++) ((unsigned char *)&%s)[i] = 0;\n" % (ind, p, p) if t.kind == "r" else ""
    for pth, lt, b in leaves(t, p):
        if lt.kind == "p": v = "(void *)%dul" % s.draw(9999)
        elif lt.ty.isint: v = literal(bf_value(s, lt.ty, b) if b else gen_value(s, lt.ty), lt.ty)
        else: v = literal(gen_float(s, lt.ty, True), lt.ty)
        out += "%s%s = %s;\n" % (ind, pth, v)
    return out
