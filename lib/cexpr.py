"""Typed C expression generator with exact concrete evaluation.

Every sub-expression is generated together with its value, so undefined behaviour
is avoided by construction: an operator whose result would be undefined for the
actual operands is replaced by one that is defined."""
import math, struct
from fractions import Fraction

class Ty:
    __slots__ = ("name", "size", "signed", "rank", "kind", "tid")
    def __init__(self, name, size, signed, rank, kind, tid):
        self.name, self.size, self.signed, self.rank, self.kind, self.tid = name, size, signed, rank, kind, tid
    @property
    def bits(self):
        return self.size * 8
    @property
    def lo(self):
        return 0 if self.kind == "b" else (-(1 << (self.bits - 1)) if self.signed else 0)
    @property
    def hi(self):
        return 1 if self.kind == "b" else ((1 << (self.bits - 1)) - 1 if self.signed else (1 << self.bits) - 1)
    @property
    def isint(self):
        return self.kind != "f"
    def __repr__(self):
        return self.name

BOOL = Ty("_Bool", 1, False, 0, "b", 1)
CHAR = Ty("char", 1, True, 1, "i", 2)
SCHAR = Ty("signed char", 1, True, 1, "i", 3)
UCHAR = Ty("unsigned char", 1, False, 1, "i", 4)
SHORT = Ty("short", 2, True, 2, "i", 5)
USHORT = Ty("unsigned short", 2, False, 2, "i", 6)
INT = Ty("int", 4, True, 3, "i", 7)
UINT = Ty("unsigned int", 4, False, 3, "i", 8)
LONG = Ty("long", 8, True, 4, "i", 9)
ULONG = Ty("unsigned long", 8, False, 4, "i", 10)
LLONG = Ty("long long", 8, True, 5, "i", 11)
ULLONG = Ty("unsigned long long", 8, False, 5, "i", 12)
FLOAT = Ty("float", 4, True, 10, "f", 13)
DOUBLE = Ty("double", 8, True, 11, "f", 14)
INTS = [INT, UINT, LONG, ULONG, CHAR, SCHAR, UCHAR, SHORT, USHORT, BOOL, LLONG, ULLONG]
FLOATS = [DOUBLE, FLOAT]
TYPEID_MACRO = ("#define TID(e) _Generic((e), _Bool: 1, char: 2, signed char: 3, unsigned char: 4, short: 5, unsigned short: 6, int: 7, unsigned: 8,"
                " long: 9, unsigned long: 10, long long: 11, unsigned long long: 12, float: 13, double: 14, default: 0)\n")

def wrap(v, ty):
    if ty.kind == "b":
        return 1 if v != 0 else 0
    v &= (1 << ty.bits) - 1
    if ty.signed and v >> (ty.bits - 1):
        v -= 1 << ty.bits
    return v

def round_float(x, size):
    """Fraction/int/float -> Python float holding the correctly rounded value of the given size."""
    if isinstance(x, float):
        if size == 8 or math.isnan(x) or math.isinf(x) or x == 0.0:
            return x
        neg0 = math.copysign(1.0, x)
        x = Fraction(x)
        return round_frac(x, 4) if x != 0 else neg0 * 0.0
    return round_frac(Fraction(x), size)

def round_frac(q, size):
    if q == 0:
        return 0.0
    p, emin, emax = (53, -1074, 1023) if size == 8 else (24, -149, 127)
    s = -1.0 if q < 0 else 1.0
    q = abs(q)
    e = q.numerator.bit_length() - q.denominator.bit_length()
    if Fraction(2) ** e > q:
        e -= 1
    ulp = max(e - p + 1, emin)
    n = q / (Fraction(2) ** ulp)
    i = n.numerator // n.denominator
    r = n - i
    if r > Fraction(1, 2) or (r == Fraction(1, 2) and i & 1):
        i += 1
    v = Fraction(i) * Fraction(2) ** ulp
    if v >= Fraction(2) ** (emax + 1):
        return s * math.inf
    return s * float(v)

def convert(v, frm, to):
    """Value after conversion, or None when undefined."""
    if to.kind == "b":
        return 1 if v != 0 else 0      # NaN != 0 is True
    if to.isint:
        if frm.isint:
            return wrap(v, to)
        if math.isnan(v) or math.isinf(v):
            return None
        i = int(v)
        return i if to.lo <= i <= to.hi else None
    return round_float(v, to.size)

def promote(t):
    return INT if t.isint and t.rank < 3 else t

def usual(a, b):
    if a.kind == "f" or b.kind == "f":
        return a if (a.kind == "f" and (b.kind != "f" or a.rank >= b.rank)) else b
    a, b = promote(a), promote(b)
    if a.tid == b.tid:
        return a
    if a.signed == b.signed:
        return a if a.rank > b.rank else b
    s, u = (a, b) if a.signed else (b, a)
    if u.rank >= s.rank:
        return u
    if s.size > u.size:
        return s
    return {INT.tid: UINT, LONG.tid: ULONG, LLONG.tid: ULLONG}[s.tid]

def fdiv(a, b):
    if math.isnan(a) or math.isnan(b):
        return math.nan
    if b == 0:
        if a == 0:
            return math.nan
        return math.copysign(1.0, a) * math.copysign(1.0, b) * math.inf
    try:
        return a / b
    except OverflowError:
        return math.inf

def binop(op, a, ta, b, tb):
    """(type, value) or (type, None) if undefined."""
    if op in ("<<", ">>"):
        t = promote(ta)
        n = b
        if n < 0 or n >= t.bits:
            return t, None
        a = wrap(a, t)
        if op == ">>":
            return t, a >> n
        if t.signed and (a < 0 or (a << n) > t.hi):
            return t, None
        return t, wrap(a << n, t)
    t = usual(ta, tb)
    a, b = convert(a, ta, t), convert(b, tb, t)
    if op in ("<", ">", "<=", ">=", "==", "!="):
        return INT, int({"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b, "==": a == b, "!=": a != b}[op])
    if t.kind == "f":
        try:
            r = {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: fdiv(a, b)}[op]()
        except OverflowError:
            r = math.inf
        return t, round_float(r, t.size)
    if op in ("/", "%"):
        if b == 0:
            return t, None
        q = abs(a) // abs(b)
        if (a < 0) != (b < 0):
            q = -q
        r = a - q * b
        if q > t.hi:
            return t, None
        return t, q if op == "/" else r
    v = {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "&": lambda: a & b, "|": lambda: a | b, "^": lambda: a ^ b}[op]()
    if t.signed and not (t.lo <= v <= t.hi):
        return t, None
    return t, wrap(v, t)

def int_literal(v, ty, src=None):
    """Text of a constant expression of exactly this type and value."""
    if ty.kind == "b" or ty.rank < 3:
        return "((%s)%s)" % (ty.name, int_literal(v, INT))
    suf = {INT.tid: "", UINT.tid: "u", LONG.tid: "l", ULONG.tid: "ul", LLONG.tid: "ll", ULLONG.tid: "ull"}[ty.tid]
    if v < 0:
        if v == ty.lo:
            return "(-%d%s - 1)" % (ty.hi, suf)
        return "(-%d%s)" % (-v, suf)
    return "%d%s" % (v, suf)

def float_literal(v, ty):
    suf = "f" if ty.size == 4 else ""
    if math.isnan(v):
        return "(0.0%s/0.0%s)" % (suf, suf)
    if math.isinf(v):
        return "(%s1.0%s/0.0%s)" % ("-" if v < 0 else "", suf, suf)
    t = "%s%s" % (repr(abs(v)) if "." in repr(abs(v)) or "e" in repr(abs(v)) else repr(abs(v)) + ".0", suf)
    return "(-%s)" % t if math.copysign(1.0, v) < 0 else t

def literal(v, ty):
    return int_literal(v, ty) if ty.isint else float_literal(v, ty)

def float_spelling(src, ty):
    """A decimal or hexadecimal floating constant in one of its many spellings, and its correctly rounded value."""
    suf = src.pick(["", ""]) if ty.size == 8 else src.pick(["f", "F"])
    if src.draw(3) == 0:
        ip = "".join(src.pick("0123456789abcdefABCDEF") for _ in range(src.range(0, 4)))
        fp = "".join(src.pick("0123456789abcdefABCDEF") for _ in range(src.range(0 if ip else 1, 16)))
        dot = fp != "" or src.draw(2)
        e = src.range(-40, 40)
        if src.chance(1, 4):
            e = src.range(-1080, 1000) if ty.size == 8 else src.range(-150, 120)
        t = "0" + src.pick("xX") + ip + ("." if dot else "") + fp + src.pick("pP") + (src.pick(["", "+"]) if e >= 0 else "") + str(e)
        q = Fraction(int((ip + fp) or "0", 16), 16 ** len(fp)) * Fraction(2) ** e
    else:
        ip = "".join(src.pick("0123456789") for _ in range(src.range(0, 8)))
        fp = "".join(src.pick("0123456789") for _ in range(src.range(0 if ip else 1, 20)))
        he = src.draw(2)
        dot = fp != "" or not he or src.draw(2)
        e = src.range(-12, 12)
        if src.chance(1, 4):
            e = src.range(-330, 300) if ty.size == 8 else src.range(-50, 36)
        if not he:
            e = 0
        t = ip + ("." if dot else "") + fp + (src.pick("eE") + (src.pick(["", "+"]) if e >= 0 else "") + str(e) if he else "")
        q = Fraction(int((ip + fp) or "0"), 10 ** len(fp)) * Fraction(10) ** e
    v = round_frac(q, ty.size)
    if math.isinf(v):
        return float_literal(1.0, ty), 1.0
    # glibc's strtof/strtod misround inexact hexadecimal subnormals, which is no business of this compiler.
    if "x" in t.lower() and Fraction(v) != q and abs(v) <= (2.0 ** -126 if ty.size == 4 else 2.0 ** -1022):
        return float_literal(1.0, ty), 1.0
    return t + suf, v

SMALL = [0, 1, 2, 3, -1, 5, 7, 8, 10, -2, -7, 13, 31, 32, 33, 63, 64, 100, 127, 128, 255, 256]
def gen_value(src, ty, kind=None):
    if ty.kind == "f":
        return gen_float(src, ty)
    if ty.kind == "b":
        return src.draw(2)
    k = kind or src.weighted([(5, "small"), (4, "edge"), (2, "pow"), (3, "rand"), (1, "bytes")] + ([(2, "tie")] if ty.size >= 4 else []))
    if k == "tie":
        # near or at the middle between two floating numbers of either format
        p = src.pick([24, 53]) if ty.size == 8 else 24
        sh = (ty.bits - p) - (0 if src.draw(2) else src.draw(ty.bits - p))
        m = (1 << (p - 1)) | src.pick([src.bits(p - 1), src.draw(4), (1 << (p - 1)) - 1 - src.draw(2)])
        v = (m << sh) + (1 << sh >> 1) + src.pick([0, 0, 1, -1])
        return wrap(v if not ty.signed or src.draw(2) else -(v >> 1), ty)
    if k == "small":
        return wrap(src.pick(SMALL), ty)
    if k == "edge":
        e = src.pick([ty.hi, ty.lo, ty.hi - 1, ty.lo + 1, -1, (1 << 31) - 1, -(1 << 31), 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, (1 << 31) + 1,
                      0x7fff, -0x8000, 0xffff, 0x10000, 0x7f, -0x80, (1 << 63) - 1, -(1 << 63), 1 << 63, (1 << 64) - 1, (1 << 63) + 1])
        return wrap(e, ty)
    if k == "pow":
        return wrap((1 << src.draw(64)) + src.pick([0, 1, -1]), ty) * (1 if not ty.signed or src.draw(2) == 0 else 1)
    if k == "bytes":
        return wrap(src.pick([0x0102030405060708, 0x8877665544332211, 0xf0e0d0c0b0a09080 - (1 << 64)]), ty)
    return wrap(src.bits(ty.bits), ty)

def gen_float(src, ty, finite=False):
    k = src.weighted([(4, "small"), (3, "edge"), (3, "rand"), (2, "int")])
    if k == "small":
        return src.pick([0.0, 1.0, 2.0, -1.0, 0.5, -0.5, 1.5, -1.5, 3.0, 0.1 if ty.size == 8 else round_float(0.1, 4), 2.5, -2.75, 10.0, 100.25, 255.0, 256.0, -128.0, -0.0])
    if k == "edge":
        c = [-0.0, math.inf, -math.inf, math.nan, 2.0 ** 31, 2.0 ** 32, 2.0 ** 53, 2.0 ** 62, 2.0 ** 63, -2.0 ** 63, 2.0 ** 64, -2.0 ** 31, 2.0 ** 24, 16777215.0]
        c += [3.4028234663852886e38, 1.401298464324817e-45, 1.1754943508222875e-38] if ty.size == 4 else [1.7976931348623157e308, 5e-324, 2.2250738585072014e-308, 1e-310, 4294967295.0, 2147483647.0, 2147483648.5, 1.8446744073709550e19, 9223372036854774784.0]
        if finite:
            c = [x for x in c if math.isfinite(x)]
        return src.pick(c)
    if k == "int":
        return round_float(gen_value(src, src.pick([INT, LONG, ULONG, UINT])), ty.size)
    if ty.size == 8:
        return struct.unpack("<d", struct.pack("<Q", (src.draw(2) << 63) | (src.range(1023 - 70, 1023 + 70) << 52) | src.bits(52)))[0]
    return struct.unpack("<f", struct.pack("<I", (src.draw(2) << 31) | (src.range(127 - 40, 127 + 40) << 23) | src.bits(23)))[0]

def int_spelling(src):
    """An integer constant in any base, with any suffix, and the type and value C17 gives it."""
    k = src.weighted([(3, "small"), (3, "edge"), (2, "rand"), (1, "tie")])
    v = abs(gen_value(src, src.pick([LONG, ULONG, UINT]), "tie")) if k == "tie" else abs(src.pick(SMALL)) if k == "small" else src.pick([(1 << 31) - 1, 1 << 31, (1 << 31) + 1, (1 << 32) - 1, 1 << 32, (1 << 63) - 1, 1 << 63, (1 << 64) - 1, 0x7fff, 0x8000, 0xffff]) if k == "edge" else src.bits(src.pick([16, 31, 32, 33, 63, 64]))
    base = src.pick(["dec", "hex", "oct", "bin"])
    u = src.draw(2)
    l = src.draw(3)
    cand = [[INT, LONG, LLONG], [LONG, LLONG], [LLONG]][l] if not u else [[UINT, ULONG, ULLONG], [ULONG, ULLONG], [ULLONG]][l]
    if not u and base != "dec":
        cand = [x for t in cand for x in (t, {INT.tid: UINT, LONG.tid: ULONG, LLONG.tid: ULLONG}[t.tid])]
    if v > cand[-1].hi:
        v &= cand[-1].hi
    ty = next(t for t in cand if v <= t.hi)
    us = src.pick(["u", "U"]) if u else ""
    ls = ["", src.pick(["l", "L"]), src.pick(["ll", "LL"])][l]
    suf = us + ls if src.draw(2) else ls + us
    if base == "dec":
        t = str(v)
    elif base == "hex":
        t = src.pick(["0x", "0X"]) + "0" * src.pick([0, 0, 1, 3]) + (format(v, "x") if src.draw(2) else format(v, "X"))
    elif base == "oct":
        t = "0" + "0" * src.pick([0, 0, 2]) + (format(v, "o") if v else "")
    else:
        t = src.pick(["0b", "0B"]) + format(v, "b")
    return t + suf, ty, v

class Var:
    __slots__ = ("lv", "ty", "val", "const", "kind", "bits")
    def __init__(self, lv, ty, val, const=False, kind="local", bits=None):
        self.lv, self.ty, self.val, self.const, self.kind, self.bits = lv, ty, val, const, kind, bits

class E:
    """An expression: text (fully parenthesised where needed), type, value."""
    __slots__ = ("t", "ty", "v", "prec", "rt")
    def __init__(self, t, ty, v, prec=16, rt=None):
        self.t, self.ty, self.v, self.prec = t, ty, v, prec
        self.rt = rt       # the run-time rendering for C03

def par(e, minprec):
    return e.t if e.prec >= minprec else "(" + e.t + ")"

PREC = {"*": 13, "/": 13, "%": 13, "+": 12, "-": 12, "<<": 11, ">>": 11, "<": 10, ">": 10, "<=": 10, ">=": 10, "==": 9, "!=": 9, "&": 8, "^": 7, "|": 6, "&&": 5, "||": 4}

class ExprGen:
    """vars: readable and writable variables. funs: {type tid: name} identity functions."""
    def __init__(self, src, vars, types, funs=None, effects=True, stats=None, leaf_literals=1, extra_paren=True):
        self.src, self.vars, self.types, self.funs, self.effects = src, list(vars), types, funs or {}, effects
        self.stats = stats if stats is not None else {}
        self.leaf_literals = leaf_literals
        self.readable = list(vars)
        self.writable = []
        self.budget = 0
        self.spell = False
        self.kinds = None
    def full(self, depth, budget=24):
        """One full expression: decides which variables it may write (each once) and which it may read."""
        s = self.src
        self.readable = [v for v in self.vars]
        self.writable = []
        if self.effects:
            cand = [v for v in self.vars if not v.const]
            n = min(len(cand) - 0, s.weighted([(3, 0), (4, 1), (3, 2), (2, 3)]))
            for v in s.sample(cand, n):
                self.writable.append(v)
                if len(self.readable) > 2:
                    self.readable.remove(v)
                else:
                    self.writable.remove(v)
        self.budget = budget
        return self.expr(depth, True)
    def note(self, k):
        self.stats[k] = self.stats.get(k, 0) + 1
    def leaf(self, live):
        s = self.src
        if self.readable and s.weighted([(4, 0), (self.leaf_literals, 1)]) == 0:
            v = s.pick(self.readable)
            return E(v.lv, self.vty(v), v.val)
        t = s.pick([x for x in self.types if x.kind == "f" or x.rank >= 3])
        return self.lit(t)
    def vty(self, v):
        return v.ty
    def lit(self, t):
        if self.spell and t.isint and self.src.draw(3):
            x, t, v = int_spelling(self.src)
            return E(x, t, v)
        if t.kind == "f" and self.src.chance(1, 2):
            x, v = float_spelling(self.src, t)
            return E(x, t, v)
        v = gen_value(self.src, t)
        if t.isint and self.src.chance(1, 8):
            c = self.src.range(32, 126)
            if chr(c) not in "'\\?@":
                return E("'%s'" % chr(c), INT, c)
        x = literal(v, t)
        return E(x, t, v, 16 if not x.startswith("-") else 14)
    def expr(self, depth, live):
        s = self.src
        self.budget -= 1
        if depth <= 0 or self.budget <= 0:
            return self.leaf(live)
        k = s.weighted([(2, "leaf"), (9, "bin"), (2, "un"), (3, "cast"), (2, "cond"), (2, "logic"), (1, "comma"), (3, "assign"), (2, "incdec"), (1, "call"), (1, "sizeof")] if not self.kinds else self.kinds)
        return getattr(self, "e_" + k)(depth, live)
    def e_leaf(self, depth, live):
        return self.leaf(live)
    def e_bin(self, depth, live):
        s = self.src
        a = self.expr(depth - 1, live)
        b = self.expr(depth - 1, live)
        return self.mkbin(a, b)
    def mkbin(self, a, b, ops=None):
        s = self.src
        anyf = a.ty.kind == "f" or b.ty.kind == "f"
        ops = ["+", "-", "*", "/", "<", ">", "<=", ">=", "==", "!="] + ([] if anyf else ["%", "&", "|", "^", "<<", ">>", "<<", ">>", "/", "%"])
        op = s.pick(ops)
        if op in ("<<", ">>"):
            t = promote(a.ty)
            if not 0 <= b.v < t.bits:
                m = t.bits - 1
                b = E("%s & %d" % (par(b, 9), m), *self._and(b, m), prec=8)
            if op == "<<" and binop(op, a.v, a.ty, b.v, b.ty)[1] is None:
                ut = {INT.tid: UINT, LONG.tid: ULONG, LLONG.tid: ULLONG}[promote(a.ty).tid]
                a = E("(%s)%s" % (ut.name, par(a, 14)), ut, wrap(a.v, ut), 14)
        ty, v = binop(op, a.v, a.ty, b.v, b.ty)
        if v is None:
            if op in ("/", "%"):
                if convert(b.v, b.ty, usual(a.ty, b.ty)) == 0:
                    # make the divisor non-zero: (b | 1) or its negation count
                    b2 = E("%s | 1" % par(b, 7), *binop("|", b.v, b.ty, 1, INT), prec=6)
                    if usual(a.ty, b2.ty) is not usual(a.ty, b.ty) or convert(b2.v, b2.ty, usual(a.ty, b2.ty)) == 0:
                        op = "^"
                    else:
                        b = b2
                else:
                    op = s.pick(["|", "^", "<", "=="])
            else:
                # signed overflow: do it in the corresponding unsigned type, or use another operator
                t = usual(a.ty, b.ty)
                if s.draw(2) == 0:
                    ut = {INT.tid: UINT, LONG.tid: ULONG, LLONG.tid: ULLONG}[t.tid]
                    a = E("(%s)%s" % (ut.name, par(a, 14)), ut, wrap(a.v, ut), 14)
                else:
                    op = s.pick(["&", "|", "^", "<", ">", "<=", ">=", "==", "!="])
            ty, v = binop(op, a.v, a.ty, b.v, b.ty)
            if v is None:
                op = "^"
                ty, v = binop(op, a.v, a.ty, b.v, b.ty)
        self.note(op)
        p = PREC[op]
        return E("%s %s %s" % (par(a, p), op, par(b, p + 1)), ty, v, p)
    def _and(self, b, m):
        return binop("&", b.v, b.ty, m, INT)
    def e_un(self, depth, live):
        s = self.src
        a = self.expr(depth - 1, live)
        ops = ["-", "!", "+"] + (["~", "~"] if a.ty.isint else [])
        op = s.pick(ops)
        if op == "!":
            r = E("!%s" % par(a, 14), INT, int(not (a.v != 0)), 14)
        elif op == "+":
            t = promote(a.ty)
            r = E("+%s" % par(a, 15), t, convert(a.v, a.ty, t), 14)
        elif op == "~":
            t = promote(a.ty)
            r = E("~%s" % par(a, 14), t, wrap(~a.v, t), 14)
        else:
            t = promote(a.ty)
            if t.kind == "f":
                r = E("-%s" % par(a, 15), t, -a.v, 14)
            else:
                v = -a.v
                if t.signed and v > t.hi:
                    r = E("~%s" % par(a, 14), t, wrap(~a.v, t), 14)
                else:
                    r = E("-%s" % par(a, 15), t, wrap(v, t), 14)
        self.note("u" + op)
        return r
    def e_cast(self, depth, live):
        s = self.src
        a = self.expr(depth - 1, live)
        t = s.pick(self.types)
        v = convert(a.v, a.ty, t)
        if v is None:
            t = a.ty
            v = a.v
        self.note("cast")
        return E("(%s)%s" % (t.name, par(a, 14)), t, v, 14)
    def e_cond(self, depth, live):
        s = self.src
        w0 = list(self.writable)
        c = self.expr(depth - 1, live)
        tr = c.v != 0
        save0 = self.newly(live)
        self.add_written(w0)
        save = self.newly(live)
        a = self.expr(depth - 1, live and tr)
        self.restore(save)
        b = self.expr(depth - 1, live and not tr)
        self.restore(save0)
        t = usual(a.ty, b.ty)
        x = a if tr else b
        v = convert(x.v, x.ty, t)
        self.note("?:")
        return E("%s ? %s : %s" % (par(c, 4), par(a, 2), par(b, 3)), t, v, 3)
    def newly(self, live):
        return list(self.readable)
    def restore(self, save):
        self.readable = save[:]
    def e_logic(self, depth, live):
        s = self.src
        w0 = list(self.writable)
        a = self.expr(depth - 1, live)
        op = s.pick(["&&", "||"])
        save = self.newly(live)
        self.add_written(w0)
        go = (a.v != 0) == (op == "&&")
        b = self.expr(depth - 1, live and go)
        self.restore(save)
        v = int((a.v != 0) and (b.v != 0)) if op == "&&" else int((a.v != 0) or (b.v != 0))
        p = PREC[op]
        self.note(op)
        return E("%s %s %s" % (par(a, p), op, par(b, p + 1)), INT, v, p)
    def add_written(self, before):
        # variables the left operand wrote are readable on the right of a sequence point
        for v in before:
            if v not in self.writable and v not in self.readable:
                self.readable.append(v)
    def e_comma(self, depth, live):
        w0 = list(self.writable)
        a = self.expr(depth - 1, live)
        save = self.newly(live)
        self.add_written(w0)
        b = self.expr(depth - 1, live)
        self.restore(save)
        self.note("comma")
        return E("(%s, %s)" % (par(a, 1), par(b, 2)), b.ty, b.v, 16)
    def take(self):
        if not self.writable:
            return None
        v = self.src.pick(self.writable)
        self.writable.remove(v)
        return v
    def store(self, v, val, live):
        if live:
            v.val = val
    def e_assign(self, depth, live):
        s = self.src
        v = self.take()
        if v is None:
            return self.e_bin(depth, live)
        a = self.expr(depth - 1, live)
        if s.weighted([(2, 0), (3, 1)]) == 0:
            nv = convert(a.v, a.ty, v.ty)
            if nv is None:
                a = E("!%s" % par(a, 14), INT, int(not (a.v != 0)), 14)
                nv = convert(a.v, a.ty, v.ty)
            self.store(v, nv, live)
            self.note("=")
            return E("%s = %s" % (v.lv, par(a, 2)), v.ty, nv, 2)
        ops = ["+", "-", "*", "/"] + (["%", "&", "|", "^", "<<", ">>", "<<", ">>"] if v.ty.isint and a.ty.isint else [])
        op = s.pick(ops)
        if op in ("<<", ">>") and not 0 <= a.v < promote(v.ty).bits:
            m = promote(v.ty).bits - 1
            a = E("%s & %d" % (par(a, 9), m), *self._and(a, m), prec=8)
        ty, r = binop(op, v.val, v.ty, a.v, a.ty)
        nv = convert(r, ty, v.ty) if r is not None else None
        if nv is None:
            # fall back to an operator that is always defined
            if v.ty.isint and a.ty.isint:
                op = s.pick(["&", "|", "^"])
                ty, r = binop(op, v.val, v.ty, a.v, a.ty)
                nv = convert(r, ty, v.ty)
            else:
                a = E("!%s" % par(a, 14), INT, int(not (a.v != 0)), 14)
                op = ""
                nv = convert(a.v, a.ty, v.ty)
        self.store(v, nv, live)
        self.note(op + "=")
        return E("%s %s= %s" % (v.lv, op, par(a, 2)), v.ty, nv, 2)
    def e_incdec(self, depth, live):
        s = self.src
        v = self.take()
        if v is None:
            return self.e_un(depth, live)
        d = s.pick([1, -1])
        ty, r = binop("+" if d > 0 else "-", v.val, v.ty, 1, INT)
        nv = convert(r, ty, v.ty) if r is not None else None
        if nv is None:
            d = -d
            ty, r = binop("+" if d > 0 else "-", v.val, v.ty, 1, INT)
            nv = convert(r, ty, v.ty) if r is not None else None
            if nv is None:
                return E(v.lv, v.ty, v.val)
        old = v.val
        self.store(v, nv, live)
        o = "++" if d > 0 else "--"
        self.note(o)
        if s.draw(2):
            return E("%s%s" % (par(E(v.lv, v.ty, 0, 16), 15), o), v.ty, old, 15)
        return E("%s%s" % (o, v.lv), v.ty, nv, 14)
    def e_call(self, depth, live):
        a = self.expr(depth - 1, live)
        if not self.funs:
            return a
        t = self.src.pick([t for t in self.types if t.tid in self.funs])
        v = convert(a.v, a.ty, t)
        if v is None:
            return a
        self.note("call")
        return E("%s(%s)" % (self.funs[t.tid], par(a, 2)), t, v, 16)
    def e_sizeof(self, depth, live):
        # the operand is not evaluated
        save_w, save_r = list(self.writable), list(self.readable)
        a = self.expr(min(depth - 1, 2), False)
        self.writable, self.readable = save_w, save_r
        self.note("sizeof")
        return E("sizeof(%s)" % a.t, ULONG, a.ty.size, 14)
