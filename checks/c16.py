"""C16: conditional inclusion against gcc and clang."""
from engine import Case, OK, FAIL, DISCARD
from pptest import PPCheck

LITS = ["0", "1", "2", "3", "7", "10", "63", "64", "0x10", "010", "0xFFFFFFFF", "0x7FFFFFFFFFFFFFFF", "0xFFFFFFFFFFFFFFFF", "9223372036854775807", "2147483648", "4294967295", "4294967296",
        "0u", "1u", "1U", "2UL", "3l", "1ll", "5LLU", "0xFFFFFFFFu", "18446744073709551615u", "0x8000000000000000", "01777777777777777777777", "0777",
        "'a'", "'\\0'", "'\\n'", "'\\x41'", "'\\101'", "'\\xff'", "'\\377'", "'\\''", "'\"'", "L'a'", "L'\\x7fff'", "u'\\x8000'", "U'z'", "u'\\u20ac'", "L'\\U0001f600'", "'\\\\'"]
M64 = (1 << 64) - 1

class Ev:
    """Value of a controlling expression; None where C leaves it undefined or invalid."""

def wrap(v, u):
    v &= M64
    return v if u or v < 1 << 63 else v - (1 << 64)

class G:
    def __init__(self, s):
        self.s = s
        self.defs = {}        # name -> None (object) / text
        self.n = 0
        self.labels = set()
        self.lines = []
    def expr(self, d, ev=True):
        """-> (text, value, unsigned) with value None when not evaluable; text is fully parenthesised at random."""
        s = self.s
        k = s.draw(22)
        if d <= 0 or k < 4:
            return self.leaf()
        if k < 7:
            op = s.pick(["!", "~", "-", "+"])
            t, v, u = self.expr(d - 1)
            if v is None: r = None
            elif op == "!": r, u = int(v == 0), False
            else:
                r = {"~": ~v, "-": -v, "+": v}[op]
                if op == "-" and not u and v == -(1 << 63): r = None
                r = None if r is None else wrap(r, u)
            if op == "!": u = False
            self.labels.add("unary")
            return op + (" " if t[0] in "+-" or s.chance(1, 4) else "") + self.par(t, 99), r, u
        if k < 9:
            self.labels.add("ternary")
            c, cv, _ = self.expr(d - 1); a, av, au = self.expr(d - 1); b, bv, bu = self.expr(d - 1)
            u = au or bu
            v = None if cv is None else av if cv else bv
            return self.par(c, 3) + " ? " + self.par(a, 2) + " : " + self.par(b, 3), None if v is None else wrap(v, u), u
        if k < 12:
            op = s.pick(["&&", "||"])
            a, av, _ = self.expr(d - 1)
            b, bv, _ = self.expr(d - 1)
            self.labels.add("logical")
            p = 4 if op == "||" else 5
            if av is None: v = None
            elif op == "&&": v = 0 if av == 0 else None if bv is None else int(bv != 0)
            else: v = 1 if av != 0 else None if bv is None else int(bv != 0)
            return self.par(a, p) + " " + op + " " + self.par(b, p + 1), v, False
        if k < 13:
            t, v, u = self.expr(d - 1)
            return "(" + t + ")", v, u
        op = s.pick(["+", "-", "*", "/", "%", "<<", ">>", "<", ">", "<=", ">=", "==", "!=", "&", "|", "^"])
        a, av, au = self.expr(d - 1); b, bv, bu = self.expr(d - 1)
        if op in ("<<", ">>"):
            if s.chance(3, 4):
                bv, bu = s.range(0, 63), s.chance(1, 4)
                b = str(bv) + ("u" if bu else "")
            u = au
            if av is None or bv is None or not 0 <= bv < 64: v = None
            elif op == "<<":
                v = None if not u and (av < 0 or av << bv > (1 << 63) - 1) else wrap(av << bv, u)
            else: v = av >> bv
            pr = 11
        else:
            u = au or bu
            if av is None or bv is None: v = None
            else:
                x, y = wrap(av, u), wrap(bv, u)
                if op in ("/", "%"):
                    if y == 0: v = None
                    else:
                        q = abs(x) // abs(y)
                        if (x < 0) != (y < 0): q = -q
                        v = q if op == "/" else x - q * y
                else:
                    v = {"+": x + y, "-": x - y, "*": x * y, "<": int(x < y), ">": int(x > y), "<=": int(x <= y), ">=": int(x >= y), "==": int(x == y), "!=": int(x != y), "&": x & y, "|": x | y, "^": x ^ y}[op]
                if v is not None and op in "+-*/" and not u and not -(1 << 63) <= v < 1 << 63: v = None
            if op in ("<", ">", "<=", ">=", "==", "!="): u = False
            if v is not None: v = wrap(v, u)
            pr = {"*": 13, "/": 13, "%": 13, "+": 12, "-": 12, "<": 10, ">": 10, "<=": 10, ">=": 10, "==": 9, "!=": 9, "&": 8, "^": 7, "|": 6}[op]
        self.labels.add("binary")
        t = self.par(a, pr) + s.pick([" ", "", "/**/"]) + op + " " + self.par(b, pr + 1)
        return t, v, u
    def par(self, t, prec):
        # operands are parenthesised unless atomic: precedence is exercised by flat()
        return t if t.replace("'", "").isalnum() or t.startswith("defined") and prec < 99 and "(" not in t else "(" + t + ")"
    def leaf(self):
        s = self.s
        k = s.draw(12)
        if k < 6:
            t = s.pick(LITS)
            return (t,) + litval(t)
        if k < 8:
            n = s.pick(self.names)
            self.labels.add("defined")
            return s.pick(["defined %s", "defined(%s)", "defined ( %s )"]) % n, int(n in self.defs), False
        if k < 11:
            n = s.pick(self.names + ["int", "while", "zz", "true"])
            d = self.defs.get(n)
            if n not in self.defs: return n, 0, False
            if d is not None and d[0] == "v": self.labels.add("macro-value"); return n, d[2], d[3]
            return "1", 1, False
        fs = [n for n, d in self.defs.items() if d and d[0] == "f"]
        if not fs: return "1", 1, False
        n = s.pick(fs)
        a, av, au = self.leaf()
        self.labels.add("function-macro")
        # body is (x)
        return "%s(%s)" % (n, a), av, au
    def flat(self):
        """A flat chain of binary operators of any precedence over small values, evaluated by the references only."""
        s = self.s
        self.labels.add("precedence")
        ops = ["+", "-", "*", "<<", "<", ">", "<=", ">=", "==", "!=", "&", "|", "^", "&&", "||", ">>", "/", "%"]
        t = s.pick(["", "-", "!", "~"]) + s.pick("1234")
        q = 0
        for _ in range(s.range(1, 6)):
            op = s.pick(ops + (["?"] if q < 2 else []))
            if op == "?":
                t += " ? " + s.pick("01234") + " " + s.pick(ops[:9]) + " " + s.pick("1234") + " : " + s.pick("01234")
                q += 1
            else:
                t += " " + op + " " + s.pick(["", "", "-", "!"] if op not in ("<<", ">>", "/", "%") else [""]) + s.pick("1234" if op in "/%<<>>" else "01234")
        return t
    def cond(self):
        s = self.s
        if s.chance(1, 4):
            return self.flat()
        for _ in range(6):
            t, v, u = self.expr(s.range(0, 4))
            if v is not None:
                return t
        return "1"
    def mark(self):
        self.n += 1
        self.lines.append("m%d" % self.n)
    def directive(self, t):
        s = self.s
        self.lines.append(s.pick(["#", "#", " # ", "#  ", "\t#"]) + t + s.pick(["", "", " ", " // c", " /* c */"]))
    def junk(self, d):
        """Anything may stand in a skipped group."""
        s = self.s
        k = s.draw(9)
        if k == 0: self.directive("error not reached")
        elif k == 1: self.directive("include <no/such/file.h>")
        elif k == 2: self.directive("define %s 77" % s.pick(self.names))
        elif k == 3: self.directive("undef %s" % s.pick(self.names))
        elif k == 4: self.directive(s.pick(["foo bar", "12 34", "line xyz", "pragma pop_macro(", "unknown", ""]))
        elif k == 5: self.lines.append(s.pick(["@ ` \\ $", "f(a, (", "\"abc\" 'd'", "/* # else */ x", "x # else", "0'c 1..2"]).replace("0'c", "0"))
        elif k == 6: self.mark()
        else:
            self.directive(s.pick(["if 1", "if 0", "ifdef Q_A", "ifndef Q_A", "if 1 / 0", "if (", "if", "ifdef"]))
            for _ in range(s.range(0, 2)): self.junk(d - 1)
            for _ in range(s.range(0, 2)):
                self.directive(s.pick(["elif 1", "elif 0", "elif (", "elif"]))
                self.junk(d - 1) if d > 0 else self.mark()
            if s.chance(1, 2):
                self.directive("else"); self.mark()
            self.directive("endif")
        self.labels.add("skipped-junk")
    def group(self, d, live):
        s = self.s
        if live is False:
            for _ in range(s.range(0, 2)): self.junk(d)
            return
        for _ in range(s.range(1, 3)):
            k = s.draw(8)
            if k < 3: self.mark()
            elif k < 5: self.define()
            elif d > 0: self.block(d - 1)
            else: self.mark()
    def define(self):
        s = self.s
        n = s.pick(self.names)
        k = s.draw(4)
        if n in self.defs:
            self.directive("undef " + n)
            del self.defs[n]
        if k == 0:
            self.mark()
        elif k == 1:
            self.directive("define " + n + s.pick([" ", ""]))
            self.defs[n] = ("e",)
        elif k == 2:
            t, v, u = self.leaf2()
            self.directive("define %s %s" % (n, t))
            self.defs[n] = ("v", t, v, u)
        else:
            self.directive("define %s(x) (x)" % n)
            self.defs[n] = ("f",)
    def leaf2(self):
        for _ in range(5):
            t, v, u = self.expr(1)
            if v is not None and "defined" not in t and "Q_" not in t:
                return "(" + t + ")", v, u
        return "1", 1, False
    def block(self, d):
        """The generator knows which group is live only for ifdef-like conditions; for #if it emits marks
        and definitions in all groups and the references decide."""
        s = self.s
        self.labels.add("nest%d" % (4 - d))
        k = s.draw(4)
        saved = dict(self.defs)
        taken = None
        if k == 0:
            n = s.pick(self.names); neg = s.draw(2)
            self.directive(("ifndef " if neg else "ifdef ") + n)
            live = (n in self.defs) != bool(neg)
        elif k == 1:
            live = bool(s.draw(2))
            self.directive("if " + ("1" if live else "0"))
        else:
            c, v, live = self.known_cond()
            self.directive("if " + c)
        self.group(d, live)
        taken = live
        for _ in range(s.weighted([(4, 0), (3, 1), (2, 2), (1, 4)])):
            if taken:
                self.directive(s.pick(["elif 1", "elif 0", "elif 1/0", "elif", "elif (", "elifdef Q_A", "elifndef Q_A", "elif defined"]) if s.chance(1, 2) else "elif " + self.known_cond()[0])
                self.group(d, False)
                self.labels.add("elif-after-taken")
            else:
                kk = s.draw(3)
                if kk == 0:
                    n = s.pick(self.names); neg = s.draw(2)
                    self.directive(("elifndef " if neg else "elifdef ") + n)
                    live = (n in self.defs) != bool(neg)
                    self.labels.add("elifdef")
                else:
                    c, v, live = self.known_cond()
                    self.directive("elif " + c)
                self.group(d, live)
                taken = live
        if s.chance(1, 2):
            self.directive("else")
            self.group(d, not taken)
        self.directive("endif")
    def known_cond(self):
        for _ in range(8):
            t, v, u = self.expr(self.s.range(0, 3))
            if v is not None:
                return t, v, v != 0
        return "1", 1, True
    def run(self):
        s = self.s
        self.names = ["Q_" + c for c in "ABCD"[:s.range(1, 4)]]
        for _ in range(s.range(0, 3)):
            self.define()
        for _ in range(s.range(1, 4)):
            if s.chance(1, 2):
                self.directive("if " + self.cond()); self.mark(); self.directive("else"); self.mark(); self.directive("endif")
            else:
                self.block(s.range(0, 3))
            self.mark()

def litval(t):
    if "'" in t:
        pre = t[:t.index("'")]
        b = t[len(pre) + 1:-1]
        if b[0] == "\\":
            c = b[1]
            v = {"n": 10, "'": 39, "\\": 92}.get(c)
            if v is None:
                v = int(b[2:], 16) if c in "xuU" else int(b[1:], 8)
        else:
            v = ord(b)
        if pre == "" and v > 127: v -= 256
        return v, pre in ("u", "U")
    u = "u" in t.lower()
    d = t.lower().rstrip("ul")
    v = int(d, 16) if d.startswith("0x") else int(d, 8) if d.startswith("0") and d != "0" else int(d)
    return (v, True) if u or v >= 1 << 63 else (v, False)

class Cond(PPCheck):
    prop = "C16"
    technique = "property-based testing: random conditional nestings and controlling expressions, surviving tokens compared with gcc and clang, with shrinking"
    level_note = "Sampled directives; controlling expressions with overflow, division by zero in an evaluated operand or over-wide shifts are generated only in groups and operands that are not evaluated."
    batch = 40
    quick_cases = 60000
    thorough_cases = 1000000
    rule = ("random nestings (to depth 4) of #if/#ifdef/#ifndef/#elif/#elifdef/#elifndef/#else/#endif with random controlling expressions (all operators, every literal form, defined, object-like and function-like macros, identifiers), "
            "definitions inside live groups, and arbitrary directives and text inside skipped groups; the surviving marker tokens are compared. Non-trivial: an operator or macro in a condition, or nesting, or junk in a skipped group.")
    assumptions = ["gcc -E and clang -E implement C17 6.10.1 (and C23 #elifdef) where they agree"]
    flags = []
    def tools(self, src, d):
        import cc as T
        gcc = T.run(["gcc", "-std=gnu2x", "-E", "-P", "-w", "-undef", src], cpu=20)
        clang = T.run(["clang", "-std=gnu2x", "-E", "-P", "-w", "-undef", src], cpu=20)
        return gcc, clang, T.run([self.cc, "-E", src], cpu=20)
    def generate(self, s):
        g = G(s)
        g.run()
        if any("true" in l for l in g.lines):
            return None
        text = "\n".join(g.lines)
        if len(text) > 8000: return None
        return Case(text, nontrivial=bool(g.labels), labels=sorted(g.labels), data=None)

CHECK = Cond()
