"""C15: macro expansion against gcc, clang and a hide-set model."""
import re
from engine import Case, OK, FAIL, DISCARD
from pptest import PPCheck
from ppmodel import Model, lex, Invalid

IDENTS = ["a", "b", "c", "foo", "x", "y", "_1", "L", "u8", "e"]
NUMS = ["0", "1", "42", "0x1f", "1.5", ".5e", "1e", "7u"]
PUNCT = ["+", "-", "*", "<", ">", "=", "&", "|", "!", "/", "%", "^", ".", ";", "[", "]", "{", "}", "?", ":", "->", "++", "<<", ">=", "&&", "...", "~"]
STRS = ['"s"', '"a\\n\\"b"', "'c'", "'\\''", 'L"w"', '"\\\\"', "'\"'", '""', '" , ) "', "u'x'", '"\\?"', '"tab\\t"']
PARAMS = ["x", "y", "z", "a"]

class Gen:
    def __init__(self, s):
        self.s = s
        self.model = Model()
        self.lines = []
        self.labels = set()
        self.dense = s.chance(1, 2)      # bodies made mostly of macro names
        self.pool = ["Q_" + n for n in s.shuffle(["A", "B", "F", "G", "H", "I", "C", "D"])[:s.range(3, 8) if self.dense else s.range(1, 6)]]
        if s.chance(1, 4):
            self.pool += s.sample(IDENTS[:6], s.range(1, 2))
        self.shape = {}      # name -> None or (n params, variadic)
        self.nested_str = False
    def atom(self):
        s = self.s
        k = s.draw(20)
        if k < 8: return s.pick(IDENTS)
        if k < 11: return s.pick(NUMS)
        if k < 15: return s.pick(PUNCT)
        if k < 17: return s.pick(STRS)
        return s.pick(self.pool)
    def sp(self, must=False):
        return self.s.pick([" ", "", " ", "  ", " /* c */ ", "\t", "/**/", " /*a**/"]) if not must else self.s.pick([" ", "  ", "\t", " /* x */ ", "/***/"])
    def invocation(self, name, depth, params=()):
        s = self.s
        sh = self.shape.get(name)
        if sh is None:
            if name in self.shape or not s.chance(1, 4):
                return name
            sh = (s.range(0, 2), False)
        if s.chance(1, 12):
            return name
        n, var = sh
        k = n + (s.range(0, 3) if var and n == 0 else s.range(1, 3) if var else 0)
        args = [self.arg(depth + 1, params) for _ in range(k)]
        return name + s.pick(["", "", " ", "/**/"]) + "(" + ",".join(args) + ")"
    def arg(self, depth, params=()):
        s = self.s
        k = s.draw(14)
        if k == 0: return ""
        if k < 4: return s.pick(IDENTS)
        if k < 5: return s.pick(NUMS)
        if k < 7 and params: return s.pick(params)
        if k < 9: return s.pick(["", " "]) + s.pick(self.pool) + s.pick(["", " "])
        if k < 11 and depth < 4: return self.invocation(s.pick(self.pool), depth, params)
        if k < 12: return "(" + self.seq(depth + 1, params, 2, comma=True) + ")"
        return self.seq(depth + 1, params, 3)
    def seq(self, depth, params, n, comma=False, body=None):
        s = self.s
        parts = []
        for _ in range(s.range(0 if depth else 1, n)):
            k = s.draw(12)
            if params and k < 4: parts.append(s.pick(params))
            elif k < 7 and depth < 4: parts.append(self.invocation(s.pick(self.pool), depth, params))
            elif k == 7 and depth < 3: parts.append("(" + self.seq(depth + 1, params, 2, comma=True) + ")")
            elif k == 8 and (comma or body is not None): parts.append(",")
            else: parts.append(self.atom())
        out = ""
        for p in parts:
            out += (self.sp() if out else "") + p
        return out
    def body(self, name, params, variadic):
        s = self.s
        ps = list(params) + (["__VA_ARGS__"] if variadic else [])
        parts = []
        if self.dense and s.chance(4, 5):
            for _ in range(s.range(1, 4)):
                k = s.draw(16)
                if k < 4: parts.append(s.pick(self.pool))
                elif k < 7: parts.append(self.invocation(s.pick(self.pool), 2, ps))
                elif k == 7: parts.append("(")
                elif k == 8: parts.append(")")
                elif k == 9: parts.append("()")
                elif k < 12 and ps: parts.append(s.pick(ps))
                elif k < 14 and s.draw(2):
                    n = s.pick(self.pool)
                    parts.append("Q_ ## " + n[2:] if n[0] == "Q" else n); self.labels.add("paste")
                elif k < 14:
                    parts.append(s.pick(self.pool) + " ## " + s.pick(["", "x"] + ps)) if ps else parts.append(s.pick(self.pool)); self.labels.add("paste")
                else: parts.append(s.pick(IDENTS[:3]))
            if parts[-1].endswith("## "): parts[-1] = parts[-1][:-4]
            return " ".join(parts)
        for _ in range(s.range(0, 5)):
            k = s.draw(14)
            if ps and k < 3: parts.append(s.pick(ps))
            elif ps and k < 4:
                parts.append("#" + s.pick(["", " "]) + s.pick(ps)); self.labels.add("stringize")
            elif k < 6:
                ops = [s.pick(ps) if ps and s.chance(2, 3) else s.pick(IDENTS + NUMS + self.pool) if s.chance(4, 5) else s.pick(PUNCT) for _ in range(s.range(2, 3))]
                parts.append(s.pick(["##", " ## ", "## ", " ##"]).join(ops)); self.labels.add("paste")
            elif k < 9: parts.append(self.invocation(s.pick(self.pool), 1, ps))
            elif k == 9: parts.append("(")
            elif k == 10: parts.append(")")
            elif k == 11 and params is None: parts.append("#")
            else: parts.append(self.seq(1, ps, 3, body=True))
        out = ""
        for p in parts:
            out += (self.sp() if out else "") + p
        return out
    def define(self):
        s = self.s
        name = s.pick(self.pool)
        kind = s.draw(5)
        if kind < 2:
            params, var, head = [], False, name + s.pick([" ", "  ", "\t"])
            body = self.body(name, (), False)
            self.shape[name] = None
            plist = None
        else:
            params = s.sample(PARAMS, s.range(0, 3))
            var = s.chance(1, 3)
            items = params + (["..."] if var else [])
            head = name + "(" + s.pick([",", ", ", " , "]).join(items) + ")" + s.pick([" ", "", " "])
            self.shape[name] = (len(params), var)
            body = self.body(name, params, var)
            plist = params
            self.labels.add("variadic" if var else "function-like")
        line = head + body
        if name in self.model.macros:
            if s.chance(1, 6):
                pass
            else:
                self.undef(name)
        if plist is None and "##" in body or True:
            pass
        self.model.define(line)
        sep = " \\\n" if s.chance(1, 8) else " "
        self.lines.append(s.pick(["#define ", "# define ", "#define\t", " #define ", "#define" + sep]) + line + s.pick(["", "", " ", " // end", "/* end */"]))
    def undef(self, name):
        self.model.undef(name)
        self.shape.pop(name, None)
        self.lines.append("#undef " + name)
    def text(self):
        s = self.s
        parts = []
        for _ in range(s.range(1, 4)):
            if s.chance(3, 4):
                parts.append(self.invocation(s.pick(self.pool), 0))
                while s.chance(1, 4):
                    parts.append("(" + self.arg(1) + ")")
            else:
                parts.append(self.atom())
        line = ""
        for p in parts:
            line += (self.s.pick([" ", "\n", "", "\n\n "]) if line else "") + p
        if s.chance(1, 6):
            line = line.replace(",", ",\n").replace("(", "\n(" if s.draw(2) else "(\n")
        # a line of text must not start with #
        line = "\n".join(l if not l.lstrip().startswith("#") else "$" + l for l in line.split("\n"))
        exp = self.model.expand(lex(line))
        self.exp += [t.s for t in exp]
        self.lines.append(line)
    def run(self):
        s = self.s
        self.exp = []
        n = s.range(1, 7) if not self.dense else s.range(3, 10)
        for _ in range(n):
            self.define()
        for _ in range(s.range(1, 4)):
            self.text()
            k = s.draw(10)
            if k < 2: self.define()
            elif k == 2 and self.model.macros:
                self.undef(s.pick(sorted(self.model.macros)))
            elif k < 5:
                self.labels.add("push-pop")
                name = s.pick([n for n in self.pool if n[0] == "Q"])
                if s.chance(1, 2) and self.model.saved:
                    name = s.pick([n for n, _ in self.model.saved])
                    self.model.pop(name)
                    self.lines.append('#pragma pop_macro("%s")' % name)
                    m = self.model.macros.get(name)
                    self.shape.pop(name, None)
                    if m:
                        self.shape[name] = None if m.params is None else (len(m.params), m.variadic)
                else:
                    self.model.push(name)
                    self.lines.append('#pragma push_macro("%s")' % name)
        self.text()
        for n in self.pool:
            if n[0] != "Q":
                self.lines.append("#undef " + n)

class Macros(PPCheck):
    prop = "C15"
    technique = "property-based testing: random macro definition/use histories, expanded tokens compared with gcc, clang and a hide-set model, with shrinking"
    level_note = "Sampled macro sets and uses; cases where gcc, clang and the model of C17 6.10.3 do not agree (unspecified or extension behaviour) are discarded."
    batch = 40
    quick_cases = 90000
    thorough_cases = 1000000
    rule = ("random histories of #define (object-like, function-like, variadic; bodies with parameters, #, ##, nested and recursive invocations, unbalanced parentheses, literals), #undef, identical redefinition, "
            "push_macro/pop_macro, and text with invocations (nested, empty and multi-line arguments, names without arguments, arguments taken from following text); the whole expanded token sequence is compared. "
            "Non-trivial: at least 3 macro expansions, and function-like macros or ## or #.")
    assumptions = ["gcc -E, clang -E and the model implement C17 6.10.3 where they agree", "-E shows the token sequence that is compiled (property C19)"]
    def generate(self, s):
        g = Gen(s)
        try:
            g.run()
        except (Invalid, RecursionError):
            return None
        labels = sorted(g.labels)
        n = g.model.steps
        if g.model.maxdepth > 2: labels.append("deep-arguments")
        text = "\n".join(g.lines)
        if len(text) > 6000 or n > 3000 or re.search(r"\d[\w.]*(/\*\w*\*/)?'", text):   # digit separators are accepted as an extension
            return None
        return Case(text, nontrivial=len(labels) > 0 and n > 12, labels=labels, data=g.exp)
    def verdict(self, case, k, g, l, c):
        st, msg = super().verdict(case, k, g, l, c)
        if st == FAIL and [t.replace(" ", "") for t in g] == [t.replace(" ", "") for t in c] and "deep-arguments" in case.labels:
            return DISCARD, "white space of a nested stringizing"
        return st, msg

CHECK = Macros()
