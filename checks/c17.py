"""C17: literals against gcc/clang; equivalent spellings of a program compile to the same output."""
import os, re
import cc as T, diffrun, corpus, ppmodel
from cexpr import TYPEID_MACRO
from engine import Check, Case, OK, FAIL, DISCARD

ELEM = {"": "char", "u8": "char", "u": "unsigned short", "U": "unsigned", "L": "int"}
BITS = {"": 8, "u8": 8, "u": 16, "U": 32, "L": 32}
SIMPLE = ["\\n", "\\t", "\\0", "\\a", "\\b", "\\f", "\\r", "\\v", "\\\\", "\\\"", "\\'", "\\?"]
RAW = [0xa0, 0xe9, 0xff, 0x100, 0x3b1, 0x7ff, 0x800, 0x20ac, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x1f600, 0x10ffff, 0x2028]
TRICKY = ["//", "/*", "*/", "'", "#", "##", "%d", "`", "/* \\\" */", "\\\\n", ", ", "()", "u8", "L", "??", "\\?\\?", "__FILE__", "\t", " ", "  ", ";", "}", "\\\"\\\"", "<x>", "//*"]

def ucn(v, s):
    t = "%04x" % v if v < 0x10000 and s.chance(2, 3) else "%08x" % v
    return ("\\u" if len(t) == 4 else "\\U") + (t.upper() if s.chance(1, 2) else t)

def rawcp(s):
    v = s.pick(RAW) if s.chance(1, 2) else s.range(0xa0, 0x10ffff) if s.chance(1, 2) else s.range(0xa0, 0xffff)
    return v if not 0xd800 <= v < 0xe000 else 0xe000 + (v & 0x7ff)

class Lit:
    """Content of a literal piece, character by character, keeping escapes from swallowing what follows."""
    def __init__(self, s, bits, labels, stringize=False, quote='"'):
        self.s, self.bits, self.labels, self.q, self.st = s, bits, labels, quote, stringize
    def one(self):
        """-> (text, what must not follow)"""
        s, q = self.s, self.q
        k = s.draw(13)
        if k < 4:
            c = s.pick("abcxyzABCF019 ~!#$%&()*+,-./:;<=>?[]^_`{|}")
            return c, ""
        if k < 6:
            self.labels.add("simple-escape")
            return s.pick(SIMPLE), "01234567"
        if k < 8:
            self.labels.add("octal-escape")
            v = s.pick([0, 1, 7, 8, 0x3f, 0x40, 0x7f, 0x80, 0xff, 0xa, 0x22, 0x5c, 0x1ff if self.bits > 8 else 0x1f])
            n = s.range(1, 3)
            t = "%0*o" % (n, v)
            return "\\" + t, "01234567" if len(t) < 3 else ""
        if k < 10:
            self.labels.add("hex-escape")
            top = {8: 0xff, 16: 0xffff, 32: 0xffffffff}[self.bits]
            v = s.pick([0, 1, 9, 0xa, 0x7f, 0x80, 0xff, top, top >> 1, (top >> 1) + 1, s.range(0, min(top, 1 << 40)), 0x22, 0x27, 0x5c, 0x0d])
            t = "%0*x" % (s.pick([1, 1, 2, 3, 4, 8, 9]), v)
            return "\\x" + (t.upper() if s.chance(1, 3) else t), "0123456789abcdefABCDEF"
        if k < 11 and not self.st:
            self.labels.add("ucn")
            return ucn(rawcp(s), s), ""
        if k < 12:
            self.labels.add("utf8-source")
            return chr(rawcp(s)), ""
        return None, None
    def text(self, maxlen):
        s, out, bad = self.s, "", ""
        for _ in range(s.range(0, maxlen)):
            t, b = self.one()
            if t is None:
                t, b = s.pick(TRICKY), "01234567"
                self.labels.add("tricky")
            if t[0] in bad:
                continue
            out, bad = out + t, b
        return out

def sep(s):
    return s.pick(["", " ", "\n", "\t", " /* \" */ ", " // '\n", "\\\n", " \\\n ", "/**/", "\f", "\v", "/***/", "/* // */", "\r\n"])

def literal(s, labels, maxpieces=4):
    """-> (text, prefix)"""
    p = s.pick(["", "", "u8", "u", "U", "L"])
    n = s.weighted([(4, 1), (3, 2), (2, 3), (1, maxpieces)])
    out = []
    where = s.draw(n)
    for k in range(n):
        mine = p if k == where or s.chance(1, 2) else ""
        bits = BITS[p] if mine == p else 8
        out.append('%s"%s"' % (mine, Lit(s, bits, labels).text(s.pick([0, 1, 3, 6, 12]))))
        if mine != p:
            labels.add("mixed-prefix")
    if n > 1:
        labels.add("concatenation")
    t = out[0]
    for x in out[1:]:
        t += sep(s) + x
    labels.add("prefix:" + (p or "none"))
    return t, p

def charconst(s, labels):
    p = s.pick(["", "", "L", "u", "U"])
    labels.add("char:" + (p or "none"))
    for _ in range(20):
        t, _b = Lit(s, BITS[p], labels, quote="'").one()
        if t is None or t == "'":
            continue
        if re.search(r"[^\x00-\x7f]|\\[uU]", t):
            cp = ord(t) if t[0] != "\\" else int(t[2:], 16)
            if p == "" or (p == "u" and cp > 0xffff):
                continue
        return "%s'%s'" % (p, t)
    return "'a'"

# ---- respelling

def lex_units(text):
    """Lines -> list of ('d', line) directives and ('t', [tokens])"""
    out, buf = [], []
    for line in text.split("\n"):
        if line.lstrip().startswith("#"):
            if buf:
                out.append(("t", ppmodel.lex("\n".join(buf))))
                buf = []
            out.append(("d", ppmodel.lex(line)))
        else:
            buf.append(line)
    if buf:
        out.append(("t", ppmodel.lex("\n".join(buf))))
    return out

COMMENTS = ["/**/", "/* x */", "/***/", "/*/ */", "/* // */", "/* ' */", "/* \" */", "/*\n#error no\n*/", "/*\\\n*/", "/* *\\\n/", "/\\\n**/", "/* \\ */", "/*\r\n*/", "/* \u00e9 */", "/* ** */"]
LINECOM = ["// x\n", "// ' \n", "// \" /* \n", "//\n", "// \\ x\n", "//\\\n*/ y\n", "/\\\n/ z\n", "// \\\n continued\n", "// */\n", "//// #if\r\n", "// \u20ac\n"]
WS = [" ", "\n", "\t", "\v", "\f", "  ", "\r\n", "\\\n ", " \\\r\n", "\n\n", "\n \n"]

def gap(s, need, hspace):
    """White space in front of a token; hspace: must stay on the line."""
    if hspace:
        ws = [" ", "\t", "  ", "\\\n ", " \\\r\n", " /* x */ ", "/* // */", "/*\n*/", "/***/", "/* \\\n */"]
        if not need and s.chance(1, 3):
            return ""
        return s.pick(ws) if s.chance(1, 2) else " "
    if not need and s.chance(1, 2):
        return ""
    k = s.draw(8)
    if k < 4:
        return s.pick(WS)
    if k < 6:
        return s.pick(COMMENTS)
    if k < 7:
        return s.pick(LINECOM)
    return gap(s, True, hspace) + gap(s, True, hspace)

def splice(s, t, eol):
    """Line splices inside a token."""
    if len(t) < 2 or "\\u" in t or "\\U" in t:
        return t
    at = {s.range(1, len(t) - 1): ("\\" + eol) * s.pick([1, 1, 1, 2]) for _ in range(s.range(1, 2))}
    return "".join(at.get(i, "") + c for i, c in enumerate(t))

def glues(a, b):
    """Would tokens a and b written without space lex differently?"""
    toks = ppmodel.lex(a + b)
    return len(toks) != 2 or toks[0].s != a or a in ("/", "%", "<", ":", "%:") or (a[-1] == "." and b[0] in ".0123456789") 

def digits(s, t):
    """Digit separators in an integer constant."""
    m = re.match(r"^(0[xX]|)([0-9a-fA-F]{2,})([uUlL]*)$", t) if re.match(r"^0[xX]", t) else re.match(r"^()([0-9]{2,})([uUlL]*)$", t)
    if not m:
        return t
    ds = list(m.group(2))
    for _ in range(s.range(1, 2)):
        i = s.range(1, len(ds) - 1)
        if ds[i] != "'" and ds[i - 1] != "'":
            ds.insert(i, "'")
    return m.group(1) + "".join(ds) + m.group(3)

def respell_str(s, t, labels):
    m = re.match(r'^(u8|u|U|L|)"(.*)"$', t, re.S)
    if not m or "\\u" in t or "\\U" in t:
        return t
    p, c = m.groups()
    items = re.findall(r"\\x[0-9a-fA-F]+|\\[0-7]{1,3}|\\.|.", c, re.S)
    if p in ("", "u8") and s.chance(1, 2):
        for i, x in enumerate(items):
            if len(x) == 1 and x.isascii() and s.chance(1, 3):
                items[i] = s.pick(["\\%03o" % ord(x), "\\%03o" % ord(x), x])
                labels.add("escaped-char")
    if s.chance(1, 2):
        k = s.range(0, len(items))
        labels.add("split-string")
        q = p if s.chance(1, 2) else ""
        return p + '"' + "".join(items[:k]) + '"' + s.pick([" ", "", "\n", "/**/", "//\n"]) + q + '"' + "".join(items[k:]) + '"'
    return p + '"' + "".join(items) + '"'

def respell(s, text, labels, ids):
    eol = s.pick(["\n", "\n", "\r\n"])
    dense = s.pick([2, 6, 20])
    out = []
    units = lex_units(text)
    after_directive = True
    for kind, toks in units:
        prev = None
        line = ""
        if out and not out[-1].endswith("\n"):
            out.append("\n")
        for i, t in enumerate(toks):
            x = t.s
            if t.k == "id" and x in ids:
                x = re.sub("[^\x00-\x7f]", lambda m: m.group() if s.chance(1, 2) else ucn(ord(m.group()), s), x)
                labels.add("ucn-identifier")
            nospace = kind == "d" and i == 3 and t.s == "(" and not t.ws and toks[1].s == "define"
            keepws = kind == "d" and i == 3 and toks[1].s == "define" and (t.ws or t.s != "(")
            if kind == "t" and t.k == "num" and s.chance(1, 4):
                y = digits(s, x)
                if y != x: labels.add("digit-separator")
                x = y
            if kind == "t" and t.k == "str" and s.chance(1, 2):
                x = respell_str(s, x, labels)
            if kind == "t" and t.k == "chr" and s.chance(1, 3) and re.match(r"^'[^\\']'$", x):
                x = s.pick(["'\\x%x'", "'\\%o'"]) % ord(x[1]) if ord(x[1]) < 128 else x
                labels.add("escaped-char")
            if nospace:
                g = ""
            elif kind == "d" and i < 2:
                g = s.pick(["", " ", "\t", "/* */"]) if i < 2 and s.chance(1, 3) else ""
                if i == 0 and "/*" in g: g = " "
            else:
                need = (prev is not None and glues(prev, x)) or keepws
                dflt = t.ws or need
                g = gap(s, need, kind == "d") if s.chance(1, dense) else " " if dflt else ""
                if prev == "/" and g.startswith("/"): g = " " + g
                if g.strip(" \t\n"): labels.add("odd-white-space")
                if kind == "d" and not t.ws and not need: g = ""   # keep stringizing as it was
                if kind == "d" and t.ws and not g: g = " "
            if s.chance(1, dense) and len(x) > 1 and "//" not in x and "/*" not in x and "\n" not in x:
                x = splice(s, x, eol)
                labels.add("splice-in-token")
            out.append(g + x)
            prev = t.s if x == t.s else x
            if prev != t.s and "\\" in prev:
                prev = t.s
            prev = re.sub(r"\\\r?\n", "", prev)
        if kind == "d":
            out.append(s.pick(["\n", "\n", " \n", "/* x */\n", "// y\n", eol]))
    t = "".join(out)
    if eol == "\r\n":
        labels.add("crlf")
        t = re.sub(r"\r?\n", "\r\n", t)
    if s.chance(1, 3):
        t = t.rstrip("\r\n")
        labels.add("no-final-newline")
        if t.endswith("\\"): t += "\n"
    return t

UNICODE_TAILS = ["\u00e9", "\u03b1\u03b2", "\u4e2d", "_\u00fcx", "\U00020000", "\u0430"]

class LexCheck(Check):
    prop = "C17"
    technique = "property-based testing: random literals differential against gcc/clang, and metamorphic respelling of generated programs (identical -S output), with shrinking"
    level_note = "Sampled. Literals: thousands of random spellings with every element, size and type compared with gcc. Spellings: random equivalent respellings of generated translation units must give byte-identical assembly."
    batch = 24
    quick_cases = 100000
    quick_time = 35.0
    thorough_cases = 4000000
    rule = ("two kinds of case. (a) a function observing size, type, every element and array initialisation of random string literals, character constants and stringized literals, "
            "against gcc; (b) a generated translation unit and a random equivalent spelling of it, whose -S outputs must be byte-identical. Non-trivial: (a) at least three "
            "literal features (escapes, UCNs, prefixes, concatenation, ...); (b) at least two kinds of respelling applied.")
    assumptions = ["gcc 13 and clang 18 in gnu17 mode agree on the meaning of a literal whenever a failure is reported; a respelling failure counts only if gcc -S output is the same for both spellings"]
    def setup(self, work):
        self.cc = T.build(work)
        self.h = diffrun.build_harness(work)
        self.diff = diffrun.Diff(self.cc, self.h, decls=diffrun.DECLS + TYPEID_MACRO, refflags=["-std=gnu17"])
    def replay_files(self, case):
        if case.data is None:
            return {"case.c": diffrun.DECLS + TYPEID_MACRO + case.text.replace("@", "x_")}
        return {"a.c": case.data[0], "b.c": case.data[1]}
    def generate(self, s):
        return self.gen_literals(s) if s.chance(1, 2) else self.gen_respell(s)
    def gen_literals(self, s):
        L, body, decl = set(), [], []
        for k in range(s.range(1, 5)):
            kind = s.weighted([(6, "str"), (4, "chr"), (2, "stringize"), (1, "ppif")])
            if kind == "str":
                t, p = literal(s, L)
                E = ELEM[p]
                body.append("\tobs(sizeof(%s)); obs(TID((%s)[0])); obsm((%s), sizeof(%s));" % (t, t, t, t))
                decl.append("static %s @a%d[] = %s;" % (E, k, s.pick(["%s", "%s", "{ %s }", "{ %s, }"]) % t))
                body.append("\tobs(sizeof(@a%d)); obsm(@a%d, sizeof @a%d);" % (k, k, k))
                if s.chance(1, 2):
                    body.append("\t{ %s l[] = %s; obs(sizeof l); obsm(l, sizeof l); }" % (E, t))
                if s.chance(1, 3):
                    n = s.range(1, 9)
                    body.append("\t{ %s l[%d] = %s; obsm(l, sizeof l); }" % (E, n + 8, t))
                    decl.append("static %s @f%d[%d] = %s;" % (E, k, n, t))
                    body.append("\tobsm(@f%d, sizeof @f%d);" % (k, k))
                if s.chance(1, 3):
                    decl.append("static const %s *@p%d = %s;" % (E, k, t))
                    body.append("\tobsm(@p%d, sizeof(%s));" % (k, t))
            elif kind == "chr":
                t = charconst(s, L)
                body.append("\tobs(%s); obs(sizeof(%s)); obs(TID(%s)); obs((long)(%s) %s 1);" % (t, t, t, t, s.pick(["+", "/", ">", "<<", "-"])))
                if s.chance(1, 2):
                    decl.append("enum { @e%d = %s };" % (k, t))
                    body.append("\tobs(@e%d); switch ((long)%s) { case %s: obs(1); break; default: obs(2); }" % (k, t, t))
            elif kind == "stringize":
                L.add("stringize")
                p = s.pick(["", "", "u8", "u", "U", "L"])
                t = '%s"%s"' % (p, Lit(s, BITS[p], L, stringize=True).text(6)) if s.chance(2, 3) else charconst(s, L)
                if "\\u" in t or "\\U" in t:
                    continue
                decl.append("#define @S%d(x) #x" % k)

                body.append("\tobs(sizeof @S%d(%s)); obss(@S%d(%s)); obss(@S%d( a %s + %s ));" % (k, t, k, t, k, t, t))
            else:
                t = charconst(s, L)
                if not re.search(r"[^\x00-\x7f]|\\[uU]", t):
                    v = s.pick(["0", "1", "127", "128", "255", "0x7fff", "'a'", "-1", "0x8000"])
                    body.append("#if %s %s %s\n\tobs(3);\n#else\n\tobs(4);\n#endif" % (t, s.pick([">", "<", "==", ">=", "!="]), v))
                    L.add("in-#if")
        if not body:
            return None
        text = "\n".join(decl) + "\nvoid @case(void) {\n" + "\n".join(body) + "\n}\n"
        return Case(text, nontrivial=len(L) >= 3, labels=["literals"] + sorted(L))
    def gen_respell(self, s):
        u = corpus.unit(s)
        if u is None:
            return None
        kind, text = u
        extra = []
        L = set()
        for k in range(s.range(0, 3)):
            t, p = literal(s, set(), 2)
            toks = ppmodel.lex(t)
            if all(x.k == "str" for x in toks) and "\\\n" not in t:
                extra.append("%s u_lit%d[] = %s;" % (ELEM[p], k, " ".join(x.s for x in toks)))
        text = text + "\n" + "\n".join(extra) + "\n"
        ids = {}
        names = sorted(set(re.findall(r"\bu_\w+", text)))
        if names and s.chance(1, 2):
            tails = UNICODE_TAILS
            for n in s.sample(names, 4):
                ids[n] = n + s.pick(tails)
        base = []
        for kind2, toks in lex_units(text):
            if kind2 == "d":
                line = ""
                for t in toks:
                    line += (" " if t.ws else "") + ids.get(t.s, t.s)
                base.append(line + "\n")
            else:
                line = ""
                for t in toks:
                    line += (" " if t.ws else "") + ids.get(t.s, t.s)
                base.append(line + "\n")
        base = "".join(base)
        new = respell(s, base, L, set(ids.values()))
        return Case("/* A */\n" + base + "\n/* B */\n" + new, nontrivial=len(L) >= 2, labels=["respelling", "unit:" + kind] + sorted(L), data=(base, new))
    def evaluate(self, cases, d):
        res = [None] * len(cases)
        lit = [k for k, c in enumerate(cases) if c.data is None]
        e = os.path.join(d, "lit")
        os.makedirs(e, exist_ok=True)
        for k, r in zip(lit, self.diff.evaluate([cases[k].text for k in lit], e)):
            res[k] = r
        for k, c in enumerate(cases):
            if c.data is not None:
                e = os.path.join(d, "r%d" % k)
                os.makedirs(e, exist_ok=True)
                res[k] = self.respelled(c, e)
        return res
    def respelled(self, c, d):
        outs = []
        for n, t in zip("ab", c.data):
            os.makedirs(os.path.join(d, n), exist_ok=True)
            open(os.path.join(d, n, "s.c"), "w", newline="").write(t)
            r = T.run([self.cc, "-S", "s.c", "-o", "s.s"], cwd=os.path.join(d, n), cpu=20)
            outs.append((r.rc, open(os.path.join(d, n, "s.s"), "rb").read() if r.rc == 0 else (r.out + r.err)[-300:]))
        if outs[0] == outs[1] and outs[0][0] == 0:
            return OK, None
        g = []
        for n in "ab":
            r = T.run(["gcc", "-std=gnu2x", "-w", "-O0", "-S", "s.c", "-o", "g.s"], cwd=os.path.join(d, n), cpu=60)
            if r.rc != 0:
                return DISCARD, "gcc rejects spelling %s: %s" % (n, diffrun.first_error(r.err))
            g.append(open(os.path.join(d, n, "g.s"), "rb").read())
        if g[0] != g[1]:
            return DISCARD, "gcc output differs"
        if outs[0][0] != 0:
            return DISCARD, "plain spelling rejected: " + outs[0][1][-200:]
        if outs[1][0] != 0:
            return FAIL, "the respelled program is rejected (status %d): %s" % (outs[1][0], outs[1][1])
        la, lb = outs[0][1].split(b"\n"), outs[1][1].split(b"\n")
        for i, (x, y) in enumerate(zip(la, lb)):
            if x != y:
                return FAIL, "assembly differs at line %d: %r / %r" % (i + 1, x, y)
        return FAIL, "assembly differs in length"

CHECK = LexCheck()
