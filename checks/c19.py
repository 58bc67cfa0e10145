"""C19: compiling the output of -E gives what compiling the file directly gives."""
import os
import cc as T, corpus, linkgen, magunit, mutate, diffrun, c24
from engine import Check, Case, OK, FAIL, DISCARD

HEADS = {"ID": "#define ID(x) x\n", "IDV": "#define IDV(...) __VA_ARGS__\n", "TWO": "#define TWO(a, b) a b\n", "GLUE": "#define GLUE(a, b) a##b\n", "XGLUE": "#define XGLUE(a, b) GLUE(a, b)\n",
         "NOTHING": "#define NOTHING\n", "STR": "#define STR(...) #__VA_ARGS__\n", "ADJ": "#define ADJ(a, b) a/**/b\n", "REP": "#define REP(x) IDV(ID)(x)\n", "LATE": "#define LATE ID\n"}

def obfuscate(s, text, rate):
    """Replaces tokens by macros that expand to them, without the white space that kept them apart."""
    defs, out = [], []
    names = {}
    directive = False
    toks = mutate.tokens(text)
    line_start = True
    k = 0
    L = set()
    while k < len(toks):
        t = toks[k]
        k += 1
        if t == "\n":
            directive, line_start = False, True
            out.append(t)
            continue
        if t[0] in " \t":
            out.append(t)
            continue
        if line_start and t == "#":
            directive = True
        line_start = False
        if directive or t in ("#", "##", "\\", "@") or t in HEADS or t == "TID" or not s.chance(rate, 10):
            out.append(t)
            continue
        m = s.draw(9)
        drop = s.chance(2, 3)          # no white space before
        if drop and out and out[-1][0] in " \t":
            p = out[-2] if len(out) > 1 else ""
            if p and not (p[-1].isalnum() or p[-1] in "_\"'."):
                out.pop()
        if m == 0 and t not in ("(", ")", ","):
            if t not in names:
                names[t] = "T%d_" % len(names)
                defs.append("#define %s %s\n" % (names[t], t))
            out.append(names[t]); L.add("object-like")
            if k < len(toks) and (toks[k][0].isalnum() or toks[k][0] in "_\"'."): out.append(" ")
            continue
        if t in ("(", ")", ","):
            out.append(t)
            continue
        if m in (1, 2): e = "ID(%s)" % t
        elif m == 3: e = "IDV(%s)" % t
        elif m == 4: e = "REP(%s)" % t
        elif m == 5: e = "TWO(NOTHING,%s)" % t
        elif m == 6: e = "LATE(ID(%s))" % t
        elif m == 7 and t[0].isalpha() and len(t) > 2 and "__" not in t:
            c = s.range(1, len(t) - 1)
            e = "GLUE(%s,%s)" % (t[:c], t[c:]) if t[c:][0].isalnum() or t[c] == "_" else "ID(%s)" % t
            if t[:c] in ("L", "u", "U"): pass
        else:
            # two neighbouring tokens through one macro
            j = k
            while j < len(toks) and toks[j][0] in " \t": j += 1
            if j < len(toks) and toks[j] not in ("(", ")", ",", "\n", "#", "##", "\\", "@"):
                e = s.pick(["TWO(%s,%s)", "ID(%s)ID(%s)", "ADJ(%s,%s)", "TWO(%s NOTHING,%s)"]) % (t, toks[j])
                k = j + 1
            else:
                e = "ID(%s)" % t
        L.add(e.split("(")[0])
        out.append(e)
        if k < len(toks) and toks[k][0] in " \t" and s.chance(2, 3): k += 1      # no white space after
    res = []
    for x in out:
        if res and x and (res[-1][-1].isalnum() or res[-1][-1] in "_\"'.") and (x[0].isalnum() or x[0] in "_\"'."):
            res.append(" ")
        if x: res.append(x)
    return "".join(HEADS.values()) + "".join(defs) + "".join(res), L

def hazards(s):
    """Expressions whose tokens would form others if written together."""
    o = ["static long ha, hb, *hp = &ha, **hpp = &hp; static int hv[9]; static struct { int m; struct { int e5; } *q; } hs, *hq = &hs;\n"]
    un = ["- ", "+ ", "- - ", "+ + ", "~ ", "! ", "-- ", "++ ", "* & ", "- -- ", "+ ++ ", "- + - ", "! ! ", "~ - "]
    pr = ["ha", "hb", "* hp", "* * hpp", "0xe ", "0x1E ", "1 ", "5e0 ", ".5 ", "1. ", "hv [ 1 ]", "hs . m", "hq -> m", "sizeof ha", "sizeof ( long )", "'x'", "'\\''", "L'y'", "( long ) ha", "hq -> q -> e5", "0x1p3 ", "1.5f ", "7L ", "3u ", "hs . q -> e5", "\"str\" [ 1 ]", "STR( a \"b\" 'c' \\\\ ) [ 0 ]", "__LINE__"]
    bi = ["+", "-", "*", "/", "&", "|", "^", "<", ">", "<=", ">=", "==", "!=", "&&", "||", "%", "<<", ">>"]
    lv = ["ha", "hb", "* hp", "hv [ 2 ]", "hs . m", "hq -> m", "* * hpp"]
    fl = lambda p: p[0] in "51." and ("." in p or "e0" in p or "1p" in p or p.endswith("f ")) or "0x1p" in p
    for k in range(s.range(1, 5)):
        e = []
        for i in range(s.range(1, 6)):
            p = s.pick(pr)
            u = s.pick(un + [""] * 8)
            if "++" in u or "--" in u: p = s.pick(lv)
            elif "&" in u: p = s.pick(lv)
            if fl(p): p, u = "( long ) " + p, u if "--" not in u and "++" not in u and "&" not in u else ""
            post = s.pick([" ++", " --"]) if p in lv and not u and s.chance(1, 3) else ""
            e.append(u + p + post)
        t = e[0]
        for x in e[1:]:
            t += " %s %s" % (s.pick(bi), x)
        o.append("long hf%d(void) { %s %s %s ; return %s ? ha : - hb ; }\n" % (k, s.pick(lv), s.pick(["=", "+=", "-=", "*=", "/=", "&=", "|=", "^=", "<<=", ">>=", "%="]), t, t))
    return "".join(o)

class RoundTrip(Check):
    prop = "C19"
    technique = "property-based round-trip testing: generated programs whose tokens come out of macros side by side; the object or assembly from the -E output compared byte for byte with the one from the file itself, with shrinking"
    level_note = "Sampled programs and macro wrappings."
    batch = 10
    quick_cases = 100000
    quick_time = 32.0
    thorough_cases = 4000000
    rule = ("programs of the other properties' generators, expressions made of tokens that would merge (- -, + ++, / *, 0xe +, .., strings and character constants after identifiers), and state-leaving files with #include, #line and #pragma; "
            "0-90% of their tokens are replaced by object- or function-like macros, pastes and arguments without white space between them. Compiling -E's output must give the same bytes as compiling the file. Non-trivial: at least 10 tokens come out of macros.")
    assumptions = ["a program the compiler rejects directly is outside the property, unless its -E output is then accepted"]
    FLAGS = [[], [], [], ["-fabi=ms"], ["-fcmodel=large"], ["-DNDEBUG", "-Dfoo(x)=x"][:1]]
    def setup(self, work):
        self.cc = T.build(work)
        for n in corpus.NAMES: corpus.check(n)
    def generate(self, s):
        k = s.weighted([(5, "unit"), (5, "hazards"), (2, "link"), (2, "dirty"), (1, "mag")])
        if k == "unit":
            u = corpus.unit(s, "x_")
            if u is None: return None
            t = u[1]
        elif k == "hazards":
            t = hazards(s)
        elif k == "link":
            t = diffrun.DECLS + s.pick(linkgen.make(s, s.range(1, 2))[0])
        elif k == "dirty":
            t = c24.dirty(s, 0)
        else:
            t = magunit.generate(s)[0]
        t = t.replace("@", "x_")
        rate = s.pick([0, 1, 3, 6, 9])
        L = set()
        if rate:
            t, L = obfuscate(s, t, rate)
        elif k == "hazards":
            t = HEADS["STR"] + t
        fl = s.pick(self.FLAGS)
        return Case(t, nontrivial=rate > 0 and len(L) >= 2, labels=[k, "rate:%d" % rate] + sorted(L), data=(t, fl, s.pick(["-c", "-S"])))
    def evaluate(self, cases, d):
        return [self.one(c.data, os.path.join(d, str(k))) for k, c in enumerate(cases)]
    def one(self, data, d):
        t, fl, mode = data
        os.makedirs(d, exist_ok=True)
        for n, x in (("once.h", c24.ONCE), ("guard.h", c24.GUARD), ("in.c", t)):
            open(os.path.join(d, n), "w").write(x)
        a = T.run([self.cc, mode] + fl + ["-o", "a", "in.c"], cwd=d, cpu=20)
        e = T.run([self.cc, "-E"] + fl + ["in.c"], cwd=d, cpu=20, binary=True)
        if e.rc != 0:
            if a.rc != 0:
                return (DISCARD, "rejected")
            return (FAIL, "-E fails (%d) on a file that compiles: %s" % (e.rc, e.err[:200]))
        open(os.path.join(d, "e.c"), "wb").write(e.out)
        b = T.run([self.cc, mode] + [f for f in fl if f[:2] != "-D"] + ["-o", "b", "e.c"], cwd=d, cpu=20)
        if a.rc != 0:
            if b.rc == 0 and a.rc == 1:
                return (FAIL, "rejected directly (%s) but accepted after -E" % a.err[:200])
            return (DISCARD, "rejected: " + a.err[:100])
        if b.rc != 0:
            return (FAIL, "the -E output is rejected (%d): %s" % (b.rc, (b.out + b.err)[:250]))
        x, y = open(os.path.join(d, "a"), "rb").read(), open(os.path.join(d, "b"), "rb").read()
        if x != y:
            return (FAIL, "%s from the -E output differs (%d / %d bytes)" % (mode, len(x), len(y)))
        return (OK, None)
    def replay_files(self, case):
        return {"in.c": case.data[0]}

CHECK = RoundTrip()
