"""C18: include resolution, presumed positions and dependency files against gcc and clang."""
import os, re
import cc as T, ppmodel, pptest
from engine import Check, Case, OK, FAIL, DISCARD

DIRS = [".", "src", "src/sub", "inc", "inc/sub", "lib", "lib/sub", "sysa", "sysb", "sysa/sub", "src/sub/sub"]
NAMES = ["a.h", "b.h", "c.h", "leaf.h", "l2.h"]
LNAMES = ["gen.c", "x y.h", "a.h", "deep/er/n.y", "q\\\"q.c", "b\\\\s.c", "p"]

class G:
    def __init__(self, s):
        self.s, self.L, self.n = s, set(), 0
        # #pragma once compares relative and absolute paths as different files: not both
        self.absolute = s.chance(1, 3)
        self.macros = 0
        self.lines = 0
    def pos(self):
        s = self.s
        self.n += 1
        m = "extern int mk%d;" % self.n
        k = s.draw(14)
        if k < 5: return m + " _Static_assert(__LINE__ > 0, __FILE__);\n"
        if k == 5: self.L.add("multi-line"); return m + "\n_Static_assert(\n__LINE__\n> 0,\n\n__FILE__);\n"
        if k == 6: self.L.add("splice"); return "extern int \\\nmk%d; \\\n _Static_assert(__LINE__ > 0,\\\n __FILE__);\n" % self.n
        if k == 7: self.L.add("splice-in-token"); return m + " _Static_assert(__LI\\\nNE__ > 0, __FI\\\n\\\nLE__);\n"
        if k == 8: self.L.add("comment"); return "/* %s */ _Static_assert(__LINE__ > 0, __FILE__); %s\n" % ("\n" * s.range(1, 3) + s.pick(["", "// ", "\"", "#include \"nope.h\"\n"]), m)
        if k == 9: self.L.add("comment"); return "// comment \\\n continued %s\n" % s.pick(["\\\n more", "", "/*"]) + m + " _Static_assert(__LINE__ > 0, __FILE__);\n"
        if k == 10: self.L.add("if-line"); return "#if __LINE__ %s %d\n%s\n#endif\n" % (s.pick(["<", "==", ">"]), s.range(1, 40), m)
        if k == 11:
            self.L.add("position-macro")
            if not self.macros or (self.macros < 5 and s.chance(1, 2)):
                self.macros += 1
                return "#undef POS%d\n#define POS%d extern int mk%d; _Static_assert(__LINE__ > 0, __FILE__);\n\nPOS%d\n" % (self.macros, self.macros, self.n, self.macros)
            m = s.range(1, self.macros)
            return "#ifdef POS%d\nPOS%d\n#endif\n" % (m, m)
        if k == 12: self.L.add("string-splice"); return m + " _Static_assert(1, \"a\\\n\\\nb\"); _Static_assert(__LINE__ > 0, __FILE__);\n"
        return m + "\n" * s.range(1, 4) + "_Static_assert(__LINE__ > 0, __FILE__);" + " /* \n */" * s.draw(2) + "\n"
    def line(self):
        s = self.s
        self.L.add("#line")
        k = s.draw(8)
        n = s.pick(["1", "2", "7", "100", "99999", "2147483000", "010", "0001", str(s.range(1, 60))])
        f = '"%s"' % s.pick(LNAMES)
        if k < 2: return "#line %s\n" % n
        if k < 4: return "#line %s %s\n" % (n, f)
        if k == 4: self.L.add("#line-macro"); return "#undef LN\n#undef FN\n#define LN %s\n#define FN %s\n#line LN FN\n" % (n, f)
        if k == 5: self.L.add("#line-macro"); return "#undef BOTH\n#define BOTH %s %s\n#line BOTH\n" % (n, f)
        if k == 6: return " # /* \n */ line %s /* c */ %s // x\n" % (n, f)
        return "#line %s \\\n %s\n" % (n, f)
    def path(self, leaf):
        s = self.s
        n = s.pick(NAMES[3:] if leaf else NAMES)
        k = s.draw(10)
        if k < 4: return n
        if k < 6: return "sub/" + n
        if k == 6: return "../" + n
        if k == 7: return "./" + n
        if k == 8: return s.pick(["../inc/", "../lib/", "sub/../", "sub/sub/", ".//", "../src/"]) + n
        return s.pick(["@ROOT@/inc/", "@ROOT@/lib/sub/"] if self.absolute else ["sub/./../", "./"]) + n
    def include(self, leaf):
        s = self.s
        p = self.path(leaf)
        q = s.chance(3, 5)
        w = ('"%s"' if q else "<%s>") % p
        self.L.add("include-quoted" if q else "include-angled")
        if "@ROOT@" in p: self.L.add("include-absolute")
        k = s.draw(10)
        if k == 0 and "@" not in p:
            self.L.add("include-macro")
            return "#undef HDR\n#define HDR %s\n#include HDR\n" % w
        if k == 1: return "  #  include /* c */ %s // x\n" % w
        if k == 2: return "#include \\\n %s /* a\n b */\n" % w
        if k == 3: self.L.add("conditional-include"); return "#if%sdef %s\n#include %s\n#endif\n" % (s.pick(["", "n"]), s.pick(["GUARD_a", "GUARD_b", "GUARD_c", "NEVER"]), w)
        if k == 4: return "#if 0\n#include \"missing.h\"\n#include <gone>\n#else\n#include %s\n#endif\n" % w
        return "#include %s\n" % w
    def body(self, leaf, main=False):
        s = self.s
        out = []
        for _ in range(s.range(1, 7)):
            k = s.draw(10)
            if k < 4 and (not leaf or main): out.append(self.include(leaf))
            elif k < 6: out.append(self.line())
            elif k == 6: out.append("\n" * s.range(1, 4) + s.pick(["", "#\n", "/* */\n", "#define Z%d %d\n" % (s.draw(5), s.draw(9)), "\f\n", "\v \t\n"][:3 + s.draw(2)]))
            else: out.append(self.pos())
        out.append(self.pos())
        return "".join(out)
    def file(self, d, name):
        s = self.s
        leaf = name in NAMES[3:]
        b = self.body(leaf)
        g = s.draw(6)
        stem = name[0]
        if g < 2 or leaf and g > 3:
            if not leaf: g = 2
        if g == 2 or (g < 2 and not leaf):
            self.L.add("guard")
            m = "GUARD_%s" % stem if s.chance(1, 2) else "GUARD_%s_%s" % (d.replace("/", "_").replace(".", "top"), stem)
            b = "%s#ifndef %s\n#define %s\n%s#endif%s\n" % (s.pick(["", "// c\n", "extern int out;\n"]), m, m, b, s.pick(["", " // x", "\nextern int after;"]))
        elif g == 3 and not self.absolute:
            self.L.add("pragma-once")
            b = (s.pick(["", "\n", "/* c */ "]) + "#pragma once\n" + b) if s.chance(4, 5) else b.replace("#", "#", 1) + "#pragma once\n" if leaf else "#pragma once\n" + b
        elif not leaf:
            self.L.add("counted")
            m = "CNT_%s_%s" % (d.replace("/", "_").replace(".", "top"), stem)
            b = "#ifndef %s_1\n#define %s_1\n%s#elif !defined %s_2\n#define %s_2\n%s#endif\n" % (m, m, b, m, m, self.body(leaf))
        if s.chance(1, 8) and b.endswith("\n"):
            self.L.add("no-final-newline")
            b = b[:-1]
        return b

class Inc(Check):
    prop = "C18"
    technique = "property-based differential testing: random file trees, include graphs, search paths and #line placements, -E token sequence and -MD prerequisite set against gcc and clang, with shrinking"
    level_note = "Sampled trees; the two references must agree before a verdict is given."
    batch = 4
    quick_cases = 100000
    quick_time = 25.0
    thorough_cases = 4000000
    rule = ("2-12 headers with clashing names in 11 directories (guards unique to the file or shared between namesakes, #pragma once, twice-includable, unguarded leaves), quoted, angled, relative, absolute and macro-computed includes, -I lists with duplicate, trailing-slash, ./, .. and absolute spellings, two system directories, "
            "main file in the root or in a subdirectory; position probes (__LINE__/__FILE__ in plain text, across splices, comments, macros defined in other files, #if) and #line with and without names, macros and splices. The token sequence must equal gcc's and clang's "
            "(names of files in the tree compared as paths, #line names exactly), a failing include must fail, and -MD must list gcc's prerequisites under the requested target and file. Non-trivial: at least 2 files are read.")
    assumptions = ["gcc 13 and clang 18 implement inclusion and presumed positions correctly where they agree"]
    def setup(self, work):
        t = T.config_text()
        t = re.sub(r"(default_include\[\] = \{)[^}]*\}", r'\1\n\t"sysa/",\n\t"sysb",\n\tNULL\n}', t)
        self.cc = T.build(work, config=t)
    def generate(self, s):
        g = G(s)
        files = {}
        for _ in range(s.range(2, 12)):
            d, n = s.pick(DIRS), s.pick(NAMES)
            if (d, n) not in files:
                files[d, n] = g.file(d, n)
        main = s.pick(["main.c", "main.c", "src/main.c", "./src/main.c", "src/sub/m.c"])
        body = g.body(False, True)
        if not s.chance(1, 5):
            # the first include of the main file can be found
            d, n = s.pick(sorted(files))
            base = os.path.dirname(os.path.normpath(main)) or "."
            body = '#include "%s"\n' % os.path.relpath(d + "/" + n, base) + body
        incs = []
        for _ in range(s.range(0, 5)):
            d = s.pick(["inc", "lib", "src", ".", "inc/sub", "src/sub", "nodir", "main.c"])
            incs.append(s.pick([d, d, d + "/", "./" + d, d + "/.", "lib/../" + d, "@ROOT@/" + d] if g.absolute else [d, d + "/", "./" + d]))
        opts = []
        for i in incs:
            opts += s.pick([["-I" + i], ["-I", i]])
        # dependency output
        md = s.draw(5)
        stem = os.path.basename(main)[:-2]
        mode = s.pick(["-c", "-S"])
        out = s.pick([None, "o1.o", "o.dir/x.o", "o.dir/y.s"])
        obj = out or stem + (".o" if mode == "-c" else ".s")
        mf, mt = obj[:-2] + ".d", obj
        dopts = ["-MD"]
        if out: dopts += ["-o", out]
        if s.chance(1, 3):
            mf = s.pick(["dep.txt", "o.dir/my.dep", "d"])
            dopts += s.pick([["-MF", mf], ["-MF" + mf]])
            g.L.add("-MF")
        if s.chance(1, 3):
            mt = s.pick(["target", "build/some/thing.o", "a.b.c"])
            dopts += s.pick([["-MT", mt], ["-MT" + mt]])
            g.L.add("-MT")
        files = {os.path.normpath(d + "/" + n): t for (d, n), t in files.items()}
        files[os.path.normpath(main)] = body
        if s.chance(1, 4):
            # line ends of the other system, in all files or in some
            every = s.chance(1, 2)
            for n in sorted(files):
                if every or s.chance(1, 3):
                    files[n] = files[n].replace("\n", "\r\n")
                    g.L.add("crlf")
        text = "// cc %s %s %s %s\n" % (main, " ".join(opts), mode, " ".join(dopts)) + "".join("//---- %s\n%s\n" % (n, t) for n, t in sorted(files.items()))
        return Case(text, labels=sorted(g.L), data=dict(files=files, main=main, opts=opts, mode=mode, dopts=dopts, mf=mf, mt=mt, obj=obj))
    def replay_files(self, case):
        return {"tree.txt": case.text}
    def evaluate(self, cases, d):
        return [self.one(c, os.path.realpath(os.path.join(d, "t%d" % k))) for k, c in enumerate(cases)]
    def one(self, case, d):
        x = case.data
        for q in DIRS + ["o.dir"]:
            os.makedirs(os.path.join(d, q), exist_ok=True)
        for n, t in x["files"].items():
            open(os.path.join(d, n), "w", newline="").write(t.replace("@ROOT@", d))
        opts = [o.replace("@ROOT@", d) for o in x["opts"]]
        ref = ["-E", "-P", "-w", "-nostdinc", "-std=gnu17"] + opts
        gcc = T.run(["gcc"] + ref + ["-MD", "-MF", "gcc.d_", "-idirafter", "sysa", "-idirafter", "sysb", x["main"]], cwd=d, cpu=20)
        clang = T.run(["clang"] + ref + ["-idirafter", "sysa", "-idirafter", "sysb", x["main"]], cwd=d, cpu=20)
        if (gcc.rc == 0) != (clang.rc == 0):
            return DISCARD, "references disagree"
        cc = T.run([self.cc, "-E"] + opts + [x["main"]], cwd=d, cpu=20)
        dep = T.run([self.cc, x["mode"], x["main"]] + opts + x["dopts"], cwd=d, cpu=20)
        if gcc.rc != 0:
            if "No such file" not in gcc.err:
                return DISCARD, "gcc rejects: " + gcc.err[:200]
            case.labels += ("missing-include",)
            for r in (cc, dep):
                if r.rc != 1:
                    return FAIL, "an include that cannot be found gives status %d" % r.rc
            if os.path.exists(os.path.join(d, x["obj"])) and os.path.getsize(os.path.join(d, x["obj"])):
                return FAIL, "an include that cannot be found leaves an output file"
            case.nontrivial = True
            return OK, ""
        for r in (cc, dep):
            if r.rc != 0:
                return FAIL, "rejected (%d): %s" % (r.rc, (r.out + r.err)[-300:])
        def norm(out):
            r = []
            for t in pptest.tokens(out):
                if t.startswith('"') and len(t) > 2:
                    p = t[1:-1]
                    if os.path.isfile(os.path.join(d, p)):
                        t = '"' + os.path.relpath(os.path.join(d, p), d) + '"'
                r.append(t)
            return r
        a, b, c = norm(gcc.out), norm(clang.out), norm(cc.out)
        if a != b:
            k = next((i for i, (p, q) in enumerate(zip(a, b)) if p != q), 0)
            return DISCARD, "references disagree: %s / %s" % (" ".join(a[max(0, k - 8):k + 3]), " ".join(b[max(0, k - 8):k + 3]))
        if a != c:
            k = next((i for i, (p, q) in enumerate(zip(a, c)) if p != q), min(len(a), len(c)))
            return FAIL, "token %d: expected %s, got %s" % (k, " ".join(a[max(0, k - 9):k + 5]), " ".join(c[max(0, k - 9):k + 5]))
        def deps(n):
            t = open(os.path.join(d, n)).read().replace("\\\n", " ")
            h, _, r = t.partition(":")
            return h, [os.path.relpath(os.path.join(d, p), d) for p in r.split()]
        if not os.path.exists(os.path.join(d, x["mf"])):
            return FAIL, "-MD does not write %s" % x["mf"]
        h, ps = deps(x["mf"])
        want = deps("gcc.d_")[1]
        if h.strip() != x["mt"]:
            return FAIL, "the target in %s is %s, not %s" % (x["mf"], h, x["mt"])
        if set(ps) != set(want):
            return FAIL, "prerequisites differ: missing %s, unexpected %s" % (sorted(set(want) - set(ps)), sorted(set(ps) - set(want)))
        case.labels += ("read:%d" % min(len(want), 6),)
        case.nontrivial = len(want) >= 2
        return OK, ""

CHECK = Inc()
