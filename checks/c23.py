"""C23: whatever the input, the compiler ends with status 0 and a complete output or status 1 and a diagnostic, and commits no memory error."""
import os, re
import cc as T, corpus, linkgen, magunit, mutate, diffrun, elf, coff
from engine import Check, Case, OK, FAIL, DISCARD

FLAGS = [[], [], ["-fcmodel=large"], ["-fabi=ms"], ["-fabi=ms", "-fmingw-workarounds"], ["-Da=3", "-DNDEBUG"], ["-fdebug-stack-size"], ["-MD", "-MF", "x.d"], ["-MD"], ["-Uint_", "-I."]]
UB = "address,bounds,null,alignment,object-size,pointer-overflow,bool,unreachable,return,vla-bound,returns-nonnull-attribute,nonnull-attribute"

class Robust(Check):
    prop = "C23"
    technique = "fuzzing: structured generators plus token and byte mutation of their output, run under AddressSanitizer/UBSan and MemorySanitizer builds with time and memory limits and output-fault injection; shrinking"
    level_note = "Sampled inputs and options."
    batch = 8
    quick_cases = 100000
    quick_time = 45.0
    thorough_cases = 4000000
    shrink_time = 90.0
    rule = ("valid programs of the other properties' generators, the encoder magnitude generator, link groups, state-leaving files, C22's constraint violations, preprocessor stress (nested conditionals, recursive macros, truncated directives), nesting and width stress, the tests and "
            "the compiler's own sources; 3 in 5 with token edits, 1 in 8 with byte edits or random bytes; -c, -S, -E with option sets; 1 in 12 with an output that cannot be written (full device, missing directory, file-size limit). "
            "Run under an ASan+UBSan build or an MSan build. Oracle: no sanitizer report, no signal, status 0 with a well-formed complete output or status 1 with a diagnostic, within 20 s and 2 GB. Non-trivial: the input is a mutated or invalid text, or a program of a generator.")
    assumptions = ["nesting deeper than 300 levels, and inputs whose own meaning asks for huge objects or exponential macro expansion, are not generated on purpose; when mutation produces them, running out of time or memory is not judged"]
    def setup(self, work):
        self.work = work
        self.cc = T.build(work)
        self.asan = T.build(work, "ccasan", ("-O1", "-g1", "-fsanitize=" + UB, "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"))
        self.msan = T.build(work, "ccmsan", ("-O1", "-g1", "-fsanitize=memory", "-fno-sanitize-recover=all"), cc="clang")
        self.env = dict(T.ENV, ASAN_OPTIONS="detect_leaks=0:detect_stack_use_after_return=1:hard_rss_limit_mb=2000:allocator_may_return_null=0:exitcode=77:max_allocation_size_mb=1500", UBSAN_OPTIONS="exitcode=77:print_stacktrace=1", MSAN_OPTIONS="exitcode=77:hard_rss_limit_mb=2000")
        for n in corpus.NAMES: corpus.check(n)
        self.files = sorted(os.path.join(T.REPO, "tests", f) for f in os.listdir(os.path.join(T.REPO, "tests")) if f.endswith(".c"))
    # -- generators
    def base(self, s):
        k = s.weighted([(8, "unit"), (2, "mag"), (2, "link"), (2, "dirty"), (1, "own"), (3, "test"), (4, "viol"), (4, "pp"), (1, "lits"), (3, "stress"), (1, "bytes")])
        if k == "unit":
            u = corpus.unit(s, "x_")
            if u is None: return None
            k, t = u
        elif k == "mag":
            t = magunit.generate(s)[0]
        elif k == "link":
            t = diffrun.DECLS + s.pick(linkgen.make(s, s.range(1, 3))[0])
        elif k == "dirty":
            t = __import__("c24").dirty(s, 0)
        elif k == "viol":
            c = corpus.check("c22").generate(s)
            if c is None: return None
            t = c.text
        elif k == "own":
            t = open(s.pick(T.sources())).read()
        elif k == "test":
            t = open(s.pick(self.files), errors="surrogateescape").read()
        elif k == "lits":
            t = lits(s)
        elif k == "pp":
            t = pp(s)
        elif k == "stress":
            t = stress(s)
        else:
            t = bytes(s.draw(256) for _ in range(s.range(0, 60))).decode("utf-8", "surrogateescape")
        return k, t.replace("@", "x_")
    def generate(self, s):
        b = self.base(s)
        if b is None: return None
        k, t = b
        lab = [k]
        if s.chance(3, 5):
            t = mutate.mutate(s, t)
            lab.append("tokens")
        if s.chance(1, 8):
            t = mutate.bytemutate(s, t.encode("utf-8", "surrogateescape")).decode("utf-8", "surrogateescape")
            lab.append("bytes")
        fl, mode = s.pick(FLAGS), s.pick(["-c", "-c", "-S", "-E", "-Eo"])
        if k == "own": fl = ["-I%s/src" % T.REPO, "-I" + T.REPO] + fl
        out = s.weighted([(22, "out"), (1, "full"), (1, "dir")])
        if k not in lab: lab.append(k)
        san = s.pick(["asan", "asan", "msan"])
        show = t.encode("utf-8", "surrogateescape").decode("utf-8", "backslashreplace")
        return Case(show + "\n// options: %s %s, output %s, %s\n" % (mode, " ".join(fl), out, san), nontrivial=True, labels=lab + [mode, san] + fl[:1] + ([out] if out != "out" else []), data=(t, mode, fl, out, san))
    # -- oracle
    def evaluate(self, cases, d):
        return [self.one(c, os.path.join(d, str(k))) for k, c in enumerate(cases)]
    def one(self, c, d):
        t, mode, fl, out, san = c.data
        os.makedirs(d, exist_ok=True)
        for n, x in (("once.h", "#pragma once\nstatic int once_v;\nstruct once_s { int x; };\n"), ("guard.h", "typedef int guard_t;\nenum { GUARD_A = 4, GUARD_B };\n"), ("self.h", "#ifndef N\n#define N 1\n#include \"self.h\"\n#endif\n")):
            open(os.path.join(d, n), "w").write(x)
        open(os.path.join(d, "in.c"), "wb").write(t.encode("utf-8", "surrogateescape"))
        o = {"out": "out.o", "full": "/dev/full", "dir": "nowhere/out.o"}[out]
        argv = [getattr(self, san), mode[:2]] + fl + ["-o", o, "in.c"]
        if mode == "-E":
            argv = [getattr(self, san), mode] + fl + ["in.c"]
            if out == "full": argv = ["sh", "-c", 'exec "$@" > /dev/full', "x"] + argv
        r = T.run(argv, cwd=d, cpu=30, env=self.env)
        m = report(r.err)
        if m:
            if heavy(t) and re.search("rss limit|allocation-size-too-big|out-of-memory|stack-overflow", m): return (DISCARD, "heavy")
            return (FAIL, m)
        if r.timeout:
            p = T.run([self.cc] + argv[-len(argv):][1:] if mode != "-E" else [self.cc, mode] + fl + ["in.c"], cwd=d, cpu=20)
            if not p.timeout: return (DISCARD, "slow under the sanitizer only")
            return (DISCARD, "heavy") if heavy(t) else (FAIL, "does not end within 20 s of processor time")
        if r.rc < 0 or r.rc not in (0, 1):
            return (FAIL, "ends with %d: %s" % (r.rc, r.err[-200:]))
        if r.rc == 1:
            return (OK, None) if out == "full" and mode == "-E" or r.err.strip() or r.out.strip() else (FAIL, "status 1 without a diagnostic")
        if out == "dir" and mode != "-E":
            return (FAIL, "status 0 although the output could not be created")
        if out == "full":
            # nothing to write (an empty -E output) is no failure
            return (FAIL, "status 0 although the output could not be written") if mode[:2] != "-E" or t.strip() and self.some(t, mode, fl, d) else (OK, None)
        if mode == "-E":
            return (OK, None)
        if mode == "-Eo":
            return (OK, None) if os.path.exists(os.path.join(d, o)) else (FAIL, "status 0 without an output file")
        p = os.path.join(d, o)
        if not os.path.exists(p):
            return (FAIL, "status 0 without an output file")
        if mode == "-c":
            try:
                (coff.Obj if "-fabi=ms" in fl else elf.Obj)(p)
            except elf.Bad as e:
                return (FAIL, "status 0 with an incomplete object file: %s" % e)
        elif open(p, "rb").read()[-1:] not in (b"\n", b""):
            return (FAIL, "status 0 with an incomplete assembly file")
        return (OK, None)
    def some(self, t, mode, fl, d):
        r = T.run([self.cc, mode[:2]] + fl + ["in.c"], cwd=d, cpu=20)
        return len(r.out) > 0
    def replay_files(self, case):
        return {"in.c": case.data[0]}

def heavy(t):
    """Texts that themselves ask for a lot: large constants, or macros that double."""
    return bool(re.search(r"0x0*[0-9a-fA-F]{6,}|0*[1-9][0-9']{6,}|<<|\d[eEpP]\d", t)) or t.count("#define") > 12

def report(e):
    m = re.search(r"(ERROR: AddressSanitizer[^\n]*|WARNING: MemorySanitizer[^\n]*|MemorySanitizer:[^\n]*|AddressSanitizer:[^\n]*|[^\n]*runtime error:[^\n]*)", e)
    if not m: return None
    fr = re.findall(r"#\d+ 0x[0-9a-f]+ in (\w+)[^\n]*?/?(src/[\w/]+\.c:\d+|\w+\.c:\d+)?", e)
    f = re.findall(r" in (\w+) \S*/src/(\S+)", e)[:4]
    return re.sub(r"0x[0-9a-f]+|==\d+==", "", m.group(1))[:160] + " in " + " < ".join("%s %s" % x for x in f)

PPN = ["A", "B", "C", "F", "G", "__FILE__", "__LINE__", "__VA_ARGS__", "defined"]
PPT = ["1", "0", "x", "+", "-", "(", ")", ",", "#", "##", "A", "B", "F", "F(", "G(", "(A)", "(A, B)", "\"s\"", "'c'", "defined", "defined(A)", "__VA_ARGS__", "?", ":", "1u", "/", "%", "\\", "@", ".", "...", "/*", "*/", "//x", "<", ">", "&&", "||", "!", "~", "__LINE__", "__FILE__", "L", "u8\"x\"", "\"", "'", "0x", "1e+", "\\u00e9", "\xe9"]
def pp(s):
    o = []
    def toks(n=8): return " ".join(s.pick(PPT) for _ in range(s.range(0, n)))
    for _ in range(s.range(1, 14)):
        k = s.draw(16)
        n = s.pick(PPN[:5])
        if k < 3: o.append("#define %s %s" % (n, toks()))
        elif k < 6: o.append("#define %s(%s) %s" % (n, s.pick(["", "A", "A, B", "...", "A, ...", "A,", "A B", ", A", "A, A", "x, y, z"]), toks()))
        elif k == 6: o.append("#undef %s" % s.pick(PPN + [""]))
        elif k == 7: o.append("#if%s %s" % (s.pick(["", "", "def", "ndef"]), toks(5)))
        elif k == 8: o.append("#el%s %s" % (s.pick(["se", "if"]), toks(3)))
        elif k == 9: o.append("#endif")
        elif k == 10: o.append("#include %s" % s.pick(['"once.h"', '"guard.h"', '"self.h"', "<stddef.h>", '"in.c"' if 0 else '"none.h"', "A", "<", '"', "F(A)", "", "<stddef.h", '"guard.h', "<>", '""', "<", '"."', "<.>", "</>"]))
        elif k == 11: o.append("#%s %s" % (s.pick(["line", "error", "pragma", "warning", "", "foo", "pragma once", "pragma pack(push, 1)", "pragma pack(pop)", "pragma pack(", "elifdef", "elifndef", "5", "ident"]), toks(4)))
        elif k == 12: o.append("%s(%s)%s" % (s.pick("FGA"), toks(), s.pick(["", "(", "(1)(2)", "\n(", "\\"])))
        elif k == 13: o.append("/* " + toks(3) + s.pick([" */", "", " *", "\n*/"]))
        else: o.append(toks(12))
    return s.pick(["\n", "\n", "\n", "\r\n", "\\\n"]).join(o) + s.pick(["\n", "\n", "", "\\", "\\\n", "/", "/*", "#", "\""])

LIT = ["a", "\\n", "\\", "\\x", "\\xff", "\\x123456789a", "\\777", "\\8", "\\u00e9", "\\u12", "\\U0001F600", "\\UFFFFFFFF", "\\ud800", "\udcc3", "\udce2\udc82", "\udcf0\udc9f\udc98", "\udcff", "\udc80", "\u00e9", "\U0001F600", "'", '\\"', "\0", "\\0", "\t", "\\\n", "??/", "%s"]
def lits(s):
    """Literals with any bytes, stringized and as designators of arrays."""
    o = ["#define S(...) #__VA_ARGS__\n#define T(x) S(x)\n#define L_(x) L ## x\n"]
    def body(): return "".join(s.pick(LIT) for _ in range(s.range(0, 5)))
    def lit():
        q = s.pick('""\'')
        return s.pick(["", "", "L", "u", "U", "u8", "R"]) + q + body() + q
    for i in range(s.range(1, 6)):
        k = s.draw(8)
        if k < 3: o.append("char %sa%d[] = %s;" % (s.pick(["", "*"]), i, " ".join(lit() for _ in range(s.range(1, 3)))))
        elif k == 3: o.append("int b%d = %s + %s;" % (i, lit(), lit()))
        elif k == 4: o.append("char c%d[] = S(%s %s);" % (i, lit(), body()))
        elif k == 5: o.append("#if %s == %s\nint d%d;\n#endif" % (lit(), lit(), i))
        elif k == 6: o.append("char e%d[%s] = { [%s] = 1, %s };" % (i, s.pick(["", "4", "'\\xff'"]), s.pick([lit(), "2147483647", "0xffffffff", "-1", "1ull << 32", "3"]), lit()))
        else: o.append(s.pick(["#include ", "#line 3 ", "#pragma ", "_Static_assert(1, "]) + lit() + s.pick(["", ");"]))
    return "\n".join(o) + "\n"

def stress(s):
    n = s.pick([3, 20, 60, 100, 300])
    k = s.draw(22)
    def rep(a, b, mid=""): return a * n + mid + b * n
    return [
        lambda: "int x = %s;\n" % rep("(", ")", "1"),
        lambda: "int f(int a) { %s }\n" % rep("{ int a = 1; if (a) ", "}", "return a;"),
        lambda: "int f(int a) { %s return a; }\n" % rep("if (a) while (a--) ", "", ";"),
        lambda: "int %sx;\n" % rep("*", ""),
        lambda: "int x%s;\n" % ("[1]" * n),
        lambda: "struct s { %s int q; %s } x;\n" % ("struct { int m; " * n, "};" * n),
        lambda: "int x[] = %s;\n" % rep("{", "}", "1") if 0 else "int x%s = %s;\n" % ("[1]" * n, rep("{", "}", "1")),
        lambda: "int f(%s) { return p0; }\nint g(void) { return f(%s); }\n" % (", ".join("int p%d" % i for i in range(min(n, 120))), ", ".join("1" for _ in range(min(n, 120)))),
        lambda: "int f(int a) { return %s; }\n" % (" + ".join("a" for _ in range(n))),
        lambda: "int f(int a) { return %s1; }\n" % ("a ? " * n + "1" + " : 0" * n + " + "),
        lambda: "int f(int a) { switch (a) { %s } return 0; }\n" % "".join("case %d: a++;\n" % i for i in range(n)),
        lambda: "enum e { %s };\nint x = E%d;\n" % (", ".join("E%d" % i for i in range(n)), n - 1),
        lambda: "char s[] = \"%s\";\n" % ("ab\\n" * n * 10),
        lambda: "%s\nint x;\n%s\n" % ("#if 1\n" * n, "#endif\n" * n),
        lambda: "%s\nint x = M%d;\n" % ("\n".join("#define M%d M%d" % (i + 1, i) for i in range(n)), n),
        lambda: "#define F(%s) p0\nint x = F(%s);\n" % (", ".join("p%d" % i for i in range(n)), ", ".join("1" for i in range(n))),
        lambda: "#define F(x) x\nint x = %s;\n" % rep("F(", ")", "1"),
        lambda: "int %s;\n" % ("x" * n * 30),
        lambda: "#define S(x) #x\nchar a[] = S(%s);\n" % ("a \"b\" '\\n' " * n),
        lambda: "int f(int a) { %s return a; }\n" % "".join("l%d: a++; if (a < %d) goto l%d;\n" % (i, i, (i * 7) % n) for i in range(n)),
        lambda: "int f(int a) { return _Generic(%s a %s, int: 1, default: 2); }\n" % (rep("(", ")", "a")[:n], rep("", ")")[n - n // 2:] if n % 2 else ""),
        lambda: "".join("static int f%d(void); int g%d(void) { return f%d(); } static int f%d(void) { return %d; }\n" % (i, i, i, i, i) for i in range(n)),
    ][k]()

CHECK = Robust()
