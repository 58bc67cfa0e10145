"""C24: output is a function of the input and the options; several files in one invocation equal one at a time."""
import os, shutil
import cc as T, corpus, linkgen, magunit, diffrun
from engine import Check, Case, OK, FAIL, DISCARD

ONCE = """#pragma once
#ifndef ONCE_COUNT
#define ONCE_COUNT 1
#else
#undef ONCE_COUNT
#define ONCE_COUNT 2
#endif
static int once_v = ONCE_COUNT;
struct once_s { char a; long b; };
"""
GUARD = """#ifndef GUARD_H
#define GUARD_H
typedef int guard_t;
enum { GUARD_A = 4, GUARD_B };
#endif
"""

def dirty(s, k):
    """Text that leaves as much compiler state behind as possible, and depends on such state."""
    o, post = [], []
    n = lambda: s.pick(["a", "b", "c", "d"])
    for _ in range(s.range(2, 9)):
        v = s.range(1, 9)
        i = len(o)
        o.append(s.pick([
            lambda: "#pragma pack(push, %d)" % s.pick([1, 2, 4]),
            lambda: "#pragma pack(%d)" % s.pick([1, 2, 4, 8]),
            lambda: "#pragma pack(pop)" if False else "#pragma pack()",
            lambda: "#pragma push_macro(\"M%s\")\n#define M%s %d" % (n(), n() + "_", v),
            lambda: "#pragma pop_macro(\"M%s\")" % n(),
            lambda: "#ifndef M%s\n#define M%s %d\n#endif\nint m%d = M%s;" % ((m := n()), m, v, i, m),
            lambda: "#include \"once.h\"\nlong on%d(void) { return once_v + sizeof(struct once_s); }" % i,
            lambda: "#include \"guard.h\"\nguard_t gu%d = GUARD_B;" % i,
            lambda: "struct P%d { char c; %s x; short y; };\nint s%d = sizeof(struct P%d);" % (i, s.pick(["int", "long", "double"]), i, i),
            lambda: "struct @S%s%d { %s x[%d]; };" % (n(), i, s.pick(["int", "char"]), v),
            lambda: "enum { e%d = %d, ee%d };\nenum { f%d = ee%d };\nint en%d = f%d;" % (i, v, i, i, i, i, i),
            lambda: "struct { int v[%d]; } an%d;" % (v, i),
            lambda: "static int @t%s%d;\nint *tp%d(void) { return &@t%s%d; }" % ("s", i, i, "s", i),
            lambda: "int te%d[];" % i if s.chance(1, 3) else "int te%d;" % i,
            lambda: "const char *st%d(void) { static const char *p = \"%s\"; static int cnt; cnt++; return p + (cnt & 1); }" % (i, "x" * v),
            lambda: "const char *sl%d(void) { return \"%s\" \"%s\"; }" % (i, "ab" * v, "c" * s.range(0, 3)),
            lambda: "inline int il%d(void) { return %d; }%s" % (i, v, s.pick(["", "\nint il%d(void);" % i, "\nextern int il%d(void);" % i])),
            lambda: "typedef %s ty%d;\nty%d tv%d = %d;" % (s.pick(["int", "char", "long"]), i, i, i, v),
            lambda: "int lo%d(int n) { int s = 0; for (int i = 0; i < n; i++) { static int k = %d; s += k++ + (n > 3 ? i : n); } return s; }" % (i, v),
            lambda: "double fl%d(double x) { return x * %d.5 + (x < 0 ? -x : x); }" % (i, v),
            lambda: "int va%d(int n, ...) { __builtin_va_list l; __builtin_va_start(l, n); int r = __builtin_va_arg(l, int); __builtin_va_end(l); return r; }" % i,
            lambda: "int sw%d(int n) { switch (n) { case %d: return 1; case 77: goto out; default: n++; } out: return n; }" % (i, v),
            lambda: "int vl%d(int n) { int a[n + 1]; a[n] = %d; return a[n] + sizeof a; }" % (i, v),
            lambda: "#line %d \"li%d.h\"\nint li%d = __LINE__;\nconst char *lf%d(void) { return __FILE__; }" % (v * 100, v, i, i),
            lambda: "extern int ex%s; int ey%d(void) { return ex%s; }" % ((m := n()), i, m),
        ])())
    return "\n".join(o) + "\n"

class Plan:
    pass

class DetCheck(Check):
    prop = "C24"
    technique = "property-based metamorphic testing: files compiled alone and several in one invocation, in other directories, environments and allocator fill patterns; output bytes compared, with shrinking"
    level_note = "Sampled file sequences, options and environments."
    batch = 8
    quick_cases = 100000
    quick_time = 32.0
    thorough_cases = 4000000
    rule = ("2-4 files (programs of the other properties' generators, units of the C13 generator, and files made to leave state behind: unbalanced #pragma pack/push_macro, #pragma once headers, tentative, static, inline and anonymous "
            "entities with equal names, string literals, #line), options -c/-S/-E with or without -fcmodel=large, -fabi=ms, -MD, -D, -U, -I. Each file is compiled alone and all in one invocation in another directory under another environment and "
            "malloc fill pattern; every output file must be byte-identical. Non-trivial: at least two files with equal entity names or left-over state.")
    assumptions = ["__DATE__ and __TIME__ are not used; output files are named by the inputs"]
    def setup(self, work):
        self.cc = T.build(work)
    def generate(self, s):
        p = Plan()
        p.files = []
        labels = set()
        for k in range(s.range(2, 4)):
            kind = s.weighted([(6, "dirty"), (3, "unit"), (2, "link"), (1, "mag")])
            if kind == "dirty":
                t = dirty(s, k)
            elif kind == "unit":
                u = corpus.unit(s, "x_")
                if u is None:
                    return None
                t = u[1]
            elif kind == "link":
                parts, _g = linkgen.make(s, s.range(1, 3))
                t = diffrun.DECLS + s.pick(parts)
            else:
                u = magunit.generate(s)
                if u is None:
                    t = dirty(s, k)
                    kind = "dirty"
                else:
                    t = u if isinstance(u, str) else u[0]
            labels.add(kind)
            p.files.append(t.replace("@", "x_"))
        p.mode = s.pick(["-c", "-c", "-c", "-S", "-S", "-E"])
        p.opts = []
        if s.chance(1, 5): p.opts += ["-fcmodel=large"]
        if s.chance(1, 5): p.opts += ["-fabi=ms"]
        if s.chance(1, 4) and p.mode != "-E": p.opts += ["-MD"]
        if s.chance(1, 3): p.opts += ["-DMa=17", "-DMb"]
        if s.chance(1, 4) and p.mode != "-E": p.opts += ["-UMa"]
        p.env = {"MALLOC_PERTURB_": str(s.range(1, 255)), "LANG": s.pick(["C", "en_US.UTF-8", "tr_TR"]), "TZ": s.pick(["UTC", "Asia/Tokyo"]), "PAD": "x" * s.range(0, 5000), "HOME": "/nonexistent", "COLUMNS": "20"}
        labels.add(p.mode)
        for o in p.opts: labels.add(o.split("=")[0])
        text = "".join("// ---- f%d.c\n%s" % (i, t) for i, t in enumerate(p.files)) + "// options %s %s\n" % (p.mode, " ".join(p.opts))
        return Case(text, nontrivial=True, labels=sorted(labels), data=p)
    def evaluate(self, cases, d):
        return [self.one(c.data, os.path.join(d, str(k))) for k, c in enumerate(cases)]
    def one(self, p, d):
        a, b = os.path.join(d, "a"), os.path.join(d, "another", "directory")
        for x in (a, b):
            os.makedirs(x, exist_ok=True)
            open(os.path.join(x, "once.h"), "w").write(ONCE)
            open(os.path.join(x, "guard.h"), "w").write(GUARD)
            for i, t in enumerate(p.files):
                open(os.path.join(x, "f%d.c" % i), "w").write(t)
        good, eout = [], ""
        for i in range(len(p.files)):
            r = T.run([self.cc, p.mode] + p.opts + ["f%d.c" % i], cwd=a, cpu=20)
            if r.rc == 0:
                good.append(i)
                eout += r.out
            elif len(p.files) == 1:
                return (DISCARD, "rejected")
            else:
                # the same refusal under other conditions
                q = T.run([self.cc, p.mode] + p.opts + ["f%d.c" % i], cwd=b, cpu=20, env=dict(T.ENV, **p.env))
                if (q.rc, q.out, q.err) != (r.rc, r.out, r.err):
                    return (FAIL, "f%d.c: status %d then %d, or other diagnostics: %s | %s" % (i, r.rc, q.rc, r.err[:150], q.err[:150]))
        if not good:
            return (DISCARD, "all files rejected")
        for x in os.listdir(b):
            if x[-2:] in (".o", ".s", ".d"): os.unlink(os.path.join(b, x))
        q = T.run([self.cc, p.mode] + p.opts + ["f%d.c" % i for i in good], cwd=b, cpu=30, env=dict(T.ENV, **p.env))
        if q.rc != 0:
            return (FAIL, "%d files in one invocation: status %d: %s" % (len(good), q.rc, (q.out + q.err)[:300]))
        if q.out != eout:
            return (FAIL, "standard output differs: %d bytes, one at a time %d" % (len(q.out), len(eout)))
        if p.mode == "-E":
            return (OK, None)
        for i in good:
            for ext in [p.mode[1].lower().replace("c", "o")] + (["d"] if "-MD" in p.opts else []):
                n = "f%d.%s" % (i, ext)
                try:
                    x, y = open(os.path.join(a, n), "rb").read(), open(os.path.join(b, n), "rb").read()
                except OSError as e:
                    return (FAIL, "output missing: %s" % os.path.basename(str(e)))
                if x != y:
                    k = next((j for j, (v, w) in enumerate(zip(x, y)) if v != w), min(len(x), len(y)))
                    return (FAIL, "%s differs (%d bytes alone, %d in one invocation with %s) at byte %d" % (n, len(x), len(y), ["f%d.c" % j for j in good], k))
        return (OK, None)
    def replay_files(self, case):
        return {"f%d.c" % i: t for i, t in enumerate(case.data.files)}

CHECK = DetCheck()
