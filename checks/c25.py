"""C25: the compiler built by gcc and the compiler built by itself give the same output for every input."""
import os
import cc as T, corpus, linkgen, magunit, mutate, diffrun
from engine import Check, Case, OK, FAIL, DISCARD

FLAGS = [[], [], ["-fcmodel=large"], ["-fabi=ms"], ["-fabi=ms", "-fmingw-workarounds"], ["-Da=3", "-DNDEBUG"], ["-fdebug-stack-size"], ["-MD", "-MF", "x.d"]]

class SelfCheck(Check):
    prop = "C25"
    technique = "property-based differential testing: generated and mutated inputs compiled by the gcc-built compiler and by the compiler it compiles from the same sources; output bytes, diagnostics and exit status compared, with shrinking"
    level_note = "Sampled inputs and options."
    batch = 10
    quick_cases = 100000
    quick_time = 32.0
    thorough_cases = 4000000
    rule = ("programs of the other properties' generators, the C12 magnitude generator, the C13 unit generator, state-leaving files (C24), the compiler's own source files, 2 in 5 with random token edits; modes -c, -S, -E with option sets. "
            "Output files, standard output, diagnostics and exit status of the first and second generation must be identical. Non-trivial: unmutated, or mutated and still accepted or rejected with a diagnostic.")
    assumptions = ["inputs on which the gcc-built compiler is killed or a sanitizer build reports a memory error are left to C23"]
    def setup(self, work):
        self.work = work
        self.cc = T.build(work)
        self.cc2, self.err = T.build_gen2(work, self.cc)
        for n in corpus.NAMES: corpus.check(n)
    def generate(self, s):
        k = s.weighted([(8, "unit"), (3, "mag"), (2, "link"), (2, "dirty"), (1, "own")])
        if k == "unit":
            u = corpus.unit(s, "x_")
            if u is None: return None
            k, t = u
        elif k == "mag":
            t = magunit.generate(s)[0]
        elif k == "link":
            t = diffrun.DECLS + s.pick(linkgen.make(s, s.range(1, 3))[0])
        elif k == "dirty":
            t = __import__("c24").dirty(s, 0)
        else:
            t = open(s.pick(T.sources())).read()
        t = t.replace("@", "x_")
        mut = s.chance(2, 5)
        if mut:
            t = mutate.mutate(s, t)
        fl, mode = s.pick(FLAGS), s.pick(["-c", "-c", "-S", "-S", "-E"])
        if k == "own": fl = ["-I%s/src" % T.REPO, "-I" + T.REPO] + fl
        return Case(t + "\n// options: %s %s\n" % (mode, " ".join(fl)), nontrivial=True, labels=[k, mode] + (["mutated"] if mut else []) + fl[:1], data=(t, mode, fl, mut))
    def evaluate(self, cases, d):
        return [self.one(c, os.path.join(d, str(k))) for k, c in enumerate(cases)]
    def run(self, exe, t, mode, fl, d):
        os.makedirs(d, exist_ok=True)
        for n, x in (("once.h", "#pragma once\nstatic int once_v;\nstruct once_s { int x; };\n"), ("guard.h", "typedef int guard_t;\nenum { GUARD_A = 4, GUARD_B };\n")):
            open(os.path.join(d, n), "w").write(x)
        open(os.path.join(d, "in.c"), "w").write(t)
        r = T.run([exe, mode] + fl + (["-o", "out"] if mode != "-E" else []) + ["in.c"], cwd=d, cpu=20, mem=4 << 30)
        f = []
        for n in ("out", "x.d"):
            p = os.path.join(d, n)
            f.append(open(p, "rb").read() if r.rc == 0 and os.path.exists(p) else None)
        return r, f
    def one(self, c, d):
        t, mode, fl, mut = c.data
        if self.cc2 is None:
            return (FAIL, "the compiler cannot compile itself: " + self.err[-300:])
        r, f = self.run(self.cc, t, mode, fl, os.path.join(d, "a"))
        if r.rc < 0 or r.timeout:
            return (DISCARD, "the compiler is killed")
        q, g = self.run(self.cc2, t, mode, fl, os.path.join(d, "b"))
        if (r.rc, r.out, r.err, f) == (q.rc, q.out, q.err, g):
            return (OK, None)
        if "own" not in c.labels and self.memory_error(t, mode, fl, d):
            return (DISCARD, "memory error in the compiler")
        if r.rc != q.rc:
            return (FAIL, "status %d, self-compiled %d: %s | %s" % (r.rc, q.rc, r.err[:150], q.err[:150]))
        if (r.out, r.err) != (q.out, q.err):
            return (FAIL, "diagnostics or standard output differ: %s | %s" % (r.err[:150], q.err[:150]))
        return (FAIL, "%s output differs (%d / %d bytes)" % (mode, len(f[0] or b""), len(g[0] or b"")))
    def memory_error(self, t, mode, fl, d):
        import fcntl
        with open(os.path.join(self.work, "san.lock"), "w") as lock: # the workers are processes
            fcntl.flock(lock, fcntl.LOCK_EX)
            self.asan = os.path.join(self.work, "ccsan")
            if not os.path.exists(self.asan):
                T.build(self.work, "ccsan", ("-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"))
        r, _f = self.run(self.asan, t, mode, fl, os.path.join(d, "san"))
        v = T.run(["valgrind", "-q", "--error-exitcode=99", self.cc, mode] + fl + ["in.c", "-o", "out"], cwd=os.path.join(d, "a"), cpu=120)
        return "ERROR: AddressSanitizer" in r.err or "runtime error" in r.err or v.rc == 99
    def replay_files(self, case):
        return {"in.c": case.data[0]}

CHECK = SelfCheck()
