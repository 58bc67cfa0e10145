"""C28: code models and debugging options against gcc's behaviour and against the plain object."""
import os
import cc as T, corpus, diffrun
from cexpr import TYPEID_MACRO
from engine import Check, Case, OK, FAIL, DISCARD

SCRIPT = """ENTRY(_start)
SECTIONS {
 . = 0x400000;
 .text : { *(EXCLUDE_FILE(*cc.o) .text EXCLUDE_FILE(*cc.o) .text.*) }
 .rodata : { *(EXCLUDE_FILE(*cc.o) .rodata EXCLUDE_FILE(*cc.o) .rodata.*) }
 . = ALIGN(0x1000);
 .data : { *(EXCLUDE_FILE(*cc.o) .data EXCLUDE_FILE(*cc.o) .data.*) }
 .bss : { *(EXCLUDE_FILE(*cc.o) .bss EXCLUDE_FILE(*cc.o) .bss.* EXCLUDE_FILE(*cc.o) COMMON) }
 . = 0x612345678000;
 .text.far : { *(.text .text.*) }
 . = 0x634500000000;
 .rodata.far : { *(.rodata .rodata.*) }
 . = 0x656700000000;
 .data.far : { *(.data .data.* .bss .bss.*) }
}
"""
OPTS = [["-fdebug-stack-size"], ["-fdebug-stack-size=100"], ["-fdump-ir=ir.dot"], ["-O0"], ["-O1"], ["-O2"], ["-O3"], ["-Os"], ["-g"], ["-Wall"], ["-Wextra", "-Wno-unused"],
        ["-std=c11"], ["-std=gnu17"], ["-fno-common"], ["-fcmodel=small"], ["-fdebug-stack-size", "-fdump-ir=ir.dot"], ["-fabi=sysv"], ["-fcmodel=small", "-O2", "-g"], ["-fcmodel=large", "-fcmodel=small"]]

class Far(diffrun.Diff):
    def cc_compile(self, src, obj):
        r = T.run([self.ccpath, "-fcmodel=large", "-c", src, "-o", obj], cpu=20)
        if r.rc == 0:
            for m in ([], ["-fcmodel=large"]):
                d = os.path.dirname(obj)
                p = T.run([self.ccpath] + m + ["-c", src, "-o", obj + ".p"], cwd=d, cpu=20)
                for o in self.opts[0]:
                    if m and "-fcmodel=small" in o: continue
                    x = list(o)
                    q = T.run([self.ccpath] + ([x[0]] + m + x[1:] if len(x) > 1 else m + x) + ["-c", src, "-o", obj + ".q"], cwd=d, cpu=20)
                    if (p.rc, p.rc or open(obj + ".p", "rb").read()) != (q.rc, q.rc or open(obj + ".q", "rb").read()):
                        r.rc, r.err = 1, "options %s change the object (status %d, plain %d) %s" % (" ".join(m + o), q.rc, p.rc, q.err[:200])
                        return r
        return r

class ModelCheck(Check):
    prop = "C28"
    technique = "property-based differential and metamorphic testing: generated programs compiled with -fcmodel=large and linked far from everything they refer to, behaviour compared with gcc's build; objects under debugging and optimisation options compared byte for byte with the plain object, with shrinking"
    level_note = "Sampled programs and option sets."
    batch = 12
    quick_cases = 100000
    quick_time = 35.0
    thorough_cases = 4000000
    rule = ("programs from the generators of C01-C08 compiled with -fcmodel=large, linked with code, constants and data terabytes apart from each other and from the harness, and compared with gcc's observations; the same source with "
            "3 of 20 option sets (-fdebug-stack-size[=n], -fdump-ir=, -O*, -g, -W*, -std=, -fcmodel=small, ...), in either code model, must give the plain object byte for byte. Non-trivial: as the generator that made the program says.")
    assumptions = ["gcc 13, clang 18 and GNU ld define the expected result (a disagreement between them discards the case)"]
    NAMES = ["c01", "c02", "c03", "c04", "c05", "c06", "c07", "c08"]
    def setup(self, work):
        self.cc = T.build(work)
        self.h = diffrun.build_harness(work, flags=["-mcmodel=large"])
        self.script = os.path.join(work, "far.ld")
        open(self.script, "w").write(SCRIPT)
        for n in self.NAMES:
            corpus.check(n)
        self.diff = Far(self.cc, self.h, decls=corpus.HEAD)
        self.diff.ldflags = ["-T", self.script]
        self.diff.opts = [[]]
    def generate(self, s):
        n = s.pick(self.NAMES)
        c = corpus.check(n).generate(s)
        if c is None:
            return None
        opts = [s.pick(OPTS) for _ in range(3)]
        return Case(c.text + "\n// options %s\n" % opts, nontrivial=c.nontrivial, labels=[n] + sorted({o[0].split("=")[0] for o in opts}), data=(c.text, opts))
    def evaluate(self, cases, d):
        diff = Far(self.cc, self.h, decls=corpus.HEAD)
        diff.ldflags = self.diff.ldflags
        opts = []
        for c in cases:
            for o in c.data[1]:
                if o not in opts: opts.append(o)
        diff.opts = [opts[:6] if len(cases) > 1 else opts]
        return diff.evaluate([c.data[0] for c in cases], d)
    def replay_files(self, case):
        return {"case.c": corpus.HEAD + case.data[0].replace("@", "x_")}

CHECK = ModelCheck()
