"""C14: executables made by the built-in linker against ld's from the same objects."""
import os
import cc as T, diffrun, linkgen
from engine import Check, Case, OK, FAIL, DISCARD

GFLAGS = ["-std=gnu2x", "-w", "-fno-pic", "-fno-pie", "-ffreestanding", "-fno-builtin", "-fno-stack-protector", "-fcf-protection=none",
          "-mno-red-zone", "-fno-strict-aliasing", "-S"]
OPTS = ["-O0", "-O1", "-O2", "-Os", "-O1 -fdata-sections -ffunction-sections", "-O0 -mcmodel=large", "-O1 -fno-asynchronous-unwind-tables", "-O2 -g1"]

class Plan:
    def __init__(self, parts, kinds, orders, fault):
        self.parts, self.kinds, self.orders, self.fault = parts, kinds, orders, fault

class LinkerCheck(Check):
    prop = "C14"
    technique = "property-based differential testing: random multi-unit freestanding programs linked by the compiler and by ld from the same objects, in several orders, behaviour of the executables compared, with shrinking"
    level_note = "Sampled programs, unit kinds and orders."
    batch = 4
    quick_cases = 100000
    quick_time = 35.0
    thorough_cases = 4000000
    rule = ("1-4 units sharing objects and functions (generator of C13), each given as a C file, as an object of this compiler, or as an object the system assembler made from gcc's output (section symbols, .bss, function/data sections, "
            "string sections, PLT32/32/64 relocations), plus an assembled runtime, in 2 random orders; one case in six has an undefined or a doubly defined symbol. The executables of `cc` and of `ld` must print the same and exit "
            "with the same status; where ld refuses, cc must exit non-zero and leave no executable. Non-trivial: at least two units besides the runtime, or a fault.")
    assumptions = ["GNU as and ld are correct; this compiler's -c objects are the reference for its own C units (their content is checked by C12/C13)",
                   "weak and common symbols, thread-local storage and GOT relocations are outside the property"]
    def setup(self, work):
        self.cc = T.build(work)
        here = os.path.dirname(os.path.abspath(__file__))
        self.rt = os.path.join(work, "rt.o")
        r = T.run(["gcc"] + GFLAGS + ["-O1", os.path.join(here, "..", "lib", "rt.c"), "-o", self.rt + ".s"], cpu=60)
        r2 = T.run(["as", self.rt + ".s", "-o", self.rt], cpu=60)
        assert r.rc == 0 and r2.rc == 0, r.err + r2.err
    def generate(self, s):
        n = s.range(1, 4)
        parts, g = linkgen.make(s, n)
        kinds = [s.weighted([(3, "c"), (3, "o"), (3, "as")]) for _ in range(n)]
        kinds = [k + " " + s.pick(OPTS) if k == "as" else k for k in kinds]
        orders = [s.shuffle(list(range(n + 1))) for _ in range(2)]
        fault = s.weighted([(10, ""), (1, "undefined object"), (1, "undefined function"), (1, "duplicate")])
        u = s.draw(n)
        if fault == "undefined object":
            parts[u] += "extern int @missing;\nint @use(void) { return @missing; }\n"
        elif fault == "undefined function":
            parts[u] += "int @missing(int);\nint @use(int x) { return @missing(x) + 1; }\n"
        elif fault == "duplicate":
            if n == 1:
                fault = ""
            else:
                parts[u] += "int @dup = 3;\n"
                parts[(u + 1) % n] += s.pick(["int @dup = 3;\n", "int @dup[20];\n", "int @dup(void) { return 1; }\n"])
        p = Plan([x.replace("@", "x_") for x in parts], kinds, orders, fault)
        text = "".join("// ---- unit %d (%s)\n%s" % (i, kinds[i], x) for i, x in enumerate(p.parts)) + "// orders %s %s\n" % (orders, fault)
        return Case(text, nontrivial=n >= 2 or bool(fault), labels=sorted(g.labels) + sorted({k.split()[0] for k in kinds}) + ([fault] if fault else []) + ["units:%d" % n], data=p)
    def evaluate(self, cases, d):
        return [self.one(c.data, os.path.join(d, str(k))) for k, c in enumerate(cases)]
    def one(self, p, d):
        os.makedirs(d, exist_ok=True)
        mine, ref = [], []
        for i, (t, k) in enumerate(zip(p.parts, p.kinds)):
            src, obj = os.path.join(d, "u%d.c" % i), os.path.join(d, "u%d.o" % i)
            open(src, "w").write(diffrun.DECLS + t)
            if k in ("c", "o"):
                r = T.run([self.cc, "-c", src, "-o", obj], cpu=20)
                if r.rc != 0:
                    return (DISCARD, "the compiler rejects a unit")
                mine.append(src if k == "c" else obj)
            else:
                r = T.run(["gcc"] + GFLAGS + k.split()[1:] + [src, "-o", obj + ".s"], cpu=60)
                if r.rc != 0 or T.run(["as", obj + ".s", "-o", obj], cpu=60).rc != 0:
                    return (DISCARD, "gcc rejects a unit")
                mine.append(obj)
            ref.append(obj)
        mine.append(self.rt)
        ref.append(self.rt)
        for n, o in enumerate(p.orders):
            a, b = os.path.join(d, "ref%d" % n), os.path.join(d, "mine%d" % n)
            r = T.run(["ld", "-static", "-nostdlib", "-z", "noexecstack", "-o", a] + [ref[i] for i in o], cpu=20)
            q = T.run([self.cc, "-o", b] + [mine[i] for i in o], cpu=20)
            if r.rc != 0:
                if not p.fault:
                    return (DISCARD, "ld: " + r.err[:200])
                if q.rc == 0:
                    return (FAIL, "order %s: ld refuses (%s) but the compiler exits with 0" % (o, p.fault))
                if q.rc < 0:
                    return (FAIL, "order %s: the compiler dies with signal %d on %s" % (o, -q.rc, p.fault))
                if os.path.exists(b):
                    return (FAIL, "order %s: an executable is left behind although linking failed" % o)
                continue
            if p.fault:
                return (DISCARD, "ld accepts the fault")
            if q.rc != 0:
                return (FAIL, "order %s: status %d: %s" % (o, q.rc, (q.out + q.err)[:300]))
            x = T.run([a], cwd=d, cpu=5)
            if x.rc < 0 or x.timeout:
                return (DISCARD, "the program linked by ld dies")
            try:
                y = T.run([b], cwd=d, cpu=5)
            except OSError as e:
                return (FAIL, "order %s: the executable cannot be run: %s" % (o, e))
            if (x.rc, x.out) != (y.rc, y.out):
                l = [i for i, (v, w) in enumerate(zip(x.out.split("\n"), y.out.split("\n"))) if v != w]
                return (FAIL, "order %s: exit status %d, expected %d; %d bytes of output, expected %d; first different line %s" % (o, y.rc, x.rc, len(y.out), len(x.out), l[:1]))
        return (OK, None)
    def replay_files(self, case):
        return {"unit%d.c" % i: diffrun.DECLS + p for i, p in enumerate(case.data.parts)}

CHECK = LinkerCheck()
