"""C12: -c objects against the assembled -S output, normalised to instructions, data, symbols and relocation targets."""
import os
import cc as T, corpus, elf, magunit
from engine import Check, Case, OK, FAIL, DISCARD

class AsmCheck(Check):
    prop = "C12"
    technique = "property-based differential testing: random programs, object written by -c against system-assembled -S output, compared after normalisation (disassembly with symbolic targets, data, symbols, relocations), with shrinking"
    level_note = "Sampled programs, both code models; every emitted instruction of every program is compared."
    batch = 6
    quick_cases = 100000
    quick_time = 35.0
    thorough_cases = 4000000
    rule = ("a translation unit made of 1-5 programs from the generators of C01-C10 and a generator of extreme displacements, immediates, frame sizes, names and symbol offsets, with a random code model. "
            "The -c object and the GNU as object of the -S output are disassembled with binutils; operations, registers, sizes, displacements, immediates, branch and relocation targets, data bytes, data relocations, "
            "defined and undefined symbols and alignments must be equal, and the -c object must be structurally valid ELF. Non-trivial: at least 40 instructions and one relocation.")
    assumptions = ["GNU as and objdump 2.42 encode and decode x86-64 correctly"]
    flagsets = [[], [], ["-fcmodel=large"]]
    def setup(self, work):
        self.cc = T.build(work)
    def generate(self, s):
        parts, labels = [], set()
        for k in range(s.range(1, 4)):
            if s.chance(2, 3):
                t, L = magunit.generate(s)
                labels |= L | {"magnitudes"}
            else:
                b = corpus.body(s)
                if b is None:
                    continue
                labels.add("unit:" + b[0])
                t = b[1]
            parts.append(t.replace("@", "u%d_" % k))
        if not parts:
            return None
        fl = s.pick(self.flagsets)
        labels.update(fl)
        return Case("// flags: %s\n" % " ".join(fl) + corpus.HEAD + "\n".join(parts), labels=sorted(labels), data=fl)
    def replay_files(self, case):
        return {"case.c": case.text}
    def evaluate(self, cases, d):
        return [self.one(c, os.path.join(d, str(k))) for k, c in enumerate(cases)]
    def one(self, case, d):
        os.makedirs(d, exist_ok=True)
        p = lambda n: os.path.join(d, n)
        open(p("s.c"), "w").write(case.text)
        r = T.run([self.cc] + case.data + ["-S", "s.c", "-o", "s.s"], cwd=d, cpu=20)
        if r.rc != 0:
            g = T.run(["gcc", "-std=gnu2x", "-w", "-c", "s.c", "-o", "g.o"], cwd=d, cpu=60)
            if g.rc != 0:
                return DISCARD, "gcc rejects: " + g.err[:200]
            return (FAIL, "-S rejects a valid program: " + (r.out + r.err)[:300])
        c = T.run([self.cc] + case.data + ["-c", "s.c", "-o", "s.o"], cwd=d, cpu=20)
        if c.rc != 0:
            return FAIL, "-c fails (%d) although -S succeeds: %s" % (c.rc, (c.out + c.err)[-400:])
        a = T.run(["as", "s.s", "-o", "a.o"], cwd=d, cpu=60)
        if a.rc != 0:
            return FAIL, "the assembler rejects the -S output: " + a.err[:300]
        try:
            x = elf.Norm(p("s.o"))
        except elf.Bad as e:
            return FAIL, "malformed object: %s" % e
        y = elf.Norm(p("a.o"))
        m = elf.compare(x, y)
        if m:
            return FAIL, "-c / -S|as differ: " + m
        for n in (".data", ".rodata"):
            u, v = x.o.sec(n), y.o.sec(n)
            if u and v and max(u.align, 1) != max(v.align, 1) and (u.size or v.size):
                return FAIL, "alignment of %s: %d / %d" % (n, u.align, v.align)
        case.nontrivial = len(x.ins) >= 40 and any("{" in i for i in x.ins)
        return OK, None

CHECK = AsmCheck()
