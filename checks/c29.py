"""C29: COFF -c objects against the COFF assembler's reading of the -S output."""
import os, re
import cc as T, corpus, coff, elf, magunit
from engine import Check, Case, OK, FAIL, DISCARD

class CoffCheck(Check):
    prop = "C29"
    technique = "property-based differential testing: random programs for the Microsoft ABI, strictly parsed COFF written by -c against mingw-as-assembled -S output, compared after normalisation (disassembly with symbolic targets, data, symbols, relocations and addends), with shrinking"
    level_note = "Sampled programs, small and large code model; every instruction, symbol and relocation of every program is compared."
    batch = 6
    quick_cases = 100000
    quick_time = 30.0
    thorough_cases = 4000000
    rule = ("a translation unit made of 1-4 programs from the generators of C01-C10 and the generator of extreme displacements, names and symbol offsets, symbol names of 1-300 characters, and in one case of 60 a table of more than 65535 relocations, "
            "compiled with -fabi=ms and a random code model. The -c object must be structurally valid COFF (strict reader: table bounds, overlaps, name and string table, relocation kinds and bounds) and equal to the object that x86_64-w64-mingw32-as builds from -S "
            "in operations, operands, branch and relocation targets with addends, data bytes, defined, local and undefined symbols. Non-trivial: at least 40 instructions and one relocation, or a relocation table of more than 65535 entries.")
    assumptions = ["mingw GNU as 2.41 and objdump 2.42 encode and decode x86-64 COFF correctly"]
    flagsets = [["-fabi=ms"], ["-fabi=ms", "-fmingw-workarounds"], ["-fabi=ms", "-fcmodel=large"]]
    def setup(self, work):
        self.cc = T.build(work)
    def names(self, s):
        """Externals and internals with names around the 8-character limit."""
        out, L, used = [], set(), set()
        pool = []
        for k in range(s.range(1, 12)):
            n = s.pick([1, 2, 3, 7, 8, 8, 9, 9, 10, 15, 16, 17, 31, 64, 200, 300])
            ch = s.pick("abcxyz_Q")
            nm = (ch + s.pick(["", "0", "_", "Z9"]) * n + "pqrstuv" * n)[:n]
            while nm in used or nm in KEY:
                nm = (nm + s.pick("klmno7"))[-300:]
                if nm[0].isdigit(): nm = "v" + nm
            used.add(nm)
            kind = s.draw(6)
            t = s.pick(["char", "short", "int", "long long", "double"])
            if kind == 0:
                out.append("extern %s %s;" % (t, nm)); pool.append(nm)
            elif kind == 1:
                out.append("%s%s %s[%d]%s;" % (s.pick(["", "static "]), t, nm, s.range(1, 9), s.pick(["", " = {%d}" % s.range(1, 99)]))); pool.append(nm + "[0]")
            elif kind == 2:
                out.append("%s%s %s = %d;" % (s.pick(["", "static "]), t, nm, s.range(0, 200))); pool.append(nm)
            elif kind == 3:
                out.append("int %s(void);" % nm); pool.append(nm + "()")
            elif kind == 4:
                out.append("%sint %s(void) { return %s; }" % (s.pick(["", "static "]), nm, " + ".join(["(int)" + s.pick(pool) for _ in range(s.range(0, 3))] if pool else []) or "7")); pool.append(nm + "()")
            elif pool:
                n2 = s.pick([p for p in pool]) 
                if n2.endswith("()"):
                    out.append("int (*%s)(void) = %s;" % (nm, n2[:-2]))
                else:
                    out.append("void *%s = (char *)&%s + %d;" % (nm, n2, s.pick([0, 1, 4, -8, 127, 4096, 100000, -100000])))
                L.add("symbol-offset")
            L.add("name:%s" % ("short" if n < 8 else "8" if n == 8 else "long"))
        out.append("int @all(void) { return %s; }" % (" + ".join("(int)" + p for p in pool) or "0"))
        return "\n".join(out) + "\n", L
    def generate(self, s):
        parts, labels = [], set()
        if s.chance(1, 60):
            n = s.pick([65534, 65535, 65536, 70000])
            t = "extern int ex; int in; static int st[5];\n" + s.pick(["", "static "]) + "int *tab[%d] = {%s};\nint *first(void) { return tab[0]; }\n" % (n, ",".join(s.pick(["&ex", "&in", "st+%d" % s.draw(5)]) for _ in range(20)) + "," + ",".join(["&in"] * (n - 20)))
            fl = s.pick(self.flagsets)
            return Case("// flags: %s\n" % " ".join(fl) + t, labels=["many-relocations"], data=fl)
        seen = False
        for k in range(s.range(1, 4)):
            if not seen and s.chance(1, 2):
                seen = True
                t, L = self.names(s)
                labels |= L
            elif s.chance(1, 2):
                t, L = magunit.generate(s)
                labels |= L | {"magnitudes"}
            else:
                b = corpus.body(s)
                if b is None:
                    continue
                labels.add("unit:" + b[0])
                t = b[1]
            parts.append(t.replace("@", "u%d_" % k))
        if not parts:
            return None
        fl = s.pick(self.flagsets)
        labels.update(fl)
        return Case("// flags: %s\n" % " ".join(fl) + corpus.HEAD + "\n".join(parts), labels=sorted(labels), data=fl)
    def replay_files(self, case):
        return {"case.c": case.text}
    def evaluate(self, cases, d):
        return [self.one(c, os.path.join(d, str(k))) for k, c in enumerate(cases)]
    def one(self, case, d):
        os.makedirs(d, exist_ok=True)
        p = lambda n: os.path.join(d, n)
        open(p("s.c"), "w").write(case.text)
        r = T.run([self.cc] + case.data + ["-S", "s.c", "-o", "s.s"], cwd=d, cpu=20)
        if r.rc != 0:
            return DISCARD, "-S rejects: " + (r.out + r.err)[:200]
        c = T.run([self.cc] + case.data + ["-c", "s.c", "-o", "s.o"], cwd=d, cpu=20)
        if c.rc != 0:
            return FAIL, "-c fails (%d) although -S succeeds: %s" % (c.rc, (c.out + c.err)[-400:])
        a = T.run(["x86_64-w64-mingw32-as", "s.s", "-o", "a.o"], cwd=d, cpu=60)
        if a.rc != 0:
            return FAIL, "the assembler rejects the -S output: " + a.err[:300]
        try:
            x = coff.Norm(p("s.o"), p("x.bin"))
        except elf.Bad as e:
            return FAIL, "malformed object: %s" % e
        y = coff.Norm(p("a.o"), p("y.bin"))
        coff.pad(x, y)
        m = elf.compare(x, y)
        if m:
            return FAIL, "-c / -S|as differ: " + m
        for s in x.o.secs:
            z = y.o.sec(s.name)
            if z and z.align > 16 and s.align < z.align:
                return FAIL, "alignment of %s: %d / %d" % (s.name, s.align, z.align)
            if s.size and not s.chars & 0x40000000 or s.name == ".text" and not s.chars & 0x20000000 or s.name == ".data" and not s.chars & 0x80000000:
                return FAIL, "section %s lacks a permission: %#x" % (s.name, s.chars)
        case.nontrivial = "many-relocations" in case.labels or len(x.ins) >= 40 and any("{" in i for i in x.ins)
        return OK, None

KEY = {"do", "if", "int", "for", "asm", "bool"}
CHECK = CoffCheck()
