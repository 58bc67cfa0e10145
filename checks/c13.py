"""C13: programs divided into translation units compiled by this compiler and gcc, against an all-gcc build."""
import os
import cc as T, diffrun, elf, linkgen, multirun
from engine import Check, Case, OK, FAIL, DISCARD

class Objects(multirun.MultiRun):
    def check_object(self, obj, src, i, cases):
        try:
            o = elf.Obj(obj)
            n = elf.Norm(obj)
        except elf.Bad as e:
            return "malformed object: %s" % e
        r = T.run(["gcc"] + self.refflags + ["-O0", "-c", src, "-o", obj + ".ref"], cpu=60)
        if r.rc != 0:
            return None
        g = elf.Obj(obj + ".ref")
        d = lambda x: {y.name for y in x.syms if y.bind == 1 and y.shndx != 0 and y.type != 3}
        if d(o) != d(g):
            return "external definitions differ: %s" % sorted(d(o) ^ d(g))[:5]
        used = {r[2] for x in o.secs for r in x.relocs}
        u = [y.name for k, y in enumerate(o.syms) if k and y.shndx == 0 and k not in used and y.name not in {z.name for z in g.syms}]
        if u:
            return "undefined symbols that nothing refers to: %s" % u[:5]
        flags = {".text": 6, ".data": 3, ".rodata": 2}
        for s in o.secs:
            if s.name in flags and s.size and s.flags & 7 != flags[s.name]:
                return "flags of section %s are %x" % (s.name, s.flags)
        return None

class LinkCheck(Check):
    prop = "C13"
    technique = "property-based differential testing: random programs divided into translation units compiled by this compiler (two units) and gcc (one unit), linked with ld and compared with an all-gcc build; objects checked for ELF well-formedness and symbol tables against gcc's, with shrinking"
    level_note = "Sampled partitions and linkage combinations."
    batch = 10
    quick_cases = 100000
    quick_time = 35.0
    thorough_cases = 4000000
    rule = ("2-3 translation units sharing 2-10 objects (scalars, arrays, structures, strings, tentative, extern, static with the same name in several units, _Alignas, const, pointers initialised with addresses and offsets of "
            "objects of any unit), external/static/inline functions, redundant redeclarations, block-scope extern, function-pointer calls; units 0 and 1 compiled by the compiler under test, unit 2 by gcc -O2. Observations must equal "
            "those of an all-gcc build; the objects must be valid ELF whose external definitions equal those of gcc's object for the same source. Non-trivial: at least 3 shared objects and 3 functions over 2 units.")
    assumptions = ["gcc 13, clang 18 and GNU ld define the expected result (a disagreement between them discards the case)"]
    def setup(self, work):
        self.cc = T.build(work)
        self.h = diffrun.build_harness(work)
        self.run = Objects(self.cc, self.h, diffrun.DECLS)
    def generate(self, s):
        parts, g = linkgen.make(s)
        m = multirun.Units(parts)
        return Case(m.text(), nontrivial=len(g.objs) >= 3 and len(g.funs) >= 3, labels=sorted(g.labels), data=m)
    def evaluate(self, cases, d):
        return self.run.evaluate([c.data for c in cases], d)
    def replay_files(self, case):
        return {"unit%d.c" % i: diffrun.DECLS + p.replace("@", "x_") for i, p in enumerate(case.data.parts)}

CHECK = LinkCheck()
