"""Cases made of several translation units, each compiled by the compiler under test or by gcc, linked with ld."""
import os
import cc as T, diffrun, elf
from diffrun import first_error
from engine import OK, FAIL, DISCARD

class Units:
    """parts[i]: text of unit i (with @); the comp string says who compiles it."""
    def __init__(self, parts):
        self.parts = parts
    def text(self):
        return "".join("// ---- unit %d\n%s" % (i, p) for i, p in enumerate(self.parts))

class MultiRun:
    comps = ["cc", "cc", "gcc"]
    def __init__(self, ccpath, harness, head, ccflags=()):
        self.cc, self.harness, self.head, self.ccflags = ccpath, harness, head, list(ccflags)
        self.refflags = list(diffrun.REFFLAGS)
    def unit(self, cases, i, prefix):
        t = [self.head]
        for k, c in enumerate(cases):
            t.append(c.parts[i].replace("@", "%s_%d_" % (prefix, k)))
            if i == 0:
                t.append("void %s_%d_case(void);" % (prefix, k))
        if i == 0:
            t.append("void (*%s_cases[])(void) = { %s };\n" % (prefix, ", ".join("%s_%d_case" % (prefix, k) for k in range(len(cases)))))
            if prefix == "ref":
                t.append("int n_cases = %d;\n" % len(cases))
        return "\n".join(t)
    def compile(self, how, src, obj):
        if how == "cc":
            return T.run([self.cc] + self.ccflags + ["-c", src, "-o", obj], cpu=20)
        c, opt = how if isinstance(how, tuple) else ("gcc", "-O2")
        return T.run([c] + [f for f in self.refflags if f != "-O0" and (c == "gcc" or f != "-fwrapv-pointer")] + opt.split() + ["-c", src, "-o", obj], cpu=60)
    def check_object(self, obj, src, i, cases):
        """Structural checks of an object written by the compiler under test: message or None."""
        return None
    def link(self, objs, exe):
        return T.run(["ld", "-static", "-nostdlib", "-z", "noexecstack", "--fatal-warnings", "-o", exe] + objs, cpu=20)
    def build(self, cases, d, comps, prefix):
        """objects or (None, unit, how, R)"""
        objs = []
        for i, how in enumerate(comps):
            src, obj = os.path.join(d, "%s%d.c" % (prefix, i)), os.path.join(d, "%s%d.o" % (prefix, i))
            open(src, "w").write(self.unit(cases, i, prefix))
            r = self.compile(how, src, obj)
            if r.rc != 0:
                return None, i, how, r
            if how == "cc":
                m = self.check_object(obj, src, i, cases)
                if m:
                    r.rc, r.err = 1, m
                    return None, i, how, r
            objs.append(obj)
        return objs, None, None, None
    def evaluate(self, cases, d):
        if not cases:
            return []
        os.makedirs(d, exist_ok=True)
        n = len(cases[0].parts)
        refs, i, how, r = self.build(cases, d, [("gcc", "-O0")] * n, "ref")
        if refs is None:
            return [(DISCARD, "reference rejects unit %d: %s" % (i, first_error(r.err)))] if len(cases) == 1 else self.split(cases, d)
        objs, i, how, r = self.build(cases, d, self.comps[:n], "cc")
        if objs is None:
            if len(cases) > 1:
                return self.split(cases, d)
            if how != "cc":
                return [(DISCARD, "reference rejects unit %d" % i)]
            if not self.plausible(cases[0], d):
                return [(DISCARD, "reference compilers disagree")]
            return [(FAIL, "unit %d: status %d: %s" % (i, r.rc, (r.out + r.err)[:300]))]
        exe = os.path.join(d, "x")
        r = self.link([self.harness] + refs + objs, exe)
        if r.rc != 0:
            if len(cases) > 1:
                return self.split(cases, d)
            if not self.plausible(cases[0], d):
                return [(DISCARD, "reference compilers disagree")]
            return [(FAIL, "link error: " + (r.out + r.err)[:400])]
        r = T.run([exe], cwd=d, cpu=None, wall=300)
        lines = r.out.split("\n")[:-1]
        if r.rc != 0 or len(lines) != len(cases):
            return [(DISCARD, "harness ended with %d" % r.rc)] if len(cases) == 1 else self.split(cases, d)
        res = []
        for k, l in enumerate(lines):
            f = l.split()
            sa, sb, same = int(f[1], 16), int(f[2], 16), f[3] == "same"
            na, nb, i, va, vb, ba, bb = [int(x, 16) for x in f[4:11]]
            if sa != 0 or ba != 0:
                res.append((DISCARD, "reference run status %x bad %x" % (sa, ba)))
            elif sb == 0 and same and bb == 0 and na > 0:
                res.append((OK, None))
            elif na == 0:
                res.append((DISCARD, "nothing observed"))
            elif len(cases) > 1:
                res.append(self.evaluate([cases[k]], os.path.join(d, "s%d" % k))[0])
            elif not self.plausible(cases[k], d):
                res.append((DISCARD, "reference compilers disagree"))
            elif sb != 0:
                res.append((FAIL, "program dies with wait status 0x%x after %d of %d observations" % (sb, nb, na)))
            elif not same:
                res.append((FAIL, "observation %d is 0x%x, expected 0x%x (%d observations, expected %d)" % (i, vb, va, nb, na)))
            else:
                res.append((FAIL, "calling convention violated (bad %x)" % bb))
        return res
    def split(self, cases, d):
        h = len(cases) // 2
        return self.evaluate(cases[:h], os.path.join(d, "l")) + self.evaluate(cases[h:], os.path.join(d, "r"))
    ALT = [[("gcc", "-O2"), ("clang", "-O0"), ("gcc", "-O0")], [("clang", "-O2"), ("gcc", "-O1"), ("clang", "-O0")]]
    def plausible(self, case, d):
        e = os.path.join(d, "alt")
        os.makedirs(e, exist_ok=True)
        refs, _i, _h, _r = self.build([case], e, [("gcc", "-O0")] * len(case.parts), "ref")
        if refs is None:
            return False
        for alt in self.ALT:
            objs, _i, _h, _r = self.build([case], e, alt[:len(case.parts)], "cc")
            if objs is None or self.link([self.harness + ".alt"] + refs + objs, os.path.join(e, "x")).rc != 0:
                return False
            f = T.run([os.path.join(e, "x")], cwd=e, cpu=None, wall=120).out.split()
            if len(f) < 11 or f[1] != "0" or f[2] != "0" or f[3] != "same":
                return False
        return True
