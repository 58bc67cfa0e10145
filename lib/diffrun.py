"""Differential execution: the same C cases compiled by gcc (reference) and by the compiler under test.

Case text uses @ as the prefix of external names and defines void @case(void); it may call
obs/obsi/obsd/obsf/obsm/obss.  Everything else it defines must be static or @-prefixed
(@ becomes ref_<k>_ or cc_<k>_)."""
import os
import cc as T
from engine import OK, FAIL, DISCARD

DECLS = ("void obs(unsigned long); void obsi(int); void obsd(double); void obsf(float);"
         " void obsm(const void *, unsigned long); void obss(const char *);"
         " void tick(void); unsigned long tickv(unsigned long); void runseg(void (*)(void)); void segcmp(void);\n")
REFFLAGS = ["-O0", "-std=gnu2x", "-w", "-fno-pic", "-fno-pie", "-ffreestanding", "-fno-builtin", "-fno-stack-protector", "-fcf-protection=none",
            "-fwrapv-pointer", "-fno-asynchronous-unwind-tables", "-fno-strict-aliasing", "-mno-red-zone"]

def build_harness(work, cpu=4, flags=()):
    """harness.o, and harness.alt.o which fills the stack differently before the two runs (reads of
    uninitialised memory then show as a disagreement between the references)."""
    o = os.path.join(work, "harness.o")
    if os.path.exists(o):
        return o
    _build_harness(os.path.join(work, "harness.o.alt"), cpu, ["-DPATB=0x3C"] + list(flags))
    return _build_harness(o, cpu, list(flags))

def _build_harness(o, cpu, flags):
    h = os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness.c")
    r = T.run(["gcc", "-O1", "-w", "-fno-pic", "-fno-pie", "-ffreestanding", "-fno-builtin", "-fno-stack-protector", "-fno-tree-loop-distribute-patterns",
               "-fcf-protection=none", "-fno-omit-frame-pointer", "-DCPU_SECONDS=%d" % cpu, "-c", h, "-o", o] + flags)
    assert r.rc == 0, r.err
    return o

class Split:
    """A case of two translation units: common declarations, the part for the compiler under test and the part for gcc."""
    __slots__ = ("common", "cc", "gcc")
    def __init__(self, common, cc, gcc):
        self.common, self.cc, self.gcc = common, cc, gcc
    def all(self):
        return self.common + self.cc + self.gcc

def assemble_text(bodies, prefix, decls, part=None):
    t = [decls]
    for k, b in enumerate(bodies):
        if isinstance(b, Split):
            b = b.all() if part is None else b.common + getattr(b, part)
        t.append(b.replace("@", "%s_%d_" % (prefix, k)))
    if part == "cc":
        for k in range(len(bodies)):
            t.append("void %s_%d_case(void);" % (prefix, k))
    if part == "gcc":
        return "\n".join(t)
    t.append("\nvoid (*%s_cases[])(void) = { %s };\n" % (prefix, ", ".join("%s_%d_case" % (prefix, k) for k in range(len(bodies)))))
    if prefix == "ref":
        t.append("int n_cases = %d;\n" % len(bodies))
    return "\n".join(t)

class Diff:
    """cc_compile(src, obj) -> R may be overridden for other pipelines (-S + as, -fcmodel=large, ...)."""
    ldflags = []
    def __init__(self, ccpath, harness, decls=DECLS, ccflags=(), refflags=None, mode="c", ref=None, verify=True, splits=False, mixflags=("-O2",), mixdecls=None):
        self.splits, self.mixflags, self.mixdecls = splits, list(mixflags), mixdecls
        self.ccpath, self.harness, self.decls, self.ccflags, self.mode = ccpath, harness, decls, list(ccflags), mode
        self.refflags = REFFLAGS + list(refflags or [])
        self.ref = ref
        self.verify = verify
    def cc_compile(self, src, obj):
        if self.mode == "c":
            return T.run([self.ccpath] + self.ccflags + ["-c", src, "-o", obj], cpu=20)
        s = obj + ".s"
        r = T.run([self.ccpath] + self.ccflags + ["-S", src, "-o", s], cpu=20)
        if r.rc != 0:
            return r
        r2 = T.run(["as", s, "-o", obj], cpu=20)
        if r2.rc != 0:
            r2.err = "assembler rejects -S output: " + r2.err
        return r2
    def ref_compile(self, src, obj, cc="gcc", flags=()):
        return T.run([cc] + [f for f in self.refflags if (cc == "gcc" or f not in ("-fwrapv-pointer",)) and not (flags and f == "-O0")] + list(flags) + ["-c", src, "-o", obj], cpu=60)
    def evaluate(self, bodies, d):
        if not bodies:
            return []
        refs = []
        rsrc, csrc = os.path.join(d, "ref.c"), os.path.join(d, "cc.c")
        robj, cobj, exe = os.path.join(d, "ref.o"), os.path.join(d, "cc.o"), os.path.join(d, "x")
        w = lambda p, t: open(p, "w", newline="").write(t)
        w(rsrc, assemble_text(bodies, "ref", self.decls))
        r = self.ref_compile(rsrc, robj)
        if r.rc != 0:
            if len(bodies) == 1:
                if os.environ.get("VERIF_DISAGREE"):
                    open(os.environ["VERIF_DISAGREE"] + "/%d.c" % abs(hash(str(bodies[0]))), "w").write("//%s\n" % r.err.replace("\n", "\n//") + (bodies[0].all() if isinstance(bodies[0], Split) else bodies[0]))
                return [(DISCARD, "reference rejects: " + first_error(r.err))]
            return self.split(bodies, d)
        w(csrc, assemble_text(bodies, "cc", self.decls, "cc" if self.splits else None))
        r = self.cc_compile(csrc, cobj)
        objs = [robj, cobj]
        if self.splits and r.rc == 0:
            msrc, mobj = os.path.join(d, "mix.c"), os.path.join(d, "mix.o")
            w(msrc, assemble_text(bodies, "cc", self.mixdecls or self.decls, "gcc"))
            r2 = self.ref_compile(msrc, mobj, flags=self.mixflags)
            if r2.rc != 0:
                if len(bodies) == 1:
                    return [(DISCARD, "reference rejects the second unit: " + first_error(r2.err))]
                return self.split(bodies, d)
            objs.append(mobj)
        if r.rc != 0:
            if len(bodies) == 1:
                if r.timeout:
                    return [(FAIL, "compiler does not terminate (CPU limit)")] if self.plausible(bodies[0], d) else [(DISCARD, "timeout, reference unsure")]
                if not self.plausible(bodies[0], d):
                    return [(DISCARD, "reference compilers disagree or warn")]
                return [(FAIL, "compiler fails on a valid program: status %d: %s" % (r.rc, (r.out + r.err)[:300]))]
            return self.split(bodies, d)
        r = T.run(["ld", "-static", "-nostdlib", "-z", "noexecstack", "--no-warn-mismatch"] + self.ldflags + ["-o", exe, self.harness] + objs + self.extra_objs(), cpu=20)
        if r.rc != 0:
            if len(bodies) == 1:
                return [(FAIL, "link error: " + (r.out + r.err)[:300])]
            return self.split(bodies, d)
        r = T.run([exe], cwd=d, cpu=None, wall=300)
        lines = r.out.split("\n")[:-1]
        if r.rc != 0 or len(lines) != len(bodies):
            if len(bodies) == 1:
                return [(DISCARD, "harness ended with %d" % r.rc)]
            return self.split(bodies, d)
        res = []
        for k, l in enumerate(lines):
            f = l.split()
            sa, sb, same = int(f[1], 16), int(f[2], 16), f[3] == "same"
            na, nb, i, va, vb, ba, bb = [int(x, 16) for x in f[4:11]]
            if sa != 0 or ba != 0:
                res.append((DISCARD, "reference run status %x bad %x" % (sa, ba)))
            elif sb == 0 and same and bb == 0 and na > 0:
                res.append((OK, None))
            elif na == 0:
                res.append((DISCARD, "nothing observed"))
            else:
                if sb != 0:
                    m = "compiled program dies with wait status 0x%x after %d of %d observations" % (sb, nb, na)
                elif not same:
                    m = "observation %d is 0x%x, expected 0x%x (%d observations, expected %d)" % (i, vb, va, nb, na)
                elif bb & 1:
                    m = "stack not 16-byte aligned at a call"
                else:
                    m = "callee-saved registers not preserved (mask 0x%x)" % (bb >> 8)
                res.append((FAIL, m))
        # a failure inside a batch is re-judged alone, against more references
        out = []
        for k, (st, m) in enumerate(res):
            if st == FAIL:
                if len(bodies) > 1:
                    out.append(self.alone(bodies[k], d, k))
                    continue
                if not self.plausible(bodies[k], d):
                    out.append((DISCARD, "reference compilers disagree"))
                    if os.environ.get("VERIF_DISAGREE"):
                        open(os.environ["VERIF_DISAGREE"] + "/%d.c" % abs(hash(str(bodies[k]))), "w").write("//%s\n" % m + (bodies[k].all() if isinstance(bodies[k], Split) else bodies[k]))
                    continue
            out.append((st, m))
        return out
    def extra_objs(self):
        return []
    def alone(self, body, d, k):
        e = os.path.join(d, "s%d" % k)
        os.makedirs(e, exist_ok=True)
        return self.evaluate([body], e)[0]
    def split(self, bodies, d):
        h = len(bodies) // 2
        out = []
        for n, part in (("l", bodies[:h]), ("r", bodies[h:])):
            e = os.path.join(d, n)
            os.makedirs(e, exist_ok=True)
            out += self.evaluate(part, e)
        return out
    ALT = [("gcc", ["-O2"]), ("clang", ["-O0"]), ("clang", ["-O2"]),
           ("gcc", ["-fsanitize=undefined", "-fsanitize-undefined-trap-on-error", "-fno-sanitize=alignment"])]
    def plausible(self, body, d):
        """All reference builds (gcc -O0/-O2, clang -O0/-O2, UBSan with traps) agree: the case is well defined."""
        if not self.verify:
            return True
        e = os.path.join(d, "alt")
        os.makedirs(e, exist_ok=True)
        w = lambda p, t: open(p, "w", newline="").write(t)
        rsrc, csrc = os.path.join(e, "ref.c"), os.path.join(e, "cc.c")
        w(rsrc, assemble_text([body], "ref", self.decls))
        w(csrc, assemble_text([body], "cc", self.decls))
        robj, cobj, exe = os.path.join(e, "ref.o"), os.path.join(e, "cc.o"), os.path.join(e, "x")
        if self.ref_compile(rsrc, robj).rc != 0:
            return False
        for c, fl in self.ALT:
            r = self.ref_compile(csrc, cobj, cc=c, flags=fl)
            if r.rc != 0:
                return False
            r = T.run(["ld", "-static", "-nostdlib", "-z", "noexecstack", "-o", exe, self.harness + ".alt", robj, cobj] + self.extra_objs(), cpu=20)
            if r.rc != 0:
                return False
            r = T.run([exe], cwd=e, cpu=None, wall=120)
            f = r.out.split()
            if len(f) < 11 or f[1] != "0" or f[2] != "0" or f[3] != "same":
                return False
        return not self.splits or self.interop(body, e, w, robj)
    def interop(self, body, e, w, robj):
        """gcc and clang agree across units: what the case needs of the ABI is not in dispute."""
        csrc, msrc, cobj, mobj, exe = [os.path.join(e, n) for n in ("ccpart.c", "mix.c", "ccpart.o", "mix.o", "y")]
        w(csrc, assemble_text([body], "cc", self.mixdecls or self.decls, "cc"))
        w(msrc, assemble_text([body], "cc", self.mixdecls or self.decls, "gcc"))
        for c1, f1, c2, f2 in (("clang", ["-O0"], "gcc", self.mixflags), ("gcc", ["-O0"], "clang", ["-O2"])):
            if self.ref_compile(csrc, cobj, cc=c1, flags=f1).rc != 0 or self.ref_compile(msrc, mobj, cc=c2, flags=f2).rc != 0:
                return False
            r = T.run(["ld", "-static", "-nostdlib", "-z", "noexecstack", "-o", exe, self.harness + ".alt", robj, cobj, mobj] + self.extra_objs(), cpu=20)
            if r.rc != 0:
                return False
            r = T.run([exe], cwd=e, cpu=None, wall=120)
            f = r.out.split()
            if len(f) < 11 or f[1] != "0" or f[2] != "0" or f[3] != "same":
                return False
        return True

def first_error(err):
    for l in err.split("\n"):
        if "error" in l:
            return l[:200].split("error", 1)[1]
    return err[:100]
