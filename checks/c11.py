"""C11: the Microsoft x64 calling convention, against gcc's ms_abi."""
import os
import cc, diffrun
from c09 import CallCheck
from c10 import VarCheck
from engine import Case

MSDECLS = """
#ifdef __GNUC__
#define ABI __attribute__((ms_abi))
#define VALIST __builtin_ms_va_list
#define VASTART __builtin_ms_va_start
#define SZ(e, n) ((unsigned long long)(n))
#define __builtin_va_copy __builtin_ms_va_copy
#define __builtin_va_end __builtin_ms_va_end
/* gcc's own va_arg forgets that large structs are passed by reference */
#define __builtin_va_arg(ap, T) (*({ char **a_ = (char **)&(ap); T *p_ = sizeof(T) == 1 || sizeof(T) == 2 || sizeof(T) == 4 || sizeof(T) == 8 ? (T *)*a_ : *(T **)*a_; *a_ += 8; p_; }))
#else
#define ABI
#define VALIST __builtin_va_list
#define VASTART __builtin_va_start
#define SZ(e, n) sizeof(e)
#endif
void ABI ms_obs(unsigned long long); void ABI ms_obsi(int); void ABI ms_obsd(double); void ABI ms_obsf(float); void ABI ms_obsm(const void *, unsigned long long);
void mscall(ABI void (*)(void));
#define obs ms_obs
#define obsi ms_obsi
#define obsd ms_obsd
#define obsf ms_obsf
#define obsm ms_obsm
"""

class Fixed(CallCheck):
    prop = "C11"
    ms = True
class Var(VarCheck):
    prop = "C11"
    ms = True

class MsCheck(CallCheck):
    prop = "C11"
    technique = "property-based differential testing: random signatures under the Microsoft x64 ABI (fixed and variadic), caller and callee split between the compiler under test and gcc's ms_abi, compared with an all-gcc build, with shrinking"
    level_note = "Sampled signatures and values; gcc's and clang's ms_abi on Linux are the reference of the Microsoft x64 ABI. Bit-field layout is outside the property."
    batch = 12
    rule = ("the call graphs of C09 and the variadic histories of C10 with the Microsoft ABI (LLP64 types, no bit-fields): code of the compiler under test is built by -fabi=ms -S and as, the other side by gcc -O2 with ms_abi. "
            "The harness checks rbx, rbp, rsi, rdi, r12-r15, xmm6-xmm15, rsp and alignment, and overwrites the home space in every observer. Sizes of types and expressions are compared with LLP64. "
            "Non-trivial: as in C09 or C10.")
    def __init__(self):
        self.fixed, self.var = Fixed(), Var()
    def setup(self, work):
        super().setup(work)
        d = diffrun.DECLS.split("\n")[0]
        self.diff.decls = MSDECLS
        self.diff.mode = "S"
        self.diff.ccflags = ["-fabi=ms"]
    def generate(self, s):
        k = s.weighted([(5, 0), (4, 1), (1, 2)])
        if k == 2: return self.sizes(s)
        return (self.fixed, self.var)[k].generate(s)
    SZ = [("char", 1), ("short", 2), ("int", 4), ("long", 4), ("unsigned long", 4), ("long int", 4), ("long long", 8), ("unsigned long long", 8), ("void *", 8), ("int *[3]", 24), ("long[5]", 20), ("float", 4), ("double", 8), ("_Bool", 1),
          ("struct { long a; void *b; }", 16), ("struct { char a; long b; }", 8), ("struct { long a; long long b; long c; }", 24), ("union { long a; short b[3]; }", 8), ("long (*)(long)", 8)]
    EX = [("1", 4), ("1l", 4), ("1ul", 4), ("1ll", 8), ("1l + 1", 4), ("1u + 1l", 4), ("1ll + 1ul", 8), ("sizeof 1", 8), ("sizeof(int)", 8), ("(char *)0 - (char *)0", 8), ("L'a'", 2), ('"abc"', 4), ('u"ab"', 6), ('U"ab"', 12), ("'a'", 4),
          ("0x7fffffff", 4), ("0x80000000", 4), ("2147483647", 4), ("2147483648", 8), ("4294967295", 8), ("0xffffffff", 4), ("0x100000000", 8), ("2147483648l", 8), ("0x80000000l", 4), ("0xffffffffl", 4), ("4294967295u", 4), ("4294967296u", 8), ("1 ? 1l : 2", 4), ("(short)1 << 1l", 4), ("1l << 1ll", 4), ("_Alignof(long)", 8)]
    def sizes(self, s):
        out = ""
        for i in range(s.range(1, 12)):
            if s.draw(2):
                t, n = s.pick(self.SZ)
            else:
                t, n = s.pick(self.EX)
            k = s.draw(3)
            if k == 0: out += "\tobs(SZ(%s, %d));\n" % (t, n)
            elif k == 1: out += "\t{ static char z[SZ(%s, %d)]; obs(sizeof z); }\n" % (t, n)
            else: out += "\t{ int v = 0; switch (SZ(%s, %d)) { case %d: v = 1; } obs(v); }\n" % (t, n, n)
        from diffrun import Split
        parts = ["void ABI @body(void);\nvoid @case(void) { mscall(@body); }\n", "void ABI @body(void) {\n\tobs(1);\n" + out + "}\n"]
        return Case("/* compiled by the compiler under test */\n" + parts[1], nontrivial=out.count("SZ") >= 2, labels=["sizes"], data=Split("", parts[1], parts[0]))

    def known(self, work):
        """Wide string literals have 4-byte elements although wchar_t has 2 bytes; tests/wchar.c insists on it."""
        ok = ccrun(self.diff.ccpath, work, "wide.c", "_Static_assert(sizeof L\"abc\" == 8, \"\");\n")
        return [("c11-wide-literal", not ok, 'with -fabi=ms the literal L"abc" has 16 bytes: 4-byte elements although wchar_t has 2 bytes')]

def ccrun(cc_path, work, name, text):
    f = os.path.join(work, name)
    open(f, "w").write(text)
    return cc.run([cc_path, "-fabi=ms", "-S", f, "-o", f + ".s"]).rc == 0

CHECK = MsCheck()
