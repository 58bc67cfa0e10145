/* Freestanding driver: runs every case once in the reference build and once in the build under test,
   each in a forked child, and compares what they observed. */
typedef unsigned long u64;
typedef unsigned char u8;
#define NLOG 8192
#ifndef PATB
#define PATB 0xA5
#endif
struct log { volatile u64 n, hash, bad; u64 v[NLOG]; };
static struct log *L;
extern void (*ref_cases[])(void);
extern void (*cc_cases[])(void);
extern int n_cases;

static long sys(long n, long a, long b, long c, long d, long e, long f) {
	register long r10 __asm__("r10") = d; register long r8 __asm__("r8") = e; register long r9 __asm__("r9") = f;
	long r;
	__asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
	return r;
}
void *memcpy(void *d, const void *s, u64 n) { u8 *p = d; const u8 *q = s; while (n--) *p++ = *q++; return d; }
void *memmove(void *d, const void *s, u64 n) { u8 *p = d; const u8 *q = s; if (p < q) while (n--) *p++ = *q++; else while (n--) p[n] = q[n]; return d; }
void *memset(void *d, int c, u64 n) { u8 *p = d; while (n--) *p++ = c; return d; }
int memcmp(const void *a, const void *b, u64 n) { const u8 *p = a, *q = b; for (; n--; p++, q++) if (*p != *q) return *p < *q ? -1 : 1; return 0; }
u64 strlen(const char *s) { u64 n = 0; while (s[n]) n++; return n; }

void __obs(u64 v) {
	u64 n = L->n++;
	L->hash = (L->hash ^ v) * 0x9E3779B97F4A7C15ul + (L->hash >> 29);
	if (n < NLOG) L->v[n] = v;
}
static void junk(void) {
	/* clobber what the ABI lets a callee clobber, including the red-zone area below */
	__asm__ volatile(
		"movq $-0x5a5a5a5b, %%rcx\n movq %%rcx,%%rdx\n movq %%rcx,%%rsi\n movq %%rcx,%%rdi\n movq %%rcx,%%r8\n movq %%rcx,%%r9\n"
		"movq %%rcx,%%r10\n movq %%rcx,%%r11\n movq %%rcx,%%xmm0\n movq %%rcx,%%xmm1\n movq %%rcx,%%xmm2\n movq %%rcx,%%xmm3\n"
		"movq %%rcx,%%xmm4\n movq %%rcx,%%xmm5\n movq %%rcx,%%xmm6\n movq %%rcx,%%xmm7\n"
		::: "rcx","rdx","rsi","rdi","r8","r9","r10","r11","memory","xmm0","xmm1","xmm2","xmm3","xmm4","xmm5","xmm6","xmm7");
}
/* runs f with fresh fuel; tick() ends f (or the case) when the fuel is used up */
static long fuel = 400; volatile u64 seg_sp; static u64 segn[3], seghash[2]; static int nseg;
void runseg0(void (*f)(void));
void seg_out(void);
void segleave(void);
__asm__(".text\n.globl runseg0\nrunseg0:\n pushq %rbx\n pushq %rbp\n pushq %r12\n pushq %r13\n pushq %r14\n pushq %r15\n subq $8,%rsp\n movq %rsp,seg_sp(%rip)\n callq *%rdi\n"
"segleave:\n movq seg_sp(%rip),%rsp\n addq $8,%rsp\n popq %r15\n popq %r14\n popq %r13\n popq %r12\n popq %rbp\n popq %rbx\n movq $0,seg_sp(%rip)\n ret\n");
void runseg(void (*f)(void)) {
	fuel = 400; u64 n = L->n, h = L->hash; L->hash = 0;
	runseg0(f);
	if (nseg < 2) { segn[nseg] = L->n - n; seghash[nseg++] = L->hash; }
	L->hash = h ^ L->hash;
}
void tick(void) {
	if (--fuel > 0) return;
	if (seg_sp) { fuel = 400; segleave(); }
	sys(231, 0, 0, 0, 0, 0, 0);
}
u64 tickv(u64 v) { tick(); return v; }
static void misaligned(void) { L->bad |= 1; }
#define ALIGNCHK() do { u64 fa = (u64)__builtin_frame_address(0); if (fa & 15) misaligned(); } while (0)
void obs(u64 v) { ALIGNCHK(); __obs(v); junk(); }
void obsi(int v) { ALIGNCHK(); __obs((u64)(long)v); junk(); }
void obsd(double d) { ALIGNCHK(); u64 v; if (d != d) v = 0x7ff8000000000000ul; else memcpy(&v, &d, 8); __obs(v); junk(); }
void obsf(float d) { ALIGNCHK(); unsigned v; if (d != d) v = 0x7fc00000u; else memcpy(&v, &d, 4); __obs(v); junk(); }
void obsm(const void *p, u64 n) {
	ALIGNCHK();
	const u8 *q = p; __obs(n);
	while (n) { u64 v = 0, k = n < 8 ? n : 8; memcpy(&v, q, k); __obs(v); q += k; n -= k; }
	junk();
}
void obss(const char *s) { ALIGNCHK(); obsm(s, strlen(s)); }

#define MS __attribute__((ms_abi))
#define HOME() do { volatile u64 *h = (volatile u64 *)__builtin_frame_address(0) + 2; h[0] = h[1] = h[2] = h[3] = 0xdeadbeefdeadbeeful; } while (0)
MS void ms_obs(unsigned long long v) { HOME(); obs(v); }
MS void ms_obsi(int v) { HOME(); obsi(v); }
MS void ms_obsd(double v) { HOME(); obsd(v); }
MS void ms_obsf(float v) { HOME(); obsf(v); }
MS void ms_obsm(const void *p, unsigned long long n) { HOME(); obsm(p, n); }
/* call f with known values in everything the Microsoft ABI makes callee-saved */
u64 mscall0(MS void (*f)(void));
static u64 ms_sp __attribute__((used)); static u8 ms_xmm[16] __attribute__((used)) = { 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16 };
#define LX(n) " movups ms_xmm(%rip),%xmm" #n "\n"
#define CX(n) " pcmpeqb %xmm0,%xmm" #n "\n pmovmskb %xmm" #n ",%ecx\n cmpl $65535,%ecx\n je 1f\n orl $128,%eax\n1:\n"
__asm__(".text\nmscall0:\n pushq %rbx\n pushq %rbp\n pushq %r12\n pushq %r13\n pushq %r14\n pushq %r15\n subq $40,%rsp\n movq %rdi,%rax\n movq %rsp,ms_sp(%rip)\n"
" movq $0x1111beef,%rbx\n movq $0x2222beef,%rbp\n movq $0x3333beef,%r12\n movq $0x4444beef,%r13\n movq $0x5555beef,%r14\n movq $0x6666beef,%r15\n movq $0x7777beef,%rsi\n movq $0x7878beef,%rdi\n"
LX(6) LX(7) LX(8) LX(9) LX(10) LX(11) LX(12) LX(13) LX(14) LX(15)
" callq *%rax\n xorl %eax,%eax\n"
" cmpq $0x1111beef,%rbx\n je 1f\n orl $1,%eax\n1:\n cmpq $0x2222beef,%rbp\n je 1f\n orl $2,%eax\n1:\n cmpq $0x3333beef,%r12\n je 1f\n orl $4,%eax\n1:\n"
" cmpq $0x4444beef,%r13\n je 1f\n orl $8,%eax\n1:\n cmpq $0x5555beef,%r14\n je 1f\n orl $16,%eax\n1:\n cmpq $0x6666beef,%r15\n je 1f\n orl $32,%eax\n1:\n"
" cmpq $0x7777beef,%rsi\n je 1f\n orl $256,%eax\n1:\n cmpq $0x7878beef,%rdi\n je 1f\n orl $512,%eax\n1:\n"
" cmpq ms_sp(%rip),%rsp\n je 1f\n orl $64,%eax\n movq ms_sp(%rip),%rsp\n1:\n movups ms_xmm(%rip),%xmm0\n"
CX(6) CX(7) CX(8) CX(9) CX(10) CX(11) CX(12) CX(13) CX(14) CX(15)
" addq $40,%rsp\n popq %r15\n popq %r14\n popq %r13\n popq %r12\n popq %rbp\n popq %rbx\n ret\n");
void mscall(MS void (*f)(void)) { L->bad |= mscall0(f) << 8; }
void segcmp(void) { obs(segn[0] == segn[1] && seghash[0] == seghash[1]); }
/* call f with known callee-saved registers; returns a mask of those not preserved */
u64 tramp(void (*f)(void));
__asm__(
".text\n.globl tramp\ntramp:\n"
" pushq %rbx\n pushq %rbp\n pushq %r12\n pushq %r13\n pushq %r14\n pushq %r15\n subq $24,%rsp\n"
" movq %rsp,saved_sp(%rip)\n"
" movq $0x1111beef,%rbx\n movq $0x2222beef,%rbp\n movq $0x3333beef,%r12\n movq $0x4444beef,%r13\n movq $0x5555beef,%r14\n movq $0x6666beef,%r15\n"
" callq *%rdi\n"
" xorl %eax,%eax\n"
" cmpq $0x1111beef,%rbx\n je 1f\n orl $1,%eax\n1:\n"
" cmpq $0x2222beef,%rbp\n je 1f\n orl $2,%eax\n1:\n"
" cmpq $0x3333beef,%r12\n je 1f\n orl $4,%eax\n1:\n"
" cmpq $0x4444beef,%r13\n je 1f\n orl $8,%eax\n1:\n"
" cmpq $0x5555beef,%r14\n je 1f\n orl $16,%eax\n1:\n"
" cmpq $0x6666beef,%r15\n je 1f\n orl $32,%eax\n1:\n"
" cmpq saved_sp(%rip),%rsp\n je 1f\n orl $64,%eax\n movq saved_sp(%rip),%rsp\n1:\n"
" addq $24,%rsp\n popq %r15\n popq %r14\n popq %r13\n popq %r12\n popq %rbp\n popq %rbx\n ret\n"
".data\n saved_sp: .quad 0\n.text\n");

static __attribute__((noinline)) void scribble(int pat) {
	volatile u8 b[49152];
	for (unsigned i = 0; i < sizeof b; i++) b[i] = pat;
}
static char out[1 << 20]; static u64 on;
static void ps(const char *s) { while (*s && on < sizeof out) out[on++] = *s++; }
static void px(u64 v) { char b[17]; int i = 16; b[16] = 0; do { b[--i] = "0123456789abcdef"[v & 15]; v >>= 4; } while (v); ps(b + i); }
static int runone(void (*f)(void), struct log *l, int pat) {
	L = l;
	long pid = sys(57, 0, 0, 0, 0, 0, 0);
	if (pid == 0) {
		long it[4] = { 0, 0, CPU_SECONDS, 0 };
		sys(38, 2, (long)it, 0, 0, 0, 0); /* ITIMER_PROF: CPU time, not wall time */
		scribble(pat);
		l->bad |= tramp(f) << 8;
		sys(231, 0, 0, 0, 0, 0, 0);
	}
	int st = 0;
	if (pid < 0) return 0x7fff;
	sys(61, pid, (long)&st, 0, 0, 0, 0);
	return st;
}
void __attribute__((noreturn, used)) cmain(void) {
	struct log *A = (void *)sys(9, 0, 2 * sizeof(struct log), 3, 0x21, -1, 0);
	struct log *B = A + 1;
	for (int k = 0; k < n_cases; k++) {
		A->n = A->hash = A->bad = B->n = B->hash = B->bad = 0;
		int sa = runone(ref_cases[k], A, 0xA5);
		int sb = runone(cc_cases[k], B, PATB);
		u64 m = A->n < B->n ? A->n : B->n, i;
		if (m > NLOG) m = NLOG;
		for (i = 0; i < m && A->v[i] == B->v[i]; i++);
		int same = A->n == B->n && A->hash == B->hash && i == m;
		px(k); ps(" "); px(sa); ps(" "); px(sb); ps(same ? " same " : " diff "); px(A->n); ps(" "); px(B->n); ps(" ");
		px(i); ps(" "); px(i < NLOG ? A->v[i] : 0); ps(" "); px(i < NLOG ? B->v[i] : 0); ps(" "); px(A->bad); ps(" "); px(B->bad); ps("\n");
	}
	sys(1, 1, (long)out, on, 0, 0, 0);
	sys(231, 0, 0, 0, 0, 0, 0);
	for (;;);
}
__asm__(".text\n.globl _start\n_start: xorl %ebp,%ebp\n andq $-16,%rsp\n call cmain\n");
