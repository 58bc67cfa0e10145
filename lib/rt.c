/* Freestanding runtime for linked programs: writes every observation to standard output. */
static char buf[4096];
static unsigned long len, hash;
static void flush(void) {
	char *p = buf;
	while (len) {
		long r;
		__asm__ volatile("syscall" : "=a"(r) : "0"(1L), "D"(1L), "S"(p), "d"(len) : "rcx", "r11", "memory");
		if (r <= 0) break;
		p += r; len -= r;
	}
	len = 0;
}
void obs(unsigned long v) {
	hash = hash * 31 + v;
	for (int i = 60; i >= 0; i -= 4) buf[len++] = "0123456789abcdef"[v >> i & 15];
	buf[len++] = '\n';
	if (len > sizeof buf - 64) flush();
}
void obsi(int v) { obs(v); }
void obsd(double d) { union { double d; unsigned long u; } x = { d }; obs(d != d ? 0x7ff8UL : x.u); }
void obsf(float f) { obsd(f); }
void obsm(const void *p, unsigned long n) {
	unsigned long h = n;
	for (unsigned long i = 0; i < n; i++) h = h * 1099511628211UL + ((const unsigned char *)p)[i];
	obs(h);
}
void obss(const char *s) { unsigned long n = 0; while (s[n]) n++; obsm(s, n); }
void x_case(void);
__attribute__((noreturn, used)) void run(void) {
	x_case();
	flush();
	__asm__ volatile("syscall" : : "a"(231L), "D"(hash & 63) : "rcx", "r11", "memory");
	__builtin_unreachable();
}
__asm__(".globl _start\n_start: xor %ebp, %ebp\n and $-16, %rsp\n call run\n");
