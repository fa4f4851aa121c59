#include <stdint.h>

__attribute__((noinline)) void verif_junk(uint64_t v)
{
#if defined(__x86_64__)
	__asm__ volatile("lea -8(%%rsp), %%rax\n\tmov $1024, %%ecx\n1:\tmov %0, (%%rax)\n\tsub $8, %%rax\n\tdec %%ecx\n\tjnz 1b" : : "r"(v) : "rax", "rcx", "memory", "cc");
#else
	volatile uint64_t a[1024];
	int i;
	for (i = 0; i < 1024; i++)
		a[i] = v;
#endif
}

/* Every basic block of the package's C code calls this. */
extern void verifYield(unsigned site);
static volatile int64_t *budget;
static volatile unsigned char *on;
static __thread int inside;

void verif_init(int64_t *b, unsigned char *o)
{
	budget = b;
	on = o;
}

__attribute__((no_sanitize_coverage)) void __sanitizer_cov_trace_pc(void)
{
	if (inside || !on || !*on)
		return;
	if (--*budget > 0)
		return;
	inside = 1;
	verifYield((unsigned)((char *)__builtin_return_address(0) - (char *)verif_init));
	inside = 0;
}
