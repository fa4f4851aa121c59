#include <stddef.h>
#include <stdint.h>
#include <string.h>

/* The package's own C code reports its memory accesses here. Shared memory is
   the program's static data and the Go heap; an epoch ends where a real program
   would synchronise, so two accesses of different tasks in one epoch, one of
   them a write, are a data race. */
struct cell {
	uintptr_t addr;
	uint64_t epoch, readers;
	int writer;
};
#define NCELL (1 << 16)
static struct cell tab[NCELL];
static uint64_t epoch = 1;
static int task = -1, races, count;
extern char __executable_start, end;

void verif_race_task(int t) { task = t; }
void verif_race_epoch(void) { epoch++; }
int verif_race_take(void) { int r = races; races = 0; return r; }
long verif_race_count(void) { return count; }

static void access1(uintptr_t a, int write)
{
	struct cell *c = &tab[(a * 0x9E3779B97F4A7C15ull) >> 48];
	uint64_t me = 1ull << (task & 63);
	if (c->addr != a || c->epoch != epoch) {
		c->addr = a;
		c->epoch = epoch;
		c->readers = 0;
		c->writer = -1;
	}
	if (c->writer >= 0 && c->writer != task)
		races++;
	if (write) {
		if (c->readers & ~me)
			races++;
		c->writer = task;
	} else {
		c->readers |= me;
	}
}

static void acc(void *p, size_t n, int write)
{
	uintptr_t a = (uintptr_t)p, e = a + n, sp = (uintptr_t)__builtin_frame_address(0);
	if (task < 0 || a - sp < (256 << 10))
		return;
	if (!(a >= (uintptr_t)&__executable_start && a < (uintptr_t)&end) && a >> 32 != 0xc0)
		return;
	count++;
	for (a &= ~(uintptr_t)3; a < e; a += 4)
		access1(a, write);
}

void __vtsan_init(void) {}
void __vtsan_func_entry(void *p) { (void)p; }
void __vtsan_func_exit(void) {}
#define A(n) \
	void __vtsan_read##n(void *p) { acc(p, n, 0); } \
	void __vtsan_write##n(void *p) { acc(p, n, 1); } \
	void __vtsan_unaligned_read##n(void *p) { acc(p, n, 0); } \
	void __vtsan_unaligned_write##n(void *p) { acc(p, n, 1); }
A(1) A(2) A(4) A(8) A(16)
void __vtsan_read_range(void *p, size_t n) { acc(p, n, 0); }
void __vtsan_write_range(void *p, size_t n) { acc(p, n, 1); }

void *__vtsan_memcpy(void *d, const void *s, size_t n)
{
	acc((void *)s, n, 0);
	acc(d, n, 1);
	return memcpy(d, s, n);
}

void *__vtsan_memmove(void *d, const void *s, size_t n)
{
	acc((void *)s, n, 0);
	acc(d, n, 1);
	return memmove(d, s, n);
}

void *__vtsan_memset(void *d, int c, size_t n)
{
	acc(d, n, 1);
	return memset(d, c, n);
}
