#include <stdint.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>
#include <sha1.h>
#include <ubc_check.h>

void verif_entry(int i, uint32_t *out)
{
	int j;
	out[0] = (uint32_t)sha1_dvs[i].dvType;
	out[1] = (uint32_t)sha1_dvs[i].dvK;
	out[2] = (uint32_t)sha1_dvs[i].dvB;
	out[3] = (uint32_t)sha1_dvs[i].maskb;
	out[4] = (uint32_t)sha1_dvs[i].testt;
	for (j = 0; j < 80; j++)
		out[5 + j] = sha1_dvs[i].dm[j];
}

void verif_set_dm(int i, const uint32_t *dm)
{
	uintptr_t a = (uintptr_t)sha1_dvs[i].dm, p = (uintptr_t)sysconf(_SC_PAGESIZE);
	uintptr_t lo = a & ~(p - 1), hi = (a + 4 * 80 + p - 1) & ~(p - 1);
	/* the table may be constant */
	if (mprotect((void *)lo, hi - lo, PROT_READ | PROT_WRITE) == 0)
		memcpy((void *)a, dm, 4 * 80);
}
