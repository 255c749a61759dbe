// Shared memory system calls answered by the harness: one segment, recorded.
#ifndef VERIF_SHM_HH
#define VERIF_SHM_HH
#include "filters.hh"
#include "modules/sharedMemory/SharedMemory.hh"
#include <errno.h>
static struct Seg { uint8_t *mem = nullptr; bool exists = false; long key = -1; int attached = 0; size_t size = 0; int flags = 0; std::string misuse; } seg;
static const int SEG_ID = 32769;
static int fail_get = 0, fail_at = 0;
extern "C" {
int shmget(key_t k, size_t n, int f) { if (fail_get || (seg.exists && seg.key == k)) { errno = fail_get ? ENOSPC : EEXIST; return -1; } seg.exists = true; seg.key = k; seg.size = n; seg.flags = f; return SEG_ID; }
static uint8_t area[SHMSIZE];
void *shmat(int id, const void *, int) { if (fail_at || id != SEG_ID || !seg.exists || seg.size > sizeof area) { errno = EINVAL; return (void*)-1; } seg.attached++; return seg.mem = area; }
int shmdt(const void *p) { if (p != seg.mem || !seg.attached) { seg.misuse = "detached what was not attached"; errno = EINVAL; return -1; } seg.attached--; return 0; }
int shmctl(int id, int cmd, struct shmid_ds *) { if (id != SEG_ID || !seg.exists || cmd != IPC_RMID) { seg.misuse = "removed a segment which is not its own"; errno = EINVAL; return -1; } seg.exists = false; return 0; }
}
static void seg_reset() { seg = Seg(); fail_get = fail_at = 0; }
// what a reader finds
struct Seen { unsigned seq, pix, codec, h, w; uint32_t sec, us, len; };
static Seen header(const uint8_t *p) {
    Seen s; uint16_t v[5]; memcpy(v, p + 2, 10); s.seq = v[0]; s.pix = v[1]; s.codec = v[2]; s.h = v[3]; s.w = v[4];
    memcpy(&s.sec, p + 12, 4); memcpy(&s.us, p + 16, 4); memcpy(&s.len, p + 20, 4); return s;
}
#endif
