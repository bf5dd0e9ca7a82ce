// Free lists by size class in place of the general allocator: the analyser allocates many small objects from one thread.
#include <cstdlib>
#include <new>
namespace {
struct FreeCell { FreeCell *next; };
FreeCell *freeList[65];
char *bumpAt, *bumpEnd;
inline void *bumpTake(size_t n) { // n in units of 16 bytes, header included
  if (FreeCell *c = freeList[n]) { freeList[n] = c->next; return c; }
  size_t b = n * 16;
  if ((size_t)(bumpEnd - bumpAt) < b) { char *p = (char *)malloc(1 << 20); if (!p) throw std::bad_alloc(); bumpAt = p; bumpEnd = p + (1 << 20); }
  void *r = bumpAt; bumpAt += b; return r;
}
inline void *getMem(size_t s) {
  size_t n = (s + 16 + 15) / 16;
  if (n > 64) { char *p = (char *)malloc(s + 16); if (!p) throw std::bad_alloc(); *(size_t *)p = 0; return p + 16; }
  char *p = (char *)bumpTake(n); *(size_t *)p = n; return p + 16;
}
inline void putMem(void *q) {
  if (!q) return;
  char *p = (char *)q - 16; size_t n = *(size_t *)p;
  if (!n) { free(p); return; }
  ((FreeCell *)p)->next = freeList[n]; freeList[n] = (FreeCell *)p;
}
}
void *operator new(size_t s) { return getMem(s); }
void *operator new[](size_t s) { return getMem(s); }
void *operator new(size_t s, const std::nothrow_t &) noexcept { try { return getMem(s); } catch (...) { return nullptr; } }
void *operator new[](size_t s, const std::nothrow_t &) noexcept { try { return getMem(s); } catch (...) { return nullptr; } }
void operator delete(void *p) noexcept { putMem(p); }
void operator delete[](void *p) noexcept { putMem(p); }
void operator delete(void *p, size_t) noexcept { putMem(p); }
void operator delete[](void *p, size_t) noexcept { putMem(p); }
