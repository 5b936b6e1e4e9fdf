// Counts allocations outstanding through operator new (memory stays under the sanitizer).
#pragma once
#include <cstdlib>
#include <new>
static long g_out = 0;
void * operator new(size_t n) { ++g_out; return malloc(n ? n : 1); }
void * operator new[](size_t n) { ++g_out; return malloc(n ? n : 1); }
void * operator new(size_t n, std::align_val_t a)
{
  ++g_out;
  void * p = nullptr;
  if (posix_memalign(&p, static_cast<size_t>(a) < 8 ? 8 : static_cast<size_t>(a), n ? n : 1)) abort();
  return p;
}
void operator delete(void * p) noexcept { if (p) --g_out; free(p); }
void operator delete[](void * p) noexcept { if (p) --g_out; free(p); }
void operator delete[](void * p, size_t) noexcept { if (p) --g_out; free(p); }
void operator delete(void * p, size_t) noexcept { if (p) --g_out; free(p); }
void operator delete(void * p, std::align_val_t) noexcept { if (p) --g_out; free(p); }
void operator delete(void * p, size_t, std::align_val_t) noexcept { if (p) --g_out; free(p); }
