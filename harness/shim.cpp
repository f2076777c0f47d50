// C25: preloaded into the tool.  What its code asks for (memory, FreeImage, threads) is counted, and refused at
// REFUSE_AT (once, or from there on with REFUSE_ON).  The counts go to the descriptor REFUSE_FD at the end.
#include <atomic>
#include <cerrno>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <dlfcn.h>
#include <link.h>
#include <new>
#include <pthread.h>
#include <unistd.h>

static uintptr_t lo, hi; static bool ready; static std::atomic<long> asked, refused; static long at; static bool on;
static int main1(dl_phdr_info* i, size_t, void*)
{
	for (int k = 0; k < i->dlpi_phnum; ++k) if (i->dlpi_phdr[k].p_type == PT_LOAD && (i->dlpi_phdr[k].p_flags & PF_X)) { lo = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr; hi = lo + i->dlpi_phdr[k].p_memsz; }
	return 1;       // the program itself comes first
}
__attribute__((constructor)) static void begin() { dl_iterate_phdr(main1, nullptr); const char* e = getenv("REFUSE_AT"); at = e ? atol(e) : 0; e = getenv("REFUSE_ON"); on = e && *e == '1'; ready = true; }
__attribute__((destructor)) static void end()
{
	ready = false; const char* e = getenv("REFUSE_FD"); if (!e) return;
	char b[64]; int n = snprintf(b, sizeof b, "%ld %ld\n", asked.load(), refused.load()); if (write(atoi(e), b, n) < 0) return;
}
static bool refuse(void* ra)
{
	uintptr_t a = reinterpret_cast<uintptr_t>(ra); if (!ready || a < lo || a >= hi) return false;
	long k = ++asked; if (at && (k == at || (on && k > at))) { ++refused; return true; } return false;
}
static void* get(size_t n, void* ra) { void* p = refuse(ra) ? nullptr : malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
#define RA __builtin_return_address(0)
__attribute__((noinline)) void* operator new(size_t n) { return get(n, RA); }
__attribute__((noinline)) void* operator new[](size_t n) { return get(n, RA); }
__attribute__((noinline)) void* operator new(size_t n, const std::nothrow_t&) noexcept { return refuse(RA) ? nullptr : malloc(n ? n : 1); }
__attribute__((noinline)) void* operator new[](size_t n, const std::nothrow_t&) noexcept { return refuse(RA) ? nullptr : malloc(n ? n : 1); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
#define I(ret, no, name, params, args) extern "C" ret name params { static auto real = reinterpret_cast<ret (*) params>(dlsym(RTLD_NEXT, #name)); if (refuse(RA)) return no; return real args; }
I(int, EAGAIN, pthread_create, (pthread_t* t, const pthread_attr_t* a, void* (*f)(void*), void* x), (t, a, f, x))
#define W(name, params, args) I(void*, nullptr, name, params, args)
W(FreeImage_Allocate, (int a, int b, int c, unsigned d, unsigned e, unsigned f), (a, b, c, d, e, f))
W(FreeImage_AllocateT, (int t, int a, int b, int c, unsigned d, unsigned e, unsigned f), (t, a, b, c, d, e, f))
W(FreeImage_Clone, (void* a), (a))
W(FreeImage_Copy, (void* a, int b, int c, int d, int e), (a, b, c, d, e))
W(FreeImage_Load, (int a, const char* b, int c), (a, b, c))
W(FreeImage_LoadFromHandle, (int a, void* b, void* c, int d), (a, b, c, d))
W(FreeImage_ConvertTo8Bits, (void* a), (a))
W(FreeImage_ConvertToGreyscale, (void* a), (a))
W(FreeImage_ConvertTo16Bits555, (void* a), (a))
W(FreeImage_ConvertTo16Bits565, (void* a), (a))
W(FreeImage_ConvertTo24Bits, (void* a), (a))
W(FreeImage_ConvertTo32Bits, (void* a), (a))
W(FreeImage_ConvertToFloat, (void* a), (a))
W(FreeImage_ConvertToRGBF, (void* a), (a))
W(FreeImage_ConvertToRGBAF, (void* a), (a))
W(FreeImage_ConvertToUINT16, (void* a), (a))
W(FreeImage_ConvertToRGB16, (void* a), (a))
W(FreeImage_ConvertToRGBA16, (void* a), (a))
W(FreeImage_ConvertToType, (void* a, int b, int c), (a, b, c))
W(FreeImage_Rotate, (void* a, double b, const void* c), (a, b, c))
W(FreeImage_Rescale, (void* a, int b, int c, int d), (a, b, c, d))
I(int, 0, FreeImage_FlipHorizontal, (void* a), (a))
I(int, 0, FreeImage_FlipVertical, (void* a), (a))
