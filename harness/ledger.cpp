// The harness of cfh.cpp under a memory ledger.  LEDGER=rep: every case is run several times, its
// observations are not reported, but what is left after each repetition.  LEDGER=twin: observations
// are reported as hashes; LEDGER_FILL says what fresh and given back memory holds.
#define main cfh_main
#include "cfh.cpp"
#undef main
#include <atomic>
#include <cfenv>
#include <clocale>
#include <csignal>
#include <dirent.h>
#include <malloc.h>
#include <alloca.h>

extern "C"
{
void* __libc_malloc(size_t); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t); void __libc_free(void*); void* __libc_memalign(size_t, size_t);
}
static std::atomic<long> liveBlocks, liveBytes;
static int fillMode;                        // 0: as it comes
static std::atomic<unsigned> fillCount;
static void fill(void* p, size_t n)
{
	if (fillMode == 1) memset(p, 0xFF, n);
	else if (fillMode == 2) memset(p, 0, n);
	else if (fillMode == 3) { uint32_t x = 2463534242u + fillCount++*2654435761u; uint8_t* b = static_cast<uint8_t*>(p); size_t i = 0; for (; i + 4 <= n; i += 4) { x ^= x << 13; x ^= x >> 17; x ^= x << 5; memcpy(b + i, &x, 4); } for (; i < n; ++i) b[i] = static_cast<uint8_t>(x >> (i & 3)*8); }
}
// every block begins with what was asked for
struct Head { uint32_t magic, offset; uint64_t size; };
static const uint32_t MAGIC = 0xC7711EF1;
static Head* head(void* p) { return reinterpret_cast<Head*>(static_cast<char*>(p) - sizeof(Head)); }
static void* born(void* base, size_t offset, size_t n, size_t from, bool zero)
{
	if (!base) return nullptr;
	char* p = static_cast<char*>(base) + offset;
	*head(p) = {MAGIC, static_cast<uint32_t>(offset), n};
	++liveBlocks; liveBytes += static_cast<long>(n);
	if (fillMode && !zero && n > from) fill(p + from, n - from);
	return p;
}
extern "C"
{
void* malloc(size_t n) { return n > SIZE_MAX/2 ? (errno = ENOMEM, nullptr) : born(__libc_malloc(n + sizeof(Head)), sizeof(Head), n, 0, false); }
void* calloc(size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n) || n > SIZE_MAX/2) { errno = ENOMEM; return nullptr; } return born(__libc_calloc(1, n + sizeof(Head)), sizeof(Head), n, 0, true); }
void free(void* p)
{
	if (!p) return;
	Head* h = head(p);
	if (h->magic != MAGIC) { __libc_free(p); return; }      // older than the ledger
	int e = errno;
	--liveBlocks; liveBytes -= static_cast<long>(h->size); h->magic = 0;
	void* base = static_cast<char*>(p) - h->offset;
	if (fillMode) fill(p, h->size);
	__libc_free(base); errno = e;
}
void* realloc(void* p, size_t n)
{
	if (!p) return malloc(n);
	if (n == 0) { free(p); return nullptr; }
	Head* h = head(p);
	if (h->magic != MAGIC) return __libc_realloc(p, n);
	void* q = malloc(n);
	if (!q) return nullptr;
	memcpy(q, p, std::min<size_t>(n, h->size));
	free(p);
	return q;
}
void* memalign(size_t a, size_t n) { if (a < 16) a = 16; size_t o = (sizeof(Head) + a - 1)/a*a; return n > SIZE_MAX/2 ? nullptr : born(__libc_memalign(a, n + o), o, n, 0, false); }
void* aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void** r, size_t a, size_t n) { void* p = memalign(a, n); if (!p) return ENOMEM; *r = p; return 0; }
size_t malloc_usable_size(void* p) noexcept { return p ? head(p)->size : 0; }
}

// ---- refusals: what the library asks of its environment may be refused, at one place or from there on
static bool refusing; static std::atomic<long> asked; static long refuseAt, refused; static bool refuseOn;
static bool refuse() { if (!refusing) return false; long k = ++asked; if (refuseAt && (k == refuseAt || (refuseOn && k > refuseAt))) { ++refused; return true; } return false; }
static thread_local int inside; struct Inside { Inside() { ++inside; } ~Inside() { --inside; } };      // FreeImage
#define V(ret, name, params, args) extern "C" ret __real_##name params; extern "C" ret __wrap_##name params { Inside in; return __real_##name args; }
#define W(ret, name, params, args) extern "C" ret __real_##name params; extern "C" ret __wrap_##name params { if (refuse()) return 0; Inside in; return __real_##name args; }
V(int, FreeImage_GetFileType, (const char* a, int b), (a, b))
V(int, FreeImage_GetFileTypeFromHandle, (void* a, void* b, int c), (a, b, c))
V(int, FreeImage_GetFileTypeFromMemory, (void* a, int b), (a, b))
V(int, FreeImage_GetFIFFromFilename, (const char* a), (a))
V(void, FreeImage_Initialise, (int a), (a))
W(int, FreeImage_Save, (int a, void* b, const char* c, int d), (a, b, c, d))
W(int, FreeImage_SaveToHandle, (int a, void* b, void* c, void* d, int e), (a, b, c, d, e))
W(int, FreeImage_SaveToMemory, (int a, void* b, void* c, int d), (a, b, c, d))
W(void*, FreeImage_Allocate, (int a, int b, int c, unsigned d, unsigned e, unsigned f), (a, b, c, d, e, f))
W(void*, FreeImage_AllocateT, (int t, int a, int b, int c, unsigned d, unsigned e, unsigned f), (t, a, b, c, d, e, f))
W(void*, FreeImage_AllocateEx, (int a, int b, int c, const void* q, int o, const void* p, unsigned d, unsigned e, unsigned f), (a, b, c, q, o, p, d, e, f))
W(void*, FreeImage_AllocateExT, (int t, int a, int b, int c, const void* q, int o, const void* p, unsigned d, unsigned e, unsigned f), (t, a, b, c, q, o, p, d, e, f))
W(void*, FreeImage_Clone, (void* a), (a))
W(void*, FreeImage_Copy, (void* a, int b, int c, int d, int e), (a, b, c, d, e))
W(void*, FreeImage_Load, (int a, const char* b, int c), (a, b, c))
W(void*, FreeImage_LoadFromHandle, (int a, void* b, void* c, int d), (a, b, c, d))
W(void*, FreeImage_LoadFromMemory, (int a, void* b, int d), (a, b, d))
W(void*, FreeImage_OpenMemory, (void* a, uint32_t b), (a, b))
W(void*, FreeImage_ConvertTo8Bits, (void* a), (a))
W(void*, FreeImage_ConvertToGreyscale, (void* a), (a))
W(void*, FreeImage_ConvertTo16Bits555, (void* a), (a))
W(void*, FreeImage_ConvertTo16Bits565, (void* a), (a))
W(void*, FreeImage_ConvertTo24Bits, (void* a), (a))
W(void*, FreeImage_ConvertTo32Bits, (void* a), (a))
W(void*, FreeImage_ConvertToFloat, (void* a), (a))
W(void*, FreeImage_ConvertToRGBF, (void* a), (a))
W(void*, FreeImage_ConvertToRGBAF, (void* a), (a))
W(void*, FreeImage_ConvertToUINT16, (void* a), (a))
W(void*, FreeImage_ConvertToRGB16, (void* a), (a))
W(void*, FreeImage_ConvertToRGBA16, (void* a), (a))
W(void*, FreeImage_ConvertToStandardType, (void* a, int b), (a, b))
W(void*, FreeImage_ConvertToType, (void* a, int b, int c), (a, b, c))
W(void*, FreeImage_Rotate, (void* a, double b, const void* c), (a, b, c))
W(void*, FreeImage_Rescale, (void* a, int b, int c, int d), (a, b, c, d))
W(void*, FreeImage_RescaleRect, (void* a, int b, int c, int d, int e, int f, int g, int h, unsigned i), (a, b, c, d, e, f, g, h, i))
W(int, FreeImage_FlipHorizontal, (void* a), (a))
W(int, FreeImage_FlipVertical, (void* a), (a))
#include <dlfcn.h>
#include <pthread.h>
#include <new>
extern "C" int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*f)(void*), void* x)
{
	static auto real = reinterpret_cast<int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)>(dlsym(RTLD_NEXT, "pthread_create"));
	if (refuse()) return EAGAIN;
	return real(t, a, f, x);
}
extern "C" char __executable_start, etext;
static bool byStd(const void* ra);
static FILE* openFile(const char* sym, const char* n, const char* m, const void* ra)
{
	auto real = reinterpret_cast<FILE* (*)(const char*, const char*)>(dlsym(RTLD_NEXT, sym));
	if (byStd(ra) && *m != 'r' && refuse()) { errno = EMFILE; return nullptr; }
	return real(n, m);
}
extern "C" FILE* fopen(const char* n, const char* m) { return openFile("fopen", n, m, __builtin_return_address(0)); }
extern "C" FILE* fopen64(const char* n, const char* m) { return openFile("fopen64", n, m, __builtin_return_address(0)); }

#include <link.h>
// the library's own requests, and those it makes through libstdc++ (streams, strings), but not FreeImage's
static uintptr_t stdLo, stdHi;
static int findStd(dl_phdr_info* i, size_t, void*)
{
	if (i->dlpi_name && strstr(i->dlpi_name, "libstdc++")) for (int k = 0; k < i->dlpi_phnum; ++k) if (i->dlpi_phdr[k].p_type == PT_LOAD && (i->dlpi_phdr[k].p_flags & PF_X))
		{ stdLo = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr; stdHi = stdLo + i->dlpi_phdr[k].p_memsz; }
	return 0;
}
static bool byStd(const void* ra) { uintptr_t a = reinterpret_cast<uintptr_t>(ra); return !inside && a >= stdLo && a < stdHi; }
static bool ours(const void* ra) { uintptr_t a = reinterpret_cast<uintptr_t>(ra); return (ra >= &__executable_start && ra < &etext) || (!inside && a >= stdLo && a < stdHi); }
static void* get(size_t n, const void* ra) { void* p = ours(ra) && refuse() ? nullptr : malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
__attribute__((noinline)) void* operator new(size_t n) { return get(n, __builtin_return_address(0)); }
__attribute__((noinline)) void* operator new[](size_t n) { return get(n, __builtin_return_address(0)); }
__attribute__((noinline)) void* operator new(size_t n, const std::nothrow_t&) noexcept { return ours(__builtin_return_address(0)) && refuse() ? nullptr : malloc(n ? n : 1); }
__attribute__((noinline)) void* operator new[](size_t n, const std::nothrow_t&) noexcept { return ours(__builtin_return_address(0)) && refuse() ? nullptr : malloc(n ? n : 1); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }

static long entries(const char* dir) { DIR* d = opendir(dir); long n = 0; if (d) { while (readdir(d)) ++n; closedir(d); } return n; }
static long threads(long few) { long n = entries("/proc/self/task"); for (int i = 0; i < 200 && n > few; ++i) { usleep(5000); n = entries("/proc/self/task"); } return n; }
// what the process has besides its objects: directory, locale, rounding, masks, signals, streams
static long surroundings()
{
	string s; char b[4096]; s += getcwd(b, sizeof b) ? b : "-"; s += setlocale(LC_ALL, nullptr); s += ' ' + std::to_string(fegetround()) + ' ';
	mode_t m = umask(0); umask(m); s += std::to_string(m); sigset_t q; sigprocmask(SIG_SETMASK, nullptr, &q);
	for (int i = 1; i < 32; ++i) { struct sigaction a; memset(&a, 0, sizeof a); sigaction(i, nullptr, &a); s += std::to_string(sigismember(&q, i)) + (a.sa_handler == SIG_DFL ? 'd' : a.sa_handler == SIG_IGN ? 'i' : 'h'); }
	struct rlimit r; for (int i = 0; i < 16; ++i) { getrlimit(static_cast<__rlimit_resource_t>(i), &r); s += ' ' + std::to_string(r.rlim_cur); }
	s += ' ' + std::to_string(std::cout.flags()) + std::to_string(std::cout.precision()) + std::to_string(std::cerr.flags()) + std::locale().name();
	return fnv(s.data(), s.size()) & 0x3FFFFFFF;
}

static void stackFill() { if (!fillMode) return; volatile char* p = static_cast<volatile char*>(alloca(96*1024)); uint32_t x = 88172645u + fillCount++; for (size_t i = 0; i < 96*1024; ++i) { x = x*1664525u + 1013904223u; p[i] = fillMode == 1 ? static_cast<char>(0xFF) : fillMode == 2 ? 0 : static_cast<char>(x >> 24); } }
__attribute__((noinline)) static void dirtyStack() { stackFill(); }

static bool step(const string& line)      // out holds the observation
{
	A.clear(); P = 0;
	std::istringstream ss(line); string t;
	while (ss >> t) A.push_back(t);
	out = "{"; js("op", A[0]);
	dirtyStack();
	try { return dispatch(); }
	catch (const std::exception& e) { out = "{"; js("op", A[0]); js("exception", e.what()); return true; }
}

static void dropAll()
{
	images.clear(); textures.clear(); cmips.clear(); cmMoved.clear(); lastLen.clear(); viewX = viewY = 1;
	std::vector<string>().swap(A); string().swap(out); P = 0;
}

// ---- every point of a call at which something is asked for, refused in a process of its own
#include <sys/wait.h>
static string digest(const string& s) { uint64_t h = 14695981039346656037ull; for (char ch : s) { h ^= static_cast<uint8_t>(ch); h *= 1099511628211ull; } char b[40]; snprintf(b, sizeof b, "%llx", static_cast<unsigned long long>(h & 0xFFFFFFFFFFFFull)); return b; }
static string observe(const string& line) { step(line); return out; }
// how many images a texture really holds
static int imagesHeld(const Texture& t)
{
	int n = 0;
	for (unsigned m = 0; t.isValid() && m < t.mipLevelCount(); ++m)
		for (unsigned d = 0; d < t.depth(m); ++d) for (unsigned f = 0; f < t.faceCount(); ++f) n += t.getImage(static_cast<Texture::CubeFace>(f), m, d).isValid();
	return n;
}
// [slot, digest of its state, digest of its contents, whole, images held]
static string slots()
{
	string s;
	auto add = [&](const string& name, const string& st, const string& h, bool valid, int held) { s += (s.empty() ? "[\"" : ",[\"") + name + "\",\"" + st + "\",\"" + h + "\"," + (valid ? "true" : "false") + "," + std::to_string(held) + "]"; };
	std::vector<long> is, ts; for (auto& i : images) is.push_back(i.first); for (auto& t : textures) ts.push_back(t.first);
	for (long i : is) { string k = std::to_string(i); string st = observe("istate " + k); add("i" + k, digest(st), digest(observe("ihash " + k)), images[i].isValid(), images[i].isValid()); }
	for (long t : ts) { string k = std::to_string(t); string st = observe("tstate " + k); add("t" + k, digest(st), digest(observe("thash " + k)), textures[t].isValid() && (textures[t].converted() || textures[t].imagesComplete()), imagesHeld(textures[t])); }
	return "[" + s + "]";
}
// the values of every pixel there is (memory shared with the processes of the refusals)
#include <sys/mman.h>
struct Values { long n; double v[1 << 20]; };
static Values* shared()
{
	static Values* p = static_cast<Values*>(mmap(nullptr, sizeof(Values), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
	return p;
}
template <class F> static void eachValue(F f)
{
	auto image = [&](const Image& im)
	{
		for (unsigned y = 0; im && y < im.height(); ++y) for (unsigned x = 0; x < im.width(); ++x) { ColorRGBAd c; im.getPixel(c, x, y); f(c.r); f(c.g); f(c.b); f(c.a); }
	};
	std::vector<long> is, ts; for (auto& i : images) is.push_back(i.first); for (auto& t : textures) ts.push_back(t.first);
	for (long i : is) image(images[i]);
	for (long i : ts)
	{
		const Texture& t = textures[i];
		for (unsigned m = 0; t.isValid() && m < t.mipLevelCount(); ++m) for (unsigned d = 0; d < t.depth(m); ++d) for (unsigned k = 0; k < t.faceCount(); ++k)
		{
			auto face = static_cast<Texture::CubeFace>(k); image(t.getImage(face, m, d));
			if (t.converted()) { auto b = static_cast<const uint8_t*>(t.data(face, m, d)); for (size_t q = 0, z = t.dataSize(face, m, d); q < z; ++q) f(b[q]); }
		}
	}
}
// how far the values are from those without a refusal, in thousandths of them (and of 1 below it); -1: not as many
static long farFrom(bool first)
{
	Values* v = shared(); long n = 0, most = sizeof v->v/sizeof *v->v; double far = 0;
	if (first) { eachValue([&](double x) { if (n < most) v->v[n++] = x; }); v->n = n; return 0; }
	eachValue([&](double x) { if (n < v->n) { double d = std::fabs(x - v->v[n])/std::max(1.0, std::fabs(v->v[n])); if (x != v->v[n] && !(std::isnan(x) && std::isnan(v->v[n])) && !(d <= far)) far = std::isnan(d) ? 1e6 : d; } if (n < most) ++n; });
	return n != v->n ? -1 : static_cast<long>(std::min(std::ceil(far*1000), 1e9));
}
static bool hasWord(const string& s, const char* w) { return s.find(w) != string::npos; }
// the object the call is about
static string target(const string& line) { std::istringstream ss(line); string w, a; ss >> w >> a; return (w[0] == 'c' ? "c" : w.substr(0, 1)) + a; }
static long tryPoint(FILE* o, const string& line, long k, bool on, long j, const string& before)
{
	int pipes[2]; if (pipe(pipes)) exit(93);
	fflush(o);
	pid_t p = fork();
	if (p == 0)
	{
		close(pipes[0]); signal(SIGABRT, SIG_DFL); struct rlimit nocore = {0, 0}; setrlimit(RLIMIT_CORE, &nocore); alarm(20);
		A.clear(); P = 0; std::istringstream ss(line); string t; while (ss >> t) A.push_back(t);
		out.reserve(1 << 20); out = "{"; js("op", A[0]);
		long b0 = 0; string threw; refuseAt = k; refuseOn = on; refused = 0; asked = 0;
		refusing = true;
		try { dispatch(); refusing = false; }
		catch (const std::bad_alloc& e) { refusing = false; threw = "bad_alloc"; }
		catch (const std::exception& e) { refusing = false; threw = e.what(); }
		string ans = out; long n = asked; (void)b0;
		string claims = !threw.empty() ? "threw" : hasWord(ans, "\"ret\":true") || hasWord(ans, "\"res\":0,") ? "success" : hasWord(ans, "\"ret\":false") || hasWord(ans, "\"res\":") ? "failure" : "none";
		string what = line.substr(0, line.find(' '));
		string sl = slots(); long off = farFrom(k == 0);
		// the same call again, as one does when it failed
		A.clear(); P = 0; { std::istringstream s2(line); while (s2 >> t) A.push_back(t); }
		out = "{"; js("op", A[0]); string again;
		try { dispatch(); again = out; } catch (const std::exception& e) { again = e.what(); }
		again = digest(again + slots()); string sum = digest(ans + sl); dropAll();
		fprintf(o, "{\"n\":%ld,\"op\":\"%s\",\"line\":%ld,\"word\":\"%s\",\"first\":\"%s\",\"k\":%ld,\"on\":%s,\"refused\":%ld,\"claims\":\"%s\",\"threw\":\"%s\",\"ans\":\"%s\",\"objs\":%s,\"far\":%ld,\"sum\":\"%s\",\"again\":\"%s\",\"left\":%ld%s}\n", j*1000 + k, k ? "fault" : "ref", j, what.c_str(), target(line).c_str(), k, on ? "true" : "false", refused, claims.c_str(), threw.c_str(), threw.empty() ? digest(ans).c_str() : "", sl.c_str(), off, sum.c_str(), again.c_str(), static_cast<long>(liveBlocks), k ? "" : (",\"before\":" + before).c_str());
		fflush(o); if (write(pipes[1], &n, sizeof n) < 0) _exit(94);
		_exit(0);
	}
	close(pipes[1]); long n = -1; if (read(pipes[0], &n, sizeof n) != sizeof n) n = -1; close(pipes[0]);
	int st; waitpid(p, &st, 0);
	if (n < 0) { fprintf(o, "{\"n\":%ld,\"op\":\"died\",\"line\":%ld,\"word\":\"%s\",\"k\":%ld,\"on\":%s,\"status\":%d}\n", j*1000 + k, j, line.substr(0, line.find(' ')).c_str(), k, on ? "true" : "false", st); fflush(o); }
	return n;
}
static bool acts(const string& w) { for (const char* q : {"ictor", "iinit", "itex", "iset", "iconv", "iresize", "irotate", "iflipx", "iflipy", "ipremul", "igray", "ics", "iswz", "inormal", "icopy", "iassign", "iadjust", "iload", "cmref", "cmown", "cmcopy", "cmassign", "tinit", "tctor", "tcopy", "tassign", "tset", "tgen", "tconv", "tsave", "isave", "imove", "tmove"}) if (w == q) return true; return false; }
static void refusals(FILE* o, const std::vector<string>& lines, size_t from, size_t to)
{
	shared();
	long most = getenv("LEDGER_POINTS") ? atol(getenv("LEDGER_POINTS")) : 40;
	for (size_t j = from; j < to; ++j)
	{
		string w = lines[j].substr(0, lines[j].find(' '));
		if (acts(w))
		{
			long n = tryPoint(o, lines[j], 0, false, static_cast<long>(j - from), slots());
			// every point of short calls, the first ones and others of long ones
			for (long k = 1; k <= n; k += n <= most || k < most/2 ? 1 : (n - most/2)/(most/2) + 1)
				for (int on = 0; on < 2; ++on) tryPoint(o, lines[j], k, on, static_cast<long>(j - from), "");
		}
		step(lines[j]);
	}
}

int main()
{
	const char* mode = getenv("LEDGER"); bool rep = mode && string(mode) == "rep";
	const char* f = getenv("LEDGER_FILL"); int fm = f ? atoi(f) : 0;
	long reps = getenv("LEDGER_REPS") ? atol(getenv("LEDGER_REPS")) : 6;
	std::ios::sync_with_stdio(false);
	std::vector<string> all; string line;
	while (std::getline(std::cin, line)) if (!line.empty() && line[0] != '#') all.push_back(line);
	FILE* o = stdout; static char obuf[1 << 16]; setvbuf(o, obuf, _IOFBF, sizeof obuf);
	fillMode = fm;
	dl_iterate_phdr(findStd, nullptr);
	try { throw std::bad_alloc(); } catch (const std::bad_alloc&) {}
	signal(SIGXFSZ, SIG_IGN); signal(SIGPIPE, SIG_IGN);
	long around = surroundings(), few = entries("/proc/self/task"), n = 0;
	for (size_t i = 0; i < all.size();)
	{
		step(all[i]); out += "}\n"; string head = out; out.clear();
		head.insert(1, "\"n\":" + std::to_string(n++) + ",");
		fwrite(head.data(), 1, head.size(), o); fflush(o);
		size_t e = i + 1; while (e < all.size() && all[e].compare(0, 5, "case ") != 0) ++e;
		if (mode && string(mode) == "refuse") { refusals(o, all, i + 1, e); dropAll(); }
		else if (rep)
		{
			// twice: with every object destroyed behind each repetition, and with the objects kept
			for (int keep = 0; keep < 2; ++keep)
			{
				dropAll();
				for (long k = 0; k < reps; ++k)
				{
					for (size_t j = i + 1; j < e; ++j) step(all[j]);
					if (keep) { std::vector<string>().swap(A); string().swap(out); P = 0; } else dropAll();
					long b = liveBlocks, y = liveBytes;
					fprintf(o, "{\"n\":%ld,\"op\":\"rep\",\"keep\":%s,\"k\":%ld,\"blocks\":%ld,\"bytes\":%ld,\"fds\":%ld,\"threads\":%ld,\"around\":%s}\n", n++, keep ? "true" : "false", k + 1, b, y, entries("/proc/self/fd"), threads(few), surroundings() == around ? "true" : "false");
					fflush(o);
				}
			}
			dropAll();
		}
		else
		{
			if (getenv("LEDGER_AGAIN")) { for (size_t j = i + 1; j < e; ++j) step(all[j]); dropAll(); }
			for (size_t j = i + 1; j < e; ++j)
			{
				bool emit = step(all[j]); if (!emit) continue;
				uint64_t h = 14695981039346656037ull; for (char ch : out) { h ^= static_cast<uint8_t>(ch); h *= 1099511628211ull; }
				string word = all[j].substr(0, all[j].find(' '));
				fprintf(o, "{\"n\":%ld,\"op\":\"%s\",\"h\":[%u,%u],\"len\":%zu}\n", n++, word.c_str(), static_cast<unsigned>(h & 0x3FFFFFFF), static_cast<unsigned>(h >> 34), out.size() & 0x3FFFFFFFu);
				fflush(o);
			}
			dropAll();
		}
		i = e;
	}
	return 0;
}
