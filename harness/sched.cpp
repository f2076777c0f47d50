// Runs conversions of the Cuttlefish library under a given schedule and reports what the threads did.
// The library is compiled with -fsanitize=thread, but the calls this puts into the code come here
// instead of to the sanitizer's runtime: only one thread runs at a time, the next one is chosen at
// every synchronisation by the schedule, and all memory accesses are recorded as ranges.
#include <cuttlefish/Image.h>
#include <cuttlefish/Texture.h>
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <iostream>
#include <malloc.h>
#include <map>
#include <new>
#include <pthread.h>
#include <csignal>
#include <semaphore.h>
#include <sstream>
#include <string>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

using namespace cuttlefish;
using std::string;

// ------------------------------------------------------------------ recording
struct Rec { char k; int t; uint64_t lo, hi; int x; };       // kind, thread, range or address, other thread / epoch
using Ranges = std::vector<std::pair<uint64_t, uint64_t>>;
struct Thr { sem_t sem; bool alive = false, outside = false, detached = false, joined = false; pthread_t h; Ranges r, w; int epoch = 0; void* (*fn)(void*) = nullptr; void* arg = nullptr; int waits = -1; };

static std::atomic<bool> active{false};      // a conversion under control runs
static std::atomic<bool> lost{false};        // a thread waited in a way that is not under control
static __thread int me = -1;
static __thread int inside = 0;              // in this file
static std::vector<Rec>* logv;
static std::vector<Thr*>* thr;
static std::vector<int>* plan;
static size_t planPos;
static int epoch, unjoined;
static std::atomic<unsigned long> progress{0};
static int nosched;
static __thread long middle = -1, period = -1, left = 0;      // accesses until another thread may run

struct In { In() { ++inside; } ~In() { --inside; } };
static bool on() { return active.load(std::memory_order_relaxed) && me >= 0 && !inside; }

static void add(Ranges& v, uint64_t lo, uint64_t hi)
{
	size_t n = v.size();
	for (size_t i = n; i > 0 && i + 6 > n; --i)
		if (lo <= v[i - 1].second && hi >= v[i - 1].first) { v[i - 1].first = std::min(v[i - 1].first, lo); v[i - 1].second = std::max(v[i - 1].second, hi); return; }
	v.emplace_back(lo, hi);
}
static void flush(int t)
{
	if (lost) return;
	for (int k = 0; k < 2; ++k)
	{
		Ranges& v = k ? (*thr)[t]->w : (*thr)[t]->r;
		std::sort(v.begin(), v.end());
		Ranges o;
		for (auto& p : v) { if (!o.empty() && p.first <= o.back().second) o.back().second = std::max(o.back().second, p.second); else o.push_back(p); }
		for (auto& p : o) logv->push_back({k ? 'w' : 'r', t, p.first, p.second, (*thr)[t]->epoch});
		v.clear();
	}
}
static void note(char k, uint64_t a = 0, int x = 0, uint64_t b = 0) { if (lost) return; flush(me); logv->push_back({k, me, a, b, x}); }

static void point();
static void access(void* p, size_t n, bool write)
{
	if (!on() || lost || (me == 0 && unjoined == 0)) return;
	In in;
	add(write ? (*thr)[me]->w : (*thr)[me]->r, reinterpret_cast<uint64_t>(p), reinterpret_cast<uint64_t>(p) + n);
	if (middle >= 0 && --middle < 0) { if (--left > 0) middle = period; point(); }
}

// ------------------------------------------------------------------ schedule
static bool runnable(int t)
{
	Thr& T = *(*thr)[t];
	return T.alive && !T.outside && (T.waits < 0 || !(*thr)[T.waits]->alive);
}
static int choose()
{
	int n = static_cast<int>(thr->size());
	if (planPos < plan->size())
	{
		int c = (*plan)[planPos++];
		if (c < n && runnable(c)) return c;
	}
	for (int i = 1; i <= n; ++i) { int c = (me + i) % n; if (runnable(c)) return c; }
	return -1;
}
static void give(int t) { if (t >= 0) sem_post(&(*thr)[t]->sem); }
static void await() { while (sem_wait(&(*thr)[me]->sem)) {} }
// another thread may run here
static void point()
{
	++progress;
	if (lost || nosched) return;
	int c = choose();
	if (c == me || c < 0) return;
	flush(me);             // what others do with this memory comes later
	give(c);
	await();
}

static void* entry(void* a)
{
	Thr* T = static_cast<Thr*>(a);
	int id = T->epoch; T->epoch = T->waits; T->waits = -1;
	me = id;
	{
		In in;
		if (!lost) while (sem_wait(&T->sem)) {}
		pthread_attr_t at; void* lo; size_t n;
		if (active && !lost && !pthread_getattr_np(pthread_self(), &at))
		{
			if (!pthread_attr_getstack(&at, &lo, &n)) note('m', reinterpret_cast<uint64_t>(lo), 0, std::max(reinterpret_cast<uint64_t>(lo) + n, static_cast<uint64_t>(pthread_self()) + 4096));
			pthread_attr_destroy(&at);
		}
	}
	void* r = T->fn(T->arg);
	In in;
	if (active) { note('x'); T->alive = false; ++progress; if (!lost) give(choose()); }
	me = -1;
	return r;
}

#define REAL(name) reinterpret_cast<decltype(&name)>(dlsym(RTLD_NEXT, #name))
extern "C" {
int pthread_create(pthread_t* h, const pthread_attr_t* at, void* (*fn)(void*), void* arg)
{
	static auto real = REAL(pthread_create);
	if (!on()) return real(h, at, fn, arg);
	In in;
	int live = 0; for (Thr* t : *thr) live += t != (*thr)[0] && t->alive;
	if (!live) ++epoch;
	Thr* T = new Thr;
	sem_init(&T->sem, 0, 0);
	int id = static_cast<int>(thr->size());
	T->fn = fn; T->arg = arg; T->epoch = id; T->waits = epoch; T->alive = true;
	note('c', 0, id);
	++unjoined;
	thr->push_back(T);
	int r = real(&T->h, at, entry, T);
	if (r) { T->alive = false; --unjoined; return r; }
	while (T->waits >= 0) usleep(1);       // until it has its number
	*h = T->h;
	point();
	return 0;
}
int pthread_join(pthread_t h, void** ret)
{
	static auto real = REAL(pthread_join);
	int id = -1;
	if (on()) { In in; for (size_t i = 1; i < thr->size(); ++i) if (!(*thr)[i]->joined && pthread_equal((*thr)[i]->h, h)) id = static_cast<int>(i); }
	if (id < 0) return real(h, ret);
	In in;
	flush(me);
	(*thr)[me]->waits = id;
	if (!lost) { ++progress; int c = choose(); if (c != me && c >= 0) { give(c); await(); } }
	int r = real(h, ret);
	(*thr)[me]->waits = -1;
	(*thr)[id]->joined = true; --unjoined;
	note('j', 0, id);
	return r;
}
int pthread_detach(pthread_t h)
{
	static auto real = REAL(pthread_detach);
	if (on()) { In in; for (size_t i = 1; i < thr->size(); ++i) if (pthread_equal((*thr)[i]->h, h)) (*thr)[i]->detached = true; }
	return real(h);
}
int pthread_mutex_lock(pthread_mutex_t* m)
{
	static auto real = REAL(pthread_mutex_lock);
	static auto tr = REAL(pthread_mutex_trylock);
	if (!on()) return real(m);
	In in;
	point();
	int r = lost ? real(m) : tr(m);
	while (r == EBUSY) { if (lost) { r = real(m); break; } point(); r = tr(m); }
	if (!r) note('a', reinterpret_cast<uint64_t>(m));
	return r;
}
int pthread_mutex_unlock(pthread_mutex_t* m)
{
	static auto real = REAL(pthread_mutex_unlock);
	if (!on()) return real(m);
	In in;
	note('l', reinterpret_cast<uint64_t>(m));
	int r = real(m);
	point();
	return r;
}
static int outside(pthread_mutex_t* m, int (*w)(void*), void* x)
{
	In in;
	note('l', reinterpret_cast<uint64_t>(m));
	(*thr)[me]->outside = true;
	if (!lost) give(choose());
	int r = w(x);
	// others may run: wait until chosen again
	(*thr)[me]->outside = false;
	if (!lost)
	{
		bool idle = true;
		for (size_t i = 0; i < thr->size(); ++i) if (static_cast<int>(i) != me && runnable(static_cast<int>(i))) idle = false;
		if (!idle) await();
	}
	note('a', reinterpret_cast<uint64_t>(m));
	return r;
}
struct CW { pthread_cond_t* c; pthread_mutex_t* m; const timespec* t; clockid_t k; };
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
	static auto real = REAL(pthread_cond_wait);
	if (!on()) return real(c, m);
	CW w{c, m, nullptr, 0};
	return outside(m, [](void* x) { auto q = static_cast<CW*>(x); return real(q->c, q->m); }, &w);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const timespec* t)
{
	static auto real = REAL(pthread_cond_clockwait);
	if (!on()) return real(c, m, k, t);
	CW w{c, m, t, k};
	return outside(m, [](void* x) { auto q = static_cast<CW*>(x); return real(q->c, q->m, q->k, q->t); }, &w);
}
int __real___cxa_guard_acquire(uint64_t*);
void __real___cxa_guard_release(uint64_t*);
int __wrap___cxa_guard_acquire(uint64_t* g)
{
	int r = __real___cxa_guard_acquire(g);
	if (on()) { In in; note('a', reinterpret_cast<uint64_t>(g)); if (r) ++nosched; }
	return r;
}
void __wrap___cxa_guard_release(uint64_t* g)
{
	if (on()) { In in; note('l', reinterpret_cast<uint64_t>(g)); if (nosched) --nosched; }
	__real___cxa_guard_release(g);
}
void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
void* __wrap_memcpy(void* d, const void* s, size_t n) { access(const_cast<void*>(s), n, false); access(d, n, true); return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { access(const_cast<void*>(s), n, false); access(d, n, true); return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { access(d, n, true); return __real_memset(d, c, n); }

// ---- what the compiler puts into the library
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void** p, void*) { access(p, 8, true); }
void __tsan_vptr_read(void** p) { access(p, 8, false); }
void __tsan_read_range(void* p, size_t n) { access(p, n, false); }
void __tsan_write_range(void* p, size_t n) { access(p, n, true); }
#define RW(n) \
	void __tsan_read##n(void* p) { access(p, n, false); } void __tsan_write##n(void* p) { access(p, n, true); } \
	void __tsan_unaligned_read##n(void* p) { access(p, n, false); } void __tsan_unaligned_write##n(void* p) { access(p, n, true); } \
	void __tsan_volatile_read##n(void* p) { access(p, n, false); } void __tsan_volatile_write##n(void* p) { access(p, n, true); } \
	void __tsan_unaligned_volatile_read##n(void* p) { access(p, n, false); } void __tsan_unaligned_volatile_write##n(void* p) { access(p, n, true); } \
	void __tsan_read_write##n(void* p) { access(p, n, true); } void __tsan_unaligned_read_write##n(void* p) { access(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
static void before(const volatile void*) { if (on()) { In in; flush(me); point(); } }
// a: acquires, l: releases, b: both; relaxed operations order nothing
static void after(const volatile void* p, int mo, bool rd, bool wr)
{
	if (!on()) return;
	In in;
	bool a = rd && (mo == 1 || mo == 2 || mo >= 4), l = wr && mo >= 3;
	uint64_t v = reinterpret_cast<uint64_t>(p);
	note(a && l ? 'b' : a ? 'a' : l ? 'l' : 'n', v);
}
#define ATOMIC(bits, T) \
	T __tsan_atomic##bits##_load(const volatile T* p, int mo) { before(p); T r = __atomic_load_n(p, 5); after(p, mo, true, false); return r; } \
	void __tsan_atomic##bits##_store(volatile T* p, T v, int mo) { before(p); __atomic_store_n(p, v, 5); after(p, mo, false, true); } \
	T __tsan_atomic##bits##_exchange(volatile T* p, T v, int mo) { before(p); T r = __atomic_exchange_n(p, v, 5); after(p, mo, true, true); return r; } \
	T __tsan_atomic##bits##_fetch_add(volatile T* p, T v, int mo) { before(p); T r = __atomic_fetch_add(p, v, 5); after(p, mo, true, true); return r; } \
	T __tsan_atomic##bits##_fetch_sub(volatile T* p, T v, int mo) { before(p); T r = __atomic_fetch_sub(p, v, 5); after(p, mo, true, true); return r; } \
	T __tsan_atomic##bits##_fetch_and(volatile T* p, T v, int mo) { before(p); T r = __atomic_fetch_and(p, v, 5); after(p, mo, true, true); return r; } \
	T __tsan_atomic##bits##_fetch_or(volatile T* p, T v, int mo) { before(p); T r = __atomic_fetch_or(p, v, 5); after(p, mo, true, true); return r; } \
	T __tsan_atomic##bits##_fetch_xor(volatile T* p, T v, int mo) { before(p); T r = __atomic_fetch_xor(p, v, 5); after(p, mo, true, true); return r; } \
	int __tsan_atomic##bits##_compare_exchange_strong(volatile T* p, T* e, T v, int mo, int) { before(p); bool r = __atomic_compare_exchange_n(p, e, v, false, 5, 5); after(p, mo, true, r); return r; } \
	int __tsan_atomic##bits##_compare_exchange_weak(volatile T* p, T* e, T v, int mo, int) { before(p); bool r = __atomic_compare_exchange_n(p, e, v, false, 5, 5); after(p, mo, true, r); return r; }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int) { static char f; before(&f); after(&f, 5, true, true); }
void __tsan_atomic_signal_fence(int) {}
}

// memory that is given out anew has no history; giving it back is as good as writing all of it
extern "C" {
void* __libc_malloc(size_t); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t); void* __libc_memalign(size_t, size_t); void __libc_free(void*);
static void* fresh(void* p, size_t n)
{
	if (p && on()) { In in; if (me != 0 || unjoined) note('m', reinterpret_cast<uint64_t>(p), 0, reinterpret_cast<uint64_t>(p) + std::max(n, malloc_usable_size(p))); }
	return p;
}
void* malloc(size_t n) { return fresh(__libc_malloc(n), n); }
void* calloc(size_t a, size_t b) { return fresh(__libc_calloc(a, b), a*b); }
void free(void* p) { if (p && on()) access(p, malloc_usable_size(p), true); __libc_free(p); }
void* realloc(void* p, size_t n)
{
	if (!on()) return __libc_realloc(p, n);
	void* r = malloc(n);
	if (r && p) { memcpy(r, p, std::min(n, malloc_usable_size(p))); free(p); }
	return r;
}
void* memalign(size_t a, size_t n) { return fresh(__libc_memalign(a, n), n); }
void* aligned_alloc(size_t a, size_t n) { return fresh(__libc_memalign(a, n), n); }
int posix_memalign(void** r, size_t a, size_t n) { *r = fresh(__libc_memalign(a, n), n); return *r ? 0 : ENOMEM; }
}

static void* watch(void*)
{
	unsigned long last = 0; int still = 0; bool before = false;
	while (true)
	{
		usleep(5000);
		if (!active) { still = 0; continue; }
		unsigned long p = progress;
		still = p == last ? still + 1 : 0;
		last = p;
		if (still > (before ? 10 : 200) && !lost)          // somebody waits for something else
		{
			before = true;
			lost = true;
			for (Thr* t : *thr) sem_post(&t->sem);
		}
	}
	return nullptr;
}

// ------------------------------------------------------------------ commands
static Texture make(const std::vector<long>& a)
{
	// dim w h depth levels cs seed scale
	Texture t(static_cast<Texture::Dimension>(a[0]), static_cast<unsigned>(a[1]), static_cast<unsigned>(a[2]), static_cast<unsigned>(a[3]), static_cast<unsigned>(a[4]), ColorSpace::Linear);
	uint32_t s = static_cast<uint32_t>(a[5])*2654435761u + 12345u;
	for (unsigned m = 0; m < t.mipLevelCount(); ++m) for (unsigned d = 0; d < t.depth(m); ++d) for (unsigned f = 0; f < t.faceCount(); ++f)
	{
		Image im(Image::Format::RGBAF, t.width(m), t.height(m));
		for (unsigned y = 0; y < im.height(); ++y)
		{
			float* p = static_cast<float*>(im.scanline(y));
			for (unsigned x = 0; x < im.width()*4; ++x) { s = s*1664525u + 1013904223u; p[x] = (static_cast<float>(s >> 8)/16777216.0f*1.25f - 0.125f)*static_cast<float>(a[6]); }
		}
		t.setImage(std::move(im), static_cast<Texture::CubeFace>(f), m, d);
	}
	return t;
}
static uint64_t fnv(const void* p, size_t n) { uint64_t h = 1469598103934665603ull; for (size_t i = 0; i < n; ++i) { h ^= static_cast<const uint8_t*>(p)[i]; h *= 1099511628211ull; } return h; }
struct Surf { uint64_t at, size, hash; };
static std::vector<Surf> surfaces(const Texture& t)
{
	std::vector<Surf> r;
	for (unsigned m = 0; m < t.mipLevelCount(); ++m) for (unsigned d = 0; d < t.depth(m); ++d) for (unsigned f = 0; f < t.faceCount(); ++f)
	{
		auto c = static_cast<Texture::CubeFace>(f);
		r.push_back({reinterpret_cast<uint64_t>(t.data(c, m, d)), t.dataSize(c, m, d), t.data(c, m, d) ? fnv(t.data(c, m, d), t.dataSize(c, m, d)) : 0});
	}
	return r;
}

// what the threads did, with addresses by rank
static long report(const std::vector<Rec>& L, size_t n, bool ctl, const std::vector<Surf>& ts, long threads, bool few = false)
{
	// memory that several threads touched; what only one touched needs no report if few are wanted
	Ranges X;
	if (few)
	{
		std::vector<std::pair<std::pair<uint64_t, int>, int>> ev;        // (address, thread), +1 or -1
		for (size_t i = 0; i < n; ++i) if (L[i].k == 'r' || L[i].k == 'w') { ev.push_back({{L[i].lo, L[i].t}, 1}); ev.push_back({{L[i].hi, L[i].t}, -1}); }
		std::sort(ev.begin(), ev.end());
		std::map<int, int> depth; int who = 0; uint64_t from = 0;
		for (auto& e : ev)
		{
			if (who > 1 && e.first.first > from) { if (!X.empty() && X.back().second == from) X.back().second = e.first.first; else X.emplace_back(from, e.first.first); }
			int& d = depth[e.first.second]; if (!d && e.second > 0) ++who; d += e.second; if (!d && e.second < 0) --who;
			from = e.first.first;
		}
	}
	auto shared = [&](uint64_t lo, uint64_t hi)
	{
		auto it = std::upper_bound(X.begin(), X.end(), std::make_pair(lo, ~uint64_t(0)));
		return (it != X.begin() && (it - 1)->second > lo) || (it != X.end() && it->first < hi);
	};
	printf("{\"op\":\"begin\",\"n\":0,\"th\":%ld}\n", threads);
	// addresses by rank
	std::vector<uint64_t> pts;
	for (size_t i = 0; i < n; ++i) if (strchr("rwm", L[i].k)) { pts.push_back(L[i].lo); pts.push_back(L[i].hi); }
	std::sort(pts.begin(), pts.end()); pts.erase(std::unique(pts.begin(), pts.end()), pts.end());
	auto rank = [&](uint64_t v) { return static_cast<long>(std::lower_bound(pts.begin(), pts.end(), v) - pts.begin()); };
	std::map<uint64_t, int> syncs;
	// reads of memory that nobody writes meanwhile need no report
	Ranges W; for (size_t i = 0; i < n; ++i) if (L[i].k == 'w') W.emplace_back(L[i].lo, L[i].hi);
	std::sort(W.begin(), W.end());
	Ranges M; for (auto& p : W) { if (!M.empty() && p.first <= M.back().second) M.back().second = std::max(M.back().second, p.second); else M.push_back(p); }
	long num = 1;
	for (size_t i = 0; ctl && i < n; ++i)
	{
		const Rec& r = L[i];
		if (r.k == 'n') continue;
		if (few && strchr("rwm", r.k) && !shared(r.lo, r.hi)) continue;
		if (r.k == 'r')
		{
			auto it = std::upper_bound(M.begin(), M.end(), std::make_pair(r.hi, uint64_t(0)));
			bool hit = false;
			while (it != M.begin()) { --it; if (it->second <= r.lo) break; if (it->first < r.hi) { hit = true; break; } }
			if (!hit) continue;
		}
		printf("{\"op\":\"%c\",\"n\":%ld,\"t\":%d", r.k, num++, r.t);
		if (r.k == 'r' || r.k == 'w' || r.k == 'm') printf(",\"lo\":%ld,\"hi\":%ld", rank(r.lo), rank(r.hi));
		if (r.k == 'w')
		{
			int s = -1; long lo = 0, hi = 0;
			for (size_t q = 0; q < ts.size(); ++q) if (ts[q].at && r.lo < ts[q].at + ts[q].size && r.hi > ts[q].at) { s = static_cast<int>(q); lo = static_cast<long>(std::max(r.lo, ts[q].at) - ts[q].at); hi = static_cast<long>(std::min(r.hi, ts[q].at + ts[q].size) - ts[q].at); }
			printf(",\"s\":%d,\"from\":%ld,\"to\":%ld,\"ep\":%d", s, lo, hi, r.x);
		}
		if (strchr("alb", r.k)) { int id = syncs.emplace(r.lo, static_cast<int>(syncs.size())).first->second; printf(",\"a\":%d", id); }
		if (r.k == 'c' || r.k == 'j') printf(",\"u\":%d", r.x);
		printf("}\n");
	}
	return num;
}

static void convert(const std::vector<long>& a, std::vector<int> sched)
{
	// dim w h depth levels seed scale | format type alpha quality mask threads
	auto run = [&](Texture& t, unsigned threads) {
		return t.convert(static_cast<Texture::Format>(a[7]), static_cast<Texture::Type>(a[8]), static_cast<Texture::Quality>(a[10]), static_cast<Texture::Alpha>(a[9]),
			Texture::ColorMask(a[11] & 1, (a[11] >> 1) & 1, (a[11] >> 2) & 1, (a[11] >> 3) & 1), threads); };
	Texture ref = make(a), t = make(a);
	bool refok = run(ref, 1);
	std::vector<Rec> L; std::vector<Thr*> T;
	logv = &L; thr = &T; plan = &sched; planPos = 0; epoch = 0; unjoined = 0; lost = false; nosched = 0;
	Thr* m = new Thr; sem_init(&m->sem, 0, 0); m->alive = true; m->h = pthread_self(); T.reserve(1 << 16); T.push_back(m);
	me = 0; inside = 0; progress = progress + 1; active = true;
	bool ok = run(t, static_cast<unsigned>(a[12]));
	++inside;
	flush(0);
	int live = 0; for (size_t i = 1; i < T.size(); ++i) live += T[i]->alive;
	size_t n = L.size();
	std::vector<Surf> rs = surfaces(ref), ts = surfaces(t);
	// those that are still at work come to an end by themselves
	for (int i = 0; live && i < 300; ++i)
	{
		int c = choose();
		if (c > 0 && !lost) { give(c); if (!sem_trywait(&m->sem)) {} }
		usleep(1000);
		live = live;
		bool any = false; for (size_t q = 1; q < T.size(); ++q) any = any || T[q]->alive;
		if (!any) break;
	}
	active = false; me = -1; --inside;
	bool ctl = !lost;
	long num = report(L, n, ctl, ts, a[12]);
	printf("{\"op\":\"end\",\"n\":%ld,\"ctl\":%s,\"live\":%d,\"ret\":%s,\"refret\":%s,\"workers\":%zu,\"ref\":[", num, ctl ? "true" : "false", live, ok ? "true" : "false", refok ? "true" : "false", T.size() - 1);
	for (size_t q = 0; q < rs.size(); ++q) printf("%s\"%016lx-%lu\"", q ? "," : "", rs[q].hash, rs[q].size);
	printf("],\"got\":[");
	for (size_t q = 0; q < ts.size(); ++q) printf("%s\"%016lx-%lu\"", q ? "," : "", ts[q].hash, ts[q].size);
	printf("]}\n");
	fflush(stdout);
	for (Thr* q : T) delete q;
}

// ------------------------------------------------------------------ threads with objects of their own
static const Image* sharedImage;
static Texture* sharedTexture;
struct World
{
	Image a, b; Texture t; std::vector<uint8_t> buf; uint64_t last = 0;
	static void mix(uint64_t& h, uint64_t v) { h = (h ^ v)*1099511628211ull; h ^= h >> 29; }
	static void mix(uint64_t& h, const Image& m)
	{
		mix(h, m.isValid()); mix(h, static_cast<uint64_t>(m.format())); mix(h, m.width()); mix(h, m.height()); mix(h, static_cast<uint64_t>(m.colorSpace())); mix(h, m.bitsPerPixel());
		for (unsigned y = 0; y < m.height(); ++y) mix(h, fnv(m.scanline(y), m.width()*(m.bitsPerPixel()/8)));
	}
	uint64_t digest() const
	{
		uint64_t h = last;
		mix(h, a); mix(h, b); mix(h, fnv(buf.data(), buf.size()));
		mix(h, t.isValid());
		if (t)
		{
			mix(h, static_cast<uint64_t>(t.dimension())); mix(h, t.width()); mix(h, t.height()); mix(h, t.depth()); mix(h, t.mipLevelCount()); mix(h, t.faceCount()); mix(h, t.isArray()); mix(h, t.imagesComplete()); mix(h, t.converted());
			mix(h, static_cast<uint64_t>(t.format())); mix(h, static_cast<uint64_t>(t.type()));
			for (unsigned m = 0; m < t.mipLevelCount(); ++m) for (unsigned d = 0; d < t.depth(m); ++d) for (unsigned f = 0; f < t.faceCount(); ++f)
			{
				auto c = static_cast<Texture::CubeFace>(f);
				if (t.converted()) mix(h, t.data(c, m, d) ? fnv(t.data(c, m, d), t.dataSize(c, m, d)) : 1);
				else mix(h, t.getImage(c, m, d));
			}
		}
		return h;
	}
	void fill(Image& m, unsigned seed)
	{
		uint32_t s = seed*2654435761u + 99991u;
		for (unsigned y = 0; y < m.height(); ++y) for (unsigned x = 0; x < m.width(); ++x)
		{
			double c[4]; for (double& v : c) { s = s*1664525u + 1013904223u; v = (s >> 8)/16777216.0*1.1 - 0.05; }
			ColorRGBAd q = {c[0], c[1], c[2], c[3]};
			m.setPixel(x, y, q);
		}
	}
	void run(const string& w)
	{
		std::vector<long> v; std::istringstream s(w.substr(1)); string p;
		while (std::getline(s, p, ',')) v.push_back(std::stol(p));
		v.resize(12);
		const Image& src = v[11] && sharedImage ? *sharedImage : a;
		switch (w[0])
		{
			case 'I': last = a.initialize(static_cast<Image::Format>(v[0]), static_cast<unsigned>(v[1]), static_cast<unsigned>(v[2]), static_cast<ColorSpace>(v[3])); fill(a, static_cast<unsigned>(v[4])); break;
			case 'C': b = src.convert(static_cast<Image::Format>(v[0]), v[1] != 0); break;
			case 'R': b = src.resize(static_cast<unsigned>(v[0]), static_cast<unsigned>(v[1]), static_cast<Image::ResizeFilter>(v[2])); break;
			case 'O': b = src.rotate(static_cast<Image::RotateAngle>(v[0])); break;
			case 'K': b = src; break;
			case 'X': std::swap(a, b); break;
			case 'H': last = a.flipHorizontal(); break;
			case 'V': last = a.flipVertical(); break;
			case 'P': last = a.preMultiplyAlpha(); break;
			case 'S': last = a.changeColorSpace(static_cast<ColorSpace>(v[0])); break;
			case 'G': last = a.grayscale(); break;
			case 'W': last = a.swizzle(static_cast<Image::Channel>(v[0]), static_cast<Image::Channel>(v[1]), static_cast<Image::Channel>(v[2]), static_cast<Image::Channel>(v[3])); break;
			case 'N': b = a.createNormalMap(static_cast<Image::NormalOptions>(v[0]), static_cast<double>(v[1])/4, static_cast<Image::Format>(v[2])); break;
			case 'E': { static const char* const names[] = {"x.png", "x.tga", "x.tif", "x.bmp", "x.exr", "x.hdr", "x.jpg", "x.nothing"}; std::vector<uint8_t> o; last = a.save(o, names[v[0]]); if (last) buf.swap(o); break; }
			case 'L': last = b.load(buf.data(), buf.size(), static_cast<ColorSpace>(v[0])); break;
			case 'M': { std::istringstream in(string(buf.begin(), buf.end())); last = b.load(in, static_cast<ColorSpace>(v[0])); break; }
			case 'Q':
			{
				uint64_t h = 7;
				for (unsigned y = 0; y < src.height() + 1; ++y) for (unsigned x = 0; x < src.width() + 1; ++x) { ColorRGBAd q = {1, 2, 3, 4}; mix(h, src.getPixel(q, x, y)); mix(h, fnv(&q, sizeof(q))); }
				mix(h, src.redMask()); mix(h, src.redShift()); mix(h, src.greenMask()); mix(h, src.greenShift()); mix(h, src.blueMask()); mix(h, src.alphaMask()); mix(h, src.alphaShift());
				last = h; break;
			}
			case 'A': { Image::Format f = src.format(); b = src.convert(Image::Format::RGBAF); Texture::adjustImageValueRange(b, static_cast<Texture::Type>(v[0]), f); break; }
			case 'T':
				// dim w h depth levels cs
				last = t.initialize(static_cast<Texture::Dimension>(v[0]), static_cast<unsigned>(v[1]), static_cast<unsigned>(v[2]), static_cast<unsigned>(v[3]), static_cast<unsigned>(v[4]), static_cast<ColorSpace>(v[5]));
				for (unsigned m = 0; m < t.mipLevelCount(); ++m) for (unsigned d = 0; d < t.depth(m); ++d) for (unsigned f = 0; f < t.faceCount(); ++f)
				{
					Image i = src.resize(t.width(m), t.height(m), Image::ResizeFilter::Linear);
					if (!i) i = src.resize(t.width(m), t.height(m), Image::ResizeFilter::Box);
					i.changeColorSpace(static_cast<ColorSpace>(v[5]));
					if ((f + d) % 2) i.flipHorizontal();
					t.setImage(i, static_cast<Texture::CubeFace>(f), m, d);
				}
				break;
			case 'g':
			{
				Texture::CustomMipImages c;
				if (v[2]) for (unsigned d = 0; d < std::max(t.dimension() == Texture::Dimension::Dim3D ? t.depth()/2 : 1u, 1u); ++d) c.emplace(Texture::ImageIndex(1, d), Texture::CustomMipImage(src, v[2] == 1 ? Texture::MipReplacement::Once : Texture::MipReplacement::Continue));
				last = t.generateMipmaps(static_cast<Image::ResizeFilter>(v[0]), static_cast<unsigned>(v[1]), c); break;
			}
			case 'c': last = t.convert(static_cast<Texture::Format>(v[0]), static_cast<Texture::Type>(v[1]), Texture::Quality::Normal, static_cast<Texture::Alpha>(v[2]), Texture::ColorMask(), static_cast<unsigned>(v[3])); break;
			case 's': { std::vector<uint8_t> o; last = static_cast<uint64_t>(t.save(o, static_cast<Texture::FileType>(v[0]))); buf.swap(o); break; }
			case 'k': { Texture u(v[11] && sharedTexture ? *sharedTexture : t); if (v[0]) t = u; else t = std::move(u); break; }
			case 'F':
			{
				uint64_t h = 5;
				for (int f = 0; f < 60; ++f)
				{
					auto F = static_cast<Texture::Format>(f); auto ty = static_cast<Texture::Type>(v[0]);
					mix(h, Texture::isFormatValid(F, ty)); mix(h, Texture::hasNativeSRGB(F, ty)); mix(h, Texture::hasAlpha(F)); mix(h, Texture::blockWidth(F)); mix(h, Texture::blockHeight(F)); mix(h, Texture::blockSize(F)); mix(h, Texture::minWidth(F)); mix(h, Texture::minHeight(F));
					for (int q = 1; q < 4; ++q) mix(h, Texture::isFormatValid(F, ty, static_cast<Texture::FileType>(q)));
				}
				mix(h, static_cast<uint64_t>(Texture::fileType("a.dds"))); mix(h, static_cast<uint64_t>(Texture::fileType("a.KTX"))); mix(h, Texture::maxMipmapLevels(Texture::Dimension::Dim3D, 3, 9, 70));
				mix(h, fnv(&Texture().getImage() ? "x" : "y", 1)); mix(h, Texture().getImage().isValid());
				last = h; break;
			}
			default: _exit(93);
		}
	}
};

struct Work { std::vector<string> ops; long mid = -1; std::vector<uint64_t> got; };
static void* perform(void* a)
{
	Work* k = static_cast<Work*>(a);
	World w;
	for (const string& o : k->ops)
	{
		{ In in; point(); middle = period = k->mid; left = 1000; }
		w.run(o);
		middle = -1;
		uint64_t h = w.digest();
		{ In in; k->got.push_back(h); point(); }
	}
	return nullptr;
}

// conc <shared> <middle> <schedule>,… | ops | ops …
static void together(const string& rest)
{
	std::vector<string> parts; std::istringstream s(rest); string p;
	while (std::getline(s, p, '|')) parts.push_back(p);
	std::istringstream hd(parts[0]);
	long shared, mid; hd >> shared >> mid;
	std::vector<int> sched; int x; while (hd >> x) sched.push_back(x);
	std::vector<Work> work;
	for (size_t i = 1; i < parts.size(); ++i) { Work k; k.mid = mid; std::istringstream o(parts[i]); string w; while (o >> w) k.ops.push_back(w); work.push_back(k); }
	if (shared)
	{
		World w; w.run("I" + std::to_string(shared) + ",7,6,0,3"); sharedImage = new Image(w.a);
		w.run("T1,5,4,0,1,0"); w.run("c14,0,1,1"); sharedTexture = new Texture(w.t);
	}
	std::vector<Rec> L; std::vector<Thr*> T;
	logv = &L; thr = &T; plan = &sched; planPos = 0; epoch = 0; unjoined = 0; lost = false; nosched = 1;
	Thr* m = new Thr; sem_init(&m->sem, 0, 0); m->alive = true; m->h = pthread_self(); T.reserve(1 << 16); T.push_back(m);
	me = 0; inside = 0; progress = progress + 1; active = true;
	std::vector<pthread_t> h(work.size());
	for (size_t i = 0; i < work.size(); ++i) { if (i + 1 == work.size()) nosched = 0; pthread_create(&h[i], nullptr, perform, &work[i]); }
	for (pthread_t q : h) pthread_join(q, nullptr);
	++inside; flush(0); active = false; me = -1;
	bool ctl = !lost; --inside;
	std::vector<Work> alone = work;
	for (Work& k : alone) { k.got.clear(); World w; for (const string& o : k.ops) { w.run(o); k.got.push_back(w.digest()); } }
	long num = report(L, L.size(), ctl, {}, static_cast<long>(work.size()), true);
	printf("{\"op\":\"cend\",\"n\":%ld,\"ctl\":%s,\"got\":[", num, ctl ? "true" : "false");
	auto put = [](const std::vector<Work>& v) { for (size_t i = 0; i < v.size(); ++i) { printf("%s[", i ? "," : ""); for (size_t q = 0; q < v[i].got.size(); ++q) printf("%s\"%016lx\"", q ? "," : "", v[i].got[q]); printf("]"); } };
	put(work); printf("],\"ref\":["); put(alone); printf("]}\n");
	fflush(stdout);
}

// each in a process of its own: the first use of everything is part of it
static void apart(const string& rest)
{
	fflush(stdout);
	pid_t c = fork();
	if (c == 0)
	{
		prctl(PR_SET_PDEATHSIG, SIGKILL);
		pthread_t w;
		pthread_create(&w, nullptr, watch, nullptr);
		together(rest);
		_exit(0);
	}
	int st = 0;
	while (waitpid(c, &st, 0) < 0 && errno == EINTR) {}
	if (WIFSIGNALED(st)) { signal(WTERMSIG(st), SIG_DFL); raise(WTERMSIG(st)); }
	if (WEXITSTATUS(st)) _exit(WEXITSTATUS(st));
}

int main()
{
	string line;
	bool watched = false;
	while (std::getline(std::cin, line))
	{
		std::istringstream s(line);
		string op; s >> op;
		if (op == "case") { string id, p; s >> id; std::getline(s, p); printf("{\"op\":\"case\",\"n\":0,\"id\":\"%s\",\"p\":%s}\n", id.c_str(), p.size() > 1 ? p.c_str() + 1 : "0"); fflush(stdout); continue; }
		if (op == "conc") { string r; std::getline(s, r); apart(r); continue; }
		if (op == "conv")
		{
			if (!watched) { pthread_t w; pthread_create(&w, nullptr, watch, nullptr); watched = true; }
			std::vector<long> a(13); for (long& v : a) s >> v;
			std::vector<int> sched; int x; while (s >> x) sched.push_back(x);
			convert(a, sched);
			continue;
		}
		exit(92);
	}
	fflush(stdout);
	_exit(0);
}
