// Threads that use separate objects: what their calls read and write, for ApartTrace.tla.
// The library's code is compiled with access callbacks, its heap and mutex functions are bound to the va_ functions below.
// The threads take turns, one call each; what they touch does not depend on that as long as nothing is shared.
#include <dlfcn.h>
#include <stdlib.h>
#include <string.h>
#include <pthread.h>
extern "C" {
void *va_malloc(size_t);
void *va_calloc(size_t, size_t);
void *va_realloc(void *, size_t);
void va_free(void *);
}
#define CORE_IMPL
#include "core.hpp"
// what the user hands to the library or frees goes the same way
#define malloc va_malloc
#define free va_free
#include "things.hpp"
#undef malloc
#undef free

// ------------------------------------------------------------------ what a call touches
struct Block { size_t n; long id; };
static std::map<uintptr_t, Block> blocks;       // heap blocks
static std::unordered_map<uintptr_t, long> spots, syncs; // other memory in units of 8 bytes; mutexes and atomics
static long ids, sync_ids;
static std::unordered_map<long, std::string> named;
static std::set<long> R_, W_, F_, told;
static std::string events;
static bool on;                                  // inside a call of the library
static __thread uintptr_t stack_lo, stack_hi;
static long locs, accesses;
static pthread_mutex_t big = PTHREAD_MUTEX_INITIALIZER;
static std::string jset(const std::set<long> &s) { std::string r = "["; for(long x : s) { if(r.size() > 1) r += ","; r += std::to_string(x); } return r + "]"; }
static void put_event(const std::string &e) { if(!events.empty()) events += ","; events += e; }
static void flush_acc()
{
	if(!R_.empty() || !W_.empty())
	{
		for(long x : W_) R_.erase(x);
		put_event("{\"e\":\"acc\",\"r\":" + jset(R_) + ",\"w\":" + jset(W_) + "}");
		told.insert(R_.begin(), R_.end());
		told.insert(W_.begin(), W_.end());
	}
	if(!F_.empty()) put_event("{\"e\":\"free\",\"x\":" + jset(F_) + "}");
	R_.clear(); W_.clear(); F_.clear();
}
static void access(const void *p, size_t n, bool write)
{
	if(!vp_in_lib || !on) return;
	uintptr_t a = (uintptr_t)p;
	if(a >= stack_lo && a < stack_hi) return;
	vp_in_lib = 0;
	++accesses;
	auto b = blocks.upper_bound(a);
	if(b != blocks.begin() && (--b, a < b->first + b->second.n)) (write ? W_ : R_).insert(b->second.id);
	else for(uintptr_t x = a / 8; x <= (a + n - 1) / 8; ++x)
	{
		long &id = spots[x];
		if(!id)
		{
			id = ++ids;
			Dl_info i;
			if(dladdr((void *)(x * 8), &i) && i.dli_sname) named[id] = i.dli_sname;
		}
		(write ? W_ : R_).insert(id);
	}
	vp_in_lib = 1;
}
static void sync_event(const void *m, const char *e)
{
	if(!vp_in_lib || !on) return;
	vp_in_lib = 0;
	flush_acc();
	long &id = syncs[(uintptr_t)m];
	if(!id) id = ++sync_ids;
	put_event(std::string("{\"e\":\"") + e + "\",\"m\":" + std::to_string(id) + "}");
	vp_in_lib = 1;
}
static void *born(void *p, size_t n)
{
	if(!p) return p;
	int old = vp_in_lib;
	vp_in_lib = 0;
	blocks[(uintptr_t)p] = Block{n ? n : 1, ++ids};
	vp_in_lib = old;
	return p;
}
static void dies(void *p)
{
	int old = vp_in_lib;
	vp_in_lib = 0;
	auto b = blocks.find((uintptr_t)p);
	if(b != blocks.end())
	{
		long id = b->second.id;
		if(told.count(id) || R_.count(id) || W_.count(id)) { W_.insert(id); F_.insert(id); told.erase(id); } // giving it back is a use
		blocks.erase(b);
	}
	vp_in_lib = old;
}
extern "C" {
void *va_malloc(size_t n) { void *p = malloc(n); if(p) memset(p, vp_junk(), n); return born(p, n); }
void *va_calloc(size_t a, size_t b) { return born(calloc(a, b), a * b); }
void va_free(void *p) { if(p) dies(p); free(p); }
void *va_realloc(void *p, size_t n)
{
	if(p) { auto b = blocks.find((uintptr_t)p); if(b != blocks.end()) access(p, 1, false); dies(p); }
	return born(realloc(p, n), n);
}
void *va_reallocarray(void *p, size_t a, size_t b) { return va_realloc(p, a * b); }
void *va_aligned_alloc(size_t a, size_t n) { return born(aligned_alloc(a, n), n); }
int va_posix_memalign(void **r, size_t a, size_t n) { int e = posix_memalign(r, a, n); if(!e) born(*r, n); return e; }
char *va_strdup(const char *s) { char *r = strdup(s); born(r, strlen(r) + 1); return r; }
char *va_strndup(const char *s, size_t n) { char *r = strndup(s, n); born(r, strlen(r) + 1); return r; }

#define MTX(name) int va_pthread_mutex_##name(pthread_mutex_t *m) { int e = pthread_mutex_##name(m); if(!e) sync_event(m, "acq"); return e; }
MTX(lock) MTX(trylock)
int va_pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *t) { int e = pthread_mutex_timedlock(m, t); if(!e) sync_event(m, "acq"); return e; }
int va_pthread_mutex_unlock(pthread_mutex_t *m) { sync_event(m, "rel"); return pthread_mutex_unlock(m); }
int va_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { access(m, 1, true); return pthread_mutex_init(m, a); }
int va_pthread_mutex_destroy(pthread_mutex_t *m) { access(m, 1, true); return pthread_mutex_destroy(m); }
int va_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a) { access(c, 1, true); return pthread_cond_init(c, a); }
int va_pthread_cond_destroy(pthread_cond_t *c) { access(c, 1, true); return pthread_cond_destroy(c); }
int va_pthread_rwlock_rdlock(pthread_rwlock_t *m) { int e = pthread_rwlock_rdlock(m); if(!e) sync_event(m, "acq"); return e; }
int va_pthread_rwlock_wrlock(pthread_rwlock_t *m) { int e = pthread_rwlock_wrlock(m); if(!e) sync_event(m, "acq"); return e; }
int va_pthread_rwlock_unlock(pthread_rwlock_t *m) { sync_event(m, "rel"); return pthread_rwlock_unlock(m); }
int va_pthread_once(pthread_once_t *o, void (*f)()) { int e = pthread_once(o, f); sync_event(o, "acq"); sync_event(o, "rel"); return e; }
int va_pthread_spin_lock(pthread_spinlock_t *m) { int e = pthread_spin_lock(m); if(!e) sync_event((void *)m, "acq"); return e; }
int va_pthread_spin_unlock(pthread_spinlock_t *m) { sync_event((void *)m, "rel"); return pthread_spin_unlock(m); }

#define RD(n) void __tsan_read##n(void *p) { access(p, n, false); } void __tsan_unaligned_read##n(void *p) { access(p, n, false); } void __tsan_volatile_read##n(void *p) { access(p, n, false); } void __tsan_unaligned_volatile_read##n(void *p) { access(p, n, false); }
#define WR(n) void __tsan_write##n(void *p) { access(p, n, true); } void __tsan_unaligned_write##n(void *p) { access(p, n, true); } void __tsan_volatile_write##n(void *p) { access(p, n, true); } void __tsan_unaligned_volatile_write##n(void *p) { access(p, n, true); } void __tsan_read_write##n(void *p) { access(p, n, true); } void __tsan_unaligned_read_write##n(void *p) { access(p, n, true); }
RD(1) RD(2) RD(4) RD(8) RD(16) WR(1) WR(2) WR(4) WR(8) WR(16)
void __tsan_read_range(void *p, size_t n) { if(n) access(p, n, false); }
void __tsan_write_range(void *p, size_t n) { if(n) access(p, n, true); }
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
void *__tsan_memset(void *p, int c, size_t n) { if(n) access(p, n, true); return memset(p, c, n); }
void *__tsan_memcpy(void *d, const void *s, size_t n) { if(n) { access(s, n, false); access(d, n, true); } return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { if(n) { access(s, n, false); access(d, n, true); } return memmove(d, s, n); }
static void atomic_sync(const volatile void *p) { sync_event((const void *)p, "acq"); sync_event((const void *)p, "rel"); }
#define AT(B, T) \
	T __tsan_atomic##B##_load(const volatile T *a, int) { atomic_sync(a); return *a; } \
	void __tsan_atomic##B##_store(volatile T *a, T v, int) { atomic_sync(a); *a = v; } \
	T __tsan_atomic##B##_exchange(volatile T *a, T v, int) { atomic_sync(a); T o = *a; *a = v; return o; } \
	T __tsan_atomic##B##_fetch_add(volatile T *a, T v, int) { atomic_sync(a); T o = *a; *a = o + v; return o; } \
	T __tsan_atomic##B##_fetch_sub(volatile T *a, T v, int) { atomic_sync(a); T o = *a; *a = o - v; return o; } \
	T __tsan_atomic##B##_fetch_and(volatile T *a, T v, int) { atomic_sync(a); T o = *a; *a = o & v; return o; } \
	T __tsan_atomic##B##_fetch_or(volatile T *a, T v, int) { atomic_sync(a); T o = *a; *a = o | v; return o; } \
	T __tsan_atomic##B##_fetch_xor(volatile T *a, T v, int) { atomic_sync(a); T o = *a; *a = o ^ v; return o; } \
	int __tsan_atomic##B##_compare_exchange_strong(volatile T *a, T *e, T v, int, int) { atomic_sync(a); if(*a == *e) { *a = v; return 1; } *e = *a; return 0; } \
	int __tsan_atomic##B##_compare_exchange_weak(volatile T *a, T *e, T v, int m, int n) { return __tsan_atomic##B##_compare_exchange_strong(a, e, v, m, n); } \
	T __tsan_atomic##B##_compare_exchange_val(volatile T *a, T e, T v, int, int) { atomic_sync(a); T o = *a; if(o == e) *a = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}

// ------------------------------------------------------------------ threads which take turns
static const int T = 3;
struct Worker
{
	int nr;
	pthread_t th;
	std::vector<Thing *> things;
	std::vector<Pool *> pools;
	std::vector<long> cap;
};
static Worker workers[T + 1];
static pthread_cond_t turn_changed = PTHREAD_COND_INITIALIZER;
static int turn;                 // whose turn it is; 0 the main thread's
static std::function<void()> job;
static bool quit;
static void *work(void *arg)
{
	Worker *w = (Worker *)arg;
	pthread_attr_t a;
	void *lo; size_t n;
	if(pthread_getattr_np(pthread_self(), &a) || pthread_attr_getstack(&a, &lo, &n)) { fprintf(stderr, "no stack\n"); exit(2); }
	pthread_attr_destroy(&a);
	stack_lo = (uintptr_t)lo; stack_hi = stack_lo + n;
	pthread_mutex_lock(&big);
	for(;;)
	{
		while(turn != w->nr) pthread_cond_wait(&turn_changed, &big);
		if(quit) { turn = 0; pthread_cond_broadcast(&turn_changed); break; }
		job();
		turn = 0;
		pthread_cond_broadcast(&turn_changed);
	}
	pthread_mutex_unlock(&big);
	return nullptr;
}
static void let(int t, std::function<void()> f)
{
	pthread_mutex_lock(&big);
	job = std::move(f);
	turn = t;
	pthread_cond_broadcast(&turn_changed);
	while(turn) pthread_cond_wait(&turn_changed, &big);
	pthread_mutex_unlock(&big);
}
static const char *KINDS[] = {"list", "slist", "stack", "queue", "async", "ht", "rb", "aa", "pool", "buffer"};
static Thing *make(const std::string &kind, Pool *pool)
{
	if(kind == "list") return new TList(pool);
	if(kind == "slist") return new TSList(pool);
	if(kind == "stack") return new TStack(pool, false);
	if(kind == "queue") return new TStack(pool, true);
	if(kind == "async") return new TAsync(pool);
	if(kind == "ht") return new THash(14);
	if(kind == "rb") return new TTree(14, pool);
	if(kind == "aa") return new TArray(14);
	if(kind == "pool") return new TPoolItems(8 + R(60), 2 + R(6));
	return new TBuffer(10);
}
int main(int argc, char **argv)
{
	Args a(argc, argv);
	vp_setup(a.str("report").c_str());
	rnd = Rng((size_t)a.num("seed", 1));
	long runs = a.num("runs", 4), calls = a.num("calls", 1000), lines = 0, total = 0;
	FILE *f = fopen(a.str("trace").c_str(), "w");
	if(!f) { perror("trace"); return 2; }
	std::vector<Thing *> graveyard;
	for(long run = 0; run < runs; ++run)
	{
		vp_rep.history.assign(1, "start");
		fprintf(f, "{\"k\":\"start\"}\n");
		++lines;
		ids = 0; spots.clear(); syncs.clear(); blocks.clear(); told.clear(); named.clear();
		quit = false;
		std::vector<std::string> kinds; // threads use things of the same kinds
		for(int i = 0; i < 4; ++i) kinds.push_back(KINDS[(size_t)(run * 4 + i) % 10]);
		auto call = [&](int t, const std::string &what, std::function<void()> fn)
		{
			events.clear(); R_.clear(); W_.clear(); F_.clear();
			let(t, [&] { on = true; fn(); on = false; });
			flush_acc();
			if(events.empty()) return;
			fprintf(f, "{\"k\":\"call\",\"t\":%d,\"n\":\"%s\",\"ev\":[%s]", t, what.c_str(), events.c_str());
			std::string g;
			for(auto &n : named) if(events.find("," + std::to_string(n.first) + "]") != std::string::npos || events.find("[" + std::to_string(n.first) + "]") != std::string::npos) g += " " + std::to_string(n.first) + "=" + n.second;
			if(!g.empty()) fprintf(f, ",\"named\":\"%s\"", g.c_str());
			fprintf(f, "}\n");
			++lines; ++total;
		};
		for(int t = 1; t <= T; ++t)
		{
			workers[t] = Worker();
			workers[t].nr = t;
			if(pthread_create(&workers[t].th, nullptr, work, &workers[t])) { perror("pthread_create"); return 2; }
		}
		for(int t = 1; t <= T; ++t) for(auto &k : kinds)
		{
			Worker &w = workers[t];
			Pool *p = nullptr;
			if(R(2)) call(t, "memory_pool_new", [&] { p = (Pool *)LIB(memory_pool_new(std::max(sizeof(ListItem), sizeof(RBNode)), 2 + R(6))); });
			w.pools.push_back(p);
			call(t, k + " new", [&] { w.things.push_back(make(k, p)); });
		}
		for(long i = 0; i < calls; ++i)
		{
			int t = 1 + (int)R(T);
			Worker &w = workers[t];
			size_t j = (size_t)R((long)kinds.size());
			Thing *x = w.things[j];
			long c = R(20), n = 0;
			long sz = 0;
			let(t, [&] { sz = x->size(); });
			if(c < 8 && sz < 10 * x->unit()) call(t, kinds[j] + " add", [&] { x->add(); });
			else if(c < 13) call(t, kinds[j] + " sub", [&] { x->sub(); });
			else if(c < 18) call(t, kinds[j] + " look", [&] { x->look(); });
			else if(c < 19) call(t, kinds[j] + " clear", [&] { x->clear(); });
			else
			{
				call(t, kinds[j] + " end", [&] { x->end(); });
				graveyard.push_back(x);
				call(t, kinds[j] + " new", [&] { w.things[j] = make(kinds[j], w.pools[j]); });
			}
			(void)n;
		}
		for(int t = 1; t <= T; ++t)
		{
			Worker &w = workers[t];
			for(size_t j = 0; j < kinds.size(); ++j)
			{
				call(t, kinds[j] + " end", [&] { w.things[j]->end(); });
				graveyard.push_back(w.things[j]);
				if(w.pools[j]) call(t, "memory_pool_destroy", [&] { LIB(memory_pool_destroy((MemoryPool *)w.pools[j])); });
			}
		}
		quit = true;
		for(int t = 1; t <= T; ++t) { let(t, [] {}); pthread_join(workers[t].th, nullptr); }
		for(Thing *x : graveyard) delete x;
		graveyard.clear();
	}
	fclose(f);
	vp_rep.stats["histories"] = runs;
	vp_rep.stats["steps"] = total;
	vp_rep.stats["accesses"] = accesses;
	vp_rep.write();
	return 0;
}
