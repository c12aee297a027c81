// asyncqueue.c against AsyncApi.tla.  The library is compiled with memory access callbacks and its thread,
// clock and heap functions are renamed (see checks.py), so that everything happens in one process thread,
// under a scheduler which owns every choice: who runs, who is woken, spurious wake-ups, the time.
#define CORE_IMPL
#include "core.hpp"
#include <errno.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdbool.h>
#include <sys/mman.h>
#include <time.h>
extern "C" {
#include "asyncqueue.h"
#include "pool.h"
}
#ifdef CROWD // very many threads, few schedules, memory accesses are not ordered
#define MAXT 700
#else
#define MAXT 6
#endif
// ------------------------------------------------------------------ coroutines
extern "C" void co_switch(void **from, void *to);
asm(R"(
.text
.globl co_switch
.type co_switch,@function
co_switch:
	pushq %rbp
	pushq %rbx
	pushq %r12
	pushq %r13
	pushq %r14
	pushq %r15
	movq %rsp, (%rdi)
	movq %rsi, %rsp
	popq %r15
	popq %r14
	popq %r13
	popq %r12
	popq %rbx
	popq %rbp
	ret
.size co_switch,.-co_switch
)");
typedef uint32_t VC[MAXT];
static void vc_join(VC a, const VC b) { for(int i = 0; i < MAXT; ++i) if(b[i] > a[i]) a[i] = b[i]; }
struct Mutex { int owner = -1, depth = 0, type = 0; VC vc = {0}; bool dead = false; };
struct Cond { int clock = CLOCK_REALTIME; bool dead = false; };
enum St { READY, LOCK, WAIT, SLEEP, FIN };
struct Th
{
	int id;
	char *stack;
	void *sp;
	St st = FIN;
	void *mutex = nullptr, *cond = nullptr; // waiting for
	bool timed = false;
	int64_t until = 0;                      // SLEEP, timed WAIT (real time line of the clock used)
	int rc = 0, inop = 0;
	VC vc = {0};
	std::vector<long> freed;
};
#ifdef CROWD
static const size_t STACK = 64 << 10, ARENA = 32 << 20;
#else
static const size_t STACK = 256 << 10, ARENA = 1 << 20;
#endif
static char *stacks, *arena;
struct Cell { uint8_t wt; uint32_t wc; uint32_t r[MAXT]; };
static Cell *shadow;
static std::unordered_map<uintptr_t, Cell> gshadow;
struct Block { size_t at, size; bool freed; int kind; };
static std::vector<Block> blocks;
static std::vector<int> granule; // block of every 16 bytes, -1: none
static size_t bump;
static std::unordered_map<void *, Mutex> mutexes;
static std::unordered_map<void *, Cond> conds;
static std::unordered_map<uintptr_t, std::vector<uint32_t>> atomics;
static Th th[MAXT];
static int nth;
static Th *cur;
static void *sched_sp;
static int64_t now_ns, base_ns;
static bool mem_points, ended;
static int preempt_left, spurious_left;
static long steps, step_limit = 400000;
static bool exploring; // inside the schedule of the workload (not initialisation or destruction)

// ------------------------------------------------------------------ what is judged
static std::string judge; // R results, W blocking, T time, X exclusion, F freeing
static bool judged(char c) { return judge.find(c) != std::string::npos; }
static std::vector<std::string> events;
static std::string path_text();
[[noreturn]] static void fail(const std::string &kind, const std::string &detail)
{
	vp_rep.history = events;
	vp_rep.history.push_back("schedule: " + path_text());
	vp_rep.fail(kind, detail);
}
static void leave();
// a deviation of class c: a violation if it is judged here, otherwise the execution is given up
static void deviation(char c, const std::string &kind, const std::string &detail)
{
	if(ended) return;
	if(judged(c) && !(c == 'T' && steps > 20000)) fail(kind, detail);
	ended = true;
	++vp_rep.stats["abandoned"];
	if(cur) leave();
}
static std::string tn(int t) { return t ? "thread " + std::to_string(t) : "the main thread"; }

// ------------------------------------------------------------------ switching
static void to_sched() { Th *t = cur; vp_in_lib = 0; cur = nullptr; co_switch(&t->sp, sched_sp); vp_in_lib = t->inop; }
static void leave() { cur->st = FIN; for(;;) to_sched(); }
static bool others()
{
	if(spurious_left) for(int i = 0; i < nth; ++i) if(th[i].st == WAIT) return true;
	for(int i = 0; i < nth; ++i)
	{
		Th &t = th[i];
		if(&t == cur) continue;
		if(t.st == READY || (t.st == LOCK && mutexes[t.mutex].owner < 0) || ((t.st == SLEEP || (t.st == WAIT && t.timed)) && t.until <= now_ns)) return true;
	}
	return false;
}
// a very long execution: from here on everybody gets his turn and the time passes
static const long LONG = 20000;
static bool may_rest();
static void step()
{
	if(++steps <= LONG) return;
	if(steps > step_limit)
	{
		if(!may_rest()) fail("hang", "an operation does not come to an end although every thread gets its turn and the time passes");
		deviation('-', "", "");
	}
	if(steps % 64 == 0 && cur && exploring) { cur->st = READY; to_sched(); }
}
// a place where another thread may be scheduled
static void point()
{
	if(!cur || !exploring) return;
	step();
	if(preempt_left > 0 && others()) { cur->st = READY; to_sched(); }
}

// ------------------------------------------------------------------ memory
static void bad_access(const char *what, const volatile void *p)
{
	fail("memory", std::string("the library ") + what + " (" + (cur ? tn(cur->id) : "") + ")");
}
static void access(const volatile void *p, size_t n, bool write, bool atomic = false)
{
	uintptr_t a = (uintptr_t)p;
	if(a >= (uintptr_t)stacks && a < (uintptr_t)stacks + STACK * MAXT) return;
	bool in = a >= (uintptr_t)arena && a < (uintptr_t)arena + ARENA;
	if(in)
	{
		size_t o = a - (uintptr_t)arena;
		int b = granule[o >> 4];
		if(b < 0 || o < blocks[b].at || o + n > blocks[b].at + blocks[b].size) bad_access("uses memory outside of its blocks", p);
		if(blocks[b].freed) bad_access("uses memory which was given back", p);
	}
	if(!cur) return;
	int t = cur->id;
	step();
	if(mem_points && exploring) { if(preempt_left > 0 && others()) { cur->st = READY; to_sched(); } }
#ifdef CROWD
	return;
#endif
	if(atomic) return;
	for(size_t i = 0; i < n; ++i)
	{
		Cell &c = in ? shadow[a - (uintptr_t)arena + i] : gshadow[a + i];
		bool race = c.wc > cur->vc[c.wt] && c.wt != t;
		int with = c.wt;
		if(write && !race) for(int k = 0; k < MAXT; ++k) if(k != t && c.r[k] > cur->vc[k]) { race = true; with = k; break; }
		if(race)
		{
			std::string where = in ? "byte " + std::to_string(a - (uintptr_t)arena + i - blocks[granule[(a - (uintptr_t)arena) >> 4]].at) + " of a block of " + std::to_string(blocks[granule[(a - (uintptr_t)arena) >> 4]].size) + " bytes" : "a global variable";
			deviation('X', "unordered accesses", tn(t) + (write ? " writes " : " reads ") + where + " while " + tn(with) + " uses it: nothing orders these accesses");
			return;
		}
		if(write) { c.wt = t; c.wc = cur->vc[t]; }
		else c.r[t] = cur->vc[t];
	}
}
static int junk = 0xAB; // what fresh memory is full of
static void *arena_alloc(size_t n, int kind)
{
	bump = (bump + 31) & ~(size_t)15;
	if(bump + n + 32 > ARENA) { fprintf(stderr, "the arena is full\n"); _exit(2); }
	int id = blocks.size();
	blocks.push_back({bump, n, false, kind});
	size_t end = bump + (n ? n : 1);
	for(size_t g = bump >> 4; g <= (end - 1) >> 4; ++g) granule[g] = id;
	void *r = arena + bump;
	bump = end;
	memset(r, junk, n);
	// fresh memory is not shared with anybody
#ifndef CROWD
	memset(shadow + ((char *)r - arena), 0, sizeof(Cell) * n);
#endif
	return r;
}
static Block *block_at(void *p)
{
	char *c = (char *)p;
	if(c < arena || c >= arena + ARENA) return nullptr;
	int b = granule[(c - arena) >> 4];
	return b >= 0 && blocks[b].at == (size_t)(c - arena) ? &blocks[b] : nullptr;
}
extern "C" {
void *vq_malloc(size_t n) { return arena_alloc(n, 1); }
void *vq_calloc(size_t a, size_t b) { void *p = arena_alloc(a * b, 1); memset(p, 0, a * b); return p; }
void vq_free(void *p)
{
	if(!p) return;
	Block *b = block_at(p);
	if(!b || b->freed || b->kind != 1) fail("memory", "free() of something that is not an allocated block");
	access(p, b->size, true);
	b->freed = true;
}
void *vq_realloc(void *p, size_t n)
{
	if(!p) return vq_malloc(n);
	Block *b = block_at(p);
	if(!b || b->freed || b->kind != 1) fail("memory", "realloc() of something that is not an allocated block");
	size_t old = b->size;
	void *q = arena_alloc(n, 1);
	memcpy(q, p, old < n ? old : n);
	vq_free(p);
	return q;
}
#define RD(n) void __tsan_read##n(void *p) { access(p, n, false); } void __tsan_unaligned_read##n(void *p) { access(p, n, false); } void __tsan_volatile_read##n(void *p) { access(p, n, false); } void __tsan_unaligned_volatile_read##n(void *p) { access(p, n, false); }
#define WR(n) void __tsan_write##n(void *p) { access(p, n, true); } void __tsan_unaligned_write##n(void *p) { access(p, n, true); } void __tsan_volatile_write##n(void *p) { access(p, n, true); } void __tsan_unaligned_volatile_write##n(void *p) { access(p, n, true); } void __tsan_read_write##n(void *p) { access(p, n, false); access(p, n, true); } void __tsan_unaligned_read_write##n(void *p) { access(p, n, false); access(p, n, true); }
RD(1) RD(2) RD(4) RD(8) RD(16)
WR(1) WR(2) WR(4) WR(8) WR(16)
void __tsan_read_range(void *p, size_t n) { access(p, n, false); }
void __tsan_write_range(void *p, size_t n) { access(p, n, true); }
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
void *__tsan_memset(void *p, int c, size_t n) { if(n) access(p, n, true); return memset(p, c, n); }
void *__tsan_memcpy(void *d, const void *s, size_t n) { if(n) { access(s, n, false); access(d, n, true); } return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { if(n) { access(s, n, false); access(d, n, true); } return memmove(d, s, n); }
static void atomic_sync(const volatile void *p, size_t n, bool write)
{
	access(p, n, write, true);
	point();
	if(!cur) return;
	auto &v = atomics[(uintptr_t)p];
	v.resize(MAXT);
	vc_join(cur->vc, v.data());
	for(int i = 0; i < MAXT; ++i) if(cur->vc[i] > v[i]) v[i] = cur->vc[i];
	++cur->vc[cur->id];
}
#define AT(B, T) \
	T __tsan_atomic##B##_load(const volatile T *a, int) { atomic_sync(a, sizeof *a, false); return *a; } \
	void __tsan_atomic##B##_store(volatile T *a, T v, int) { atomic_sync(a, sizeof *a, true); *a = v; } \
	T __tsan_atomic##B##_exchange(volatile T *a, T v, int) { atomic_sync(a, sizeof *a, true); T o = *a; *a = v; return o; } \
	T __tsan_atomic##B##_fetch_add(volatile T *a, T v, int) { atomic_sync(a, sizeof *a, true); T o = *a; *a = o + v; return o; } \
	T __tsan_atomic##B##_fetch_sub(volatile T *a, T v, int) { atomic_sync(a, sizeof *a, true); T o = *a; *a = o - v; return o; } \
	T __tsan_atomic##B##_fetch_and(volatile T *a, T v, int) { atomic_sync(a, sizeof *a, true); T o = *a; *a = o & v; return o; } \
	T __tsan_atomic##B##_fetch_or(volatile T *a, T v, int) { atomic_sync(a, sizeof *a, true); T o = *a; *a = o | v; return o; } \
	T __tsan_atomic##B##_fetch_xor(volatile T *a, T v, int) { atomic_sync(a, sizeof *a, true); T o = *a; *a = o ^ v; return o; } \
	int __tsan_atomic##B##_compare_exchange_strong(volatile T *a, T *e, T v, int, int) { atomic_sync(a, sizeof *a, true); if(*a == *e) { *a = v; return 1; } *e = *a; return 0; } \
	int __tsan_atomic##B##_compare_exchange_weak(volatile T *a, T *e, T v, int m, int n) { return __tsan_atomic##B##_compare_exchange_strong(a, e, v, m, n); } \
	T __tsan_atomic##B##_compare_exchange_val(volatile T *a, T e, T v, int, int) { atomic_sync(a, sizeof *a, true); T o = *a; if(o == e) *a = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// ------------------------------------------------------------------ threads
// all zeroes are PTHREAD_MUTEX_INITIALIZER and PTHREAD_COND_INITIALIZER
static bool zeroes(void *p, size_t n) { for(size_t i = 0; i < n; ++i) if(((char *)p)[i]) return false; return true; }
static Mutex &mtx(void *m)
{
	auto it = mutexes.find(m);
	if(it != mutexes.end()) return it->second;
	if(!zeroes(m, sizeof(pthread_mutex_t))) deviation('X', "mutex not initialised", "a mutex is used which was never initialised");
	return mutexes[m];
}
static void cnd(void *c)
{
	if(!conds.count(c) && !zeroes(c, sizeof(pthread_cond_t))) deviation('W', "condition not initialised", "a condition is used which was never initialised");
}
static int me() { return cur ? cur->id : 0; }
static void acquired(Mutex &m, int t) { m.owner = t; m.depth = 1; if(cur) vc_join(cur->vc, m.vc); }
static void release(Mutex &m) { m.owner = -1; if(cur) { memcpy(m.vc, cur->vc, sizeof(VC)); ++cur->vc[cur->id]; } }
int vq_pthread_mutexattr_init(int *a) { *a = 0; return 0; }
int vq_pthread_mutexattr_destroy(int *a) { return 0; }
int vq_pthread_mutexattr_settype(int *a, int t) { *a = t; return 0; }
int vq_pthread_mutexattr_gettype(int *a, int *t) { *t = *a; return 0; }
int vq_pthread_condattr_init(int *a) { *a = CLOCK_REALTIME; return 0; }
int vq_pthread_condattr_destroy(int *a) { return 0; }
int vq_pthread_condattr_setclock(int *a, clockid_t c) { *a = c; return 0; }
int vq_pthread_mutex_init(void *m, const int *a)
{
	Mutex n;
	if(a) n.type = *a;
	mutexes[m] = n;
	return 0;
}
int vq_pthread_mutex_destroy(void *m)
{
	Mutex &x = mtx(m);
	if(x.owner >= 0) { deviation('X', "locked mutex destroyed", tn(me()) + " destroys a mutex which is locked by " + tn(x.owner)); return EBUSY; }
	x.dead = true;
	return 0;
}
static int lock_(void *m, bool again)
{
	Mutex *x = &mtx(m);
	if(x->dead) { deviation('X', "destroyed mutex used", tn(me()) + " locks a mutex which was destroyed"); return EINVAL; }
	if(x->owner == me() && x->owner >= 0)
	{
		if(x->type == PTHREAD_MUTEX_RECURSIVE) { ++x->depth; return 0; }
		if(x->type == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
	}
	while(x->owner >= 0)
	{
		if(!cur) fail("deadlock", "the queue is locked although no operation is running");
		cur->st = LOCK; cur->mutex = m;
		to_sched();
		x = &mtx(m);
	}
	acquired(*x, me());
	return 0;
}
int vq_pthread_mutex_lock(void *m) { point(); return lock_(m, false); }
int vq_pthread_mutex_timedlock(void *m, const struct timespec *) { point(); return lock_(m, false); }
int vq_pthread_mutex_trylock(void *m)
{
	point();
	Mutex &x = mtx(m);
	if(x.owner >= 0)
	{
		if(x.owner == me() && x.type == PTHREAD_MUTEX_RECURSIVE) { ++x.depth; return 0; }
		return EBUSY;
	}
	acquired(x, me());
	return 0;
}
int vq_pthread_mutex_unlock(void *m)
{
	point();
	Mutex &x = mtx(m);
	if(x.owner != me()) { deviation('X', "mutex unlocked by a thread that does not hold it", tn(me()) + " unlocks a mutex it does not hold"); return EPERM; }
	if(--x.depth) return 0;
	release(x);
	return 0;
}
int vq_pthread_cond_init(void *c, const int *a) { Cond n; if(a) n.clock = *a; conds[c] = n; return 0; }
int vq_pthread_cond_destroy(void *c)
{
	for(int i = 0; i < nth; ++i) if(th[i].st == WAIT && th[i].cond == c) { deviation('X', "condition destroyed", "a condition is destroyed while " + tn(i) + " waits for it"); return EBUSY; }
	conds[c].dead = true;
	return 0;
}
static int64_t clock_ns(int c) { return now_ns + (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE ? base_ns : (int64_t)5000 * 1000000000 + 123456789); }
static int wait_(void *c, void *m, const struct timespec *ts, int clk)
{
	Mutex &x = mtx(m);
	if(x.owner != me() || !cur) { deviation('X', "wait without the mutex", tn(me()) + " waits without holding the mutex"); return EPERM; }
	cnd(c);
	if(ts && (ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000)) return EINVAL;
	point();
	cur->timed = ts != nullptr;
	if(ts)
	{
		__int128 d = (__int128)ts->tv_sec * 1000000000 + ts->tv_nsec - clock_ns(clk) + now_ns;
		cur->until = d > INT64_MAX / 2 ? INT64_MAX / 2 : d < INT64_MIN / 2 ? INT64_MIN / 2 : (int64_t)d;
		if(cur->until <= now_ns)
		{
			// the time is over already; the mutex is released and taken all the same
			int depth = mtx(m).depth;
			release(mtx(m));
			point();
			lock_(m, true);
			mtx(m).depth = depth;
			return ETIMEDOUT;
		}
	}
	int depth = mtx(m).depth;
	release(mtx(m));
	cur->st = WAIT; cur->cond = c; cur->mutex = m; cur->rc = 0;
	to_sched(); // resumed by the scheduler when woken and the mutex is free
	int rc = cur->rc;
	lock_(m, true);
	mtx(m).depth = depth;
	return rc;
}
int vq_pthread_cond_wait(void *c, void *m) { return wait_(c, m, nullptr, 0); }
int vq_pthread_cond_timedwait(void *c, void *m, const struct timespec *ts) { return wait_(c, m, ts, conds[c].clock); }
int vq_pthread_cond_clockwait(void *c, void *m, clockid_t clk, const struct timespec *ts) { return wait_(c, m, ts, clk); }
int choose(int n);
int vq_pthread_cond_signal(void *c)
{
	point();
	cnd(c);
	std::vector<int> w;
	for(int i = 0; i < nth; ++i) if(th[i].st == WAIT && th[i].cond == c) w.push_back(i);
	if(!w.empty())
	{
		Th &t = th[w[choose(w.size())]];
		t.st = LOCK; t.rc = 0;
	}
	return 0;
}
int vq_pthread_cond_broadcast(void *c)
{
	point();
	cnd(c);
	for(int i = 0; i < nth; ++i) if(th[i].st == WAIT && th[i].cond == c) { th[i].st = LOCK; th[i].rc = 0; }
	return 0;
}
pthread_t vq_pthread_self() { return (pthread_t)(me() + 1); }
int vq_gettimeofday(struct timeval *tv, void *)
{
	int64_t t = clock_ns(CLOCK_REALTIME);
	tv->tv_sec = t / 1000000000; tv->tv_usec = t % 1000000000 / 1000;
	return 0;
}
int vq_clock_gettime(clockid_t c, struct timespec *ts)
{
	int64_t t = clock_ns(c);
	ts->tv_sec = t / 1000000000; ts->tv_nsec = t % 1000000000;
	return 0;
}
int vq_timespec_get(struct timespec *ts, int b) { vq_clock_gettime(CLOCK_REALTIME, ts); return b; }
time_t vq_time(time_t *p) { time_t t = clock_ns(CLOCK_REALTIME) / 1000000000; if(p) *p = t; return t; }
static void sleep_(int64_t ns)
{
	if(!cur) return;
	cur->until = now_ns + ns;
	cur->st = SLEEP;
	to_sched();
}
int vq_nanosleep(const struct timespec *a, struct timespec *) { sleep_((int64_t)a->tv_sec * 1000000000 + a->tv_nsec); return 0; }
int vq_usleep(unsigned us) { sleep_((int64_t)us * 1000); return 0; }
unsigned vq_sleep(unsigned s) { sleep_((int64_t)s * 1000000000); return 0; }
int vq_sched_yield() { if(cur) { cur->st = READY; to_sched(); } return 0; }
static void dies(const char *what) { fail("the library ends the process", what); }
void vq_err(int, const char *f, ...) { dies("err()"); }
void vq_errx(int, const char *f, ...) { dies("errx()"); }
void vq_abort() { dies("abort()"); }
void vq_exit(int) { dies("exit()"); }
void vq__exit(int) { dies("_exit()"); }
void vq___assert_fail() { dies("assert()"); }
}

// ------------------------------------------------------------------ choices
struct Choice { int c, n; };
static std::vector<Choice> path;
static size_t at;
static Rng *rnd;
int choose(int n)
{
	if(n <= 1) return 0;
	if(at < path.size())
	{
		if(path[at].n != n) { fprintf(stderr, "an execution does not repeat: %d choices instead of %d\n", n, path[at].n); _exit(2); }
		return path[at++].c;
	}
	int c = rnd ? (int)rnd->below(n) : 0;
	path.push_back({c, n});
	++at;
	return c;
}
static std::string path_text()
{
	std::string r;
	for(size_t i = 0; i < at; ++i) r += (i ? " " : "") + std::to_string(path[i].c) + "/" + std::to_string(path[i].n);
	return r;
}
static bool backtrack()
{
	while(!path.empty() && path.back().c + 1 >= path.back().n) path.pop_back();
	if(path.empty()) return false;
	++path.back().c;
	return true;
}

// ------------------------------------------------------------------ the specification
struct Edge { std::string e; int to; };
struct Api
{
	std::unordered_map<std::string, int> id;
	std::vector<int> flags;
	std::vector<std::vector<int>> inner;
	std::vector<std::vector<Edge>> vis;
	std::vector<std::vector<std::pair<long, int>>> adv;
	std::map<int, int> init;
	long ntrans = 0;
	int get(const std::string &s)
	{
		auto r = id.emplace(s, (int)flags.size());
		if(r.second) { flags.push_back(-1); inner.emplace_back(); vis.emplace_back(); adv.emplace_back(); }
		return r.first->second;
	}
	static std::string ev(const std::string &k, long t, long ok, long v, std::vector<long> f)
	{
		std::sort(f.begin(), f.end());
		return k + " " + std::to_string(t) + " " + std::to_string(ok) + " " + std::to_string(v) + " " + jarr(f);
	}
	void load(const char *file, const std::function<bool(int)> &mine)
	{
		FILE *f = fopen(file, "r");
		if(!f) { perror(file); exit(2); }
		char *line = nullptr;
		size_t cap = 0;
		ssize_t n;
		while((n = getline(&line, &cap, f)) > 0)
		{
			if(line[0] != '"') continue;
			while(n && (line[n - 1] == '\n' || line[n - 1] == '"')) --n;
			std::string s;
			for(ssize_t i = 1; i < n; ++i) { if(line[i] == '\\' && i + 1 < n) ++i; s += line[i]; }
			// the workload is the first number of a state
			size_t w0 = s.find("<<");
			int wl = atoi(s.c_str() + w0 + 2);
			if(!mine(wl)) continue;
			JV v = jparse(s);
			if(v.o.count("init")) { int x = get(v["init"].s); flags[x] = v["f"].n; init[v["w"].n] = x; continue; }
			int a = get(v["s"].s), b = get(v["t"].s);
			flags[b] = v["f"].n;
			const JV &e = v["e"];
			++ntrans;
			if(e[0].s == "in") inner[a].push_back(b);
			else if(e[0].s == "advance") adv[a].push_back({e[1].n, b});
			else
			{
				std::vector<long> fr;
				for(auto &x : e[2][2].a) fr.push_back(x.n);
				vis[a].push_back({ev(e[0].s, e[1].n, e[2][0].n, e[2][1].n, fr), b});
			}
		}
		free(line);
		fclose(f);
	}
	// deterministic automaton, built as needed
	std::map<std::vector<int>, int> setid;
	std::vector<std::vector<int>> sets; // closed under internal steps
	std::vector<std::unordered_map<std::string, int>> next;
	int mk(std::vector<int> s)
	{
		std::set<int> seen(s.begin(), s.end());
		while(!s.empty()) { int x = s.back(); s.pop_back(); for(int y : inner[x]) if(seen.insert(y).second) s.push_back(y); }
		std::vector<int> c(seen.begin(), seen.end());
		auto r = setid.emplace(c, (int)sets.size());
		if(r.second) { sets.push_back(c); next.emplace_back(); }
		return r.first->second;
	}
	// successors by an event whose text starts with pre (or equals it); -1: none
	int go(int set, const std::string &e)
	{
		auto f = next[set].find(e);
		if(f != next[set].end()) return f->second;
		std::vector<int> r;
		for(int x : sets[set]) for(auto &d : vis[x]) if(d.e == e) r.push_back(d.to);
		int n = r.empty() ? -1 : mk(r);
		next[set][e] = n;
		return n;
	}
	// is there such an event if one ignores what was freed?
	bool partly(int set, const std::string &e)
	{
		auto cut = [](const std::string &s) { return s.substr(0, s.find('[')); };
		for(int x : sets[set]) for(auto &d : vis[x]) if(cut(d.e) == cut(e)) return true;
		return false;
	}
	int rest(int set, int bit)
	{
		std::string key = "\1" + std::to_string(bit);
		auto f = next[set].find(key);
		if(f != next[set].end()) return f->second;
		std::vector<int> r;
		for(int x : sets[set]) if(flags[x] & bit) r.push_back(x);
		int n = r.empty() ? -1 : mk(r);
		next[set][key] = n;
		return n;
	}
	int advance(int set, long d)
	{
		std::string key = "\2" + std::to_string(d);
		auto f = next[set].find(key);
		if(f != next[set].end()) return f->second;
		std::vector<int> r;
		for(int x : sets[set]) for(auto &y : adv[x]) if(y.first == d) r.push_back(y.second);
		int n = r.empty() ? -1 : mk(r);
		next[set][key] = n;
		return n;
	}
	std::string allowed(int set)
	{
		std::set<std::string> s;
		for(int x : sets[set]) { for(auto &d : vis[x]) s.insert(d.e); for(auto &y : adv[x]) s.insert("time passes: " + std::to_string(y.first)); if(flags[x] & 1) s.insert("rest"); }
		std::string r;
		for(auto &x : s) r += (r.empty() ? "" : "; ") + x;
		return r;
	}
};
static Api api;
static bool strict_;
static int state;
static int64_t acc; // time that passed and was not told to the specification yet
static int64_t unit_ns;
#ifdef CROWD
static bool may_rest() { return false; }
#else
static bool may_rest() { return api.rest(state, 1) >= 0; }
#endif
static void told() // tell the specification about the time
{
	if(!strict_) { acc = 0; return; } // the clock is not judged (and no workload sleeps)
	const int64_t tol = 500000;
	while(acc > tol)
	{
		long d = -1;
		for(int x : api.sets[state]) for(auto &y : api.adv[x]) d = d < 0 ? y.first : std::min(d, y.first);
		if(d < 0 || d * unit_ns > acc + tol)
		{
			deviation('T', "time", std::to_string(acc / 1000000) + " ms passed while nobody could go on, allowed here: " + api.allowed(state));
			return;
		}
		state = api.advance(state, d);
		acc -= d * unit_ns;
		events.push_back("time passes: " + std::to_string(d) + " units");
	}
	acc = 0;
}
static void see(const std::string &kind, int t, long ok, long v, std::vector<long> fr, const std::string &op)
{
	if(ended) return;
	told();
	if(ended) return;
	std::string e = Api::ev(kind, t, ok, v, fr);
	events.push_back(kind + " " + tn(t) + " " + op + (kind == "call" ? "" : " -> " + std::to_string(ok) + " " + std::to_string(v) + " freed " + jarr(fr)));
	int n = api.go(state, e);
	if(n >= 0) { state = n; return; }
	if(kind == "call") { fprintf(stderr, "the specification refuses a call\n"); _exit(2); }
	std::string what = events.back() + " is impossible here, allowed: " + api.allowed(state);
	bool rok = api.partly(state, e);
	if(judged('F') && (rok || (!fr.empty() && op != "clear"))) fail("freeing", what);
	char c = rok ? 'F' : 'R';
	if(!rok && strict_ && !ok && (op == "pop" || op == "tpop")) c = op == "pop" ? 'W' : 'T'; // failed although it may not yet
	deviation(c, "result", what);
}

// ------------------------------------------------------------------ pool, free function, items
static int items[256];
static long value_of(void *p)
{
	if(!p) return 0;
	if((int *)p < items || (int *)p >= items + 256) return -1;
	return (int *)p - items;
}
static int in_free, in_pool;
static void free_item(void *p)
{
	UserScope u;
	long v = value_of(p);
	if(v <= 0) { if(judged('F')) fail("freeing", "the free function is called with something that was never pushed"); deviation('F', "freeing", ""); return; }
	if(in_free >= 0 && in_free != me()) deviation('X', "free function entered twice", tn(me()) + " calls the free function while " + tn(in_free) + " is inside it");
	int was = in_free;
	in_free = me();
	point();
	if(cur) cur->freed.push_back(v);
	point();
	in_free = was;
}
struct TP { Pool p; size_t size; long live; } tp;
static void tp_enter(const char *f)
{
	if(in_pool >= 0 && in_pool != me()) deviation('X', "pool entered twice", tn(me()) + " calls the pool's " + f + " function while " + tn(in_pool) + " is inside the pool");
	in_pool = me();
	point();
}
static void *tp_alloc(Pool *) { UserScope u; tp_enter("alloc"); void *r = arena_alloc(tp.size, 2); ++tp.live; point(); in_pool = -1; return r; }
static void tp_free(Pool *, void *x)
{
	UserScope u;
	tp_enter("free");
	Block *b = block_at(x);
	if(!b || b->kind != 2 || b->freed) { if(judged('F')) fail("memory", "something is given to the pool which it has not handed out, or twice"); deviation('F', "memory", ""); }
	else { b->freed = true; --tp.live; }
	point();
	in_pool = -1;
}

// ------------------------------------------------------------------ running a workload
struct Op { std::string k; long a; };
struct Workload { std::vector<std::vector<Op>> p; int64_t unit; bool fr; };
static Workload *wl;
static AsyncQueue *Q;
static std::string pool_kind, life;
static bool with_free;
static MemoryPool *mp;
static int32_t cmp_items(const void *a, const void *b) { return (a > b) - (a < b); }
#define IN(x) (cur->inop = 1, vp_in_lib = 1, ++vp_calls, (x), vp_in_lib = 0, cur->inop = 0)
static void run_op(Th *t, const Op &o)
{
	long ok = 1, v = 0;
	t->freed.clear();
	see("call", t->id, 0, 0, {}, o.k + " " + std::to_string(o.a));
	if(ended) leave();
	void *d = &items[255];
	if(o.k == "push") IN(async_queue_push(Q, o.a ? &items[o.a] : nullptr));
	else if(o.k == "pop") { IN(ok = async_queue_pop(Q, &d)); v = ok ? value_of(d) : 0; }
	else if(o.k == "tpop") { uint32_t ms = (uint32_t)(o.a * (wl->unit)); IN(ok = async_queue_pop_timeout(Q, &d, ms)); v = ok ? value_of(d) : 0; }
	else if(o.k == "count") IN(v = (long)async_queue_count(Q));
	else if(o.k == "clear") IN(async_queue_clear(Q));
	else if(o.k == "sleep") { sleep_(o.a * unit_ns); if(ended) leave(); see("ret", t->id, 0, 0, {}, "sleep"); return; }
	else { fprintf(stderr, "unknown operation\n"); _exit(2); }
	for(auto &m : mutexes) if(m.second.owner == t->id) deviation('X', "left locked", tn(t->id) + " returns from " + o.k + " and keeps the queue locked");
	see("ret", t->id, ok ? 1 : 0, v, t->freed, o.k);
	if(ended) leave();
}
#ifdef CROWD
static void body(int id);
#else
static void body(int id)
{
	Th *t = &th[id];
	if(id)
	{
		for(auto &o : wl->p[id - 1]) run_op(t, o);
	}
	else if(!exploring && !Q)
	{
		Pool *p = nullptr;
		mp = nullptr;
		if(pool_kind == "custom") { p = &tp.p; tp.p.alloc = tp_alloc; tp.p.free = tp_free; tp.size = sizeof(SListItem); tp.live = 0; }
		if(pool_kind == "mp") { IN(mp = memory_pool_new(sizeof(SListItem), 2)); p = (Pool *)mp; }
		if(life == "init") { AsyncQueue *q = (AsyncQueue *)arena_alloc(sizeof(AsyncQueue), 3); IN(async_queue_init(q, cmp_items, with_free ? free_item : nullptr, p)); Q = q; }
		else IN(Q = async_queue_new(cmp_items, with_free ? free_item : nullptr, p));
	}
	else
	{
		t->freed.clear();
		if(life == "init") IN(async_queue_free(Q)); else IN(async_queue_destroy(Q));
		see("destroy", 0, 1, 0, t->freed, "destroy");
		if(!ended)
		{
			if(mp) IN(memory_pool_destroy(mp));
			long left = 0;
			for(auto &b : blocks) if(b.kind < 3 && !b.freed) ++left;
			if(left) deviation('F', "memory", std::to_string(left) + " blocks or pool items were not given back when the queue was destroyed");
		}
	}
	leave();
}
#endif
static void trampoline() { int id = cur->id; vp_in_lib = 0; body(id); }
static void spawn(int id)
{
	Th &t = th[id];
	t.id = id; t.stack = stacks + STACK * id; t.st = READY; t.inop = 0; t.freed.clear(); t.timed = false;
	uintptr_t *s = (uintptr_t *)(t.stack + STACK - 64);
	*--s = 0;
	*--s = (uintptr_t)trampoline;
	for(int i = 0; i < 6; ++i) *--s = 0;
	t.sp = s;
}
static void resume(int i) { cur = &th[i]; co_switch(&sched_sp, th[i].sp); cur = nullptr; }
static bool can(const Th &t)
{
	if(t.st == READY) return true;
	if(t.st == LOCK) return mutexes[t.mutex].owner < 0;
	if(t.st == SLEEP || (t.st == WAIT && t.timed)) return t.until <= now_ns;
	return false;
}
static void schedule()
{
	int last = -1;
	while(!ended)
	{
		struct O { int t; bool spur; } opt[3 * MAXT];
		int n = 0;
		bool cont = last >= 0 && can(th[last]);
		bool turn = ++steps > LONG;
		if(turn)
		{
			int r = -1;
			for(int k = 1; k <= nth; ++k) { int i = (last + k) % nth; if(i >= 1 && can(th[i])) { r = i; break; } }
			if(steps % 100 == 0) now_ns += 1000000000, acc += 1000000000;
			if(steps > step_limit) step();
			if(r > 0) { opt[n++] = {r, false}; }
		}
		else
		{
			if(cont) opt[n++] = {last, false};
			if(!cont || preempt_left > 0)
			{
				for(int i = 1; i < nth; ++i) if(i != last && can(th[i])) opt[n++] = {i, false};
				if(spurious_left && (n > 0 || !cont)) for(int i = 1; i < nth; ++i) if(th[i].st == WAIT && mutexes[th[i].mutex].owner < 0 && !(th[i].timed && th[i].until <= now_ns)) opt[n++] = {i, true};
			}
		}
		bool alive = false;
		for(int i = 1; i < nth; ++i) if(th[i].st != FIN) alive = true;
		if(!alive) return;
		bool only_spurious = true;
		for(int i = 0; i < n; ++i) if(!opt[i].spur) only_spurious = false;
		if(only_spurious)
		{
			// nobody can go on by himself
			{
				int r = api.rest(state, 1);
				if(r < 0)
				{
					std::string who;
					for(int i = 1; i < nth; ++i) if(th[i].st != FIN) who += (who.empty() ? "" : ", ") + tn(i);
					deviation('W', "blocked", who + " cannot go on although the specification lets them; allowed here: " + api.allowed(state));
					return;
				}
				if(judged('W')) state = r; // otherwise what was seen here must not decide about results
			}
			int64_t t = -1;
			for(int i = 1; i < nth; ++i) if(th[i].st == SLEEP || (th[i].st == WAIT && th[i].timed)) t = t < 0 ? th[i].until : std::min(t, th[i].until);
			int c = choose(n + (t >= 0 ? 1 : 0));
			if(t >= 0 && c == 0)
			{
				acc += t - now_ns;
				now_ns = t;
				last = -1;
				continue;
			}
			if(n == 0)
			{
				if(strict_)
				{
					told();
					if(!ended && api.rest(state, 2) < 0) deviation('T', "blocked", "a timed pop waits without a time limit; allowed here: " + api.allowed(state));
				}
				return;
			}
			O o = opt[c - (t >= 0 ? 1 : 0)];
			--spurious_left;
			events.push_back(tn(o.t) + " is woken spuriously");
			th[o.t].st = LOCK; th[o.t].rc = 0;
			last = o.t;
			resume(o.t);
			continue;
		}
		O o = opt[choose(n)];
		if(cont && o.t != last) --preempt_left;
		if(o.spur)
		{
			--spurious_left;
			events.push_back(tn(o.t) + " is woken spuriously");
			th[o.t].st = LOCK; th[o.t].rc = 0;
		}
		else if(th[o.t].st == WAIT) { th[o.t].rc = ETIMEDOUT; th[o.t].st = LOCK; if(mutexes[th[o.t].mutex].owner >= 0) { last = -1; continue; } }
		last = o.t;
		resume(o.t);
	}
}
static void execute(int wi, int preempt, int spurious, int64_t offset_us)
{
	// a fresh world
	for(auto &b : blocks) { for(size_t g = b.at >> 4; g <= (b.at + b.size) >> 4; ++g) granule[g] = -1; }
	blocks.clear();
	bump = 64;
	mutexes.clear(); conds.clear(); atomics.clear(); gshadow.clear();
	events.clear();
	now_ns = 0; acc = 0; steps = 0; ended = false; in_free = in_pool = -1;
	base_ns = (int64_t)1700000000 * 1000000000 + offset_us * 1000;
	at = 0;
	unit_ns = wl->unit * 1000000;
	nth = 1;
	exploring = false;
	Q = nullptr;
	junk = wi % 3 == 0 ? 0xAB : wi % 3 == 1 ? 0xFF : 0;
	for(int i = 0; i < MAXT; ++i) { th[i].st = FIN; memset(th[i].vc, 0, sizeof(VC)); th[i].vc[i] = 1; }
	state = api.mk({api.init[wi]});
	spawn(0);
	resume(0);
	if(!Q) fail("initialisation", "the queue could not be created");
	++th[0].vc[0];
	nth = 1 + wl->p.size();
	for(int i = 1; i < nth; ++i) { vc_join(th[i].vc, th[0].vc); spawn(i); }
	exploring = true;
	preempt_left = preempt; spurious_left = spurious;
	schedule();
	exploring = false;
	if(ended) return;
	bool all = true;
	for(int i = 1; i < nth; ++i) if(th[i].st != FIN) all = false;
	if(!all) { ++vp_rep.stats["ended_waiting"]; return; }
	for(int i = 1; i < nth; ++i) vc_join(th[0].vc, th[i].vc);
	nth = 1;
	spawn(0);
	resume(0);
	if(!ended && th[0].st != FIN) deviation('W', "blocked", "destroying the queue does not come to an end");
	++vp_rep.stats["destroyed"];
}
#ifdef CROWD
// against Crowd.tla
struct Consumer { bool timed; int done; };
static Consumer cons[MAXT];
static std::function<void()> task; // of thread 0
static const uint32_t LIMIT_MS = 1000;
static void body(int id)
{
	if(!id) task();
	else
	{
		void *d = nullptr;
		bool ok;
		if(cons[id].timed) IN(ok = async_queue_pop_timeout(Q, &d, LIMIT_MS)); else IN(ok = async_queue_pop(Q, &d));
		cons[id].done = ok ? 1 : 2;
	}
	leave();
}
struct Crowd : Sut
{
	std::vector<int> idle; // threads that may be used
	bool gone = true;
	Rng r{1};
	void main_thread(std::function<void()> f)
	{
		task = f;
		spawn(0);
		resume(0);
		if(th[0].st != FIN) fail("blocked", "an operation which must not wait does not come to an end although nobody holds the queue");
	}
	void run()
	{
		int last = 0;
		for(;;)
		{
			std::vector<int> c;
			for(int i = 1; i < nth; ++i) if(th[i].st != FIN && can(th[i])) c.push_back(i);
			if(c.empty()) break;
			int i = c[choose(c.size())];
			if(th[i].st == WAIT) { th[i].rc = ETIMEDOUT; th[i].st = LOCK; }
			resume(i);
		}
		for(auto &m : mutexes) if(m.second.owner >= 0) fail("left locked", "the queue stays locked although no operation is running");
	}
	void start(const JV &) override
	{
		for(auto &b : blocks) for(size_t g = b.at >> 4; g <= (b.at + b.size) >> 4; ++g) granule[g] = -1;
		blocks.clear(); bump = 64; mutexes.clear(); conds.clear(); atomics.clear();
		now_ns = 0; ended = false; in_free = in_pool = -1; base_ns = (int64_t)1700000000 * 1000000000;
		path.clear(); at = 0; steps = 0;
		nth = 1; exploring = false; Q = nullptr;
		idle.clear();
		for(int i = 0; i < MAXT; ++i) { th[i].st = FIN; if(i) idle.push_back(MAXT - i); }
		preempt_left = spurious_left = 0;
		main_thread([] { IN(Q = async_queue_new(cmp_items, nullptr, nullptr)); });
		exploring = true;
		gone = false;
		nth = MAXT;
	}
	void arrive(long k, bool timed)
	{
		for(long i = 0; i < k; ++i)
		{
			if(idle.empty()) { fprintf(stderr, "too few threads\n"); _exit(2); }
			int t = idle.back();
			idle.pop_back();
			cons[t] = {timed, 0};
			spawn(t);
		}
	}
	std::string apply(const std::string &op, const JV &a, std::vector<std::string> &) override
	{
		path.clear(); at = 0; steps = -1000000000;
		if(op == "Arrive" || op == "ArriveTimed") { arrive(a[0].n, op == "ArriveTimed"); run(); }
		else if(op == "Push") { for(long i = 0; i < a[0].n; ++i) { main_thread([] { IN(async_queue_push(Q, &items[1])); }); if(a[1].n) run(); } run(); }
		else if(op == "Rush") { for(long i = 0; i < a[0].n; ++i) main_thread([] { IN(async_queue_push(Q, &items[1])); }); arrive(a[1].n, false); run(); }
		else if(op == "Clear") { main_thread([] { IN(async_queue_clear(Q)); }); run(); }
		else if(op == "Elapse") { now_ns += (int64_t)LIMIT_MS * 2000000; run(); }
		else { fprintf(stderr, "unknown operation\n"); _exit(2); }
		long got = 0, gave = 0;
		for(int i = 1; i < MAXT; ++i) if(th[i].st == FIN && cons[i].done) { (cons[i].done == 1 ? got : gave)++; cons[i].done = 0; idle.push_back(i); }
		return jarr({got, gave});
	}
	std::string obs() override
	{
		long u = 0, t = 0, n = 0;
		for(int i = 1; i < MAXT; ++i) if(th[i].st != FIN) (cons[i].timed ? t : u)++;
		main_thread([&] { IN(n = (long)async_queue_count(Q)); });
		return "{\"count\":" + std::to_string(n) + ",\"dead\":false,\"timed\":" + std::to_string(t) + ",\"waiting\":" + std::to_string(u) + "}";
	}
	bool dead() override { return gone; }
	void dispose() override { gone = true; }
	std::string leftovers() override { return ""; }
};
int main(int argc, char **argv)
{
	Args a(argc, argv);
	vp_setup(a.str("report").c_str());
	stacks = (char *)mmap(nullptr, STACK * MAXT, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	arena = (char *)aligned_alloc(64, ARENA);
	granule.assign((ARENA >> 4) + 2, -1);
	judge = "W";
	Aspects asp;
	asp.parse(a.str("aspects", "*=RS"));
	Graph g;
	g.load(a.str("graph").c_str(), [&](const std::string &) { return true; });
	Crowd c;
	Rng r(a.num("seed", 1) * 131 + 7);
	rnd = &r;
	Walker w(g, c, asp, a.num("seed", 1), a.num("maxlen", 400));
	for(int i : g.inits) w.cover(i, a.num("budget", 10));
	for(int i : g.inits)
	{
		w.random_pairs(i, a.num("pairs", 1000), 300, a.num("budget", 10));
		for(size_t k = 1; k < vp_rep.history.size() && k < 4; ++k) vp_rep.sample(vp_rep.history[k]);
	}
	w.stats();
	vp_rep.write();
	return 0;
}
#else
int main(int argc, char **argv)
{
	Args a(argc, argv);
	vp_setup(a.str("report").c_str());
	stacks = (char *)mmap(nullptr, STACK * MAXT, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	arena = (char *)aligned_alloc(64, ARENA);
	shadow = (Cell *)calloc(ARENA, sizeof(Cell));
	granule.assign((ARENA >> 4) + 2, -1);
	judge = a.str("judge", "RWTXF");
	strict_ = a.num("strict", 1);
	long shard = a.num("shard", 0), shards = a.num("shards", 1), seed = a.num("seed", 1);
	std::vector<Workload> ws;
	{
		std::string s;
		FILE *f = fopen(a.str("workloads").c_str(), "r");
		if(!f) { perror("workloads"); return 2; }
		char b[65536];
		size_t n;
		while((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n);
		fclose(f);
		JV v = jparse(s);
		for(auto &x : v.a)
		{
			Workload w;
			w.unit = x["unit"].n; w.fr = x["free"].n;
			for(auto &p : x["p"].a) { std::vector<Op> q; for(auto &o : p.a) q.push_back({o[0].s, o[1].n}); w.p.push_back(q); }
			while(!w.p.empty() && w.p.back().empty()) w.p.pop_back();
			ws.push_back(w);
		}
	}
	api.load(a.str("graph").c_str(), [&](int w) { return (w - 1) % shards == shard; });
	std::vector<long> offs;
	{
		std::string f = a.str("offsets", "0");
		for(size_t i = 0; i < f.size();) { size_t e = f.find(',', i); if(e == std::string::npos) e = f.size(); offs.push_back(atol(f.substr(i, e - i).c_str())); i = e + 1; }
	}
	static const char *pools[] = {"none", "custom", "mp"};
	long cap = a.num("cap", 20000), preempt = a.num("preempt", 2), spurious = a.num("spurious", 1), nrand = a.num("random", 0);
	mem_points = a.num("mem", 0);
	double budget = a.num("budget", 100);
	bool allcfg = a.num("allcfg", 0);
	struct timespec t0, t1;
	clock_gettime(CLOCK_MONOTONIC, &t0);
	long done = 0, complete = 0;
	for(size_t i = 0; i < ws.size(); ++i)
	{
		if((long)(i % shards) != shard) continue;
		wl = &ws[i];
		if(!api.init.count(i + 1)) { fprintf(stderr, "no workload %zu in the graph\n", i + 1); return 2; }
		for(int cfg = 0; cfg < (allcfg ? 6 : 1); ++cfg)
		{
			int c = allcfg ? cfg : (int)((i / shards + i % shards + seed) % 6);
			pool_kind = pools[c % 3]; life = c / 3 % 2 ? "init" : "new"; with_free = wl->fr;
			for(long off : offs)
			{
				std::string desc;
				for(auto &p : wl->p) { desc += "["; for(auto &o : p) desc += (desc.back() == '[' ? "" : ", ") + o.k + (o.a ? " " + std::to_string(o.a) : ""); desc += "] "; }
				vp_rep.context = desc + "unit " + std::to_string(wl->unit) + " ms, pool " + pool_kind + ", " + life + (with_free ? ", free function" : "") + ", clock offset " + std::to_string(off) + " us";
				path.clear();
				rnd = nullptr;
				long n = 0;
				bool more = true;
				while(more && n < cap)
				{
					execute(i + 1, preempt, spurious, off);
					++n;
					path.resize(at);
					more = backtrack();
					clock_gettime(CLOCK_MONOTONIC, &t1);
					if((n & 63) == 0 && t1.tv_sec - t0.tv_sec > budget) break;
				}
				if(!more) ++complete;
				else
				{
					Rng r(seed * 7919 + i);
					rnd = &r;
					for(long k = 0; k < nrand; ++k)
					{
						path.clear();
						execute(i + 1, 3 + k % 8, k % 4, off);
						++n;
						clock_gettime(CLOCK_MONOTONIC, &t1);
						if(t1.tv_sec - t0.tv_sec > budget) break;
					}
					rnd = nullptr;
				}
				vp_rep.stats["histories"] += n;
				++done;
				if(vp_rep.samples.size() < 3 && events.size() > 3) { std::string s = vp_rep.context + ": "; for(auto &e : events) s += e + "; "; vp_rep.sample(s); }
			}
		}
	}
	vp_rep.stats["runs"] = done;
	vp_rep.stats["runs_with_all_schedules_of_the_bound"] = complete;
	vp_rep.stats["steps"] = vp_rep.stats["histories"];
	vp_rep.stats["specification_states"] = api.flags.size();
	vp_rep.stats["specification_transitions"] = api.ntrans;
	vp_rep.write();
	return 0;
}
#endif
