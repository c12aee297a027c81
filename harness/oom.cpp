// Every library call of random histories is tried in child processes in which one of its requests for memory
// (and, in turn, all from that one on) is refused. What happened in the call is recorded for OomTrace.tla.
// The library's object files have their heap calls and abort() renamed to vo_*.
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <fcntl.h>
#define CORE_IMPL
#include "core.hpp"
extern "C" {
#include "datatypes.h"
#include "list.h"
#include "slist.h"
#include "stack.h"
#include "queue.h"
#include "pool.h"
#include "hashtable.h"
#include "rbtree.h"
#include "assocarray.h"
#include "buffer.h"
#include "asyncqueue.h"
#include "compare.h"
#include "hash.h"
}
struct Shared { int n; char ev[1 << 16]; };
static Shared *sh;
static bool on = false;       // inside an observed call
static long plan = 0, seen = 0; // refuse the plan-th request
static bool all = false;
static void ev(char c) { if(on && sh->n < (int)sizeof sh->ev) sh->ev[sh->n++] = c; }
static bool refused() { if(!on) return false; ++seen; bool r = plan && (all ? seen >= plan : seen == plan); ev(r ? 'r' : 'g'); if(r) errno = ENOMEM; return r; }
extern "C" {
void *vo_malloc(size_t n) { return refused() ? nullptr : malloc(n); }
void *vo_calloc(size_t n, size_t m) { return refused() ? nullptr : calloc(n, m); }
void *vo_realloc(void *p, size_t n) { return refused() ? nullptr : realloc(p, n); }
void *vo_reallocarray(void *p, size_t n, size_t m) { return refused() ? nullptr : reallocarray(p, n, m); }
void *vo_aligned_alloc(size_t n, size_t m) { return refused() ? nullptr : aligned_alloc(n, m); }
int vo_posix_memalign(void **p, size_t n, size_t m) { return refused() ? ENOMEM : posix_memalign(p, n, m); }
char *vo_strdup(const char *p) { return refused() ? nullptr : strdup(p); }
char *vo_strndup(const char *p, size_t n) { return refused() ? nullptr : strndup(p, n); }
void vo_abort(void) { ev('a'); abort(); }
}
struct Item { long k; };
static void fre(void *p) { ev('u'); }
static int32_t cmp(const void *a, const void *b) { ev('u'); long x = a ? ((const Item *)a)->k : 0, y = b ? ((const Item *)b)->k : 0; return x < y ? -1 : x > y; }
static bool eq(const void *a, const void *b) { return cmp(a, b) == 0; }
static uint32_t hsh(const void *a) { ev('u'); return (uint32_t)((const Item *)a)->k * 2654435761u; }
static Item items[4096];

static Rng *R;
static FILE *out;
static long calls = 0, children = 0, lines = 0;
static std::set<std::string> told;
static std::vector<std::string> history;
static void record(const std::string &op, const std::string &events, const std::string &how, bool allnow)
{
	// the number of grants and user functions in a row does not matter to the rule
	std::string e;
	for(char c : events) { size_t n = e.size(); if((c == 'g' || c == 'u') && n >= 2 && e[n - 1] == c && e[n - 2] == c) continue; e += c; }
	if(!told.insert(op + "|" + e + "|" + how + (allnow ? "*" : "")).second) return;
	std::string h;
	for(size_t i = history.size() > 30 ? history.size() - 30 : 0; i < history.size(); ++i) h += (h.empty() ? "" : "; ") + history[i];
	fprintf(out, "{\"k\":\"start\",\"op\":\"%s\",\"all\":%s,\"h\":\"%s\"}\n", op.c_str(), allnow ? "true" : "false", jesc(h).c_str());
	for(char c : e) fprintf(out, "{\"k\":\"ev\",\"e\":\"%c\"}\n", c);
	fprintf(out, "{\"k\":\"end\",\"how\":\"%s\"}\n", how.c_str());
	lines += e.size() + 2;
}
static const char *signame(int s)
{
	switch(s) { case SIGABRT: return "SIGABRT"; case SIGSEGV: return "SIGSEGV"; case SIGBUS: return "SIGBUS"; case SIGFPE: return "SIGFPE"; case SIGVTALRM: return "hang"; case SIGALRM: return "hang"; default: return "signal"; }
}
template<class Fn> static void observe(const std::string &op, Fn fn)
{
	++calls;
	history.push_back(op);
	// calls which have never asked for memory so far are looked at less often
	static std::map<std::string, long> looked, asked;
	if(looked[op] > 20 && !asked[op] && R->below(8)) { fn(); return; }
	++looked[op];
	// how many requests does this call make? (in a child: the call may be destructive)
	auto child = [&](long k, bool a) -> std::string
	{
		sh->n = 0;
		fflush(out);
		pid_t p = fork();
		if(p < 0) { perror("fork"); _exit(2); }
		if(!p)
		{
			for(int s : {SIGSEGV, SIGBUS, SIGFPE, SIGABRT, SIGILL}) signal(s, SIG_DFL);
			signal(SIGVTALRM, SIG_DFL); signal(SIGALRM, SIG_DFL);
			struct itimerval it = {{0, 0}, {10, 0}};
			setitimer(ITIMER_VIRTUAL, &it, nullptr);
			alarm(60); // blocked for ever
			plan = k; all = a; seen = 0; on = true;
			fn();
			ev('x');
			_exit(0);
		}
		++children;
		int st;
		while(waitpid(p, &st, 0) < 0) if(errno != EINTR) { perror("waitpid"); _exit(2); }
		if(WIFSIGNALED(st)) return signame(WTERMSIG(st));
		if(WEXITSTATUS(st) == 0 && sh->n && sh->ev[sh->n - 1] == 'x') return "";
		return "exit";
	};
	std::string how = child(0, false);
	std::string base(sh->ev, sh->n);
	record(op, base, how, false);
	if(how != "") { fprintf(stderr, "%s fails although memory is granted (%s)\n", op.c_str(), how.c_str()); fclose(out); vp_rep.stats["trace_lines"] = lines; vp_rep.write(); _exit(0); }
	long n = std::count(base.begin(), base.end(), 'g');
	asked[op] += n;
	for(long k = 1; k <= n; ++k)
	{
		if(k == 7 && n > 12) k = n - 5;
		for(int a = 0; a < 2; ++a)
		{
			std::string h = child(k, a);
			record(op, std::string(sh->ev, sh->n), h, a && k == 1);
			vp_rep.stats["refusals"]++;
		}
	}
	fn();
}
static long rnd(long n) { return (long)R->below(n); }
static Item *it() { return &items[rnd(4096)]; }
static MemoryPool *mp(size_t size, bool use) { return use ? memory_pool_new(size, 2 + rnd(3)) : nullptr; }

#define LISTLIKE(N, T, PREFIX) static void N(long len) \
{ \
	MemoryPool *m = mp(sizeof(T##Item), rnd(2)); \
	bool life = rnd(2); \
	T obj, *l = &obj; \
	if(life) observe(#PREFIX "_new", [&] { l = PREFIX##_new(cmp, fre, (Pool *)m); }); \
	else observe(#PREFIX "_init", [&] { PREFIX##_init(l, cmp, fre, (Pool *)m); }); \
	for(long i = 0; i < len; ++i) \
	{ \
		Item *x = it(); \
		switch(rnd(9)) \
		{ \
		case 0: case 1: observe(#PREFIX "_append", [&] { PREFIX##_append(l, x); }); break; \
		case 2: observe(#PREFIX "_prepend", [&] { PREFIX##_prepend(l, x); }); break; \
		case 3: case 4: observe(#PREFIX "_insert_sorted", [&] { PREFIX##_insert_sorted(l, x); }); break; \
		case 5: if(!PREFIX##_empty(l)) observe(#PREFIX "_pop", [&] { PREFIX##_pop(l); }); break; \
		case 6: observe(#PREFIX "_remove_by_data", [&] { PREFIX##_remove_by_data(l, x, true); }); break; \
		case 7: if(T##Item *h = PREFIX##_head(l)) observe(#PREFIX "_remove", [&] { PREFIX##_remove(l, h); }); break; \
		default: if(!rnd(4)) observe(#PREFIX "_clear", [&] { PREFIX##_clear(l); }); else observe(#PREFIX "_find", [&] { PREFIX##_find(l, nullptr, x); PREFIX##_contains(l, x); }); \
		} \
	} \
	if(life) observe(#PREFIX "_destroy", [&] { PREFIX##_destroy(l); }); else observe(#PREFIX "_free", [&] { PREFIX##_free(l); }); \
	if(m) memory_pool_destroy(m); \
}
LISTLIKE(lists, List, list)
LISTLIKE(slists, SList, slist)
static void lifo(long len)
{
	bool q = rnd(2);
	MemoryPool *m = mp(sizeof(SListItem), rnd(2));
	SList *l = nullptr;
	if(q) observe("queue_new", [&] { l = queue_new(cmp, fre, (Pool *)m); }); else observe("stack_new", [&] { l = stack_new(cmp, fre, (Pool *)m); });
	for(long i = 0; i < len; ++i)
	{
		Item *x = it();
		void *d;
		if(rnd(3)) { if(q) observe("queue_push", [&] { queue_push(l, x); }); else observe("stack_push", [&] { stack_push(l, x); }); }
		else { if(q) observe("queue_pop", [&] { queue_pop(l, &d); }); else observe("stack_pop", [&] { stack_pop(l, &d); }); }
	}
	if(q) observe("queue_destroy", [&] { queue_destroy(l); }); else observe("stack_destroy", [&] { stack_destroy(l); });
	if(m) memory_pool_destroy(m);
}
static void pools(long len)
{
	MemoryPool *p = nullptr;
	size_t isz = 8 * (1 + rnd(5)), bsz = 2 + rnd(4);
	observe("memory_pool_new", [&] { p = memory_pool_new(isz, bsz); });
	std::vector<void *> live;
	long bias = 60;
	for(long i = 0; i < len; ++i)
	{
		if(!rnd(10)) bias = 20 + rnd(70);
		if(live.empty() || rnd(100) < bias) { void *x = nullptr; observe("memory_pool_alloc", [&] { x = ((Pool *)p)->alloc((Pool *)p); memset(x, 1, isz); }); live.push_back(x); }
		else { size_t j = rnd(live.size()); void *x = live[j]; live.erase(live.begin() + j); observe("memory_pool_free", [&] { ((Pool *)p)->free((Pool *)p, x); }); }
	}
	observe("memory_pool_destroy", [&] { memory_pool_destroy(p); });
}
static void tables(long len)
{
	HashTable obj, *t = &obj;
	size_t size = std::vector<size_t>{0, 1, 2, 3, 8, 257}[rnd(6)];
	bool life = rnd(2);
	if(life) observe("hashtable_new", [&] { t = hashtable_new(size, hsh, eq, fre, fre); });
	else observe("hashtable_init", [&] { hashtable_init(t, size, hsh, eq, fre, fre); });
	long fill = rnd(4) ? 0 : std::vector<long>{127, 255, 256, 1030}[rnd(4)];
	for(long i = 0; i < fill; ++i) hashtable_set(t, &items[i], &items[i], false);
	for(long i = 0; i < len; ++i)
	{
		Item *x = it(), *y = it();
		switch(rnd(8))
		{
		case 0: case 1: case 2: case 3: observe("hashtable_set", [&] { hashtable_set(t, x, y, rnd(2)); }); break;
		case 4: observe("hashtable_remove", [&] { hashtable_remove(t, x); }); break;
		case 5: observe("hashtable_lookup", [&] { hashtable_lookup(t, x); hashtable_key_exists(t, x); }); break;
		case 6: observe("hashtable_iter", [&] { HashTableIter j; hashtable_iter_init(t, &j); while(hashtable_iter_next(&j)) hashtable_iter_get_key(&j); }); break;
		default: if(!rnd(6)) observe("hashtable_clear", [&] { hashtable_clear(t); });
		}
	}
	if(life) observe("hashtable_destroy", [&] { hashtable_destroy(t); }); else observe("hashtable_free", [&] { hashtable_free(t); });
}
static void trees(long len)
{
	RBTree obj, *t = &obj;
	MemoryPool *m = mp(sizeof(RBNode), rnd(2));
	bool life = rnd(2);
	if(life) observe("rbtree_new", [&] { t = rbtree_new(cmp, fre, fre, (Pool *)m); });
	else observe("rbtree_init", [&] { rbtree_init(t, cmp, fre, fre, (Pool *)m); });
	long fill = rnd(3) ? 0 : std::vector<long>{6, 14, 40, 300, 2000}[rnd(5)];
	bool asc = rnd(2);
	for(long i = 0; i < fill; ++i) rbtree_set(t, asc ? &items[i] : it(), it(), false);
	for(long i = 0; i < len; ++i)
	{
		Item *x = it(), *y = it();
		switch(rnd(9))
		{
		case 0: case 1: case 2: case 3: observe("rbtree_set", [&] { rbtree_set(t, x, y, rnd(2)); }); break;
		case 4: observe("rbtree_remove", [&] { rbtree_remove(t, rbtree_count(t) && rnd(2) && t->root ? t->root->key : x); }); break;
		case 5: observe("rbtree_lookup", [&] { rbtree_lookup(t, x); rbtree_key_exists(t, x); }); break;
		case 6: case 7: observe("rbtree_iter", [&] { RBTreeIter j; rbtree_iter_init(t, &j); while(rbtree_iter_next(&j)) rbtree_iter_get_key(&j); rbtree_iter_reuse(t, &j); rbtree_iter_next(&j); rbtree_iter_free(&j); }); break;
		default: if(!rnd(6)) observe("rbtree_clear", [&] { rbtree_clear(t); });
		}
	}
	if(life) observe("rbtree_destroy", [&] { rbtree_destroy(t); }); else observe("rbtree_free", [&] { rbtree_free(t); });
	if(m) memory_pool_destroy(m);
}
static void arrays(long len)
{
	AssocArray obj, *t = &obj;
	bool life = rnd(2);
	if(life) observe("assoc_array_new", [&] { t = assoc_array_new(cmp, fre, fre); });
	else observe("assoc_array_init", [&] { assoc_array_init(t, cmp, fre, fre); });
	long fill = rnd(2) ? 0 : std::vector<long>{7, 8, 15, 31, 63, 255}[rnd(6)];
	for(long i = 0; i < fill; ++i) assoc_array_set(t, &items[i], it(), false);
	for(long i = 0; i < len; ++i)
	{
		Item *x = it(), *y = it();
		switch(rnd(8))
		{
		case 0: case 1: case 2: case 3: observe("assoc_array_set", [&] { assoc_array_set(t, x, y, rnd(2)); }); break;
		case 4: observe("assoc_array_remove", [&] { assoc_array_remove(t, x); }); break;
		case 5: observe("assoc_array_lookup", [&] { assoc_array_lookup(t, x); assoc_array_key_exists(t, x); }); break;
		case 6: observe("assoc_array_iter", [&] { alignas(16) char j_[256]; AssocArrayIter *j = (AssocArrayIter *)j_; assoc_array_iter_init(t, j); while(assoc_array_iter_next(j)) assoc_array_iter_get_key(j); }); break;
		default: if(!rnd(6)) observe("assoc_array_clear", [&] { assoc_array_clear(t); });
		}
	}
	if(life) observe("assoc_array_destroy", [&] { assoc_array_destroy(t); }); else observe("assoc_array_free", [&] { assoc_array_free(t); });
}
static void buffers(long len)
{
	Buffer obj, *b = &obj;
	bool life = rnd(2);
	size_t max = std::vector<size_t>{100, 1000, 5000, 1 << 20}[rnd(4)];
	if(life) observe("buffer_new", [&] { b = buffer_new(max); }); else observe("buffer_init", [&] { buffer_init(b, max); });
	static char text[5000];
	for(size_t i = 0; i < sizeof text; ++i) text[i] = i % 37 ? 'a' + i % 26 : '\n';
	char *dst = nullptr;
	size_t dl = 0;
	int fd = open("/dev/zero", O_RDONLY);
	for(long i = 0; i < len; ++i)
	{
		size_t n = rnd(4) ? rnd(80) : rnd(5000);
		if(!buffer_is_valid(b)) observe("buffer_clear", [&] { buffer_clear(b); });
		switch(rnd(8))
		{
		case 0: case 1: case 2: observe("buffer_fill", [&] { buffer_fill(b, text + rnd(100), std::min<size_t>(n, 4000)); }); break;
		case 3: observe("buffer_fill_from_fd", [&] { if(buffer_fill_from_fd(b, fd, n) < 0) return; }); break;
		case 4: observe("buffer_read_line", [&] { buffer_read_line(b, &dst, &dl); }); break;
		case 5: observe("buffer_flush", [&] { buffer_flush(b, &dst, &dl); }); break;
		case 6: observe("buffer_to_string", [&] { free(buffer_to_string(b)); }); break;
		default: observe("buffer_clear", [&] { buffer_clear(b); }); if(rnd(2)) { free(dst); dst = nullptr; dl = 0; }
		}
	}
	close(fd);
	free(dst);
	if(life) observe("buffer_destroy", [&] { buffer_destroy(b); }); else observe("buffer_free", [&] { buffer_free(b); });
}
static void asyncs(long len)
{
	AsyncQueue obj, *q = &obj;
	MemoryPool *m = mp(sizeof(SListItem), rnd(2));
	bool life = rnd(2);
	if(life) observe("async_queue_new", [&] { q = async_queue_new(cmp, fre, (Pool *)m); });
	else observe("async_queue_init", [&] { async_queue_init(q, cmp, fre, (Pool *)m); });
	long count = 0;
	for(long i = 0; i < len; ++i)
	{
		Item *x = it();
		void *d;
		switch(rnd(6))
		{
		case 0: case 1: case 2: observe("async_queue_push", [&] { async_queue_push(q, x); }); ++count; break;
		case 3: if(count) { observe("async_queue_pop", [&] { async_queue_pop(q, &d); }); --count; } break;
		case 4: observe("async_queue_pop_timeout", [&] { async_queue_pop_timeout(q, &d, 0); }); if(count) --count; break;
		default: if(!rnd(4)) { observe("async_queue_clear", [&] { async_queue_clear(q); }); count = 0; } else observe("async_queue_count", [&] { async_queue_count(q); });
		}
	}
	if(life) observe("async_queue_destroy", [&] { async_queue_destroy(q); }); else observe("async_queue_free", [&] { async_queue_free(q); });
	if(m) memory_pool_destroy(m);
}
int main(int argc, char **argv)
{
	Args a(argc, argv);
	struct rlimit rl = {0, 0};
	setrlimit(RLIMIT_CORE, &rl);
	vp_rep.file = a.str("report");
	sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	int nul = open("/dev/null", O_WRONLY);
	int err = dup(2);
	fcntl(err, F_SETFD, FD_CLOEXEC);
	out = fopen(a.str("trace").c_str(), "w");
	if(!out || sh == MAP_FAILED) { perror("oom"); return 2; }
	dup2(nul, 2);
	Rng r(a.num("seed", 1));
	R = &r;
	for(long i = 0; i < 4096; ++i) items[i].k = i;
	struct timeval t0, t;
	gettimeofday(&t0, nullptr);
	typedef void (*W)(long);
	W ws[] = {lists, slists, lifo, pools, tables, trees, arrays, buffers, asyncs};
	long round = 0, runs = 0;
	double budget = a.num("budget", 10);
	for(; round < a.num("rounds", 1000000); ++round)
	{
		gettimeofday(&t, nullptr);
		if((t.tv_sec - t0.tv_sec) + (t.tv_usec - t0.tv_usec) / 1e6 > budget) break;
		for(W w : ws)
		{
			history.clear();
			// choices inside the observed functions must be the same in every child: they are made from the state of r at the fork
			w(10 + r.below(60));
			++runs;
		}
	}
	fclose(out);
	dup2(err, 2);
	vp_rep.stats["histories"] = runs;
	vp_rep.stats["steps"] = calls;
	vp_rep.stats["processes"] = children;
	vp_rep.stats["trace_lines"] = lines;
	vp_rep.write();
	return 0;
}
