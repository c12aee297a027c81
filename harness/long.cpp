// Very long lists (-DLIST, -DSLIST), stacks (-DSTACK), queues (-DQUEUE) and, used by one thread,
// asynchronous queues (-DASYNC) against Long.tla
#include <pthread.h>
#include <stdint.h>
#include <stdbool.h>
#define CORE_IMPL
#include "core.hpp"
#include "pools.hpp"
extern "C" {
#include "datatypes.h"
#include "list.h"
#include "slist.h"
#include "stack.h"
#include "queue.h"
#include "asyncqueue.h"
}
#if defined(LIST)
#define F(x) list_##x
typedef List C;
typedef ListItem Item;
#elif defined(SLIST)
#define F(x) slist_##x
typedef SList C;
typedef SListItem Item;
#elif defined(STACK)
#define F(x) stack_##x
typedef Stack C;
#elif defined(QUEUE)
#define F(x) queue_##x
typedef Queue C;
#else
#define F(x) async_queue_##x
typedef AsyncQueue C;
#endif
#if defined(LIST) || defined(SLIST)
#define LINEAR 1
#endif
// the data are pointers which nobody may follow: run, number
static void *mk(long t, long i) { return (void *)(((uintptr_t)t << 36) | (uintptr_t)i << 3); }
static long run_of(const void *p) { return (long)((uintptr_t)p >> 36); }
static long num_of(const void *p) { return (long)((uintptr_t)p >> 3 & 0xFFFFFFFF); }
static int32_t cmp(const void *a, const void *b) { long x = run_of(a), y = run_of(b); return vp_order(x, y); }
// a sequence of items as segments
struct Segs
{
	std::vector<std::array<long, 3>> v;
	void add(const void *p)
	{
		long t = run_of(p), i = num_of(p);
		if(!v.empty())
		{
			auto &s = v.back();
			long d = s[2] > s[1] ? 1 : s[2] < s[1] ? -1 : i - s[2];
			if(s[0] == t && (d == 1 || d == -1) && i == s[2] + d) { s[2] = i; return; }
		}
		v.push_back({t, i, i});
	}
	static std::string one(const std::array<long, 3> &s) { return jarr({s[0], s[1], s[2]}); }
	std::string str() const
	{
		std::string r = "[";
		for(size_t i = 0; i < v.size(); ++i) { if(i == 40) { r += ",\"and more\""; break; } if(i) r += ","; r += one(v[i]); }
		return r + "]";
	}
};
static std::vector<void *> g_freed;
static void free_item(void *p) { UserScope u; g_freed.push_back(p); }
struct S : Sut
{
	std::string poolkind, life;
	MemoryPool *mp = nullptr;
	C *c = nullptr, obj;
	bool gone = true, has_free = false;
	size_t limit = 0; // nothing is longer than this
	void start(const JV &init) override
	{
		dispose();
		mp = poolkind == "mp" ? memory_pool_new(sizeof(ListItem), 512) : nullptr;
		has_free = init["hid"]["f"].n;
		if(life == "init") { memset(&obj, vp_junk(), sizeof obj); c = &obj; LIB(F(init)(c, cmp, has_free ? free_item : nullptr, (Pool *)mp)); }
		else c = LIB(F(new)(cmp, has_free ? free_item : nullptr, (Pool *)mp));
		gone = false;
		limit = 4;
	}
	void end() { if(life == "init") { LIB(F(free)(c)); } else { LIB(F(destroy)(c)); } gone = true; c = nullptr; }
	void cleanup() { if(mp) memory_pool_destroy(mp); mp = nullptr; g_freed.clear(); }
	void dispose() override { if(!gone) end(); cleanup(); }
	bool dead() override { return gone; }
	std::string leftovers() override
	{
		std::string r;
		cleanup(); // the pool's blocks were taken inside library calls
		if(vp_mem.used) r = std::to_string(vp_mem.used) + " heap blocks (" + std::to_string(vp_mem.bytes) + " bytes) were not given back";
		return r;
	}
	static std::string cell(void *p) { return jarr({run_of(p), num_of(p), num_of(p)}); }
	long count() { return (long)LIB(F(count)(c)); }
#ifdef LINEAR
	Item *at(long i) { Item *x = LIB(F(head)(c)); while(--i > 0 && x) x = F(item_next)(x); return x; }
#endif
	std::string obs() override
	{
		if(gone) return "{\"dead\":true}";
		std::string r = "{";
#ifdef LINEAR
		Segs f;
		size_t n = 0;
		Item *h = LIB(F(head)(c)), *last = nullptr;
		for(Item *x = h; x && n < limit; x = F(item_next)(x), ++n) { f.add(F(item_get_data)(x)); last = x; }
#ifdef LIST
		Segs b;
		n = 0;
		for(Item *x = LIB(list_tail(c)); x && n < limit; x = list_item_prev(x), ++n) b.add(F(item_get_data)(x));
		if(want("bwd")) r += "\"bwd\":" + b.str() + ",";
		last = LIB(list_tail(c));
#endif
		if(want("count")) r += "\"count\":" + std::to_string(count()) + ",";
		r += "\"dead\":false";
		if(want("fwd")) r += ",\"fwd\":" + f.str();
		if(want("head")) r += ",\"head\":" + (h ? cell(F(item_get_data)(h)) : "[]");
		if(want("tail")) r += ",\"tail\":" + (last ? cell(F(item_get_data)(last)) : "[]");
#else
		if(want("count")) r += "\"count\":" + std::to_string(count()) + ",";
		r += "\"dead\":false";
#ifndef ASYNC
		void *p = (void *)0x8888;
		bool ok = LIB(F(head)(c, &p));
		if(want("head")) r += ",\"head\":" + (ok ? cell(p) : "[]");
#endif
#endif
		return r + "}";
	}
	std::string apply(const std::string &op, const JV &a, std::vector<std::string> &freed) override
	{
		std::string r = "0";
		g_freed.clear();
		if(op == "Append" || op == "Prepend")
		{
			long t = a[0].n, n = a[1].n;
			limit += n;
#ifdef LINEAR
			for(long i = 1; i <= n; ++i) { if(op == "Append") LIB(F(append)(c, mk(t, i))); else LIB(F(prepend)(c, mk(t, i))); }
#else
			for(long i = 1; i <= n; ++i) LIB(F(push)(c, mk(t, i)));
#endif
		}
		else if(op == "Pop")
		{
			Segs s;
			long n = a[0].n, rest = 0;
			for(long i = 0; i < n; ++i)
			{
#ifdef LINEAR
				void *p = LIB(F(pop)(c));
				if(p) s.add(p); else ++rest;
#elif defined(ASYNC)
				void *p = nullptr;
				if(LIB(async_queue_pop_timeout(c, &p, 0))) s.add(p); else ++rest;
#else
				void *p = nullptr;
				if(LIB(F(pop)(c, &p))) s.add(p); else ++rest;
#endif
			}
			r = "{\"got\":" + s.str() + ",\"rest\":" + std::to_string(rest) + "}";
		}
		else if(op == "Clear") { LIB(F(clear)(c)); limit = 4; }
		else if(op == "Destroy") end();
#ifdef LINEAR
		else if(op == "InsertSorted") { ++limit; LIB(F(insert_sorted)(c, mk(a[0].n, 1))); }
		else if(op == "Remove") { Item *x = at(a[0].n); LIB(F(remove)(c, x)); }
		else if(op == "RemoveByData") { LIB(F(remove_by_data)(c, mk(a[0].n, 0), a[1].n != 0)); }
		else if(op == "Contains") { r = LIB(F(contains)(c, mk(a[0].n, 0))) ? "1" : "0"; }
		else if(op == "Find")
		{
			Item *x = LIB(F(find)(c, nullptr, mk(a[0].n, 0)));
			long n = x ? 1 : 0;
#ifdef SLIST
			for(Item *y = LIB(F(head)(c)); x && y && y != x; y = F(item_next)(y)) ++n;
#else
			if(x && run_of(F(item_get_data)(x)) != a[0].n) n = -1;
#endif
			r = std::to_string(n);
		}
#endif
		else { fprintf(stderr, "unknown operation %s\n", op.c_str()); exit(2); }
		std::sort(g_freed.begin(), g_freed.end());
		Segs s;
		for(size_t i = 0; i < g_freed.size(); ++i)
		{
			// an item freed twice is a segment of its own
			if(i && g_freed[i] == g_freed[i - 1]) freed.push_back("\"twice " + cell(g_freed[i]) + "\"");
			else s.add(g_freed[i]);
			if(freed.size() > 20) break;
		}
		for(auto &x : s.v) { freed.push_back(Segs::one(x)); if(freed.size() > 60) break; }
		return r;
	}
};
int main(int argc, char **argv)
{
	Args a(argc, argv);
	vp_setup(a.str("report").c_str());
	S s;
	s.poolkind = a.str("pool", "none");
	s.life = a.str("life", "new");
	vp_rep.context = "pool=" + s.poolkind + " life=" + s.life;
	Aspects asp;
	asp.parse(a.str("aspects", "*=RSFM"));
#ifdef ASYNC
	s.fields = {"count"};
#elif defined(SLIST)
	s.fields = {"count", "fwd", "head", "tail"};
#endif
	Graph g;
	g.fields = s.fields;
	g.load(a.str("graph").c_str(), [&](const std::string &) { return true; });
	Walker w(g, s, asp, a.num("seed", 1), a.num("maxlen", 40));
	for(int i : g.inits) w.cover(i, a.num("budget", 6));
	for(int i : g.inits)
	{
		w.random_pairs(i, a.num("pairs", 100000) / (long)g.inits.size(), 60, a.num("budget", 6));
		for(size_t k = 1; k < vp_rep.history.size() && k < 4; ++k) vp_rep.sample(vp_rep.history[k]);
	}
	w.stats();
	s.dispose();
	vp_rep.write();
	return 0;
}
