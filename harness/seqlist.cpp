// list.c / slist.c (-DSLIST) against List.tla
#include <pthread.h>
#include <stdint.h>
#include <stdbool.h>
#define CORE_IMPL
#include "core.hpp"
#include "pools.hpp"
#include "objs.hpp"
extern "C" {
#include "datatypes.h"
#ifdef SLIST
#include "slist.h"
#else
#include "list.h"
#endif
}
#ifdef SLIST
#define F(x) slist_##x
typedef SList L;
typedef SListItem Item;
#else
#define F(x) list_##x
typedef List L;
typedef ListItem Item;
#endif

struct Datum { int label; };
static Objs<Datum> g_objs;
static std::set<Datum *> g_live;      // data objects that exist
static std::set<Datum *> g_stored;    // handed to the list and not taken out by the harness
static std::vector<std::string> *g_freed;

static int key_of(const void *p) { return p ? ((const Datum *)p)->label / 10 : 0; }
static int32_t cmp(const void *a, const void *b) { int x = key_of(a), y = key_of(b); return vp_order(x, y); }
static void free_datum(void *p)
{
	UserScope u;
	if(!p) { if(g_freed) g_freed->push_back("-1"); return; }
	int l = ((Datum *)p)->label; // reading freed data is reported by the sanitizer
	if(g_freed) g_freed->push_back(g_stored.count((Datum *)p) ? std::to_string(l) : std::to_string(-l));
	g_stored.erase((Datum *)p);
	if(g_live.erase((Datum *)p)) g_objs.drop(l / 10, (Datum *)p);
}

struct ListSut : Sut
{
	std::string poolkind, life;
	TestPool *pool = nullptr;
	L *l = nullptr;
	L obj;
	bool gone = true, has_free = false;
	std::map<Item *, void *> handles; // item -> its data

	Datum *mk(long label) { if(!label) return nullptr; Datum *d = g_objs.make(label / 10, Datum{(int)label}); g_live.insert(d); return d; }
	Datum *put(long label) { Datum *d = mk(label); if(d) g_stored.insert(d); return d; }
	long label(void *p) { return p ? ((Datum *)p)->label : 0; }
	size_t limit() { return handles.size() + 4; }

	void start(const JV &init) override
	{
		dispose();
		pool = TestPool::make(poolkind, sizeof(Item));
		has_free = init["hid"]["f"].n;
		if(life == "init") { memset(&obj, vp_junk(), sizeof obj); l = &obj; LIB(F(init)(l, cmp, has_free ? free_datum : nullptr, pool ? &pool->p : nullptr)); }
		else l = LIB(F(new)(cmp, has_free ? free_datum : nullptr, pool ? &pool->p : nullptr));
		gone = false;
		handles.clear();
	}
	void dispose() override
	{
		std::vector<std::string> x;
		g_freed = nullptr;
		if(!gone && l) { if(life == "init") { LIB(F(free)(l)); } else { LIB(F(destroy)(l)); } }
		gone = true; l = nullptr;
		cleanup();
	}
	void cleanup()
	{
		for(Datum *d : g_live) delete d;
		g_live.clear(); g_stored.clear(); handles.clear();
		delete pool; pool = nullptr;
	}
	bool dead() override { return gone; }
	std::string leftovers() override
	{
		std::string r;
		if(vp_mem.used) r = std::to_string(vp_mem.used) + " heap blocks (" + std::to_string(vp_mem.bytes) + " bytes) were not given back";
		if(pool) r += pool->complain();
		cleanup();
		return r;
	}
	Item *at(long i) { Item *x = LIB(F(head)(l)); while(--i > 0 && x) x = F(item_next)(x); return x; }
	long pos(Item *it) { if(!it) return 0; long n = 1; for(Item *x = LIB(F(head)(l)); x; x = F(item_next)(x), ++n) { if(x == it) return n; if((size_t)n > limit()) break; } return -1; }
	std::string obs() override
	{
		if(gone) return "{\"dead\":true}";
		std::vector<long> fwd, bwd;
		bool ok = true;
		std::map<Item *, void *> now;
		for(Item *x = LIB(F(head)(l)); x && fwd.size() < limit(); x = F(item_next)(x))
		{
			void *d = F(item_get_data)(x);
			fwd.push_back(label(d));
			auto h = handles.find(x);
			if(h == handles.end() || h->second != d) ok = false;
			now[x] = d;
		}
		handles.swap(now);
		if(pool) pool->holds(fwd.size());
		std::string r = "{";
#ifndef SLIST
		if(want("bwd")) { for(Item *x = LIB(F(tail)(l)); x && bwd.size() < limit(); x = F(item_prev)(x)) bwd.push_back(label(F(item_get_data)(x))); r += "\"bwd\":" + jarr(bwd) + ","; }
		Item *t = LIB(F(tail)(l));
		bool list_end = t == nullptr;
#else
		Item *t = l->tail;
		bool list_end = LIB(F(head)(l)) == nullptr;
#endif
		if(want("count")) r += "\"count\":" + std::to_string(LIB(F(count)(l))) + ",";
		r += "\"dead\":false";
		if(want("empty")) r += std::string(",\"empty\":") + (LIB(F(empty)(l)) ? "true" : "false");
		if(want("fwd")) r += ",\"fwd\":" + jarr(fwd);
		if(want("handles")) r += std::string(",\"handles\":") + (ok ? "true" : "false");
		Item *h = LIB(F(head)(l));
		if(want("head")) r += ",\"head\":" + std::to_string(h ? label(F(item_get_data)(h)) : -1);
		if(want("tail")) r += ",\"tail\":" + std::to_string(list_end ? -1 : !t ? -2 : label(F(item_get_data)(t)));
		return r + "}";
	}
	std::string apply(const std::string &op, const JV &a, std::vector<std::string> &freed) override
	{
		g_freed = &freed;
		long res = 0;
		if(op == "Append" || op == "Prepend" || op == "InsertSorted")
		{
			Datum *d = put(a[0].n);
			Item *h = op == "Append" ? LIB(F(append)(l, d)) : op == "Prepend" ? LIB(F(prepend)(l, d)) : LIB(F(insert_sorted)(l, d));
			handles[h] = d;
			res = pos(h);
			if(h && F(item_get_data)(h) != d) res = -2;
		}
		else if(op == "Remove") { Item *it = at(a[0].n); void *d = F(item_get_data)(it); handles.erase(it); LIB(F(remove)(l, it)); drop(d); }
		else if(op == "RemoveByData") { Datum *p = mk(a[0].n * 10 + 5); LIB(F(remove_by_data)(l, p, a[1].n != 0)); unmk(p); }
		else if(op == "RemoveOwn") { void *p = F(item_get_data)(at(a[0].n)); LIB(F(remove_by_data)(l, p, a[1].n != 0)); }
		else if(op == "Pop") { void *d = LIB(F(pop)(l)); res = take(d); }
		else if(op == "Clear") { LIB(F(clear)(l)); }
		else if(op == "Find") { Datum *p = mk(a[1].n * 10 + 5); res = pos(LIB(F(find)(l, a[0].n ? at(a[0].n) : nullptr, p))); unmk(p); }
		else if(op == "Contains") { Datum *p = mk(a[0].n * 10 + 5); res = LIB(F(contains)(l, p)); unmk(p); }
		else if(op == "FreeData") { Item *it = at(a[0].n); LIB(F(item_free_data)(l, it)); handles[it] = nullptr; }
		else if(op == "SetData") { Item *it = at(a[0].n); void *old = F(item_get_data)(it); Datum *d = put(a[1].n); F(item_set_data)(it, d); handles[it] = d; res = take(old); }
		else if(op == "Restart") { LIB(F(free)(l)); LIB(F(init)(l, cmp, has_free ? free_datum : nullptr, pool ? &pool->p : nullptr)); }
		else if(op == "Destroy") { if(life == "init") { LIB(F(free)(l)); } else { LIB(F(destroy)(l)); } gone = true; l = nullptr; }
		else { fprintf(stderr, "unknown operation %s\n", op.c_str()); exit(2); }
		g_freed = nullptr;
		return std::to_string(res);
	}
	void drop(void *) {}
	void unmk(Datum *d) { g_live.erase(d); g_objs.drop(d->label / 10, d); }
	long take(void *p)
	{
		if(!p) return 0;
		Datum *d = (Datum *)p;
		if(!g_stored.count(d)) return -3;
		long r = d->label;
		g_stored.erase(d); g_live.erase(d);
		g_objs.drop(r / 10, d);
		return r;
	}
};

int main(int argc, char **argv)
{
	Args a(argc, argv);
	vp_setup(a.str("report").c_str());
	ListSut s;
	s.poolkind = a.str("pool", "none");
	s.life = a.str("life", "new");
	vp_rep.context = "pool=" + s.poolkind + " life=" + s.life;
	Aspects asp;
	asp.parse(a.str("aspects", "*=RSFM"));
	std::string f = a.str("fields");
	for(size_t i = 0; i < f.size();) { size_t e = f.find(',', i); if(e == std::string::npos) e = f.size(); s.fields.insert(f.substr(i, e - i)); i = e + 1; }
	uint64_t seed = a.num("seed", 1);
	if(a.str("mode") == "trace")
	{
		Rng r(seed);
		Recorder rec(a.str("trace").c_str(), asp, s);
		long n = a.num("n", 1000);
		int maxlen = a.num("len", 30), nk = a.num("keys", 8);
		auto lab = [&]() -> long { return r.below(12) ? (long)(1 + r.below(nk)) * 10 + (long)r.below(4) : 0; };
		auto A = [](std::initializer_list<long> v) { return jarr(std::vector<long>(v)); };
		while(rec.lines < n)
		{
			rec.start(std::string("{\"f\":") + (r.below(4) ? "true" : "false") + "}");
			long run = 20 + r.below(150);
			bool sorted_phase = r.below(2);
			for(long i = 0; i < run && rec.lines < n; ++i)
			{
				std::vector<long> cur;
				for(Item *x = LIB(F(head)(s.l)); x && cur.size() < s.limit(); x = F(item_next)(x)) cur.push_back(s.label(F(item_get_data)(x)));
				bool sorted = true;
				for(size_t j = 1; j < cur.size(); ++j) if(cur[j - 1] / 10 > cur[j] / 10) sorted = false;
				auto pick = [&](const char *op) { return a.has_in("ops", op); };
				size_t c = r.below(100);
				bool room = (int)cur.size() < maxlen;
				long p = cur.empty() ? 0 : 1 + (long)r.below(cur.size());
				if(sorted_phase && sorted && room && c < 55) { if(pick("InsertSorted")) rec.step("InsertSorted", A({lab()})); }
				else if(c < 25 && room && !sorted_phase) { if(pick("Append")) rec.step("Append", A({lab()})); }
				else if(c < 45 && room && !sorted_phase) { if(pick("Prepend")) rec.step("Prepend", A({lab()})); }
				else if(c < 60 && p) { if(pick("Remove")) rec.step("Remove", A({r.below(3) ? p : r.below(2) ? 1 : (long)cur.size()})); }
				else if(c < 63 && p) { if(pick("RemoveOwn")) rec.step("RemoveOwn", A({p, (long)r.below(2)})); }
				else if(c < 68) { if(pick("RemoveByData")) rec.step("RemoveByData", A({(long)r.below(nk + 1), (long)r.below(2)})); }
				else if(c < 75) { if(pick("Pop")) rec.step("Pop", "[]"); }
				else if(c < 85) { if(pick("Find")) rec.step("Find", A({r.below(2) ? p : 0, (long)r.below(nk + 2)})); }
				else if(c < 90) { if(pick("Contains")) rec.step("Contains", A({(long)r.below(nk + 2)})); }
				else if(c < 93 && p) { if(pick("FreeData")) rec.step("FreeData", A({p})); if(sorted_phase) sorted_phase = r.below(2); }
				else if(c < 96 && p) { if(pick("SetData")) rec.step("SetData", A({p, lab()})); }
				else if(c < 97) { if(pick("Clear")) rec.step("Clear", "[]"); sorted_phase = r.below(2); }
				else if(c < 98) { if(pick("Restart")) rec.step("Restart", "[]"); sorted_phase = r.below(2); }
			}
			if(a.has_in("ops", "Destroy")) rec.step("Destroy", "[]");
		}
		vp_rep.stats["trace_lines"] = rec.lines;
		vp_rep.stats["trace_runs"] = rec.runs;
		s.dispose();
	}
	else
	{
		Graph g;
		g.fields = s.fields;
		g.load(a.str("graph").c_str(), [&](const std::string &op) { return a.has_in("ops", op); });
		Walker w(g, s, asp, seed, a.num("maxlen", 40));
		for(int i : g.inits) w.cover(i, a.num("budget", 60));
		if(!vp_rep.history.empty()) vp_rep.sample(vp_rep.history.back());
		for(int i : g.inits)
		{
			w.random_pairs(i, a.num("pairs", 100000) / (long)g.inits.size(), 200, a.num("budget", 60));
			for(size_t k = 1; k < vp_rep.history.size() && k < 4; ++k) vp_rep.sample(vp_rep.history[k]);
		}
		w.stats();
		s.dispose();
	}
	vp_rep.write();
	return 0;
}
