// stack.c / queue.h (-DQUEUE) against LifoFifo.tla
#define CORE_IMPL
#include "core.hpp"
#include "pools.hpp"
#include "objs.hpp"
extern "C" {
#include "datatypes.h"
#include "stack.h"
#include "queue.h"
}
#ifdef QUEUE
#define F(x) queue_##x
typedef Queue C;
#else
#define F(x) stack_##x
typedef Stack C;
#endif
struct Datum { int label; };
static Objs<Datum> g_objs;
static void bin(void *p) { g_objs.drop(((Datum *)p)->label, (Datum *)p); }
static std::unordered_set<Datum *> g_stored;
static std::vector<std::string> *g_freed;
static int32_t cmp(const void *a, const void *b) { return a < b ? -1 : a > b; }
static void free_datum(void *p)
{
	UserScope u;
	if(!p) { if(g_freed) g_freed->push_back("-1"); return; }
	int l = ((Datum *)p)->label;
	bool ours = g_stored.erase((Datum *)p);
	if(g_freed) g_freed->push_back(std::to_string(ours ? l : -l));
	if(ours) bin(p);
}
struct S : Sut
{
	std::string poolkind, life;
	TestPool *pool = nullptr;
	C *c = nullptr, obj;
	bool gone = true, has_free = false;
	void init_() { LIB(F(init)(c, cmp, has_free ? free_datum : nullptr, pool ? &pool->p : nullptr)); }
	void start(const JV &init) override
	{
		dispose();
		pool = TestPool::make(poolkind, sizeof(SListItem));
		has_free = init["hid"]["f"].n;
		if(life == "init") { memset(&obj, vp_junk(), sizeof obj); c = &obj; init_(); }
		else c = LIB(F(new)(cmp, has_free ? free_datum : nullptr, pool ? &pool->p : nullptr));
		gone = false;
	}
	void end() { if(life == "init") { LIB(F(free)(c)); } else { LIB(F(destroy)(c)); } gone = true; c = nullptr; }
	void cleanup() { for(Datum *d : g_stored) delete d; g_stored.clear(); delete pool; pool = nullptr; }
	void dispose() override { g_freed = nullptr; if(!gone) end(); cleanup(); }
	bool dead() override { return gone; }
	std::string leftovers() override
	{
		std::string r;
		if(vp_mem.used) r = std::to_string(vp_mem.used) + " heap blocks (" + std::to_string(vp_mem.bytes) + " bytes) were not given back";
		if(pool) r += pool->complain();
		cleanup();
		return r;
	}
	long label(void *p) { return !p ? 0 : g_stored.count((Datum *)p) ? ((Datum *)p)->label : -3; }
	std::string obs() override
	{
		if(gone) return "{\"dead\":true}";
		void *p = (void *)0x8888;
		bool ok = LIB(F(head)(c, &p));
		long n = (long)LIB(F(count)(c));
		if(pool) pool->holds(n > 0 && n < 100000 ? n : 0);
		return "{\"count\":" + std::to_string(n) + ",\"dead\":false,\"top\":" + std::to_string(ok ? label(p) : -1) + "}";
	}
	std::string apply(const std::string &op, const JV &a, std::vector<std::string> &freed) override
	{
		g_freed = &freed;
		std::string r = "[]";
		if(op == "Push") { Datum *d = a[0].n ? g_objs.make(a[0].n, Datum{(int)a[0].n}) : nullptr; if(d) g_stored.insert(d); LIB(F(push)(c, d)); }
		else if(op == "Pop")
		{
			void *p = (void *)0x8888;
			bool ok = LIB(F(pop)(c, &p));
			r = "[" + std::to_string(ok) + "," + std::to_string(label(p)) + "]";
			if(g_stored.erase((Datum *)p)) bin(p);
		}
		else if(op == "Head") { void *p = (void *)0x8888; bool ok = LIB(F(head)(c, &p)); r = ok ? "[1," + std::to_string(label(p)) + "]" : "[0]"; }
		else if(op == "Clear") { LIB(F(clear)(c)); lose(); }
		else if(op == "Restart") { LIB(F(free)(c)); lose(); init_(); }
		else if(op == "Destroy") { end(); lose(); }
		else { fprintf(stderr, "unknown operation %s\n", op.c_str()); exit(2); }
		g_freed = nullptr;
		return r;
	}
	void lose() { if(!has_free) { for(Datum *d : g_stored) bin(d); g_stored.clear(); } }
};
int main(int argc, char **argv)
{
	Args a(argc, argv);
	vp_setup(a.str("report").c_str());
	S s;
	s.poolkind = a.str("pool", "none");
	s.life = a.str("life", "new");
	vp_rep.context = "pool=" + s.poolkind + " life=" + s.life;
	Aspects asp;
	asp.parse("*=RSFM");
	uint64_t seed = a.num("seed", 1);
	if(a.str("mode") == "trace")
	{
		Rng r(seed);
		Recorder rec(a.str("trace").c_str(), asp, s);
		long n = a.num("n", 1000), maxlen = a.num("len", 60), serial = 0;
		while(rec.lines < n)
		{
			rec.start(std::string("{\"f\":") + (r.below(4) ? "true" : "false") + "}");
			long run = 20 + r.below(300), bias = 50, count = 0;
			for(long i = 0; i < run && rec.lines < n; ++i)
			{
				long c = r.below(100);
				if(!r.below(20)) bias = 15 + r.below(70);
				if(c < bias) { if(count < maxlen) { rec.step("Push", jarr({r.below(12) ? ++serial : 0})); ++count; } }
				else if(c < 92) { std::string x = rec.step("Pop", "[]"); if(count) --count; }
				else if(c < 97) rec.step("Head", "[]");
				else if(c < 99) { if(!r.below(4)) { rec.step("Clear", "[]"); count = 0; } }
				else if(!r.below(4)) { rec.step("Restart", "[]"); count = 0; }
			}
			rec.step("Destroy", "[]");
		}
		vp_rep.stats["trace_lines"] = rec.lines;
		vp_rep.stats["trace_runs"] = rec.runs;
		s.dispose();
	}
	else
	{
		Graph g;
		g.load(a.str("graph").c_str(), [&](const std::string &) { return true; });
		Walker w(g, s, asp, seed, a.num("maxlen", 60));
		for(int i : g.inits) w.cover(i, a.num("budget", 60));
		for(int i : g.inits)
		{
			w.random_pairs(i, a.num("pairs", 100000) / (long)g.inits.size(), 300, a.num("budget", 60));
			for(size_t k = 1; k < vp_rep.history.size() && k < 4; ++k) vp_rep.sample(vp_rep.history[k]);
		}
		w.stats();
		s.dispose();
	}
	vp_rep.write();
	return 0;
}
