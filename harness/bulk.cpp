// large maps and what their operations cost, against Bulk.tla
#define CORE_IMPL
#include "core.hpp"
#include "pools.hpp"
#include "mapshim.h"
struct Obj { long num; bool stored; unsigned stamp; };
static unsigned g_epoch;
static long g_cost; // stored keys compared in this call
static uint32_t g_base, g_mul = 1;
static void cost(const void *p) { Obj *o = (Obj *)p; if(o->stored && o->stamp != g_epoch) { o->stamp = g_epoch; ++g_cost; } }
static int32_t cmp(const void *a, const void *b) { cost(a); cost(b); long x = ((const Obj *)a)->num, y = ((const Obj *)b)->num; return vp_order(x, y); }
static bool eq(const void *a, const void *b) { cost(a); cost(b); return ((const Obj *)a)->num == ((const Obj *)b)->num; }
static uint32_t hash_(const void *a) { return g_base + g_mul * (uint32_t)((const Obj *)a)->num; }
struct S : Sut
{
	long blocks = 4, len = 100;
	std::string kind;
	void *m = nullptr;
	TestPool *pool = nullptr;
	std::vector<Obj> key, probe; // by number
	std::vector<char> val;
	std::vector<bool> in;
	Rng rng{5};
	void start(const JV &) override
	{
		dispose();
		key.assign(blocks * len, Obj()); probe.assign(blocks * len, Obj()); val.assign(blocks * len, 0); in.assign(blocks * len, false);
		long f = kind == "hash" ? 1 : 2;
		for(long i = 0; i < blocks * len; ++i) { key[i] = Obj{f * i, true, 0}; probe[i] = Obj{f * i, false, 0}; }
		m = LIB(m_new(0, hash_, eq, cmp, nullptr, nullptr, nullptr));
	}
	void dispose() override { if(m) { LIB(m_destroy(m)); } m = nullptr; }
	bool dead() override { return !m; }
	std::string leftovers() override { return ""; }
	std::string obs() override
	{
		if(!m) return "{\"dead\":true}";
		std::string r = "{\"count\":" + std::to_string((long)LIB(m_count(m))) + ",\"dead\":false,\"packed\":";
		return r + (kind != "hash" || LIB(m_count(m)) <= m_size(m) + 1 ? "true" : "false") + "}";
	}
	void call() { ++g_epoch; g_cost = 0; }
	bool look(long i, long bound, long *hits)
	{
		call();
		void *p = LIB(m_lookup(m, &probe[i]));
		bool ok = g_cost <= bound;
		if(p) { if(m_pair_key(p, 0) != &key[i] || m_pair_value(p, 0) != &val[i]) ok = false; else if(hits) ++*hits; }
		if((p != nullptr) != in[i]) ok = false;
		call();
		if(LIB(m_exists(m, &probe[i])) != in[i]) ok = false;
		return ok && g_cost <= bound;
	}
	bool gap(long n, long bound) { Obj o{n, false, 0}; call(); bool e = LIB(m_exists(m, &o)); return !e && g_cost <= bound; }
	std::string apply(const std::string &op, const JV &a, std::vector<std::string> &) override
	{
		if(op == "Insert" || op == "Remove" || op == "Replace")
		{
			long b = (a[0].n - 1) * len, mod = a[2].n, lk = a[3].n, delta = 0;
			std::string ord = a[1].s;
			bool ok = true;
			bool left = b + len < (long)in.size() && in[b + len], right = b > 0 && in[b - 1]; // neighbours that are stored
			std::vector<long> o(len);
			for(long i = 0; i < len; ++i) o[i] = b + (ord == "desc" ? len - 1 - i : i);
			if(ord == "shuf") for(long i = len - 1; i > 0; --i) std::swap(o[i], o[rng.below(i + 1)]);
			if(ord == "mid") for(long i = 0; i < len; ++i) o[i] = b + (i % 2 ? len / 2 + i / 2 : len / 2 - 1 - i / 2 >= 0 ? len / 2 - 1 - i / 2 : len - 1);
			if(ord == "mid" && len % 2) { std::set<long> u(o.begin(), o.end()); if((long)u.size() != len) for(long i = 0; i < len; ++i) o[i] = b + i; }
			for(long k = 0; k < len; ++k)
			{
				long i = o[k];
				call();
				if(op == "Remove") { size_t n = m_count(m); LIB(m_remove(m, &probe[i])); in[i] = false; delta -= (long)n - (long)m_count(m); }
				else { delta += LIB(m_set(m, &key[i], &val[i], rng.below(2))) == 0; in[i] = true; }
				if(g_cost > mod) ok = false;
				if(kind == "hash" && m_count(m) > m_size(m) + 1) ok = false;
				// hash values are consecutive while a window grows or shrinks at its ends
				bool measured = kind != "hash" || op == "Replace" || (op == "Insert" ? (ord == "asc" && !left) || (ord == "desc" && !right) : (ord == "asc" && !right) || (ord == "desc" && !left));
				if(measured && !(k & 7)) { if(!look(i, lk, nullptr)) ok = false; if(!look(rng.below(in.size()), lk, nullptr)) ok = false; }
			}
			return "{\"new\":" + std::to_string(delta) + ",\"ok\":" + (ok ? "true" : "false") + "}";
		}
		if(op == "Probe")
		{
			long hits = 0;
			bool ok = true;
			for(long i = 0; i < (long)in.size(); ++i) { if(!look(i, a[0].n, &hits)) ok = false; if(kind != "hash") { if(!gap(2 * i + 1, a[0].n)) ok = false; } }
			if(!gap(-1, a[0].n) || !gap(2 * (long)in.size() + 1, a[0].n)) ok = false;
			return "{\"hits\":" + std::to_string(hits) + ",\"ok\":" + (ok ? "true" : "false") + "}";
		}
		if(op == "Clear") { LIB(m_clear(m)); in.assign(in.size(), false); return "[]"; }
		if(op == "Destroy") { dispose(); return "[]"; }
		fprintf(stderr, "unknown operation %s\n", op.c_str());
		exit(2);
	}
};
int main(int argc, char **argv)
{
	Args a(argc, argv);
	vp_setup(a.str("report").c_str());
	S s;
	s.blocks = a.num("blocks", 4); s.len = a.num("len", 100); s.kind = a.str("kind");
	g_base = (uint32_t)a.num("base", 0);
	Aspects asp;
	asp.parse(a.str("aspects", "*=RS"));
	Graph g;
	g.load(a.str("graph").c_str(), [&](const std::string &) { return true; });
	Walker w(g, s, asp, a.num("seed", 1), a.num("maxlen", 200));
	for(int i : g.inits) w.cover(i, a.num("budget", 60));
	for(size_t k = 1; k < vp_rep.history.size() && k < 3; ++k) vp_rep.sample(vp_rep.history[k]);
	for(int i : g.inits) w.random_pairs(i, a.num("pairs", 100), 60, a.num("pbudget", 10));
	w.stats();
	s.dispose();
	vp_rep.write();
	return 0;
}
