// rbtree.c against RBTree.tla: every step of the real tree is recorded with the tree before and after
#define CORE_IMPL
#include "core.hpp"
#include "pools.hpp"
#include "mapshim.h"
struct Obj { double num; bool stored; unsigned stamp; int rank; };
static unsigned g_epoch;
static long g_cost;
static void cost(const void *p) { Obj *o = (Obj *)p; if(o->stored && o->stamp != g_epoch) { o->stamp = g_epoch; ++g_cost; } }
static int32_t cmp(const void *a, const void *b) { cost(a); cost(b); double x = ((const Obj *)a)->num, y = ((const Obj *)b)->num; return x < y ? -1 : x > y; }

struct T
{
	void *m = nullptr;
	TestPool *pool = nullptr;
	std::vector<Obj *> keys, old; // ascending
	T(const std::string &pk) { pool = TestPool::make(pk, m_node_size()); m = LIB(m_new(0, nullptr, nullptr, cmp, nullptr, nullptr, pool)); }
	~T() { LIB(m_destroy(m)); for(Obj *o : keys) delete o; for(Obj *o : old) delete o; delete pool; }
	std::string code()
	{
		for(size_t i = 0; i < keys.size(); ++i) keys[i]->rank = (int)i + 1;
		std::string r;
		long budget = 4 * (long)keys.size() + 20;
		dump(m_root(m), r, budget, 0);
		return r;
	}
	void dump(const void *n, std::string &r, long &budget, int depth)
	{
		if(!n) { r += "[]"; return; }
		if(--budget < 0 || depth > 300) { r += "[[],0,true,[]]"; return; } // not a tree (any more)
		r += "[";
		dump(m_left(n), r, budget, depth + 1);
		Obj *k = (Obj *)m_node_key(n);
		bool known = std::find(keys.begin(), keys.end(), k) != keys.end();
		r += "," + std::to_string(known ? k->rank : -1) + (m_black(n) ? ",true," : ",false,");
		dump(m_right(n), r, budget, depth + 1);
		r += "]";
	}
	double at_gap(long g) { size_t n = keys.size(); return !n ? 0 : g == 0 ? keys[0]->num - 1 : (size_t)g == n ? keys[n - 1]->num + 1 : (keys[g - 1]->num + keys[g]->num) / 2; }
	bool room(long g) { double x = at_gap(g); for(Obj *o : keys) if(o->num == x) return false; return true; }
	long look()
	{
		long w = 0;
		for(size_t i = 0; i <= keys.size(); ++i)
		{
			Obj p{at_gap((long)i), false, 0, 0};
			++g_epoch; g_cost = 0;
			LIB(m_exists(m, &p)); w = std::max(w, g_cost);
			if(i < keys.size()) { p.num = keys[i]->num; ++g_epoch; g_cost = 0; LIB(m_lookup(m, &p)); w = std::max(w, g_cost); }
		}
		return w;
	}
	long apply(const std::string &op, long x)
	{
		++g_epoch; g_cost = 0;
		// numbers are halved again and again between two keys: spread them when there is no room (the order stays)
		if((op == "Insert" || op == "RemoveAbsent") && !room(x)) for(size_t i = 0; i < keys.size(); ++i) keys[i]->num = (double)i + 1;
		if(op == "Insert") { Obj *o = new Obj{at_gap(x), true, 0, 0}; o->stamp = g_epoch; LIB(m_set(m, o, o, true)); keys.insert(keys.begin() + x, o); }
		else if(op == "Replace") { Obj *o = new Obj{keys[x - 1]->num, true, 0, 0}; o->stamp = g_epoch; LIB(m_set(m, o, o, true)); old.push_back(keys[x - 1]); keys[x - 1] = o; }
		else if(op == "Remove") { Obj p{keys[x - 1]->num, false, 0, 0}; LIB(m_remove(m, &p)); old.push_back(keys[x - 1]); keys.erase(keys.begin() + x - 1); }
		else if(op == "RemoveAbsent") { Obj p{at_gap(x), false, 0, 0}; LIB(m_remove(m, &p)); }
		else if(op == "Clear") { LIB(m_clear(m)); for(Obj *o : keys) old.push_back(o); keys.clear(); }
		return g_cost;
	}
};
typedef std::vector<std::pair<int, long>> Hist;
static const char *OPS[] = {"Insert", "Replace", "Remove", "RemoveAbsent", "Clear"};
static long lines;
static std::vector<FILE *> files;
static void step(T &t, const std::string &before, int op, long x, std::string &after, bool rec)
{
	vp_rep.history.push_back(std::string(OPS[op]) + "(" + std::to_string(x) + ")");
	long c = t.apply(OPS[op], x);
	if(!rec) return;
	after = t.code();
	fprintf(files[(lines / 100) % files.size()], "{\"k\":\"step\",\"t\":%s,\"n\":\"%s\",\"x\":%ld,\"u\":%s,\"cost\":%ld,\"look\":%ld}\n", before.c_str(), OPS[op], x, after.c_str(), c, t.look());
	++lines;
}
int main(int argc, char **argv)
{
	Args a(argc, argv);
	vp_setup(a.str("report").c_str());
	long parts = a.num("parts", 1);
	std::string pk = a.str("pool", "none");
	for(long i = 0; i < parts; ++i) { files.push_back(fopen((a.str("trace") + "." + std::to_string(i)).c_str(), "w")); if(!files.back()) return 2; }
	Rng r(a.num("seed", 1));
	if(a.str("mode") == "all")
	{
		// every tree the implementation can build with up to max nodes, every operation on it
		long max = a.num("max", 6);
		std::map<std::string, Hist> seen;
		std::deque<std::string> q;
		seen["[]"] = {};
		q.push_back("[]");
		while(!q.empty())
		{
			std::string s = q.front();
			q.pop_front();
			Hist h = seen[s];
			long n = 0;
			for(auto &x : h) n += x.first == 0 ? 1 : x.first == 2 ? -1 : 0;
			std::vector<std::pair<int, long>> ops;
			for(long g = 0; g <= n; ++g) { if(n < max) ops.push_back({0, g}); ops.push_back({3, g}); }
			for(long k = 1; k <= n; ++k) { ops.push_back({1, k}); ops.push_back({2, k}); }
			ops.push_back({4, 0});
			for(auto &op : ops)
			{
				vp_rep.history.clear();
				std::string u;
				T t(pk);
				for(auto &x : h) step(t, "", x.first, x.second, u, false);
				step(t, s, op.first, op.second, u, true);
				if((op.first == 0 || op.first == 2) && !seen.count(u) && seen.size() < 400000)
				{
					Hist g = h;
					g.push_back(op);
					seen[u] = g;
					q.push_back(u);
					if(seen.size() % 97 == 1) vp_rep.sample(u + " after " + vp_rep.history.back() + " on " + s);
				}
			}
		}
		vp_rep.stats["trees"] = seen.size();
		vp_rep.stats["histories"] = lines;
	}
	else
	{
		long n = a.num("n", 1000), max = a.num("max", 100);
		while(lines < n)
		{
			vp_rep.history.clear();
			T t(pk);
			std::string s = t.code(), u;
			long run = 50 + r.below(6 * max), bias = 80, style = r.below(4);
			for(long i = 0; i < run && lines < n; ++i)
			{
				if(!r.below(30)) { bias = 10 + r.below(85); style = r.below(5); }
				long sz = (long)t.keys.size();
				long c = r.below(100);
				long g = style == 0 ? 0 : style == 1 ? sz : style == 2 ? sz / 2 : (long)r.below(sz + 1);
				if(c < bias && sz < max) { step(t, s, 0, g, u, true); }
				else if(sz && c < 97) step(t, s, 2, 1 + std::min(g, sz - 1), u, true);
				else if(sz && c < 98) step(t, s, 1, 1 + (long)r.below(sz), u, true);
				else if(c < 99) step(t, s, 3, r.below(sz + 1), u, true);
				else if(!r.below(8)) step(t, s, 4, 0, u, true);
				else continue;
				s = u;
			}
			vp_rep.stats["histories"]++;
		}
	}
	for(FILE *f : files) fclose(f);
	vp_rep.stats["trace_lines"] = lines;
	vp_rep.stats["steps"] = lines;
	vp_rep.write();
	return 0;
}
