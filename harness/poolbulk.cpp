// pool.c serving thousands of items, against PoolBulk.tla
#define CORE_IMPL
#include "core.hpp"
extern "C" {
#include "pool.h"
}
struct S : Sut
{
	size_t isize = 8, bsize = 2;
	int ngroups = 3;
	bool reuse = false;
	MemoryPool *mp = nullptr;
	std::vector<std::vector<unsigned char *>> grp;
	std::vector<long> tok;
	std::unordered_set<unsigned char *> known;
	std::map<unsigned char *, int> live;
	Rng rng{1};
	void start(const JV &) override { dispose(); mp = LIB(memory_pool_new(isize, bsize)); grp.assign(ngroups + 1, {}); tok.assign(ngroups + 1, 0); }
	void forget() { grp.clear(); tok.clear(); known.clear(); live.clear(); }
	void dispose() override { if(mp) { LIB(memory_pool_destroy(mp)); } mp = nullptr; forget(); }
	bool dead() override { return !mp; }
	std::string leftovers() override { forget(); return vp_mem.used ? std::to_string(vp_mem.used) + " heap blocks (" + std::to_string(vp_mem.bytes) + " bytes) were not given back" : std::string(); }
	static unsigned char pat(size_t g, size_t k, long t, size_t off) { return (unsigned char)(g * 61 + k * 37 + (k >> 8) * 11 + t * 101 + off * 7 + (off >> 8) * 13 + 1); }
	void fill(size_t g, long t) { for(size_t k = 0; k < grp[g].size(); ++k) for(size_t i = 0; i < isize; ++i) grp[g][k][i] = pat(g, k, t, i); tok[g] = t; }
	long read(size_t g)
	{
		if(!tok[g]) return 0;
		for(size_t k = 0; k < grp[g].size(); ++k) for(size_t i = 0; i < isize; ++i) if(grp[g][k][i] != pat(g, k, tok[g], i)) return -1 - (long)k;
		return tok[g];
	}
	std::string obs() override
	{
		if(!mp) return "{\"dead\":true}";
		std::vector<long> v;
		if(want("held")) for(int g = 1; g <= ngroups; ++g) v.push_back(read(g));
		return want("held") ? "{\"dead\":false,\"held\":" + jarr(v) + "}" : "{\"dead\":false}";
	}
	// blocks of items, and an allowance for the book-keeping: per block, per item
	long blocks_ok(long bound) { return !reuse || vp_mem.bytes <= bound * isize * bsize + bound * 96 + bound * bsize * 16 + 1024; }
	std::string apply(const std::string &op, const JV &a, std::vector<std::string> &) override
	{
		if(op == "Alloc")
		{
			long g = a[0].n, n = a[1].n, fresh = 0, apart = 1;
			std::vector<unsigned char *> got;
			for(long i = 0; i < n; ++i)
			{
				unsigned char *p = (unsigned char *)LIB(((Pool *)mp)->alloc((Pool *)mp));
				if(known.insert(p).second) ++fresh;
				auto it = live.lower_bound(p);
				if(it != live.end() && it->first < p + isize) apart = 0;
				if(it != live.begin() && std::prev(it)->first + isize > p) apart = 0;
				live.emplace(p, 1);
				got.push_back(p);
				// written to at once: not one byte of it may be needed by anybody else
				memset(p, 0xC3, isize);
			}
			grp[g] = got;
			fill(g, a[2].n);
			return jarr({reuse ? fresh : 0, reuse ? 1 : apart, blocks_ok(a[3].n)});
		}
		if(op == "Free")
		{
			long g = a[0].n;
			std::vector<unsigned char *> v = grp[g];
			if(a[2].s == "desc") std::reverse(v.begin(), v.end());
			if(a[2].s == "shuf") for(size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[rng.below(i)]);
			grp[g].clear(); tok[g] = 0;
			for(auto p : v) { live.erase(p); LIB(((Pool *)mp)->free((Pool *)mp, p)); }
			return jarr({0, 1, blocks_ok(a[3].n)});
		}
		if(op == "Write") { fill(a[0].n, a[2].n); return "[0,1,1]"; }
		if(op == "Destroy") { LIB(memory_pool_destroy(mp)); mp = nullptr; return "[0,1,1]"; }
		fprintf(stderr, "unknown operation %s\n", op.c_str());
		exit(2);
	}
};
int main(int argc, char **argv)
{
	Args a(argc, argv);
	vp_setup(a.str("report").c_str());
	S s;
	s.isize = a.num("isize", 8); s.bsize = a.num("bsize", 2); s.ngroups = a.num("groups", 3); s.reuse = a.num("reuse", 0);
	vp_rep.context = "item size " + a.str("isize") + ", block size " + a.str("bsize");
	Aspects asp;
	asp.parse(s.reuse ? "*=RM" : "*=RS");
	s.fields = {s.reuse ? "dead" : "held"};
	Graph g;
	g.fields = s.fields;
	g.load(a.str("graph").c_str(), [&](const std::string &) { return true; });
	Walker w(g, s, asp, a.num("seed", 1), a.num("maxlen", 60));
	for(int i : g.inits) w.cover(i, a.num("budget", 6));
	for(int i : g.inits)
	{
		w.random_pairs(i, a.num("pairs", 100000), 200, a.num("budget", 6));
		for(size_t k = 1; k < vp_rep.history.size() && k < 4; ++k) vp_rep.sample(vp_rep.history[k]);
	}
	w.stats();
	s.dispose();
	vp_rep.write();
	return 0;
}
