// pool.c against Pool.tla
#define CORE_IMPL
#include "core.hpp"
extern "C" {
#include "pool.h"
}
struct S : Sut
{
	size_t isize = 8, bsize = 2;
	MemoryPool *mp = nullptr;
	bool meter = false; // count requested blocks (items are large)
	std::vector<unsigned char *> addr; // number -> address
	std::vector<long> shadow;          // what was written (only to know which items to look at)
	void start(const JV &) override { dispose(); mp = LIB(memory_pool_new(isize, bsize)); }
	void dispose() override { if(mp) { LIB(memory_pool_destroy(mp)); } mp = nullptr; addr.clear(); shadow.clear(); }
	bool dead() override { return !mp; }
	std::string leftovers() override
	{
		addr.clear(); shadow.clear();
		return vp_mem.used ? std::to_string(vp_mem.used) + " heap blocks (" + std::to_string(vp_mem.bytes) + " bytes) were not given back" : std::string();
	}
	static unsigned char pat(size_t a, long tok, size_t off) { return (unsigned char)(a * 37 + tok * 101 + off * 7 + (off >> 8) * 13 + 1); }
	// every byte; of items of more than 64 kB some
	size_t step(size_t i) const { return isize <= 65536 || i < 64 || i + 64 >= isize ? i + 1 : std::min(isize - 64, i + isize / 8); }
	void fill(size_t a, long tok) { for(size_t i = 0; i < isize; i = step(i)) addr[a][i] = pat(a, tok, i); shadow[a] = tok; }
	long read(size_t a)
	{
		long t = shadow[a];
		if(!t) return 0;
		for(size_t i = 0; i < isize; i = step(i)) if(addr[a][i] != pat(a, t, i)) return -1 - (long)i % 1000;
		return t;
	}
	std::string obs() override
	{
		if(!mp) return "{\"dead\":true}";
		if(!want("items")) return "{\"dead\":false}";
		std::vector<long> v;
		for(size_t a = 0; a < addr.size(); ++a) v.push_back(read(a));
		return "{\"dead\":false,\"items\":" + jarr(v) + "}";
	}
	long over(long bound) { return !meter || (long)(vp_mem.bytes / (isize * bsize)) <= bound; }
	std::string apply(const std::string &op, const JV &a, std::vector<std::string> &) override
	{
		if(op == "Alloc")
		{
			unsigned char *p = (unsigned char *)LIB(((Pool *)mp)->alloc((Pool *)mp));
			size_t i = 0;
			while(i < addr.size() && addr[i] != p) ++i;
			long in_use = i < addr.size() && shadow[i];
			if(i == addr.size()) { addr.push_back(p); shadow.push_back(0); }
			fill(i, a[0].n);
			return jarr({in_use ? -(long)i - 1 : (long)i + 1, over(a[1].n)});
		}
		if(op == "Free")
		{
			size_t i = a[0].n - 1;
			shadow[i] = 0;
			LIB(((Pool *)mp)->free((Pool *)mp, addr[i]));
			return jarr({0, over(a[1].n)});
		}
		if(op == "Write") { fill(a[0].n - 1, a[1].n); return "[]"; }
		if(op == "Destroy") { LIB(memory_pool_destroy(mp)); mp = nullptr; return "[]"; }
		fprintf(stderr, "unknown operation %s\n", op.c_str());
		exit(2);
	}
};
int main(int argc, char **argv)
{
	Args a(argc, argv);
	vp_setup(a.str("report").c_str());
	S s;
	s.isize = a.num("isize", 8); s.bsize = a.num("bsize", 2); s.meter = a.num("meter", 0);
	vp_rep.context = "item size " + a.str("isize") + ", block size " + a.str("bsize");
	Aspects asp;
	asp.parse(a.str("aspects", "*=RSFM"));
	std::string f = a.str("fields");
	for(size_t i = 0; i < f.size();) { size_t e = f.find(',', i); if(e == std::string::npos) e = f.size(); s.fields.insert(f.substr(i, e - i)); i = e + 1; }
	uint64_t seed = a.num("seed", 1);
	if(a.str("mode") == "trace")
	{
		Rng r(seed);
		Recorder rec(a.str("trace").c_str(), asp, s);
		long n = a.num("n", 1000), maxlive = a.num("live", 40);
		while(rec.lines < n)
		{
			rec.start("{\"x\":1}");
			long run = 30 + r.below(400), bias = 60, peak = 0;
			int order = 0;
			std::vector<long> live; // numbers, in order of allocation
			auto blocks = [&](long h) { return std::max(1l, (h + (long)s.bsize - 1) / (long)s.bsize); };
			for(long i = 0; i < run && rec.lines < n; ++i)
			{
				if(!r.below(25)) { bias = 10 + r.below(80); order = r.below(4); }
				long c = r.below(100);
				if(c < bias && (long)live.size() < maxlive)
				{
					peak = std::max(peak, (long)live.size() + 1);
					std::string x = rec.step("Alloc", jarr({1 + (long)r.below(9), blocks(peak)}));
					live.push_back(labs(jparse(x)[0].n));
				}
				else if(!live.empty() && r.below(12))
				{
					size_t k = order == 0 ? r.below(live.size()) : order == 1 ? 0 : order == 2 ? live.size() - 1 : live.size() / 2;
					long x = live[k];
					live.erase(live.begin() + k);
					rec.step("Free", jarr({x, blocks(peak)}));
				}
				else if(!live.empty()) rec.step("Write", jarr({live[r.below(live.size())], 1 + (long)r.below(9)}));
			}
			rec.step("Destroy", "[]");
		}
		vp_rep.stats["trace_lines"] = rec.lines;
		vp_rep.stats["trace_runs"] = rec.runs;
		s.dispose();
	}
	else
	{
		Graph g;
		g.fields = s.fields;
		g.load(a.str("graph").c_str(), [&](const std::string &) { return true; });
		Walker w(g, s, asp, seed, a.num("maxlen", 80));
		for(int i : g.inits) w.cover(i, a.num("budget", 60));
		for(int i : g.inits)
		{
			w.random_pairs(i, a.num("pairs", 100000), 400, a.num("budget", 60));
			for(size_t k = 1; k < vp_rep.history.size() && k < 4; ++k) vp_rep.sample(vp_rep.history[k]);
		}
		w.stats();
		s.dispose();
	}
	vp_rep.write();
	return 0;
}
