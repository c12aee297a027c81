// compare.c and hash.c against Strings.tla (pairs of growing strings) and Order.tla (tables of all pairs)
#include <stdint.h>
#include <stdbool.h>
#define CORE_IMPL
#include "core.hpp"
extern "C" {
#include "compare.h"
#include "hash.h"
}
static int sgn(long x) { return x < 0 ? -1 : x > 0; }
static int scmp(const char *a, const char *b) { CompareFunc f = str_compare; return sgn(LIB(f(a, b))); }
// a string in a block of its own: reading past its end is reported
struct Copy
{
	char *block, *s;
	size_t n;
	Copy(const std::string &x, size_t lead) : n(x.size() + 1)
	{
		block = (char *)malloc(lead + n);
		memset(block, 0x5A, lead);
		s = block + lead;
		memcpy(s, x.c_str(), n);
	}
	~Copy() { free(block); }
	Copy(const Copy &) = delete;
};
struct S : Sut
{
	std::string a, b, head;
	std::vector<std::string> tok;
	size_t la = 0, lb = 0;
	bool on = false;
	void start(const JV &) override { a = b = head; on = true; }
	void dispose() override { on = false; }
	bool dead() override { return !on; }
	std::string leftovers() override { return ""; }
	std::string apply(const std::string &op, const JV &args, std::vector<std::string> &) override
	{
		(op == "GrowA" ? a : b) += tok[args[0].n - 1];
		return "0";
	}
	std::string obs() override
	{
		Copy x(a, la), y(b, lb), x2(a, lb + 3), y2(b, la + 5);
		auto H = [](const Copy &c) { return (long)LIB(str_hash(c.s)); };
		auto E = [](const Copy &p, const Copy &q) { return (int)LIB(str_equal(p.s, q.s)); };
		long hx = H(x), hy = H(y);
		int c = scmp(x.s, y.s);
		bool self = E(x, x) && E(x, x2) && E(y2, y) && scmp(x.s, x.s) == 0 && scmp(x.s, x2.s) == 0 && scmp(y2.s, y.s) == 0;
		bool hash = H(x2) == hx && H(y2) == hy && H(x) == hx && H(y) == hy;
		char buf[160];
		snprintf(buf, sizeof buf, "{\"anti\":%d,\"eq\":%d,\"hash\":%d,\"qe\":%d,\"same\":%d,\"self\":%d,\"zero\":%d}", scmp(y.s, x.s) == -c, E(x, y), hash, E(y, x), a == b && hx == hy, self, c == 0);
		return buf;
	}
};
static std::string row(const std::vector<long> &b, const std::vector<long> &h, const std::vector<long> &eq, const std::vector<long> &c)
{
	std::string hs = "[";
	for(long x : h) { if(hs.size() > 1) hs += ","; hs += "\"" + std::to_string(x) + "\""; } // as text: TLC's numbers have 32 bits
	return "{\"b\":" + jarr(b) + ",\"h\":" + hs + "],\"eq\":" + jarr(eq) + ",\"cmp\":" + jarr(c) + "}\n";
}
int main(int argc, char **argv)
{
	Args a(argc, argv);
	vp_setup(a.str("report", "").c_str());
	uint64_t seed = a.num("seed", 1);
	Rng r(seed);
	if(a.str("mode") == "strings")
	{
		FILE *f = fopen(a.str("trace").c_str(), "w");
		std::vector<std::string> s = {""};
		std::string part = a.str("part");
		if(part == "bytes") for(int c = 1; c < 256; ++c) s.push_back(std::string(1, (char)c));
		else
		{
			static const int al[] = {1, 32, 97, 98, 127, 128, 129, 200, 255};
			while(s.size() < (size_t)a.num("n", 300))
			{
				std::string x;
				if(r.below(2) || s.size() < 20)
				{
					static const size_t lens[] = {1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 33, 64, 100, 255, 256, 300, 700};
					for(size_t n = r.below(5) ? r.below(10) : lens[r.below(17)]; n > 0; --n) x += (char)(r.below(3) ? al[r.below(9)] : 1 + r.below(255));
				}
				else // close to another one
				{
					x = s[r.below(s.size())];
					if(!r.below(4)) {} // the same string again
					else if(!r.below(3)) x += (char)(1 + r.below(255));
					else if(!x.empty()) { if(r.below(2)) x.pop_back(); else { char &c = x[r.below(x.size())]; c = (char)(c ^ (1 << r.below(8))); if(!c) c = 1; } }
				}
				s.push_back(x);
			}
		}
		std::vector<Copy *> c1, c2;
		for(auto &x : s) { c1.push_back(new Copy(x, r.below(20))); c2.push_back(new Copy(x, r.below(20))); }
		for(size_t i = 0; i < s.size(); ++i)
		{
			std::vector<long> b, h, eq, c;
			for(unsigned char x : s[i]) b.push_back(x);
			h = {(long)LIB(str_hash(c1[i]->s)), (long)LIB(str_hash(c2[i]->s)), (long)LIB(str_hash(c1[i]->s))};
			for(size_t j = 0; j < s.size(); ++j) { eq.push_back(LIB(str_equal(c1[i]->s, c2[j]->s))); c.push_back(scmp(c1[i]->s, c2[j]->s)); }
			fputs(row(b, h, eq, c).c_str(), f);
			vp_rep.stats["histories"] += 1; vp_rep.stats["steps"] += 2 * s.size();
		}
		fclose(f);
		for(auto *x : c1) delete x;
		for(auto *x : c2) delete x;
	}
	else if(a.str("mode") == "pointers")
	{
		FILE *f = fopen(a.str("trace").c_str(), "w");
		std::set<uintptr_t> p;
		for(int k = 0; k < 64; ++k) for(long d : {-1l, 0l, 1l}) { uintptr_t v = ((uintptr_t)1 << k) + d; if(v) p.insert(v); }
		for(int k = 0; k < 64; k += 3) { p.insert(((uintptr_t)1 << k) * 3); p.insert(UINTPTR_MAX - ((uintptr_t)1 << k) + 1); }
		for(long i = a.num("n", 60); i > 0; --i) { uintptr_t v = r.next() >> r.below(64); if(v) { p.insert(v); if(r.below(2)) p.insert(v ^ ((uintptr_t)1 << r.below(64)) ? v ^ ((uintptr_t)1 << r.below(64)) | 1 : 1); } }
		p.insert(UINTPTR_MAX);
		std::vector<uintptr_t> v(p.begin(), p.end());
		freopen("/dev/null", "w", stderr); // direct_hash reports what it cannot represent
		for(size_t i = 0; i < v.size(); ++i)
		{
			auto P = [](uintptr_t x) { return (const void *)x; };
			std::vector<long> h = {(long)LIB(direct_hash(P(v[i]))), (long)LIB(direct_hash(P(v[(i + 1) % v.size()])))}, eq, c;
			h[1] = LIB(direct_hash(P(v[i])));
			for(size_t j = 0; j < v.size(); ++j) { eq.push_back(LIB(direct_equal(P(v[i]), P(v[j])))); c.push_back(sgn(LIB(direct_compare(P(v[i]), P(v[j]))))); }
			fputs(row({(long)i + 1}, h, eq, c).c_str(), f);
			vp_rep.stats["histories"] += 1; vp_rep.stats["steps"] += 2 * v.size();
		}
		fclose(f);
	}
	else
	{
		S s;
		std::string t = a.str("tokens", "plain");
		if(t == "plain") s.tok = {"a", "b", "c"};
		else if(t == "high") s.tok = {"\x7f", "\x80", "\xff"};
		else if(t == "ctl") s.tok = {"\x01", " ", "\xc3"};
		else if(t == "case") s.tok = {"A", "a", "_"};
		else if(t == "words") s.tok = {"aaaaaaaa", "aaaaaaab", "\x81"};
		else s.tok = {"\x80\x01", "\x80", "\x01"};
		long hl = a.num("head", 0);
		for(long i = 0; i < hl; ++i) s.head += (char)(33 + i % 90);
		s.la = a.num("la", 0); s.lb = a.num("lb", 0);
		vp_rep.context = "tokens " + t + ", common prefix of " + std::to_string(hl) + " bytes, copies at offsets " + std::to_string(s.la) + " and " + std::to_string(s.lb);
		Aspects asp;
		asp.parse("*=RS");
		Graph g;
		g.load(a.str("graph").c_str(), [&](const std::string &) { return true; });
		Walker w(g, s, asp, seed, 40);
		for(int i : g.inits) w.cover(i, a.num("budget", 60));
		for(size_t k = 1; k < vp_rep.history.size() && k < 4; ++k) vp_rep.sample(vp_rep.history[k]);
		w.stats();
	}
	vp_rep.write();
	return 0;
}
