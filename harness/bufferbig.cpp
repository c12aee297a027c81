// buffer.c holding gigabytes, against BufferBig.tla
#define CORE_IMPL
#include "core.hpp"
#include <sys/mman.h>
extern "C" {
#include "buffer.h"
}
static const size_t U = 1 << 20;
struct S : Sut
{
	size_t max = 1;
	Buffer *b = nullptr;
	char *src = nullptr;
	size_t longest = 0, room = 0; // units which are initialised, mapped
	std::vector<long> sizes;
	std::vector<char> page;
	void init()
	{
		page.resize(U);
		for(size_t i = 0; i < U; ++i) { unsigned char c = (unsigned char)(i * 31 + (i >> 8) * 7 + (i >> 16) * 3); page[i] = c == '\n' ? (char)0xFF : (char)c; }
		src = (char *)mmap(nullptr, room * U + 1, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
		if(src == MAP_FAILED) { perror("mmap"); exit(2); }
		for(size_t i = 0; i < longest; ++i) memcpy(src + i * U, page.data(), U);
	}
	void start(const JV &) override { dispose(); b = LIB(buffer_new(max)); }
	void dispose() override { if(b) { LIB(buffer_destroy(b)); } b = nullptr; }
	bool dead() override { return !b; }
	std::string leftovers() override { return ""; }
	// the first byte tells the size and whether the block ends with a newline
	char mark(size_t k, long l) { return (char)('A' + 2 * k + l); }
	size_t which(long n) { for(size_t k = 0; k < sizes.size(); ++k) if(sizes[k] == n) return k; exit(2); }
	std::string dec(const char *p, size_t n, bool line) // line: the newline of the last block was taken away
	{
		std::string r = "[";
		size_t i = 0;
		while(i < n)
		{
			size_t m = (size_t)(unsigned char)p[i] - 'A', k = m / 2, l = m % 2;
			bool ok = k < sizes.size(), cut = false;
			size_t len = ok ? (size_t)sizes[k] * U : 0;
			if(ok && i + len > n) { if(line && l && i + len == n + 1) cut = true; else ok = false; }
			if(ok)
			{
				for(size_t u = 0; ok && u < (size_t)sizes[k]; ++u)
				{
					size_t from = u == 0 ? 1 : 0, to = U - (u + 1 == (size_t)sizes[k] && l);
					if(memcmp(p + i + u * U + from, page.data() + from, to - from)) ok = false;
				}
				if(ok && l && !cut && p[i + len - 1] != '\n') ok = false;
				if(ok && line && l && !cut) ok = false;
			}
			if(r.size() > 1) r += ",";
			if(!ok) { r += "[-1,-1]"; break; }
			r += jarr({sizes[k], (long)l});
			i += len - cut;
		}
		return r + "]";
	}
	std::string obs() override
	{
		size_t n = LIB(buffer_len(b));
		bool v = LIB(buffer_is_valid(b)), e = LIB(buffer_is_empty(b));
		long u = n % U ? -1 : (long)(n / U);
		if(v && e != (n == 0)) u = -2;
		return std::string("{\"dead\":false,\"units\":") + std::to_string(u) + ",\"valid\":" + (v ? "true" : "false") + "}";
	}
	std::string apply(const std::string &op, const JV &a, std::vector<std::string> &) override
	{
		if(op == "Write")
		{
			size_t len = (size_t)a[0].n * U;
			src[0] = mark(which(a[0].n), a[1].n);
			char last = src[len - 1];
			if(a[1].n) src[len - 1] = '\n';
			bool ok = LIB(buffer_fill(b, src, len));
			src[len - 1] = last;
			return std::to_string(ok);
		}
		if(op == "Over")
		{
			size_t len = (size_t)a[0].n * U + 1;
			return std::to_string(LIB(buffer_fill(b, src, len))); // (zeroes beyond the longest block)
		}
		size_t have = LIB(buffer_len(b));
		if(op == "ReadLine" || op == "Flush")
		{
			char *d = nullptr;
			size_t len = 0;
			bool line = op == "ReadLine", ok = line ? LIB(buffer_read_line(b, &d, &len)) : LIB(buffer_flush(b, &d, &len));
			if(!ok) return d ? "[0,[[-2,-2]]]" : "[0,[]]";
			size_t n = line ? have - LIB(buffer_len(b)) - 1 : have;
			std::string r = len < n || d[n] ? "[[-3,-3]]" : dec(d, n, line);
			free(d);
			return "[1," + r + "]";
		}
		if(op == "ToString")
		{
			char *s = LIB(buffer_to_string(b));
			if(!s) return "[0,[]]";
			std::string r = s[have] ? "[[-3,-3]]" : dec(s, have, false);
			free(s);
			return "[1," + r + "]";
		}
		if(op == "Clear") { LIB(buffer_clear(b)); return "0"; }
		fprintf(stderr, "unknown operation %s\n", op.c_str());
		exit(2);
	}
};
int main(int argc, char **argv)
{
	Args a(argc, argv);
	vp_setup(a.str("report").c_str());
	S s;
	s.max = a.num("max", 1) * U;
	std::string z = a.str("sizes");
	for(size_t i = 0; i < z.size();) { size_t e = z.find(',', i); if(e == std::string::npos) e = z.size(); s.sizes.push_back(atol(z.substr(i, e - i).c_str())); s.longest = std::max(s.longest, (size_t)s.sizes.back()); i = e + 1; }
	s.room = std::max(s.longest, (size_t)a.num("max", 1));
	s.init();
	vp_rep.context = "maximum " + a.str("max") + " MiB";
	Aspects asp;
	asp.parse(a.str("aspects", "*=RS"));
	Graph g;
	g.load(a.str("graph").c_str(), [&](const std::string &) { return true; });
	Walker w(g, s, asp, a.num("seed", 1), a.num("maxlen", 30));
	for(int i : g.inits) w.cover(i, a.num("budget", 600));
	w.stats();
	s.dispose();
	vp_rep.write();
	return 0;
}
