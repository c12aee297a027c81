// buffer.c against Buffer.tla
#define CORE_IMPL
#include "core.hpp"
#include <fcntl.h>
#include <signal.h>
#include <sys/time.h>
#include <unistd.h>
#include <limits.h>
#include <stdio.h>
#include <stdbool.h>
#include <sys/mman.h>
extern "C" {
#include "buffer.h"
size_t __sanitizer_get_allocated_size(const volatile void *);
}
typedef std::vector<long> Tok;
struct S : Sut
{
	size_t bs = 1, max = 4;
	std::string life;
	Buffer *b = nullptr, obj;
	char *slot = nullptr; // destination used again and again
	size_t slot_len = 0;
	void start(const JV &) override
	{
		dispose();
		if(life == "init") { memset(&obj, vp_junk(), sizeof obj); b = &obj; LIB(buffer_init(b, max)); }
		else b = LIB(buffer_new(max));
	}
	void end() { if(life == "init") { LIB(buffer_free(b)); } else { LIB(buffer_destroy(b)); } b = nullptr; }
	void drop_slot() { LIB(free(slot)); slot = nullptr; slot_len = 0; }
	void dispose() override { if(b) end(); drop_slot(); }
	bool dead() override { return !b; }
	std::string leftovers() override
	{
		drop_slot();
		return vp_mem.used ? std::to_string(vp_mem.used) + " heap blocks (" + std::to_string(vp_mem.bytes) + " bytes) were not given back" : std::string();
	}
	// tokens <-> bytes
	unsigned char at(long t, size_t i)
	{
		if(i == 0) return t == 3 ? 'a' : 'b';
		unsigned char c = (unsigned char)(t * 59 + i * 31 + (i >> 8) * 7);
		return c == '\n' ? 0xFF : c;
	}
	size_t bytes(long t) { return t <= 2 ? 1 : bs; }
	std::string enc(const Tok &s)
	{
		std::string r;
		for(long t : s) { if(t == 1) r += '\n'; else if(t == 2) r += '\0'; else for(size_t i = 0; i < bs; ++i) r += (char)at(t, i); }
		return r;
	}
	Tok dec(const char *p, size_t n)
	{
		Tok r;
		size_t i = 0;
		while(i < n)
		{
			long t = p[i] == '\n' ? 1 : p[i] == 0 ? 2 : p[i] == 'a' ? 3 : p[i] == 'b' ? 4 : 0;
			bool ok = t && i + bytes(t) <= n;
			if(ok && t > 2) for(size_t k = 0; k < bs; ++k) if((unsigned char)p[i + k] != at(t, k)) { ok = false; break; }
			if(!ok) { r.push_back(-1); return r; }
			r.push_back(t);
			i += bytes(t);
		}
		return r;
	}
	static Tok toks(const JV &a) { Tok r; for(auto &x : a.a) r.push_back(x.n); return r; }
	std::string obs() override
	{
		if(!b) return "{\"dead\":true}";
		std::string r = "{";
		size_t n = LIB(buffer_len(b));
		if(want("content"))
		{
			char *s = LIB(buffer_to_string(b));
			Tok c;
			if(s) { c = dec(s, n); if(s[n] != 0) c.push_back(-2); }
			else if(n) c.push_back(-3);
			LIB(free(s));
			r += "\"content\":" + jarr(c) + ",";
		}
		r += "\"dead\":false";
		if(want("empty")) r += std::string(",\"empty\":") + (LIB(buffer_is_empty(b)) ? "true" : "false");
		if(want("len")) r += ",\"len\":" + std::to_string((long)n);
		if(want("valid")) r += std::string(",\"valid\":") + (LIB(buffer_is_valid(b)) ? "true" : "false");
		return r + "}";
	}
	// read_line or flush into a destination
	std::string into(bool line, long mode, size_t need)
	{
		char *d = nullptr;
		size_t len = 0, cap = 0;
		if(mode == 4) { d = slot; len = slot_len; }
		else if(mode)
		{
			cap = mode == 1 ? need + 1 : mode == 2 ? need : mode == 3 ? need + 100 : mode == 5 ? 1 : mode == 6 ? (need > 1 ? need - 1 : 0) : mode == 7 ? need + 2 : 0;
			if(cap) { vp_in_lib = 1; d = (char *)malloc(cap); vp_in_lib = 0; memset(d, 0x77, cap); }
			len = cap;
		}
		char *d0 = d;
		size_t len0 = len, have = d ? __sanitizer_get_allocated_size(d) : 0;
		std::string before(d ? d : "", have), r;
		bool ok = line ? LIB(buffer_read_line(b, &d, &len)) : LIB(buffer_flush(b, &d, &len));
		if(ok)
		{
			bool good = d && len >= need;
			Tok t;
			if(good)
			{
				size_t have2 = __sanitizer_get_allocated_size(d);
				if(have2 < len || have2 < need + 1) good = false;
				else
				{
					t = dec(d, need);
					if(d[need] != 0) good = false;
					// a destination that was long enough is used as far as it was described
					if(d == d0) for(size_t i = need + 1; i < before.size(); ++i) if(d[i] != before[i]) good = false;
				}
			}
			r = "[1," + jarr(t) + "," + std::to_string(good) + "]";
		}
		else
		{
			bool good = d == d0 && len == len0 && (!d || (__sanitizer_get_allocated_size(d) == have && !memcmp(d, before.data(), have)));
			r = std::string("[0,[],") + std::to_string(good) + "]";
		}
		if(mode == 4) { slot = d; slot_len = len; }
		else { LIB(free(d)); }
		return r;
	}
	static int ticks, tick_fd;
	static void tick(int) { if(++ticks == 4) close(tick_fd); }
	std::string from_fd(const Tok &t, size_t want, long src, long most)
	{
		std::string s = enc(t);
		int p[2] = {-1, -1}, fd = -1;
		if(src == 2)
		{
			fd = memfd_create("x", 0);
			if(fd < 0 || write(fd, "??", 2) != 2 || write(fd, s.data(), s.size()) != (ssize_t)s.size() || lseek(fd, 2, SEEK_SET) != 2) exit(2);
		}
		else if(src == 5) { if((fd = open("/", O_RDONLY | O_DIRECTORY)) < 0) exit(2); }
		else if(src == 4)
		{
			if(pipe(p)) exit(2);
			fd = p[0]; ticks = 0; tick_fd = p[1]; p[1] = -1;
			struct sigaction sa = {};
			sa.sa_handler = tick;
			if(sigaction(SIGALRM, &sa, nullptr)) exit(2);
			struct itimerval it = {{0, 300}, {0, 100}};
			setitimer(ITIMER_REAL, &it, nullptr);
		}
		else
		{
			if(pipe2(p, O_NONBLOCK)) exit(2);
			if(s.size() > 65536 && fcntl(p[1], F_SETPIPE_SZ, (int)s.size()) < (int)s.size()) exit(2);
			for(size_t i = 0; i < s.size();)
			{
				ssize_t w = write(p[1], s.data() + i, s.size() - i);
				if(w <= 0) { fprintf(stderr, "the pipe is too small\n"); exit(2); }
				i += w;
			}
			fd = src == 3 ? p[1] : p[0];
			if(src == 0) { close(p[1]); p[1] = -1; fcntl(p[0], F_SETFL, 0); }
		}
		long ret = (long)LIB(buffer_fill_from_fd(b, fd, want));
		if(src == 4)
		{
			struct itimerval it = {};
			setitimer(ITIMER_REAL, &it, nullptr);
			if(ticks < 4) close(tick_fd);
		}
		if(src == 5) { close(fd); return jarr({ret, 1}); }
		std::string rest;
		int rd = src == 2 ? fd : p[0];
		char tmp[4096];
		ssize_t n;
		while((n = read(rd, tmp, sizeof tmp)) > 0) rest.append(tmp, n);
		size_t used = s.size() - std::min(s.size(), rest.size());
		bool ok = rest.size() <= s.size() && s.compare(used, std::string::npos, rest) == 0 && (ret > 0 ? (long)used == ret : ret == 0 ? used == 0 : (long)used <= most);
		if((long)used > most) ok = false;
		if(src == 2) close(fd);
		if(p[0] >= 0) close(p[0]);
		if(p[1] >= 0) close(p[1]);
		return jarr({ret, ok});
	}
	std::string apply(const std::string &name, const JV &a, std::vector<std::string> &) override
	{
		std::string op = name.compare(0, 3, "Inv") ? name : name.substr(3);
		if(op == "Fill")
		{
			std::string s = enc(toks(a[0]));
			char *d = (char *)malloc(s.size() ? s.size() : 1); // exactly as long as described
			memcpy(d, s.data(), s.size());
			bool ok = LIB(buffer_fill(b, d, s.size()));
			free(d);
			return std::to_string(ok);
		}
		if(op == "FillTooMuch")
		{
			long k = a[0].n, room = a[1].n;
			std::string s(k == 0 ? room + 1 : 4096, 'x');
			size_t len = k == 0 ? (size_t)room + 1 : k == 1 ? (size_t)SSIZE_MAX : k == 2 ? SIZE_MAX : (size_t)0 - (max - room);
			if(len < 5) len = SIZE_MAX - 1; // nothing stored: no length wraps
			return std::to_string(LIB(buffer_fill(b, s.data(), len)));
		}
		if(op == "FillFd") return from_fd(toks(a[0]), a[1].n, a[2].n, a[3].n);
		if(op == "FillFdMax") return from_fd(toks(a[0]), a[1].n, 0, a[1].n);
		if(op == "ReadLine") return into(true, a[0].n, a[1].n);
		if(op == "Flush") return into(false, a[0].n, a[1].n);
		if(op == "ToString")
		{
			size_t n = a[0].n;
			char *s = LIB(buffer_to_string(b));
			if(!s) return "[0,[]]";
			Tok t = dec(s, n);
			if(s[n]) t.push_back(-2);
			LIB(free(s));
			return "[1," + jarr(t) + "]";
		}
		if(op == "Clear") { LIB(buffer_clear(b)); return "0"; }
		if(op == "Restart") { LIB(buffer_free(b)); LIB(buffer_init(b, max)); return "0"; }
		if(op == "Destroy") { end(); return "0"; }
		fprintf(stderr, "unknown operation %s\n", op.c_str());
		exit(2);
	}
};
int S::ticks, S::tick_fd;
int main(int argc, char **argv)
{
	Args a(argc, argv);
	vp_setup(a.str("report").c_str());
	if(freopen("/dev/null", "w", stderr) == nullptr) return 2; // the library reports every write that does not fit
	static char errbuf[8192];
	setvbuf(stderr, errbuf, _IOLBF, sizeof errbuf);
	S s;
	s.bs = a.num("bs", 1); s.max = a.num("max", 4); s.life = a.str("life", "new");
	vp_rep.context = "block " + a.str("bs") + " bytes, maximum " + a.str("max");
	Aspects asp;
	asp.parse(a.str("aspects", "*=RSFM"));
	std::string f = a.str("fields");
	for(size_t i = 0; i < f.size();) { size_t e = f.find(',', i); if(e == std::string::npos) e = f.size(); s.fields.insert(f.substr(i, e - i)); i = e + 1; }
	uint64_t seed = a.num("seed", 1);
	if(a.str("mode") == "trace")
	{
		Rng r(seed);
		Recorder rec(a.str("trace").c_str(), asp, s);
		long n = a.num("n", 1000), maxlen = a.num("len", 30);
		auto size = [&](const Tok &t) { size_t x = 0; for(long k : t) x += s.bytes(k); return x; };
		while(rec.lines < n)
		{
			rec.start("{\"x\":1}");
			long run = 30 + r.below(300), nl = r.below(40);
			Tok c;
			bool valid = true;
			auto mk = [&](size_t k) { Tok t; while(t.size() < k) t.push_back((long)r.below(100) < nl ? 1 : 2 + (long)r.below(3)); return t; };
			for(long i = 0; i < run && rec.lines < n; ++i)
			{
				size_t x = r.below(100);
				if(!r.below(30)) nl = r.below(60);
				Tok t = mk(r.below(r.below(4) ? 4 : 9));
				bool fits = size(c) + size(t) <= s.max, room = (long)c.size() < maxlen;
				if(!fits && r.below(4)) { t = mk(r.below(3)); fits = size(c) + size(t) <= s.max; }
				auto P = [&](const char *o) { return a.has_in("ops", o); };
				std::string inv = valid ? "" : "Inv";
				if(x < 30 && (room || !fits))
				{
					if(!P("Fill")) continue;
					if(!valid && t.size() > 1) continue;
					if(!valid) t = Tok(t.size(), a.num("tok", 1));
					rec.step(inv + "Fill", "[" + jarr(t) + "]");
					if(valid) { if(fits) c.insert(c.end(), t.begin(), t.end()); else { valid = false; c.clear(); } }
				}
				else if(x < 45 && (room || !fits))
				{
					if(!P("FillFd")) continue;
					size_t k = r.below(t.size() + 2);
					Tok got(t.begin(), t.begin() + std::min(k, t.size()));
					size_t want = k <= t.size() ? size(got) : size(t) + 1;
					long src = r.below(20) ? (long)r.below(3) : 3;
					if(t.empty() && r.below(3) == 0) src = 4 + (long)r.below(2);
					if(want > s.max || (src >= 3 && !want) || (src == 1 && t.empty() && !want)) continue;
					bool fails = src >= 3 || (src == 1 && t.empty());
					fits = size(c) + size(got) <= s.max;
					bool moves = valid && !fails && !got.empty();
					rec.step(inv + "FillFd", "[" + jarr(t) + "," + std::to_string(want) + "," + std::to_string(src) + "," + std::to_string(moves ? want : 0) + "]");
					if(moves) { if(fits) c.insert(c.end(), got.begin(), got.end()); else { valid = false; c.clear(); } }
				}
				else if(x < 65)
				{
					if(!P("ReadLine")) continue;
					auto p = std::find(c.begin(), c.end(), 1);
					size_t need = p == c.end() ? 0 : size(Tok(c.begin(), p));
					rec.step(inv + "ReadLine", jarr({(long)r.below(8), (long)need}));
					if(p != c.end()) c.erase(c.begin(), p + 1);
				}
				else if(x < 80) { if(P("Flush")) rec.step(inv + "Flush", jarr({(long)r.below(8), (long)size(c)})); }
				else if(x < 90) { if(P("ToString")) rec.step(inv + "ToString", jarr({(long)size(c)})); }
				else if(x < 92) { if(P("FillTooMuch")) { rec.step(inv + "FillTooMuch", jarr({(long)r.below(4), (long)(s.max - size(c))})); valid = false; c.clear(); } }
				else if(x < 97) { if((!valid || !r.below(5)) && P("Clear")) { rec.step("Clear", "[]"); valid = true; c.clear(); } }
				else if(x < 98) { if(P("Restart")) { rec.step("Restart", "[]"); valid = true; c.clear(); } }
			}
			if(a.has_in("ops", "Destroy")) rec.step("Destroy", "[]");
		}
		vp_rep.stats["trace_lines"] = rec.lines;
		vp_rep.stats["trace_runs"] = rec.runs;
		s.dispose();
	}
	else
	{
		Graph g;
		g.fields = s.fields;
		g.load(a.str("graph").c_str(), [&](const std::string &) { return true; });
		Walker w(g, s, asp, seed, a.num("maxlen", 80));
		for(int i : g.inits) w.cover(i, a.num("budget", 60));
		for(int i : g.inits)
		{
			w.random_pairs(i, a.num("pairs", 100000), 400, a.num("budget", 60));
			for(size_t k = 1; k < vp_rep.history.size() && k < 4; ++k) vp_rep.sample(vp_rep.history[k]);
		}
		w.stats();
		s.dispose();
	}
	vp_rep.write();
	return 0;
}
