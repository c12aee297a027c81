// Shared machinery of the conformance harnesses.
//  * a tiny JSON reader/writer (canonical text: sorted keys, no blanks)
//  * the transition relation of a TLA+ module as TLC printed it (one JSON line per transition)
//  * a walker which steps the real code along that relation: at every step the specification must
//    contain a transition (state, operation) -> (result, freed objects, observable state) equal to
//    what the real code did
//  * memory accounting of allocations made inside library calls, crash and hang reporting
#pragma once
#include <algorithm>
#include <array>
#include <cassert>
#include <cinttypes>
#include <csignal>
#include <ctime>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <sys/time.h>
#include <unistd.h>
#if defined(__has_feature)
#if __has_feature(address_sanitizer) && !defined(__SANITIZE_ADDRESS__)
#define __SANITIZE_ADDRESS__ 1
#endif
#endif
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/allocator_interface.h>
#include <sanitizer/common_interface_defs.h>
#define CORE_ASAN 1
#endif

// ------------------------------------------------------------------ JSON
struct JV
{
	enum T { NIL, BOOL, NUM, STR, ARR, OBJ } t = NIL;
	long n = 0;
	std::string s;
	std::vector<JV> a;
	std::map<std::string, JV> o;
	const JV &operator[](const char *k) const
	{
		static JV nil;
		auto i = o.find(k);
		return i == o.end() ? nil : i->second;
	}
	const JV &operator[](int i) const { if(i < 0 || (size_t)i >= a.size()) { fprintf(stderr, "bad index\n"); _exit(2); } return a[i]; }
	size_t size() const { return a.size(); }
	std::string dump() const
	{
		switch(t)
		{
		case NIL: return "null";
		case BOOL: return n ? "true" : "false";
		case NUM: return std::to_string(n);
		case STR: return "\"" + s + "\"";
		case ARR:
		{
			std::string r = "[";
			for(size_t i = 0; i < a.size(); ++i) { if(i) r += ","; r += a[i].dump(); }
			return r + "]";
		}
		default:
		{
			std::string r = "{";
			bool first = true;
			for(auto &k : o) { if(!first) r += ","; first = false; r += "\"" + k.first + "\":" + k.second.dump(); }
			return r + "}";
		}
		}
	}
};

struct JParser
{
	const char *p;
	void ws() { while(*p == ' ' || *p == '\n' || *p == '\t' || *p == '\r') ++p; }
	JV parse()
	{
		JV v;
		ws();
		if(*p == '{')
		{
			v.t = JV::OBJ; ++p; ws();
			while(*p && *p != '}')
			{
				JV k = parse(); ws();
				if(*p == ':') ++p;
				v.o[k.s] = parse(); ws();
				if(*p == ',') ++p;
				ws();
			}
			if(*p) ++p;
		}
		else if(*p == '[')
		{
			v.t = JV::ARR; ++p; ws();
			while(*p && *p != ']') { v.a.push_back(parse()); ws(); if(*p == ',') ++p; ws(); }
			if(*p) ++p;
		}
		else if(*p == '"')
		{
			v.t = JV::STR; ++p;
			while(*p && *p != '"') { if(*p == '\\' && p[1]) ++p; v.s += *p++; }
			if(*p) ++p;
		}
		else if(!strncmp(p, "true", 4)) { v.t = JV::BOOL; v.n = 1; p += 4; }
		else if(!strncmp(p, "false", 5)) { v.t = JV::BOOL; p += 5; }
		else if(!strncmp(p, "null", 4)) { p += 4; }
		else { v.t = JV::NUM; char *e; v.n = strtol(p, &e, 10); if(e == p) { fprintf(stderr, "bad JSON at '%.40s'\n", p); exit(2); } p = e; }
		return v;
	}
};
static inline JV jparse(const std::string &s) { JParser q{s.c_str()}; return q.parse(); }

static inline std::string jesc(const std::string &s)
{
	std::string r;
	for(unsigned char c : s)
	{
		if(c == '"' || c == '\\') { r += '\\'; r += c; }
		else if(c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
		else r += c;
	}
	return r;
}
static inline std::string jarr(const std::vector<long> &v)
{
	std::string r = "[";
	for(size_t i = 0; i < v.size(); ++i) { if(i) r += ","; r += std::to_string(v[i]); }
	return r + "]";
}

// ------------------------------------------------------------------ random numbers
struct Rng
{
	uint64_t s;
	explicit Rng(uint64_t x) : s(x * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
	uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 0x2545F4914F6CDD1Dull; }
	size_t below(size_t n) { return n ? (next() >> 11) % n : 0; }
};

// what a compare function returns for x < y and x > y: only the sign means anything
static inline int32_t vp_order(long x, long y)
{
	static const int32_t up[] = {1, 256, INT32_MAX, 65536, 2, 1 << 24}, down[] = {-1, INT32_MIN, -256, -65536, -2, -(1 << 24)};
	unsigned long k = ((unsigned long)x * 7 + (unsigned long)y * 3) % 6;
	return x < y ? down[k] : x > y ? up[k] : 0;
}

// ------------------------------------------------------------------ memory accounting
// Allocations made while in_lib is set belong to the library.
extern "C" { extern volatile int vp_in_lib; }
extern volatile unsigned long vp_calls;

struct LibMem
{
	static const size_t N = 1 << 20;
	void **tab = nullptr;
	size_t used = 0; // live library allocations
	size_t bytes = 0;
	size_t *sz = nullptr;
	unsigned long allocs = 0;
	bool busy = false;
	void init() { if(!tab) { tab = (void **)calloc(N, sizeof *tab); sz = (size_t *)calloc(N, sizeof *sz); } }
	size_t slot(const void *p) const
	{
		size_t h = ((uintptr_t)p >> 4) * 0x9E3779B97F4A7C15ull >> 44;
		return h & (N - 1);
	}
	void add(const void *p, size_t n)
	{
		if(!tab || !p || used > N / 2) return;
		size_t i = slot(p);
		while(tab[i]) i = (i + 1) & (N - 1);
		tab[i] = (void *)p; sz[i] = n; ++used; bytes += n; ++allocs;
	}
	void del(const void *p)
	{
		if(!tab || !p || !used) return;
		size_t i = slot(p);
		while(tab[i] && tab[i] != p) i = (i + 1) & (N - 1);
		if(!tab[i]) return;
		--used; bytes -= sz[i];
		tab[i] = nullptr;
		for(size_t j = (i + 1) & (N - 1); tab[j]; j = (j + 1) & (N - 1))
		{
			void *q = tab[j]; size_t n = sz[j];
			tab[j] = nullptr;
			size_t k = slot(q);
			while(tab[k]) k = (k + 1) & (N - 1);
			tab[k] = q; sz[k] = n;
		}
	}
};
extern LibMem vp_mem;

// every call into the library goes through LIB(...)
struct LibScope
{
	LibScope() { ++vp_calls; vp_in_lib = 1; }
	~LibScope() { vp_in_lib = 0; }
};
struct UserScope // inside callbacks
{
	int old;
	UserScope() : old(vp_in_lib) { vp_in_lib = 0; }
	~UserScope() { vp_in_lib = old; }
};
#define LIB(x) ([&]() -> decltype(auto) { LibScope ls_; return x; }())

// ------------------------------------------------------------------ reporting
struct Report
{
	std::string file;
	std::string kind, detail;
	bool violation = false;
	std::vector<std::string> history; // since the last start of a fresh object
	std::string context;
	std::map<std::string, long> stats;
	std::vector<std::string> samples;
	void sample(const std::string &s) { if(samples.size() < 6) samples.push_back(s); }
	void write()
	{
		FILE *f = file.empty() ? stdout : fopen(file.c_str(), "w");
		if(!f) { perror("report"); _exit(2); }
		fprintf(f, "{\"status\":\"%s\",\"kind\":\"%s\",\"detail\":\"%s\",\"context\":\"%s\",\n\"stats\":{", violation ? "violation" : "ok",
			jesc(kind).c_str(), jesc(detail).c_str(), jesc(context).c_str());
		bool first = true;
		for(auto &k : stats) { fprintf(f, "%s\"%s\":%ld", first ? "" : ",", k.first.c_str(), k.second); first = false; }
		fprintf(f, "},\n\"samples\":[");
		for(size_t i = 0; i < samples.size(); ++i) fprintf(f, "%s\"%s\"", i ? "," : "", jesc(samples[i]).c_str());
		fprintf(f, "],\n\"history\":[");
		if(violation) for(size_t i = 0; i < history.size(); ++i) fprintf(f, "%s\"%s\"", i ? "," : "", jesc(history[i]).c_str());
		fprintf(f, "]}\n");
		if(f != stdout) fclose(f);
	}
	[[noreturn]] void fail(const std::string &k, const std::string &d)
	{
		vp_in_lib = 0;
		kind = k; detail = d; violation = true;
		write();
		fprintf(stderr, "violation (%s): %s\n", k.c_str(), d.c_str());
		_exit(10);
	}
};
extern Report vp_rep;

void vp_setup(const char *report_file);
extern "C" int vp_junk(void);

#ifdef CORE_IMPL
volatile int vp_in_lib = 0;
volatile unsigned long vp_calls = 0;
LibMem vp_mem;
Report vp_rep;
static volatile sig_atomic_t vp_dying = 0;

static void vp_on_death()
{
	if(vp_dying || vp_rep.violation) return;
	vp_dying = 1;
	int in = vp_in_lib;
	vp_in_lib = 0;
	if(!in && vp_rep.stats.count("strict_crash"))
	{
		// a crash of the harness itself is an error of the check, not a finding
		fprintf(stderr, "harness crashed outside library code\n");
	}
	vp_rep.kind = "crash";
	vp_rep.detail = std::string("the process crashed or used memory wrongly ") + (in ? "inside a library call" : "while the harness used objects of the library");
	vp_rep.violation = true;
	vp_rep.write();
	_exit(10);
}
static void vp_on_tick(int)
{
	static unsigned long last = 0;
	static int same = 0;
	if(vp_in_lib && vp_calls == last) ++same;
	else { same = 0; last = vp_calls; }
	if(same >= 12)
	{
		vp_in_lib = 0;
		vp_rep.kind = "hang";
		vp_rep.detail = "a single library call used more than 20 s of processor time";
		vp_rep.violation = true;
		vp_rep.write();
		_exit(10);
	}
}
// a call that neither ends nor runs: every 2 s of real time
static void vp_on_wall(int)
{
	static unsigned long last = 0;
	static int same = 0;
	static clock_t used = 0;
	clock_t now = clock();
	if(vp_in_lib && vp_calls == last && now - used < CLOCKS_PER_SEC / 20) ++same;
	else { same = 0; last = vp_calls; }
	used = now;
	if(same >= 12)
	{
		vp_in_lib = 0;
		vp_rep.kind = "hang";
		vp_rep.detail = "a single library call of the only thread has been blocked for more than 20 s";
		vp_rep.violation = true;
		vp_rep.write();
		_exit(10);
	}
}
#ifdef CORE_ASAN
extern "C" const char *__asan_default_options()
{
	return "detect_leaks=0:handle_abort=1:handle_segv=1:handle_sigbus=1:handle_sigfpe=1:exitcode=11:detect_odr_violation=0:"
	       "quarantine_size_mb=16:hard_rss_limit_mb=6000:max_malloc_fill_size=65536:max_free_fill_size=65536:free_fill_byte=213:allocator_may_return_null=1:detect_stack_use_after_return=0";
}
static void vp_malloc_hook(const volatile void *p, size_t n) { if(vp_in_lib && !vp_mem.busy) { vp_mem.busy = true; vp_mem.add((const void *)p, n); vp_mem.busy = false; } }
static void vp_free_hook(const volatile void *p) { if(!vp_mem.busy) { vp_mem.busy = true; vp_mem.del((const void *)p); vp_mem.busy = false; } }
#else
static void vp_on_sig(int s) { vp_on_death(); _exit(11); }
#endif
extern "C" int vp_junk(void)
{
	static int j = getenv("VP_JUNK") ? atoi(getenv("VP_JUNK")) : 0xEE;
	return j;
}
void vp_setup(const char *report_file)
{
	vp_rep.file = report_file ? report_file : "";
	static char errbuf[8192], outbuf[8192]; // so that what the library prints does not allocate anything
	setvbuf(stderr, errbuf, _IOLBF, sizeof errbuf);
	setvbuf(stdout, outbuf, _IOLBF, sizeof outbuf);
#ifdef CORE_ASAN
	vp_mem.init();
	__sanitizer_install_malloc_and_free_hooks(vp_malloc_hook, vp_free_hook);
	__sanitizer_set_death_callback(vp_on_death);
#else
	for(int s : {SIGSEGV, SIGBUS, SIGFPE, SIGABRT, SIGILL}) signal(s, vp_on_sig);
#endif
	struct sigaction sa;
	memset(&sa, 0, sizeof sa);
	sa.sa_handler = vp_on_tick;
	sa.sa_flags = SA_RESTART;
	sigaction(SIGPROF, &sa, nullptr);
	struct itimerval it = {{2, 0}, {2, 0}};
	setitimer(ITIMER_PROF, &it, nullptr);
	sa.sa_handler = vp_on_wall;
	sigaction(SIGRTMIN, &sa, nullptr);
	struct sigevent se;
	memset(&se, 0, sizeof se);
	se.sigev_notify = SIGEV_SIGNAL;
	se.sigev_signo = SIGRTMIN;
	timer_t t;
	struct itimerspec its = {{2, 0}, {2, 0}};
	if(!timer_create(CLOCK_MONOTONIC, &se, &t)) timer_settime(t, 0, &its, nullptr);
}
#endif

// ------------------------------------------------------------------ the specification's transition relation
struct Trans
{
	std::string res;                // canonical JSON of the result
	std::vector<std::string> freed; // sorted
	int to;
};
struct OpGroup
{
	int op;
	std::vector<Trans> alts;
	bool covered = false, skipped = false;
	int tries = 0;
	int seen_to = -1;  // successor the real code was seen to take
};
struct Graph
{
	std::vector<std::string> obs; // observable part of a state (canonical JSON)
	std::vector<JV> state;
	std::unordered_map<std::string, int> sid;
	std::vector<std::vector<OpGroup>> out;
	std::vector<std::string> opname;
	std::vector<JV> opargs;
	std::unordered_map<std::string, int> opid;
	std::vector<int> inits;
	long ntrans = 0;
	struct RawOp { bool use; int op = 0; std::string res; std::vector<std::string> freed; };
	std::unordered_map<std::string, int> rawid;
	std::unordered_map<std::string, RawOp> rawop;
	std::set<std::string> fields; // the parts of the observable state this property speaks about; empty = all
	std::string project(const JV &v) const
	{
		if(fields.empty() || v.t != JV::OBJ) return v.dump();
		std::string r = "{";
		for(auto &k : v.o) if(k.first == "dead" || fields.count(k.first)) { if(r.size() > 1) r += ","; r += "\"" + k.first + "\":" + k.second.dump(); }
		return r + "}";
	}
	int st(const JV &v)
	{
		std::string k = v.dump();
		auto i = sid.find(k);
		if(i != sid.end()) return i->second;
		int n = (int)obs.size();
		sid[k] = n;
		obs.push_back(project(v["obs"]));
		state.push_back(v);
		out.emplace_back();
		return n;
	}
	int opi(const std::string &name, const JV &args)
	{
		std::string k = name + args.dump();
		auto i = opid.find(k);
		if(i != opid.end()) return i->second;
		int n = (int)opname.size();
		opid[k] = n;
		opname.push_back(name);
		opargs.push_back(args);
		return n;
	}
	std::string opstr(int o) const { return opname[o] + opargs[o].dump(); }
	// lines "\"{...}\"" as printed by PrintT(ToJson(..))
	void load(const char *file, const std::function<bool(const std::string &)> &use)
	{
		FILE *f = fopen(file, "r");
		if(!f) { perror(file); exit(2); }
		char *line = nullptr;
		size_t cap = 0;
		ssize_t n;
		while((n = getline(&line, &cap, f)) > 0)
		{
			if(n < 3 || line[0] != '"' || line[1] != '{') continue;
			std::string s;
			s.reserve(n);
			for(ssize_t i = 1; i < n && line[i] != '\n'; ++i)
			{
				if(line[i] == '\\' && i + 1 < n) { s += line[++i]; continue; }
				s += line[i];
			}
			if(!s.empty() && s.back() == '"') s.pop_back();
			// the top level members, as text (TLC prints equal values as equal text)
			std::map<std::string, std::string> m;
			{
				size_t i = 1;
				while(i < s.size() && s[i] == '"')
				{
					size_t e = s.find('"', i + 1);
					std::string key = s.substr(i + 1, e - i - 1);
					size_t v0 = e + 2, j = v0;
					int depth = 0;
					bool str = false;
					for(; j < s.size(); ++j)
					{
						char c = s[j];
						if(str) { if(c == '\\') ++j; else if(c == '"') str = false; continue; }
						if(c == '"') str = true;
						else if(c == '{' || c == '[') ++depth;
						else if(c == '}' || c == ']') { if(!depth) break; --depth; }
						else if(c == ',' && !depth) break;
					}
					m[key] = s.substr(v0, j - v0);
					i = j + 1;
				}
			}
			auto raw = [&](const std::string &t) { auto i = rawid.find(t); if(i != rawid.end()) return i->second; int k = st(jparse(t)); rawid.emplace(t, k); return k; };
			if(m.count("init")) { int i = raw(m["init"]); if(std::find(inits.begin(), inits.end(), i) == inits.end()) inits.push_back(i); continue; }
			auto oc = rawop.find(m["o"]);
			if(oc == rawop.end())
			{
				JV o = jparse(m["o"]);
				RawOp r;
				r.use = use(o["name"].s);
				if(r.use)
				{
					r.op = opi(o["name"].s, o["args"]);
					r.res = o["res"].dump();
					for(auto &x : o["freed"].a) r.freed.push_back(x.dump());
					std::sort(r.freed.begin(), r.freed.end());
				}
				oc = rawop.emplace(m["o"], r).first;
			}
			if(!oc->second.use) continue;
			int a = raw(m["s"]), b = raw(m["t"]);
			int op = oc->second.op;
			Trans t;
			t.res = oc->second.res;
			t.freed = oc->second.freed;
			t.to = b;
			OpGroup *g = nullptr;
			for(auto &x : out[a]) if(x.op == op) g = &x;
			if(!g) { out[a].emplace_back(); g = &out[a].back(); g->op = op; }
			bool dup = false;
			for(auto &x : g->alts) if(x.to == t.to && x.res == t.res && x.freed == t.freed) dup = true;
			if(!dup) { g->alts.push_back(t); ++ntrans; }
		}
		free(line);
		fclose(f);
		if(inits.empty() || !ntrans) { fprintf(stderr, "no transitions in %s\n", file); exit(2); }
	}
	long groups() const { long n = 0; for(auto &g : out) n += g.size(); return n; }
};

// ------------------------------------------------------------------ system under test
struct Sut
{
	virtual ~Sut() {}
	virtual void start(const JV &init) = 0;                                                                   // fresh object(s)
	virtual std::string apply(const std::string &op, const JV &args, std::vector<std::string> &freed) = 0;     // canonical result
	virtual std::string obs() = 0;                                                                            // canonical observable state
	std::set<std::string> fields;
	bool want(const char *f) const { return fields.empty() || fields.count(f); }
	virtual bool dead() = 0;                                                                                  // object is gone
	virtual void dispose() = 0;                                                                               // drop whatever is left, no checks
	virtual std::string leftovers() = 0;                                                                      // after the object is gone: "" or what was not given back
};

enum { A_RES = 1, A_STATE = 2, A_FREED = 4, A_MEM = 8 };
struct Aspects
{
	std::map<std::string, int> by_op;
	int def = 15;
	// "Append=RS,Find=R,*=S"
	void parse(const std::string &s)
	{
		size_t i = 0;
		while(i < s.size())
		{
			size_t e = s.find(',', i);
			if(e == std::string::npos) e = s.size();
			std::string x = s.substr(i, e - i);
			size_t q = x.find('=');
			int m = 0;
			for(char c : x.substr(q + 1)) m |= c == 'R' ? A_RES : c == 'S' ? A_STATE : c == 'F' ? A_FREED : c == 'M' ? A_MEM : 0;
			if(x.substr(0, q) == "*") def = m; else by_op[x.substr(0, q)] = m;
			i = e + 1;
		}
	}
	int of(const std::string &op) const { auto i = by_op.find(op); return i == by_op.end() ? def : i->second; }
};

struct Walker
{
	Graph &g;
	Sut &sut;
	Aspects &asp;
	Rng rng;
	int cur = -1;
	long steps = 0, restarts = 0, abandoned = 0, obs_checks = 0;
	size_t maxlen;
	bool started = false;
	std::unordered_set<int> visited;
	Walker(Graph &g, Sut &s, Aspects &a, uint64_t seed, size_t maxlen = 60) : g(g), sut(s), asp(a), rng(seed), maxlen(maxlen)
	{
		// one state is followed, not a set of states: what can be observed has to tell the successor
		for(size_t i = 0; i < g.out.size(); ++i) for(auto &grp : g.out[i]) for(size_t x = 0; x < grp.alts.size(); ++x) for(size_t y = x + 1; y < grp.alts.size(); ++y)
		{
			auto &p = grp.alts[x], &q = grp.alts[y];
			if(p.to != q.to && p.res == q.res && p.freed == q.freed && g.obs[p.to] == g.obs[q.to])
			{
				fprintf(stderr, "ambiguous transitions: %s in %s\n", g.opstr(grp.op).c_str(), g.state[i].dump().c_str());
				exit(2);
			}
		}
	}

	void restart(int init)
	{
		if(started && !sut.dead()) sut.dispose();
		vp_rep.history.clear();
		vp_rep.history.push_back("start " + g.state[init].dump());
		sut.start(g.state[init]);
		started = true;
		cur = init;
		visited.insert(cur);
		++restarts;
		std::string o = sut.obs();
		if(o != g.obs[init] && (asp.def & A_STATE)) vp_rep.fail("state", "a fresh object shows " + o + ", the specification says " + g.obs[init]);
	}
	// perform an operation of the current state; true if the walk can go on
	bool step(OpGroup &grp)
	{
		const std::string &name = g.opname[grp.op];
		const JV &args = g.opargs[grp.op];
		int mask = asp.of(name);
		std::vector<std::string> freed;
		vp_rep.history.push_back(name + args.dump());
		std::string res = sut.apply(name, args, freed);
		std::string o = sut.obs();
		std::sort(freed.begin(), freed.end());
		++steps; ++obs_checks;
		std::string got = "result " + res + ", state " + o + ", freed [";
		for(auto &x : freed) got += x + " ";
		got += "]";
		vp_rep.history.back() += " -> " + got;
		grp.covered = true;
		const Trans *full = nullptr, *part = nullptr;
		for(auto &t : grp.alts)
		{
			bool r = t.res == res, s = g.obs[t.to] == o, f = t.freed == freed;
			if(r && s && f) { full = &t; break; }
			if((!(mask & A_RES) || r) && (!(mask & A_STATE) || s) && (!(mask & A_FREED) || f)) part = &t;
		}
		if(full)
		{
			cur = full->to;
			grp.seen_to = cur;
			visited.insert(cur);
			if(sut.dead() && (mask & A_MEM))
			{
				std::string l = sut.leftovers();
				if(!l.empty()) vp_rep.fail("memory", "after " + name + ": " + l);
			}
			return true;
		}
		if(!part)
		{
			std::string want;
			for(auto &t : grp.alts)
			{
				want += " | result " + t.res + ", state " + g.obs[t.to] + ", freed [";
				for(auto &x : t.freed) want += x + " ";
				want += "]";
				if(want.size() > 1500) { want += " ..."; break; }
			}
			vp_rep.fail("conformance", name + args.dump() + ": the code did " + got + "; the specification allows" + want);
		}
		// differs in an aspect this property does not speak about: this history ends here
		++abandoned;
		if(!sut.dead()) sut.dispose();
		started = false;
		cur = -1;
		return false;
	}
	// shortest known way from cur to a state with an uncovered operation; returns ops
	bool plan(std::vector<int> &path)
	{
		path.clear();
		std::vector<std::pair<int, std::pair<int, int>>> q; // state, (parent index, group index)
		static std::vector<int> mark;
		static int stamp = 0;
		if(mark.size() < g.out.size()) mark.resize(g.out.size(), 0);
		++stamp;
		q.push_back({cur, {-1, -1}});
		mark[cur] = stamp;
		for(size_t i = 0; i < q.size(); ++i)
		{
			int s = q[i].first;
			for(size_t k = 0; k < g.out[s].size(); ++k)
			{
				OpGroup &grp = g.out[s][k];
				if(grp.skipped) continue;
				if(!grp.covered)
				{
					path.push_back((int)k);
					for(int j = (int)i; q[j].second.first >= 0; j = q[j].second.first) path.push_back(q[j].second.second);
					std::reverse(path.begin(), path.end());
					return true;
				}
			}
			for(size_t k = 0; k < g.out[s].size(); ++k)
			{
				OpGroup &grp = g.out[s][k];
				if(grp.seen_to >= 0)
				{
					if(mark[grp.seen_to] != stamp) { mark[grp.seen_to] = stamp; q.push_back({grp.seen_to, {(int)i, (int)k}}); }
				}
				else for(auto &t : grp.alts) if(mark[t.to] != stamp) { mark[t.to] = stamp; q.push_back({t.to, {(int)i, (int)k}}); }
			}
		}
		return false;
	}
	// cover every (state, operation) reachable from init by what the code actually does
	void cover(int init, double budget_s)
	{
		struct timeval t0, t;
		gettimeofday(&t0, nullptr);
		std::vector<int> path;
		restart(init);
		int fruitless = 0;
		for(;;)
		{
			gettimeofday(&t, nullptr);
			if((t.tv_sec - t0.tv_sec) + (t.tv_usec - t0.tv_usec) / 1e6 > budget_s) { vp_rep.stats["budget_hit"]++; return; }
			if(cur < 0 || sut.dead() || vp_rep.history.size() > maxlen) restart(init);
			if(!plan(path))
			{
				if(cur == init) return;
				restart(init);
				if(!plan(path)) return;
			}
			bool fresh = false;
			for(size_t i = 0; i < path.size(); ++i)
			{
				OpGroup &grp = g.out[cur][path[i]];
				bool was = grp.covered;
				int expect = -1;
				if(i + 1 < path.size()) { if(grp.seen_to >= 0) expect = grp.seen_to; }
				if(!step(grp)) break;
				if(!was) { fresh = true; if(!(i + 1 == path.size())) break; }
				if(sut.dead()) break;
				if(expect >= 0 && cur != expect) { grp.seen_to = cur; break; }
				if(i + 1 < path.size() && (size_t)path[i + 1] >= g.out[cur].size()) break;
			}
			fruitless = fresh ? 0 : fruitless + 1;
			if(fruitless > 200) { vp_rep.stats["gave_up"]++; return; }
		}
	}
	// random operations
	void random(int init, long n, size_t len)
	{
		restart(init);
		size_t k = 0;
		for(long i = 0; i < n; ++i)
		{
			if(cur < 0 || sut.dead() || k > len || g.out[cur].empty()) { restart(init); k = 0; if(g.out[cur].empty()) return; }
			OpGroup &grp = g.out[cur][rng.below(g.out[cur].size())];
			if(g.opname[grp.op] == "Destroy" && rng.below(8)) continue;
			++k;
			if(vp_rep.history.size() > 4000) vp_rep.history.erase(vp_rep.history.begin() + 1, vp_rep.history.begin() + 2000);
			step(grp);
		}
	}
	// a long random walk which prefers pairs of consecutive operations it has not made yet
	long pairs = 0;
	void random_pairs(int init, long n, size_t len, double budget_s = 1e9)
	{
		std::unordered_map<uint64_t, std::vector<bool>> done;
		struct timeval t0, t;
		gettimeofday(&t0, nullptr);
		restart(init);
		size_t k = 0;
		uint64_t last = ~0ull;
		for(long i = 0; i < n; ++i)
		{
			if(!(i & 1023)) { gettimeofday(&t, nullptr); if((t.tv_sec - t0.tv_sec) + (t.tv_usec - t0.tv_usec) / 1e6 > budget_s) break; }
			if(cur < 0 || sut.dead() || k > len || g.out[cur].empty()) { restart(init); k = 0; last = ~0ull; if(g.out[cur].empty()) return; }
			auto &o = g.out[cur];
			std::vector<bool> &d = done[last];
			if(d.size() < o.size()) d.resize(o.size());
			size_t j = rng.below(o.size());
			if(d[j]) for(size_t a = 0; a < 12 && d[j]; ++a) j = rng.below(o.size());
			if(d[j]) // already done here: do not throw the object away too often
			{
				const std::string &nm = g.opname[o[j].op];
				if(nm == "Destroy" ? rng.below(32) : nm == "Restart" || nm == "Clear" ? rng.below(6) : 0) continue;
			}
			if(!d[j]) { d[j] = true; ++pairs; }
			++k;
			last = ((uint64_t)cur << 20) | j;
			if(vp_rep.history.size() > 4000) vp_rep.history.erase(vp_rep.history.begin() + 1, vp_rep.history.begin() + 2000);
			step(o[j]);
		}
	}
	void stats(const char *prefix = "")
	{
		long cov = 0, tot = 0;
		for(auto &o : g.out) for(auto &x : o) { ++tot; cov += x.covered; }
		auto &s = vp_rep.stats;
		std::string p = prefix;
		s[p + "spec_states"] = g.obs.size();
		s[p + "spec_transitions"] = g.ntrans;
		s[p + "spec_state_ops"] = tot;
		s[p + "covered_state_ops"] = std::max(s[p + "covered_state_ops"], cov);
		s[p + "steps"] += steps;
		s[p + "histories"] += restarts;
		s[p + "abandoned"] += abandoned;
		s[p + "operation_pairs"] += pairs;
		s[p + "visited_states"] = std::max<long>(s[p + "visited_states"], visited.size());
	}
	void uncover() { for(auto &o : g.out) for(auto &x : o) { x.covered = false; x.skipped = false; } }
};

// ------------------------------------------------------------------ command line: --key value
struct Args
{
	std::map<std::string, std::string> m;
	Args(int argc, char **argv) { for(int i = 1; i + 1 < argc; i += 2) m[argv[i] + 2] = argv[i + 1]; }
	std::string str(const char *k, const char *d = "") const { auto i = m.find(k); return i == m.end() ? d : i->second; }
	long num(const char *k, long d) const { auto i = m.find(k); return i == m.end() ? d : atol(i->second.c_str()); }
	bool has_in(const char *k, const std::string &x) const // x in comma separated list, empty list = all
	{
		std::string s = str(k);
		return s.empty() || ("," + s + ",").find("," + x + ",") != std::string::npos;
	}
};

// ------------------------------------------------------------------ recorded executions, one JSON object per line
struct Recorder
{
	FILE *f = nullptr;
	long lines = 0, runs = 0;
	Aspects &asp;
	Sut &sut;
	Recorder(const char *file, Aspects &a, Sut &s) : asp(a), sut(s)
	{
		f = fopen(file, "w");
		if(!f) { perror(file); exit(2); }
	}
	~Recorder() { if(f) fclose(f); }
	// params: JSON of what the specification needs to know about the fresh object
	void start(const std::string &params)
	{
		vp_rep.history.clear();
		vp_rep.history.push_back("start " + params);
		sut.start(jparse("{\"hid\":" + params + "}"));
		fprintf(f, "{\"k\":\"start\",\"p\":%s,\"obs\":%s,\"js\":%s}\n", params.c_str(), sut.obs().c_str(), asp.def & A_STATE ? "true" : "false");
		++lines; ++runs;
	}
	std::string step(const std::string &name, const std::string &args)
	{
		std::vector<std::string> freed;
		vp_rep.history.push_back(name + args);
		if(vp_rep.history.size() > 4000) vp_rep.history.erase(vp_rep.history.begin() + 1, vp_rep.history.begin() + 2000);
		std::string res = sut.apply(name, jparse(args), freed);
		std::sort(freed.begin(), freed.end());
		std::string fr = "[";
		for(auto &x : freed) { if(fr.size() > 1) fr += ","; fr += x; }
		fr += "]";
		std::string o = sut.obs();
		int m = asp.of(name);
		vp_rep.history.back() += " -> result " + res + ", state " + o + ", freed " + fr;
		auto b = [](int x) { return x ? "true" : "false"; };
		fprintf(f, "{\"k\":\"step\",\"n\":\"%s\",\"a\":%s,\"r\":%s,\"f\":%s,\"obs\":%s,\"jr\":%s,\"js\":%s,\"jf\":%s}\n", name.c_str(), args.c_str(), res.c_str(),
			fr.c_str(), o.c_str(), b(m & A_RES), b(m & A_STATE), b(m & A_FREED));
		++lines;
		if(sut.dead() && (m & A_MEM))
		{
			std::string l = sut.leftovers();
			if(!l.empty()) vp_rep.fail("memory", "after " + name + ": " + l);
		}
		return res;
	}
};
