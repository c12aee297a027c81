// hashtable.c / rbtree.c / assocarray.c (behind mapshim) against Map.tla
#define CORE_IMPL
#include "core.hpp"
#include "pools.hpp"
#include "mapshim.h"
#include "objs.hpp"

struct Obj { int label; long num; int filler; };
static Objs<Obj> g_objs;
static long name_of(const Obj *o) { return o->filler ? 0 : o->num ? o->num : -o->label; }
static std::unordered_set<Obj *> g_own; // objects the container holds (or is being handed)
static std::vector<std::string> *g_freed;
static long g_fk, g_fv, g_fbad;
static std::string g_hash = "ident";

static int32_t cmp(const void *a, const void *b) { long x = ((const Obj *)a)->num, y = ((const Obj *)b)->num; return vp_order(x, y); }
static bool eq(const void *a, const void *b) { return ((const Obj *)a)->num == ((const Obj *)b)->num; }
static uint32_t hash_(const void *a)
{
	long n = ((const Obj *)a)->num;
	if(g_hash == "const") return 42;
	if(g_hash == "mod2") return (uint32_t)(n % 2);
	if(g_hash == "mod7") return (uint32_t)(n % 7);
	if(g_hash == "neg") return UINT32_MAX - (uint32_t)n;
	if(g_hash == "mul") return (uint32_t)(n * 2654435761u);
	if(g_hash == "step") return (uint32_t)(n * 257);
	return (uint32_t)n;
}
static void freed_obj(Obj *o, bool key)
{
	UserScope u;
	if(!o) { if(g_freed) g_freed->push_back("-1"); return; }
	int l = o->label;
	if(o->filler) { (key ? g_fk : g_fv)++; if(!g_own.count(o)) ++g_fbad; }
	else if(g_freed) g_freed->push_back(std::to_string(g_own.count(o) ? l : -l));
	if(g_own.erase(o)) g_objs.drop(name_of(o), o);
}
static void free_key(void *p) { freed_obj((Obj *)p, true); }
static void free_val(void *p) { freed_obj((Obj *)p, false); }

struct MapSut : Sut
{
	std::string poolkind, life, place = "low", order = "shuf";
	size_t size = 0, niters = 1;
	long filln = 0;
	std::vector<long> keys;
	uint64_t seed = 1;
	TestPool *pool = nullptr;
	void *m = nullptr, *mem = nullptr, *pair = nullptr;
	bool gone = true, fk = false, fv = false, filled = false;
	std::map<long, Obj *> ck, cv; // shadow ownership, by key class
	std::vector<Obj *> flk, flv;
	struct It { void *mem = nullptr; int st = 0; bool cur = false; }; // st: 0 none, 1 stale, 2 live
	std::vector<It> its;
	Rng rng{1};

	long num(long k)
	{
		if(place == "high") return 10000000 + 3 * k;
		if(place == "spread") return 1001 + 2 * (filln * k / (long)(keys.size() + 1));
		return 3 * k;
	}
	long fnum(long i) { return 1000 + 2 * i; }
	Obj *mk(long label, long n, int filler = 0) { Obj o{(int)label, n, filler}; return g_objs.make(name_of(&o), o); }
	// something to search with: an object of its own, one that was stored before or (stored: too) one that is stored
	Obj *seek(Obj &o, long k, bool stored)
	{
		size_t c = g_objs.r.below(3);
		Obj *x = c == 0 ? nullptr : c == 1 && stored && ck.count(k) ? ck[k] : g_objs.again(num(k));
		return x ? x : &o;
	}
	Obj *own(Obj *o) { g_own.insert(o); return o; }
	void give_up(Obj *o) { if(o && g_own.erase(o)) g_objs.drop(name_of(o), o); } // the caller's again: gone

	void start(const JV &init) override
	{
		dispose();
		rng = Rng(seed + 17);
		std::string f = init["hid"]["f"].s;
		fk = f.find('k') != std::string::npos; fv = f.find('v') != std::string::npos;
		pool = m_has_pool ? TestPool::make(poolkind, m_node_size()) : nullptr;
		if(life == "init") { mem = m_alloc_object(); m = mem; LIB(m_init(m, size, hash_, eq, cmp, fk ? free_key : nullptr, fv ? free_val : nullptr, pool)); }
		else m = LIB(m_new(size, hash_, eq, cmp, fk ? free_key : nullptr, fv ? free_val : nullptr, pool));
		gone = false; filled = false; pair = nullptr;
		its.assign(niters + 1, It());
	}
	void drop_all()
	{
		g_freed = nullptr;
		for(Obj *o : g_own) delete o;
		g_own.clear(); ck.clear(); cv.clear(); flk.clear(); flv.clear(); filled = false; pair = nullptr;
	}
	void dispose() override
	{
		g_freed = nullptr;
		if(!gone)
		{
			free_iters();
			if(life == "init") { LIB(m_free_(m)); } else { LIB(m_destroy(m)); }
		}
		gone = true; m = nullptr;
		cleanup();
	}
	void cleanup() { drop_all(); free(mem); mem = nullptr; delete pool; pool = nullptr; for(It &i : its) free(i.mem); its.clear(); }
	bool dead() override { return gone; }
	std::string leftovers() override
	{
		std::string r;
		if(vp_mem.used) r = std::to_string(vp_mem.used) + " heap blocks (" + std::to_string(vp_mem.bytes) + " bytes) were not given back";
		if(pool) r += pool->complain();
		cleanup();
		return r;
	}
	void free_iters() { for(It &i : its) { if(i.st && m_reusable) { LIB(m_iter_free(i.mem)); } i.st = 0; i.cur = false; } }
	void invalidate() { for(It &i : its) { if(i.st) i.st = m_reusable ? 1 : 0; i.cur = false; } }
	static long lab(void *p) { return p ? ((Obj *)p)->label : 0; }
	std::string entry(void *k, void *v) { return "[" + std::to_string(lab(k)) + "," + std::to_string(lab(v)) + "]"; }
	std::string pair_entry(void *p)
	{
		void *k = LIB(m_pair_key(p, 0)), *v = LIB(m_pair_value(p, 0));
		if(m_pair_key(p, 1) != k || m_pair_value(p, 1) != v) return "[-5,-5]";
		return entry(k, v);
	}
	std::string obs() override
	{
		if(gone) return "{\"dead\":true}";
		if(pool) pool->holds(ck.size());
		std::string r = "{", ks = "[", vs = "[";
		if(want("count")) r += "\"count\":" + std::to_string((long)LIB(m_count(m))) + ",";
		r += "\"dead\":false";
		bool full = !pair && want("vals");
		// everything is looked up, in no particular order: what the last look-up before an operation and the first one after it are differs
		std::string fills;
		std::vector<std::string> has(keys.size()), val(keys.size());
		auto look_fill = [&]
		{
			if(!want("fill")) return;
			long ok = 0, n = filln;
			long step = n > 600 ? n / 97 + 1 : 1, probes = 0;
			for(long i = step > 1 ? (long)rng.below(step) : 0; i < n; i += step)
			{
				Obj probe{0, fnum(i), 1};
				++probes;
				if(!LIB(m_exists(m, &probe))) continue;
				if(full)
				{
					void *p = LIB(m_lookup(m, &probe));
					if(!p || !filled || LIB(m_pair_key(p, 0)) != flk[i] || LIB(m_pair_value(p, 0)) != flv[i]) continue;
				}
				++ok;
			}
			fills = ",\"fill\":" + std::to_string(filled ? n - (probes - ok) : ok);
		};
		auto look_keys = [&]
		{
			std::vector<size_t> o(keys.size());
			for(size_t i = 0; i < o.size(); ++i) o[i] = i;
			for(size_t i = o.size(); i > 1; --i) std::swap(o[i - 1], o[g_objs.r.below(i)]);
			for(size_t i : o)
			{
				long k = keys[i];
				Obj own{0, num(k), 0}, &probe = *seek(own, k, true);
				bool first = g_objs.r.below(2);
				if(first && full) { void *p = LIB(m_lookup(m, &probe)); val[i] = p ? pair_entry(p) : "[]"; }
				if(want("keys")) has[i] = LIB(m_exists(m, &probe)) ? "1" : "0";
				if(!first && full) { void *p = LIB(m_lookup(m, &probe)); val[i] = p ? pair_entry(p) : "[]"; }
			}
		};
		if(g_objs.r.below(2)) { look_fill(); look_keys(); } else { look_keys(); look_fill(); }
		r += fills;
		if(want("its"))
		{
			r += ",\"its\":[";
			for(size_t i = 1; i < its.size(); ++i)
			{
				if(i > 1) r += ",";
				It &it = its[i];
				if(it.st == 2 && it.cur)
				{
					void *k = LIB(m_iter_key(it.mem, 0)), *v = LIB(m_iter_value(it.mem, 0));
					if(m_iter_key(it.mem, 1) != k || m_iter_value(it.mem, 1) != v) r += "[-5,-5]"; else r += entry(k, v);
				}
				else r += "[]";
			}
			r += "]";
		}
		for(size_t i = 0; i < keys.size(); ++i)
		{
			if(i) { ks += ","; if(!pair) vs += ","; }
			ks += has[i];
			vs += val[i];
		}
		if(want("keys")) r += ",\"keys\":" + ks + "]";
		if(want("pair")) r += ",\"pair\":" + (pair ? pair_entry(pair) : std::string("[]"));
		if(want("vals")) r += ",\"vals\":" + vs + "]";
		return r + "}";
	}
	std::string apply(const std::string &op, const JV &a, std::vector<std::string> &freed) override
	{
		g_freed = &freed;
		g_fk = g_fv = g_fbad = 0;
		long res = 0;
		std::string text;
		if(op == "Set")
		{
			long k = a[0].n;
			bool ow = a[3].n;
			Obj *key = own(mk(10 * k + a[1].n, num(k))), *val = a[2].n ? own(mk(a[2].n, 0)) : nullptr;
			res = LIB(m_set(m, key, val, ow));
			if(ck.count(k))
			{
				Obj *ok = ck[k], *ov = cv[k];
				if(ow) { if(!fk) give_up(ok); ck[k] = key; } else give_up(key);
				if(!fv) give_up(ov);
				cv[k] = val;
			}
			else { ck[k] = key; cv[k] = val; }
			pair = nullptr; invalidate();
		}
		else if(op == "Remove")
		{
			long k = a[0].n;
			Obj own{0, num(k), 0}, &probe = *seek(own, k, false);
			res = LIB(m_remove(m, &probe));
			if(ck.count(k)) { if(!fk) give_up(ck[k]); if(!fv) give_up(cv[k]); ck.erase(k); cv.erase(k); }
			pair = nullptr; invalidate();
		}
		else if(op == "SetOwn") // the stored key itself is the argument
		{
			long k = a[0].n;
			Obj *ov = cv[k], *val = a[1].n ? own(mk(a[1].n, 0)) : nullptr;
			res = LIB(m_set(m, ck[k], val, false));
			if(!fv) give_up(ov);
			cv[k] = val;
			pair = nullptr; invalidate();
		}
		else if(op == "RemoveOwn")
		{
			long k = a[0].n;
			Obj *ok = ck[k], *ov = cv[k];
			res = LIB(m_remove(m, ok));
			if(!fk) give_up(ok);
			if(!fv) give_up(ov);
			ck.erase(k); cv.erase(k);
			pair = nullptr; invalidate();
		}
		else if(op == "Lookup") { Obj own{0, num(a[0].n), 0}, &probe = *seek(own, a[0].n, true); pair = LIB(m_lookup(m, &probe)); res = pair != nullptr; }
		else if(op == "Exists") { Obj own{0, num(a[0].n), 0}, &probe = *seek(own, a[0].n, true); res = LIB(m_exists(m, &probe)); }
		else if(op == "PairSet")
		{
			Obj *k = (Obj *)LIB(m_pair_key(pair, 0));
			long c = k->label / 10;
			Obj *ov = cv.count(c) ? cv[c] : nullptr, *val = a[0].n ? own(mk(a[0].n, 0)) : nullptr;
			LIB(m_pair_set(pair, val));
			if(!fv) give_up(ov);
			cv[c] = val;
			invalidate();
		}
		else if(op == "Forget") pair = nullptr;
		else if(op == "Fill")
		{
			flk.assign(filln, nullptr); flv.assign(filln, nullptr);
			std::vector<long> o(filln);
			for(long i = 0; i < filln; ++i) o[i] = order == "desc" ? filln - 1 - i : i;
			if(order == "shuf") for(long i = filln - 1; i > 0; --i) std::swap(o[i], o[rng.below(i + 1)]);
			for(long i : o)
			{
				flk[i] = own(mk(i, fnum(i), 1)); flv[i] = own(mk(i, 0, 1));
				if(LIB(m_set(m, flk[i], flv[i], rng.below(2))) == 0) ++res;
			}
			filled = true; pair = nullptr; invalidate();
		}
		else if(op == "Drain")
		{
			std::vector<long> o(filln);
			for(long i = 0; i < filln; ++i) o[i] = i;
			for(long i = filln - 1; i > 0; --i) std::swap(o[i], o[rng.below(i + 1)]);
			for(long i : o)
			{
				Obj probe{0, fnum(i), 1};
				size_t n = LIB(m_count(m));
				LIB(m_remove(m, &probe));
				if(LIB(m_count(m)) + 1 == n) ++res;
				if(!fk) give_up(flk[i]);
				if(!fv) give_up(flv[i]);
			}
			filled = false; pair = nullptr; invalidate();
		}
		else if(op == "Clear" || op == "Restart" || op == "Destroy")
		{
			if(op == "Clear") { invalidate(); LIB(m_clear(m)); }
			else
			{
				free_iters();
				if(op == "Restart") { LIB(m_free_(m)); LIB(m_init(m, size, hash_, eq, cmp, fk ? free_key : nullptr, fv ? free_val : nullptr, pool)); }
				else { if(life == "init") { LIB(m_free_(m)); } else { LIB(m_destroy(m)); } gone = true; m = nullptr; }
			}
			for(auto &x : ck) if(!fk) give_up(x.second);
			for(auto &x : cv) if(!fv) give_up(x.second);
			if(filled) { for(Obj *o : flk) if(!fk) give_up(o); for(Obj *o : flv) if(!fv) give_up(o); }
			ck.clear(); cv.clear(); filled = false; pair = nullptr;
		}
		else if(op == "IterInit") { It &i = its[a[0].n]; if(!i.mem) i.mem = m_iter_alloc(); LIB(m_iter_init(m, i.mem)); i.st = 2; i.cur = false; }
		else if(op == "IterReuse") { It &i = its[a[0].n]; LIB(m_iter_reuse(m, i.mem)); i.st = 2; i.cur = false; }
		else if(op == "IterFree") { It &i = its[a[0].n]; LIB(m_iter_free(i.mem)); i.st = 0; i.cur = false; free(i.mem); i.mem = nullptr; }
		else if(op == "IterNext")
		{
			It &i = its[a[0].n];
			i.cur = LIB(m_iter_next(i.mem));
			res = i.cur ? lab(LIB(m_iter_key(i.mem, 0))) : 0;
		}
		else if(op == "IterAll")
		{
			void *it = m_iter_alloc();
			LIB(m_iter_init(m, it));
			std::vector<std::pair<long, long>> e;
			long n = 0, bound = (long)ck.size() + (filled ? filln : 0) + 10;
			bool asc = true, end = true, bad = false;
			Obj *last = nullptr;
			std::vector<bool> seen(filled ? filln : 0);
			while(n < bound && LIB(m_iter_next(it)))
			{
				++n;
				Obj *k = (Obj *)LIB(m_iter_key(it, 0)), *v = (Obj *)LIB(m_iter_value(it, 0));
				if(m_ordered && last && last->num >= k->num) asc = false;
				last = k;
				if(k->filler) { if(!filled || seen[k->label] || flk[k->label] != k || flv[k->label] != v) bad = true; else seen[k->label] = true; }
				else e.push_back({lab(k), lab(v)});
			}
			if(n < bound) for(int i = 0; i < 3; ++i) if(LIB(m_iter_next(it))) end = false;
			LIB(m_iter_free(it));
			free(it);
			if(!m_ordered) std::sort(e.begin(), e.end());
			text = std::string("{\"asc\":") + (asc ? "true" : "false") + ",\"e\":[";
			for(size_t i = 0; i < e.size(); ++i) text += (i ? "," : "") + std::string("[") + std::to_string(e[i].first) + "," + std::to_string(e[i].second) + "]";
			text += std::string("],\"end\":") + (end ? "true" : "false") + ",\"n\":" + std::to_string(bad ? -n : n) + "}";
		}
		else { fprintf(stderr, "unknown operation %s\n", op.c_str()); exit(2); }
		if(g_fk) freed.push_back(std::to_string(g_fk == filln && !g_fbad ? -1000001l : -2000000l - g_fk));
		if(g_fv) freed.push_back(std::to_string(g_fv == filln && !g_fbad ? -1000002l : -3000000l - g_fv));
		g_freed = nullptr;
		return text.empty() ? std::to_string(res) : text;
	}
};

int main(int argc, char **argv)
{
	Args a(argc, argv);
	vp_setup(a.str("report").c_str());
	MapSut s;
	s.poolkind = a.str("pool", "none");
	s.life = a.str("life", "new");
	s.size = a.num("size", 0);
	s.filln = a.num("fill", 0);
	s.place = a.str("place", "low");
	s.order = a.str("order", "shuf");
	s.niters = a.num("iters", 1);
	s.seed = a.num("seed", 1);
	g_hash = a.str("hash", "ident");
	long nk = a.num("keys", 3);
	for(long k = 1; k <= nk; ++k) s.keys.push_back(k);
	Aspects asp;
	asp.parse(a.str("aspects", "*=RSFM"));
	std::string f = a.str("fields");
	for(size_t i = 0; i < f.size();) { size_t e = f.find(',', i); if(e == std::string::npos) e = f.size(); s.fields.insert(f.substr(i, e - i)); i = e + 1; }
	uint64_t seed = a.num("seed", 1);
	if(a.str("mode") == "trace")
	{
		Rng r(seed);
		Recorder rec(a.str("trace").c_str(), asp, s);
		long n = a.num("n", 1000);
		auto A = [](std::initializer_list<long> v) { return jarr(std::vector<long>(v)); };
		static const char *fms[] = {"kv", "kv", "", "k", "v"};
		auto pick = [&](const char *op) { return a.has_in("ops", op); };
		while(rec.lines < n)
		{
			rec.start(std::string("{\"f\":\"") + fms[r.below(5)] + "\"}");
			long run = 30 + r.below(250);
			// phases: the number of entries hovers around a target, so that every capacity boundary is crossed in both directions
			std::vector<char> in(nk + 1, 0);
			long have = 0, target = r.below(nk + 1), phase = 10 + r.below(60);
			auto some = [&](bool present) { for(int t = 0; t < 60; ++t) { long k = 1 + r.below(nk); if(!!in[k] == present) return k; } return 1 + (long)r.below(nk); };
			for(long i = 0; i < run && rec.lines < n; ++i)
			{
				if(!phase--) { phase = 10 + r.below(60); target = r.below(nk + 1); }
				long k = 1 + r.below(nk);
				size_t c = r.below(100), it = 1 + r.below(s.niters);
				size_t grow = have < target ? 50 : have == target ? 30 : 14;
				if(c < grow)
				{
					if(have < target && r.below(4)) k = some(false);
					if(s.ck.count(k) && !r.below(5) && pick("SetOwn")) rec.step("SetOwn", A({k, r.below(6) ? 1 + (long)r.below(9) : 0}));
					else if(pick("Set")) { rec.step("Set", A({k, (long)r.below(10), r.below(6) ? 1 + (long)r.below(9) : 0, (long)r.below(2)})); have += !in[k]; in[k] = 1; }
				}
				else if(c < 60)
				{
					if(have >= target && r.below(4)) k = some(true);
					if(pick("Remove")) { rec.step(s.ck.count(k) && !r.below(4) && pick("RemoveOwn") ? "RemoveOwn" : "Remove", A({k})); have -= in[k]; in[k] = 0; }
				}
				else if(c < 70) { if(pick("Lookup")) rec.step("Lookup", A({k})); if(s.pair && r.below(2) && pick("PairSet")) rec.step("PairSet", A({(long)r.below(10)})); }
				else if(c < 73) { if(pick("Exists")) rec.step("Exists", A({k})); }
				else if(c < 77) { if(s.pair && pick("Forget")) rec.step("Forget", "[]"); }
				else if(c < 79) { if(pick("IterAll")) rec.step("IterAll", "[]"); }
				else if(c < 90)
				{
					if(!pick("IterNext")) continue;
					auto &x = s.its[it];
					if(x.st == 2 && !s.filled) { for(long q = r.below(8); q >= 0; --q) rec.step("IterNext", A({(long)it})); }
					else if(x.st == 0) { rec.step("IterInit", A({(long)it})); if(!s.filled) for(long q = r.below(2 * nk + 3); q > 0; --q) rec.step("IterNext", A({(long)it})); }
					else if(m_reusable && r.below(4)) { rec.step("IterReuse", A({(long)it})); if(!s.filled) for(long q = r.below(2 * nk + 3); q > 0; --q) rec.step("IterNext", A({(long)it})); }
					else if(m_reusable) rec.step("IterFree", A({(long)it}));
				}
				else if(c < 92) { if(s.filln && pick("Fill") && !r.below(4)) rec.step(s.filled ? "Drain" : "Fill", "[]"); }
				else if(c < 93) { if(pick("Clear") && !r.below(3)) { rec.step("Clear", "[]"); have = 0; std::fill(in.begin(), in.end(), 0); } }
				else if(c < 94) { if(pick("Restart") && !r.below(4)) { rec.step("Restart", "[]"); have = 0; std::fill(in.begin(), in.end(), 0); } }
			}
			if(pick("Destroy")) rec.step("Destroy", "[]");
		}
		vp_rep.stats["trace_lines"] = rec.lines;
		vp_rep.stats["trace_runs"] = rec.runs;
		s.dispose();
	}
	else
	{
		Graph g;
		g.fields = s.fields;
		g.load(a.str("graph").c_str(), [&](const std::string &op) { return a.has_in("ops", op); });
		Walker w(g, s, asp, seed, a.num("maxlen", 60));
		for(int i : g.inits) w.cover(i, a.num("budget", 60));
		if(!vp_rep.history.empty()) vp_rep.sample(vp_rep.history.back());
		for(int i : g.inits)
		{
			w.random_pairs(i, a.num("pairs", 100000) / (long)g.inits.size(), a.num("runlen", 200), a.num("budget", 60));
			for(size_t k = 1; k < vp_rep.history.size() && k < 3; ++k) vp_rep.sample(vp_rep.history[k]);
		}
		w.stats();
		s.dispose();
	}
	vp_rep.write();
	return 0;
}
