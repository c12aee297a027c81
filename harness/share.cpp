// Several containers in one process, drawing their nodes from one pool, against Share.tla
#define CORE_IMPL
#include "core.hpp"
#include "pools.hpp"
#include "objs.hpp"
extern "C" {
#include "datatypes.h"
#include "list.h"
#include "slist.h"
#include "stack.h"
#include "queue.h"
#include "hashtable.h"
#include "rbtree.h"
#include "assocarray.h"
}
struct Datum { int label; };           // a token or (negative) a key
static std::unordered_set<Datum *> g_stored;
static std::vector<std::string> *g_freed;
static std::function<void(Datum *)> g_sink;
static Datum g_fill[600];              // keys and values which stay in every map
static Objs<Datum> g_objs;
static void bin(void *p) { g_objs.drop(((Datum *)p)->label, (Datum *)p); }
static bool is_fill(const void *p) { return p >= (void *)g_fill && p < (void *)(g_fill + 600); }
static void free_datum(void *p)
{
	UserScope u;
	if(is_fill(p)) return;
	if(!p) { if(g_freed) g_freed->push_back("9000"); return; }
	Datum *d = (Datum *)p;
	int l = d->label;
	bool ours = g_stored.count(d);
	if(g_sink && l > 0) { g_sink(d); return; }
	g_stored.erase(d);
	if(g_freed) g_freed->push_back(std::to_string(ours ? l : 9000 + l));
	if(ours) bin(d);
}
static int32_t cmp_up(const void *a, const void *b) { int x = ((const Datum *)a)->label, y = ((const Datum *)b)->label; return vp_order(x, y); }
static int32_t cmp_down(const void *a, const void *b) { return cmp_up(b, a); }
static bool eq(const void *a, const void *b) { return ((const Datum *)a)->label == ((const Datum *)b)->label; }
static uint32_t hash1(const void *a) { return (uint32_t)((const Datum *)a)->label; }
static uint32_t hash2(const void *a) { return (uint32_t)((const Datum *)a)->label * 2654435761u >> 3; }
static uint32_t hash3(const void *a) { return 5; }

struct Box // one container
{
	std::string kind;
	int nr = 0;
	bool init = false;      // made by init instead of new
	Pool *pool = nullptr;
	int fill = 0;
	union Any { List l; SList s; HashTable h; RBTree r; AssocArray a; Any() {} } any;
	void *p = nullptr;
	CompareFunc cmp() { return nr % 2 ? cmp_down : cmp_up; }
	bool map() { return kind == "rb" || kind == "ht" || kind == "aa"; }
	void make()
	{
		memset((void *)&any, vp_junk(), sizeof any);
		p = &any;
		if(kind == "list") { if(init) LIB(list_init(&any.l, cmp(), free_datum, pool)); else p = LIB(list_new(cmp(), free_datum, pool)); }
		else if(kind == "slist") { if(init) LIB(slist_init(&any.s, cmp(), free_datum, pool)); else p = LIB(slist_new(cmp(), free_datum, pool)); }
		else if(kind == "stack") { if(init) LIB(stack_init(&any.s, cmp(), free_datum, pool)); else p = LIB(stack_new(cmp(), free_datum, pool)); }
		else if(kind == "queue") { if(init) LIB(queue_init(&any.s, cmp(), free_datum, pool)); else p = LIB(queue_new(cmp(), free_datum, pool)); }
		else if(kind == "rb") { if(init) LIB(rbtree_init(&any.r, cmp(), free_datum, free_datum, pool)); else p = LIB(rbtree_new(cmp(), free_datum, free_datum, pool)); }
		else if(kind == "ht") { HashFunc h = nr % 3 == 0 ? hash1 : nr % 3 == 1 ? hash2 : hash3; if(init) LIB(hashtable_init(&any.h, nr % 2 ? 3 : 0, h, eq, free_datum, free_datum)); else p = LIB(hashtable_new(nr % 2 ? 1 : 2, h, eq, free_datum, free_datum)); }
		else { if(init) LIB(assoc_array_init(&any.a, cmp(), free_datum, free_datum)); else p = LIB(assoc_array_new(cmp(), free_datum, free_datum)); }
		refill();
	}
	void refill() { if(map()) for(int i = 0; i < fill; ++i) put(&g_fill[(i * 7 + nr) % fill], &g_fill[(i * 7 + nr) % fill + 300]); }
	void end()
	{
		if(kind == "list") { if(init) LIB(list_free((List *)p)); else LIB(list_destroy((List *)p)); }
		else if(kind == "slist") { if(init) LIB(slist_free((SList *)p)); else LIB(slist_destroy((SList *)p)); }
		else if(kind == "stack") { if(init) LIB(stack_free((Stack *)p)); else LIB(stack_destroy((Stack *)p)); }
		else if(kind == "queue") { if(init) LIB(queue_free((Queue *)p)); else LIB(queue_destroy((Queue *)p)); }
		else if(kind == "rb") { if(init) LIB(rbtree_free((RBTree *)p)); else LIB(rbtree_destroy((RBTree *)p)); }
		else if(kind == "ht") { if(init) LIB(hashtable_free((HashTable *)p)); else LIB(hashtable_destroy((HashTable *)p)); }
		else { if(init) LIB(assoc_array_free((AssocArray *)p)); else LIB(assoc_array_destroy((AssocArray *)p)); }
		p = nullptr;
	}
	void clear()
	{
		if(kind == "list") LIB(list_clear((List *)p));
		else if(kind == "slist") LIB(slist_clear((SList *)p));
		else if(kind == "stack") LIB(stack_clear((Stack *)p));
		else if(kind == "queue") LIB(queue_clear((Queue *)p));
		else if(kind == "rb") LIB(rbtree_clear((RBTree *)p));
		else if(kind == "ht") LIB(hashtable_clear((HashTable *)p));
		else LIB(assoc_array_clear((AssocArray *)p));
	}
	void add(void *d)
	{
		if(kind == "list") LIB(list_append((List *)p, d));
		else if(kind == "slist") LIB(slist_append((SList *)p, d));
		else if(kind == "stack") LIB(stack_push((Stack *)p, d));
		else LIB(queue_push((Queue *)p, d));
	}
	void *pop()
	{
		void *d = (void *)0x8888;
		if(kind == "list") return LIB(list_pop((List *)p));
		if(kind == "slist") return LIB(slist_pop((SList *)p));
		if(kind == "stack") { LIB(stack_pop((Stack *)p, &d)); }
		else { LIB(queue_pop((Queue *)p, &d)); }
		return d;
	}
	void remove_all(void *d) { if(kind == "list") LIB(list_remove_by_data((List *)p, d, true)); else LIB(slist_remove_by_data((SList *)p, d, true)); }
	bool contains(void *d) { return kind == "list" ? LIB(list_contains((List *)p, d)) : LIB(slist_contains((SList *)p, d)); }
	int put(void *k, void *v) // 0 new, 1 replaced, 2 failed
	{
		if(kind == "rb") { auto r = LIB(rbtree_set((RBTree *)p, k, v, false)); return r == RBTREE_INSERT_RESULT_NEW ? 0 : r == RBTREE_INSERT_RESULT_REPLACED ? 1 : 2; }
		if(kind == "ht") { auto r = LIB(hashtable_set((HashTable *)p, k, v, false)); return r == HASHTABLE_INSERT_RESULT_NEW ? 0 : r == HASHTABLE_INSERT_RESULT_REPLACED ? 1 : 2; }
		auto r = LIB(assoc_array_set((AssocArray *)p, k, v, false)); return r == ASSOCARRAY_INSERT_RESULT_NEW ? 0 : r == ASSOCARRAY_INSERT_RESULT_REPLACED ? 1 : 2;
	}
	void del(void *k) { if(kind == "rb") LIB(rbtree_remove((RBTree *)p, k)); else if(kind == "ht") LIB(hashtable_remove((HashTable *)p, k)); else LIB(assoc_array_remove((AssocArray *)p, k)); }
	void *pair(void *k) { return kind == "rb" ? (void *)LIB(rbtree_lookup((RBTree *)p, k)) : kind == "ht" ? (void *)LIB(hashtable_lookup((HashTable *)p, k)) : (void *)LIB(assoc_array_lookup((AssocArray *)p, k)); }
	void *pair_key(void *x) { return kind == "rb" ? LIB(rbtree_pair_get_key((RBTreePair *)x)) : kind == "ht" ? LIB(hashtable_pair_get_key((HashTablePair *)x)) : LIB(assoc_array_pair_get_key((AssocArrayPair *)x)); }
	void *pair_value(void *x) { return kind == "rb" ? LIB(rbtree_pair_get_value((RBTreePair *)x)) : kind == "ht" ? LIB(hashtable_pair_get_value((HashTablePair *)x)) : LIB(assoc_array_pair_get_value((AssocArrayPair *)x)); }
	void pair_set(void *x, void *v) { if(kind == "rb") LIB(rbtree_pair_set_value((RBTreePair *)x, v)); else if(kind == "ht") LIB(hashtable_pair_set_value((HashTablePair *)x, v)); else LIB(assoc_array_pair_set_value((AssocArrayPair *)x, v)); }
	void *look(void *k) { void *x = pair(k); return x ? pair_value(x) : nullptr; }
	size_t count()
	{
		if(kind == "list") return LIB(list_count((List *)p));
		if(kind == "slist") return LIB(slist_count((SList *)p));
		if(kind == "stack") return LIB(stack_count((Stack *)p));
		if(kind == "queue") return LIB(queue_count((Queue *)p));
		if(kind == "rb") return LIB(rbtree_count((RBTree *)p));
		if(kind == "ht") return LIB(hashtable_count((HashTable *)p));
		return LIB(assoc_array_count((AssocArray *)p));
	}
};
struct Iter
{
	Box *of = nullptr;
	long fills = 0;
	union U { HashTableIter h; RBTreeIter r; char room[256]; U() {} } u;
	void init(Box *b)
	{
		drop();
		memset((void *)&u, vp_junk(), sizeof u);
		of = b; fills = 0;
		if(b->kind == "ht") LIB(hashtable_iter_init((HashTable *)b->p, &u.h));
		else if(b->kind == "rb") LIB(rbtree_iter_init((RBTree *)b->p, &u.r));
		else LIB(assoc_array_iter_init((AssocArray *)b->p, (AssocArrayIter *)u.room));
	}
	void reuse(Box *b) { of = b; fills = 0; LIB(rbtree_iter_reuse((RBTree *)b->p, &u.r)); }
	Datum *next()
	{
		for(;;)
		{
			bool ok = of->kind == "ht" ? LIB(hashtable_iter_next(&u.h)) : of->kind == "rb" ? LIB(rbtree_iter_next(&u.r)) : LIB(assoc_array_iter_next((AssocArrayIter *)u.room));
			if(!ok) return nullptr;
			void *k = of->kind == "ht" ? LIB(hashtable_iter_get_key(&u.h)) : of->kind == "rb" ? LIB(rbtree_iter_get_key(&u.r)) : LIB(assoc_array_iter_get_key((AssocArrayIter *)u.room));
			if(!is_fill(k)) return (Datum *)k;
			if(++fills > of->fill) return nullptr;
		}
	}
	void drop() { if(of && of->kind == "rb") LIB(rbtree_iter_free(&u.r)); of = nullptr; }
};
struct S : Sut
{
	std::string poolkind;
	int fill = 0, nkeys = 2;
	bool mixlife = false;
	std::vector<std::string> kinds;
	std::vector<Box> box;
	std::vector<Iter> its;
	TestPool *pool = nullptr;
	bool gone = true;
	// the pair in use
	size_t hbox = 0;        // its map (0: none)
	int hkey = 0;
	void *hpair = nullptr;
	void rehold() { if(hbox) { Datum q{-hkey}; hpair = box[hbox - 1].pair(&q); } }
	void let_go(size_t i) { if(hbox == i) hbox = 0; }
	void start(const JV &) override
	{
		dispose();
		hbox = 0;
		size_t size = std::max({sizeof(ListItem), sizeof(SListItem), sizeof(RBNode)});
		pool = TestPool::make(poolkind, size);
		box = std::vector<Box>(kinds.size());
		its = std::vector<Iter>(8);
		for(size_t i = 0; i < kinds.size(); ++i)
		{
			Box &b = box[i];
			b.kind = kinds[i]; b.nr = (int)i; b.init = mixlife ? i % 2 : false; b.pool = pool ? &pool->p : nullptr; b.fill = fill;
			b.make();
		}
		gone = false;
	}
	void all_end(size_t first)
	{
		for(Iter &i : its) i.drop();
		for(size_t k = 0; k < box.size(); ++k) box[(first + k) % box.size()].end();
		gone = true;
	}
	void cleanup() { for(Datum *d : g_stored) delete d; g_stored.clear(); delete pool; pool = nullptr; }
	void dispose() override { g_freed = nullptr; g_sink = nullptr; if(!gone) all_end(0); cleanup(); }
	bool dead() override { return gone; }
	std::string leftovers() override
	{
		std::string r;
		if(vp_mem.used) r = std::to_string(vp_mem.used) + " heap blocks (" + std::to_string(vp_mem.bytes) + " bytes) were not given back";
		if(pool) r += pool->complain();
		cleanup();
		return r;
	}
	long label(void *p) { return !p ? 0 : g_stored.count((Datum *)p) ? ((Datum *)p)->label : -3; }
	std::string obs() override
	{
		if(gone) return "{\"dead\":true}";
		std::string r = "{\"c\":[";
		bool sound = true;
		std::vector<std::string> shown(box.size());
		std::vector<long> held;
		// the map whose pair is in use comes last
		for(size_t q = 0; q < box.size(); ++q)
		{
			size_t i = hbox ? (hbox + q) % box.size() : q;
			Box &b = box[i];
			std::vector<long> v;
			if(i + 1 == hbox) { held.push_back(-label(b.pair_key(hpair))); held.push_back(label(b.pair_value(hpair))); }
			if(b.kind == "list") { for(ListItem *x = LIB(list_head((List *)b.p)); x && v.size() < 200; x = list_item_next(x)) v.push_back(label(list_item_get_data(x))); if(b.count() != v.size()) sound = false; }
			else if(b.kind == "slist") { for(SListItem *x = LIB(slist_head((SList *)b.p)); x && v.size() < 200; x = slist_item_next(x)) v.push_back(label(slist_item_get_data(x))); if(b.count() != v.size()) sound = false; }
			else if(b.kind == "stack") { void *d = nullptr; bool ok = LIB(stack_head((Stack *)b.p, &d)); v.push_back(b.count()); v.push_back(ok ? label(d) : 0); }
			else if(b.kind == "queue") { void *d = nullptr; bool ok = LIB(queue_head((Queue *)b.p, &d)); v.push_back(b.count()); v.push_back(ok ? label(d) : 0); }
			else
			{
				size_t n = 0;
				for(int k = 1; k <= nkeys; ++k) { Datum q{-k}; long x = label(b.look(&q)); v.push_back(x); n += x != 0; }
				for(int k = 0; k < b.fill; ++k) { Datum q{g_fill[k].label}; if(b.look(&q) != &g_fill[k + 300]) sound = false; }
				if(b.count() != n + b.fill) sound = false;
			}
			shown[i] = jarr(v);
			if(i + 1 == hbox) { Datum q{-hkey}; hpair = b.pair(&q); }
		}
		for(size_t i = 0; i < box.size(); ++i) r += (i ? "," : "") + shown[i];
		return r + "],\"dead\":false,\"pair\":" + jarr(held) + ",\"sound\":" + (sound ? "true" : "false") + "}";
	}
	Datum *mk(int l) { Datum *d = g_objs.make(l, Datum{l}); g_stored.insert(d); return d; }
	std::string apply(const std::string &op, const JV &a, std::vector<std::string> &freed) override
	{
		g_freed = &freed;
		long r = 0;
		Box &b = box[a[0].n - 1];
		if(op == "Add") b.add(mk((int)a[1].n));
		else if(op == "Pop") { void *d = b.pop(); r = label(d); if(g_stored.erase((Datum *)d)) bin(d); }
		else if(op == "RemoveAll") { Datum q{(int)a[1].n}; b.remove_all(&q); }
		else if(op == "Has") { Datum q{(int)a[1].n}; r = b.contains(&q); }
		else if(op == "Put") { let_go(a[0].n); Datum *k = mk(-(int)a[1].n); r = b.put(k, mk((int)a[2].n)); if(r == 1 && g_stored.erase(k)) bin(k); }
		else if(op == "Del") { let_go(a[0].n); Datum q{-(int)a[1].n}; b.del(&q); }
		else if(op == "Look") { let_go(a[0].n); Datum own{-(int)a[1].n}, *q = g_objs.again(own.label); r = label(b.look(q ? q : &own)); }
		else if(op == "Hold")
		{
			Datum q{-(int)a[1].n};
			void *x = b.pair(&q);
			r = x ? label(b.pair_value(x)) : 0;
			if(x) { hbox = a[0].n; hkey = (int)a[1].n; hpair = x; } else hbox = 0;
		}
		else if(op == "Swap") { if(hbox) b.pair_set(hpair, mk((int)a[2].n)); }
		else if(op == "Clear") { let_go(a[0].n); b.clear(); b.refill(); }
		else if(op == "Renew") { let_go(a[0].n); b.end(); b.make(); }
		else if(op == "ClearInto") { let_go(a[0].n); let_go(a[1].n); Box &to = box[a[1].n - 1]; g_sink = [&](Datum *d) { int old = vp_in_lib; to.add(d); vp_in_lib = old; }; b.clear(); g_sink = nullptr; b.refill(); }
		else if(op == "IterInit") its[a[0].n].init(&box[a[1].n - 1]);
		else if(op == "IterReuse") its[a[0].n].reuse(&box[a[1].n - 1]);
		else if(op == "IterNext")
		{
			Iter &x = its[a[0].n];
			Datum *k = x.next();
			r = k ? -label(k) : 0;
			if(!k && x.fills != x.of->fill) r = -7;
		}
		else if(op == "End") { hbox = 0; all_end(a[0].n - 1); }
		else { fprintf(stderr, "unknown operation %s\n", op.c_str()); exit(2); }
		g_freed = nullptr;
		return std::to_string(r);
	}
};
int main(int argc, char **argv)
{
	Args a(argc, argv);
	vp_setup(a.str("report").c_str());
	for(int i = 0; i < 300; ++i) { g_fill[i].label = (i % 3 ? -1000 : 1000) * (i % 3) - i - 100; g_fill[i + 300].label = 0; }
	S s;
	s.poolkind = a.str("pool", "mp");
	s.fill = (int)a.num("fill", 0);
	s.nkeys = (int)a.num("keys", 2);
	s.mixlife = a.num("mix", 0);
	std::string ks = a.str("kinds");
	for(size_t i = 0; i < ks.size();) { size_t e = std::min(ks.find(',', i), ks.size()); s.kinds.push_back(ks.substr(i, e - i)); i = e + 1; }
	vp_rep.context = "containers=" + ks + " pool=" + s.poolkind;
	Aspects asp;
	asp.parse("*=RSFM");
	uint64_t seed = a.num("seed", 1);
	if(a.str("mode") == "trace")
	{
		Rng r(seed);
		Recorder rec(a.str("trace").c_str(), asp, s);
		long n = a.num("n", 1000), N = s.kinds.size(), tokens = 0, maxlen = a.num("len", 20);
		std::vector<long> seqs, maps, rbs;
		for(long i = 0; i < N; ++i) { const std::string &k = s.kinds[i]; if(k == "rb" || k == "ht" || k == "aa") { maps.push_back(i + 1); if(k == "rb") rbs.push_back(i + 1); } else seqs.push_back(i + 1); }
		while(rec.lines < n)
		{
			rec.start("{}");
			long run = 50 + r.below(400), bias = 50;
			struct T { long of = 0; bool on = false; } slot[3];
			auto stop = [&](long i) { for(T &t : slot) if(t.of == i) t.on = false; };
			for(long i = 0; i < run && rec.lines < n; ++i)
			{
				if(!r.below(25)) bias = 20 + r.below(70);
				long q = seqs.empty() ? 0 : seqs[r.below(seqs.size())], m = maps.empty() ? 0 : maps[r.below(maps.size())];
				long w = r.below(100), key = 1 + r.below(s.nkeys), sl = 1 + r.below(2);
				bool up = (long)r.below(100) < bias;
				if(w < 35 && q)
				{
					const std::string &k = s.kinds[q - 1];
					size_t cnt = s.box[q - 1].count();
					if(up) { if((long)cnt < maxlen) rec.step("Add", jarr({q, 1 + (tokens++ % 97)})); }
					else if(r.below(3) || k == "stack" || k == "queue") { if(cnt) rec.step("Pop", jarr({q})); }
					else rec.step("RemoveAll", jarr({q, 1 + (long)r.below(97)}));
				}
				else if(w < 70 && m) { stop(m); if(up) rec.step("Put", jarr({m, key, 1 + (tokens++ % 97)})); else rec.step("Del", jarr({m, key})); }
				else if(w < 72 && m) rec.step("Look", jarr({m, key}));
				else if(w < 75 && m) { Datum k{-(int)key}; if(s.box[m - 1].pair(&k)) rec.step("Hold", jarr({m, key})); else s.rehold(); }
				else if(w < 77 && s.hbox) { long h = s.hbox; stop(h); rec.step("Swap", jarr({h, s.hkey, 1 + (tokens++ % 97)})); }
				else if(w < 80 && m) { rec.step("IterInit", jarr({sl, m})); slot[sl].of = m; slot[sl].on = true; }
				else if(w < 94) { if(slot[sl].on) { if(rec.step("IterNext", jarr({sl})) == "0") slot[sl].on = false; } }
				else if(w < 96) { if(!rbs.empty() && slot[sl].of && s.kinds[slot[sl].of - 1] == "rb") { long j = rbs[r.below(rbs.size())]; rec.step("IterReuse", jarr({sl, j})); slot[sl].of = j; slot[sl].on = true; } }
				else
				{
					long x = 1 + r.below(N), j = q;
					if(r.below(3) && j && j != x && (s.kinds[j - 1] == "list" || s.kinds[j - 1] == "slist") && s.kinds[x - 1] != "stack" && s.kinds[x - 1] != "queue" && s.box[x - 1].count() + s.box[j - 1].count() < 60) { stop(x); rec.step("ClearInto", jarr({x, j})); }
					else if(!r.below(3)) { stop(x); rec.step(r.below(2) ? "Clear" : "Renew", jarr({x})); }
				}
			}
			rec.step("End", jarr({1 + (long)r.below(N)}));
		}
		vp_rep.stats["trace_lines"] = rec.lines;
		vp_rep.stats["trace_runs"] = rec.runs;
		s.dispose();
	}
	else
	{
		Graph g;
		g.load(a.str("graph").c_str(), [&](const std::string &) { return true; });
		Walker w(g, s, asp, seed, a.num("maxlen", 80));
		for(int i : g.inits) w.cover(i, a.num("budget", 60));
		for(int i : g.inits)
		{
			w.random_pairs(i, a.num("pairs", 100000) / (long)g.inits.size(), 300, a.num("budget", 60));
			for(size_t k = 1; k < vp_rep.history.size() && k < 4; ++k) vp_rep.sample(vp_rep.history[k]);
		}
		w.stats();
		s.dispose();
	}
	vp_rep.write();
	return 0;
}
