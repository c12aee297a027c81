// One face for every kind of container (and pools and buffers): something can be added, taken out, looked at.
// Things are used by steady.cpp and apart.cpp, which care for what the library does to memory, not for results.
#pragma once
#include <pthread.h>
#include <sys/ioctl.h>
#include "core.hpp"
extern "C" {
#include "datatypes.h"
#include "list.h"
#include "slist.h"
#include "stack.h"
#include "queue.h"
#include "hashtable.h"
#include "rbtree.h"
#include "assocarray.h"
#include "pool.h"
#include "buffer.h"
#include "asyncqueue.h"
}
// the data are numbers dressed up as pointers
static void *ptr(long n) { return (void *)((uintptr_t)n << 4); }
static long num(const void *p) { return (long)((uintptr_t)p >> 4); }
static int32_t cmp(const void *a, const void *b) { return vp_order(num(a), num(b)); }
static bool eq(const void *a, const void *b) { return a == b; }
static uint32_t hash_id(const void *p) { return (uint32_t)num(p); }
static uint32_t hash_mix(const void *p) { return (uint32_t)num(p) * 2654435761u >> 5; }
static uint32_t hash_few(const void *p) { return (uint32_t)num(p) % 3; }
static long g_gone;
static void drop(void *) { ++g_gone; }

static Rng rnd(1);
static long R(long n) { return (long)rnd.below((size_t)n); }
struct Thing
{
	virtual ~Thing() {}
	virtual void add() = 0;
	virtual void sub() = 0;     // something, if there is anything
	virtual void look() = 0;    // changes nothing
	virtual void clear() = 0;
	virtual void swap() { sub(); add(); }
	virtual long size() = 0;
	virtual void end() = 0;
	virtual long unit() { return 1; }
};
static FreeFunc ff() { return R(2) ? drop : nullptr; }
struct TList : Thing
{
	List o, *c; bool init;
	TList(Pool *p) { init = R(2); if(init) { memset(&o, vp_junk(), sizeof o); c = &o; LIB(list_init(c, cmp, ff(), p)); } else c = LIB(list_new(cmp, ff(), p)); }
	long size() override { return (long)LIB(list_count(c)); }
	ListItem *any() { long n = size(); if(!n) return nullptr; ListItem *x = LIB(list_head(c)); for(long i = R(4) ? R(n) : n - 1; i > 0; --i) x = list_item_next(x); return x; }
	void add() override { void *d = ptr(1 + R(9)); long k = R(3); if(k == 0) LIB(list_append(c, d)); else if(k == 1) LIB(list_prepend(c, d)); else LIB(list_insert_sorted(c, d)); }
	void sub() override
	{
		ListItem *x = any();
		if(!x) { if(R(2)) LIB(list_pop(c)); else LIB(list_remove_by_data(c, ptr(1), R(2))); return; }
		long k = R(3);
		if(k == 0) LIB(list_remove(c, x)); else if(k == 1) LIB(list_pop(c)); else LIB(list_remove_by_data(c, list_item_get_data(x), R(2)));
	}
	void look() override
	{
		long k = R(5);
		ListItem *x = any();
		if(k == 0) LIB(list_contains(c, ptr(R(11)))); else if(k == 1) LIB(list_find(c, R(2) ? x : nullptr, ptr(R(11)))); else if(k == 2) LIB(list_tail(c));
		else if(k == 3) LIB(list_empty(c)); else if(x) { LIB(list_item_free_data(c, x)); list_item_set_data(x, ptr(1 + R(9))); }
	}
	void clear() override { LIB(list_clear(c)); }
	void end() override { if(init) LIB(list_free(c)); else LIB(list_destroy(c)); }
};
struct TSList : Thing
{
	SList o, *c; bool init;
	TSList(Pool *p) { init = R(2); if(init) { memset(&o, vp_junk(), sizeof o); c = &o; LIB(slist_init(c, cmp, ff(), p)); } else c = LIB(slist_new(cmp, ff(), p)); }
	long size() override { return (long)LIB(slist_count(c)); }
	SListItem *any() { long n = size(); if(!n) return nullptr; SListItem *x = LIB(slist_head(c)); for(long i = R(4) ? R(n) : n - 1; i > 0; --i) x = slist_item_next(x); return x; }
	void add() override { void *d = ptr(1 + R(9)); long k = R(3); if(k == 0) LIB(slist_append(c, d)); else if(k == 1) LIB(slist_prepend(c, d)); else LIB(slist_insert_sorted(c, d)); }
	void sub() override
	{
		SListItem *x = any();
		if(!x) { if(R(2)) LIB(slist_pop(c)); else LIB(slist_remove_by_data(c, ptr(1), R(2))); return; }
		long k = R(3);
		if(k == 0) LIB(slist_remove(c, x)); else if(k == 1) LIB(slist_pop(c)); else LIB(slist_remove_by_data(c, slist_item_get_data(x), R(2)));
	}
	void look() override
	{
		long k = R(4);
		SListItem *x = any();
		if(k == 0) LIB(slist_contains(c, ptr(R(11)))); else if(k == 1) LIB(slist_find(c, R(2) ? x : nullptr, ptr(R(11))));
		else if(k == 2) LIB(slist_empty(c)); else if(x) { LIB(slist_item_free_data(c, x)); slist_item_set_data(x, ptr(1 + R(9))); }
	}
	void clear() override { LIB(slist_clear(c)); }
	void end() override { if(init) LIB(slist_free(c)); else LIB(slist_destroy(c)); }
};
struct TStack : Thing
{
	Stack o, *c; bool init, fifo;
	TStack(Pool *p, bool q) : fifo(q)
	{
		init = R(2);
		if(init) { memset(&o, vp_junk(), sizeof o); c = &o; if(fifo) { LIB(queue_init(c, cmp, ff(), p)); } else { LIB(stack_init(c, cmp, ff(), p)); } }
		else c = fifo ? LIB(queue_new(cmp, ff(), p)) : LIB(stack_new(cmp, ff(), p));
	}
	long size() override { return fifo ? (long)LIB(queue_count(c)) : (long)LIB(stack_count(c)); }
	void add() override { if(fifo) { LIB(queue_push(c, ptr(1 + R(9)))); } else { LIB(stack_push(c, ptr(1 + R(9)))); } }
	void sub() override { void *d = nullptr; if(fifo) { LIB(queue_pop(c, &d)); } else { LIB(stack_pop(c, &d)); } }
	void look() override { void *d = nullptr; if(fifo) { LIB(queue_head(c, &d)); } else { LIB(stack_head(c, &d)); } }
	void clear() override { if(fifo) { LIB(queue_clear(c)); } else { LIB(stack_clear(c)); } }
	void end() override { if(init) { if(fifo) { LIB(queue_free(c)); } else { LIB(stack_free(c)); } } else { if(fifo) { LIB(queue_destroy(c)); } else { LIB(stack_destroy(c)); } } }
};
struct TAsync : Thing
{
	AsyncQueue o, *c; bool init;
	TAsync(Pool *p) { init = R(2); if(init) { memset(&o, vp_junk(), sizeof o); c = &o; LIB(async_queue_init(c, cmp, ff(), p)); } else c = LIB(async_queue_new(cmp, ff(), p)); }
	long size() override { return (long)LIB(async_queue_count(c)); }
	void add() override { LIB(async_queue_push(c, ptr(1 + R(9)))); }
	void sub() override { void *d = nullptr; if(size() && R(2)) LIB(async_queue_pop(c, &d)); else LIB(async_queue_pop_timeout(c, &d, 0)); }
	void look() override { LIB(async_queue_count(c)); }
	void clear() override { LIB(async_queue_clear(c)); }
	void end() override { if(init) LIB(async_queue_free(c)); else LIB(async_queue_destroy(c)); }
};
// the keys in use, so that one of them can be taken out
struct Keys
{
	long universe;
	std::vector<long> in; std::vector<long> at;
	Keys(long u) : universe(u), at((size_t)u + 1, -1) {}
	void put(long k) { if(at[k] < 0) { at[k] = (long)in.size(); in.push_back(k); } }
	void del(long k) { if(at[k] < 0) return; long i = at[k], z = in.back(); in[i] = z; at[z] = i; in.pop_back(); at[k] = -1; }
	long some() { return in.empty() || !R(12) ? 1 + R(universe) : in[R((long)in.size())]; }
	long fresh() { return 1 + R(universe); }
	void none() { for(long k : in) at[k] = -1; in.clear(); }
};
struct THash : Thing
{
	HashTable o, *c; bool init; Keys ks;
	THash(long u) : ks(u)
	{
		HashFunc h = R(4) == 0 ? hash_few : R(2) ? hash_id : hash_mix;
		size_t size = R(2) ? 0 : 1 + R(40);
		init = R(2);
		if(init) { memset(&o, vp_junk(), sizeof o); c = &o; LIB(hashtable_init(c, size, h, eq, ff(), ff())); } else c = LIB(hashtable_new(size, h, eq, ff(), ff()));
	}
	long size() override { return (long)LIB(hashtable_count(c)); }
	void add() override { long k = ks.fresh(); LIB(hashtable_set(c, ptr(k), ptr(1 + R(9)), R(2))); ks.put(k); }
	void sub() override { long k = ks.some(); LIB(hashtable_remove(c, ptr(k))); ks.del(k); }
	void look() override
	{
		long w = R(4), k = ks.some();
		if(w == 0) LIB(hashtable_key_exists(c, ptr(k)));
		else if(w == 1) { HashTablePair *p = LIB(hashtable_lookup(c, ptr(k))); if(p) { LIB(hashtable_pair_get_value(p)); LIB(hashtable_pair_set_value(p, ptr(1 + R(9)))); } }
		else if(w == 2) { HashTableIter i; LIB(hashtable_iter_init(c, &i)); for(long n = R(2) ? R(5) : 1 << 30; n > 0 && LIB(hashtable_iter_next(&i)); --n) LIB(hashtable_iter_get_key(&i)); }
		else if(size()) { LIB(hashtable_set(c, ptr(k), ptr(2), R(2))); ks.put(k); }
	}
	void clear() override { LIB(hashtable_clear(c)); ks.none(); }
	void end() override { if(init) LIB(hashtable_free(c)); else LIB(hashtable_destroy(c)); }
};
struct TTree : Thing
{
	RBTree o, *c; bool init; Keys ks;
	TTree(long u, Pool *p) : ks(u) { init = R(2); if(init) { memset(&o, vp_junk(), sizeof o); c = &o; LIB(rbtree_init(c, cmp, ff(), ff(), p)); } else c = LIB(rbtree_new(cmp, ff(), ff(), p)); }
	long size() override { return (long)LIB(rbtree_count(c)); }
	void add() override { long k = ks.fresh(); LIB(rbtree_set(c, ptr(k), ptr(1 + R(9)), R(2))); ks.put(k); }
	void sub() override { long k = ks.some(); LIB(rbtree_remove(c, ptr(k))); ks.del(k); }
	void look() override
	{
		long w = R(4), k = ks.some();
		if(w == 0) LIB(rbtree_key_exists(c, ptr(k)));
		else if(w == 1) { RBTreePair *p = LIB(rbtree_lookup(c, ptr(k))); if(p) { LIB(rbtree_pair_get_value(p)); LIB(rbtree_pair_set_value(p, ptr(1 + R(9)))); } }
		else if(w == 2)
		{
			RBTreeIter i;
			memset((void *)&i, vp_junk(), sizeof i);
			LIB(rbtree_iter_init(c, &i));
			for(long again = R(4); ; --again)
			{
				for(long n = R(2) ? R(5) : 1 << 30; n > 0 && LIB(rbtree_iter_next(&i)); --n) LIB(rbtree_iter_get_key(&i));
				if(again <= 0) break;
				LIB(rbtree_iter_reuse(c, &i));
			}
			LIB(rbtree_iter_free(&i));
		}
		else if(size()) { LIB(rbtree_set(c, ptr(k), ptr(2), R(2))); ks.put(k); }
	}
	void clear() override { LIB(rbtree_clear(c)); ks.none(); }
	void end() override { if(init) LIB(rbtree_free(c)); else LIB(rbtree_destroy(c)); }
};
struct TArray : Thing
{
	AssocArray o, *c; bool init; Keys ks;
	TArray(long u) : ks(u) { init = R(2); if(init) { memset(&o, vp_junk(), sizeof o); c = &o; LIB(assoc_array_init(c, cmp, ff(), ff())); } else c = LIB(assoc_array_new(cmp, ff(), ff())); }
	long size() override { return (long)LIB(assoc_array_count(c)); }
	void add() override { long k = ks.fresh(); LIB(assoc_array_set(c, ptr(k), ptr(1 + R(9)), R(2))); ks.put(k); }
	void sub() override { long k = ks.some(); LIB(assoc_array_remove(c, ptr(k))); ks.del(k); }
	void look() override
	{
		long w = R(4), k = ks.some();
		if(w == 0) LIB(assoc_array_key_exists(c, ptr(k)));
		else if(w == 1) { AssocArrayPair *p = LIB(assoc_array_lookup(c, ptr(k))); if(p) { LIB(assoc_array_pair_get_value(p)); LIB(assoc_array_pair_set_value(p, ptr(1 + R(9)))); } }
		else if(w == 2) { decltype(o.pair) mem; AssocArrayIter *i = (AssocArrayIter *)&mem; LIB(assoc_array_iter_init(c, i)); for(long n = R(2) ? R(5) : 1 << 30; n > 0 && LIB(assoc_array_iter_next(i)); --n) LIB(assoc_array_iter_get_key(i)); }
		else if(size()) { LIB(assoc_array_set(c, ptr(k), ptr(2), R(2))); ks.put(k); }
	}
	void clear() override { LIB(assoc_array_clear(c)); ks.none(); }
	void end() override { if(init) LIB(assoc_array_free(c)); else LIB(assoc_array_destroy(c)); }
};
struct TPoolItems : Thing
{
	MemoryPool *c; size_t isize; std::vector<void *> in;
	TPoolItems(size_t is, size_t bs) : isize(is)
	{
		c = LIB(memory_pool_new(isize, bs));
	}
	long size() override { return (long)in.size(); }
	void add() override { void *x = LIB(((Pool *)c)->alloc((Pool *)c)); memset(x, vp_junk(), isize); in.push_back(x); }
	void sub() override { if(in.empty()) return; size_t i = R(3) ? R((long)in.size()) : in.size() - 1; void *x = in[i]; in[i] = in.back(); in.pop_back(); memset(x, 0xD5, isize); LIB(((Pool *)c)->free((Pool *)c, x)); }
	void look() override {}
	void clear() override { while(!in.empty()) sub(); }
	void end() override { LIB(memory_pool_destroy(c)); in.clear(); }
};
struct TBuffer : Thing
{
	Buffer o, *c; bool init; long max; int fd[2];
	TBuffer(long cap) : max(cap * 40)
	{
		init = R(2);
		if(init) { memset(&o, vp_junk(), sizeof o); c = &o; LIB(buffer_init(c, max)); } else c = LIB(buffer_new(max));
		if(pipe(fd)) { perror("pipe"); exit(2); }
	}
	~TBuffer() { close(fd[0]); close(fd[1]); }
	long size() override { return (long)LIB(buffer_len(c)); }
	long unit() override { return 40; }
	void add() override
	{
		char t[200];
		long n = R(30) ? 1 + R(80) : 1 + R(200);
		for(long i = 0; i < n; ++i) t[i] = R(20) ? 'a' + R(20) : '\n';
		if(R(20) && size() + n > max) n = max - size(); // a buffer which has overflowed is of use only after clear
		if(n <= 0) { LIB(buffer_clear(c)); return; }
		if(R(3)) LIB(buffer_fill(c, t, n));
		else
		{
			if(write(fd[1], t, n) != n) { perror("write"); exit(2); }
			LIB(buffer_fill_from_fd(c, fd[0], n));
			char rest[256];
			int left = 0;
			if(!ioctl(fd[0], FIONREAD, &left) && left > 0 && read(fd[0], rest, left < 256 ? left : 256) < 0) exit(2);
		}
	}
	void sub() override
	{
		if(!LIB(buffer_is_valid(c))) { LIB(buffer_clear(c)); return; }
		char *d = R(2) ? (char *)malloc(10) : nullptr;
		size_t n = d ? 10 : 0;
		for(long k = R(6); k >= 0; --k) LIB(buffer_read_line(c, &d, &n));
		free(d);
	}
	void look() override
	{
		if(R(2)) { char *d = R(2) ? (char *)malloc(10) : nullptr; size_t n = d ? 10 : 0; LIB(buffer_flush(c, &d, &n)); free(d); }
		else free(LIB(buffer_to_string(c)));
	}
	void clear() override { LIB(buffer_clear(c)); }
	void end() override { if(init) LIB(buffer_free(c)); else LIB(buffer_destroy(c)); }
};
// several containers which draw their nodes from one pool
struct TShared : Thing
{
	std::vector<Thing *> in;
	size_t lead = 0;
	TShared(std::vector<Thing *> v) : in(v) {}
	~TShared() { for(Thing *t : in) delete t; }
	Thing *one() { if(!R(40)) lead = R((long)in.size()); return in[R(3) ? lead : R((long)in.size())]; }
	long size() override { long n = 0; for(Thing *t : in) n += t->size(); return n; }
	void add() override { one()->add(); }
	void sub() override { Thing *t = one(); for(size_t i = 0; !t->size() && i < in.size(); ++i) t = in[i]; t->sub(); }
	void look() override { one()->look(); }
	void clear() override { for(Thing *t : in) if(R(3)) t->clear(); }
	void end() override { for(Thing *t : in) t->end(); }
};
