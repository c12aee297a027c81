// Pools handed to the containers: one that checks its users, and the same in front of a MemoryPool.
#pragma once
#include "core.hpp"
extern "C" {
#include "pool.h"
}
struct TestPool
{
	Pool p; // must come first
	size_t size;
	MemoryPool *mp = nullptr;
	std::set<void *> live;
	long allocs = 0, frees = 0, bad = 0;
	size_t hwm = 0, missing = 0;
	void holds(size_t n) { if(live.size() < n) missing = std::max(missing, n - live.size()); } // n elements are stored now

	static void *alloc_(Pool *q)
	{
		UserScope u;
		TestPool *t = (TestPool *)q;
		char *r;
		if(t->mp) { LibScope l; --vp_calls; vp_in_lib = 0; r = (char *)((Pool *)t->mp)->alloc((Pool *)t->mp); vp_in_lib = 0; }
		else r = (char *)malloc(t->size + 16) + 16;
		memset(r, vp_junk(), t->size);
		t->live.insert(r);
		t->hwm = std::max(t->hwm, t->live.size());
		++t->allocs;
		return r;
	}
	static void free_(Pool *q, void *x)
	{
		UserScope u;
		TestPool *t = (TestPool *)q;
		if(!t->live.erase(x)) { ++t->bad; return; }
		memset(x, 0xD5, t->size);
		++t->frees;
		if(t->mp) { ((Pool *)t->mp)->free((Pool *)t->mp, x); }
		else free((char *)x - 16);
	}
	static TestPool *make(const std::string &kind, size_t size)
	{
		if(kind == "none") return nullptr;
		TestPool *t = new TestPool;
		t->p.alloc = alloc_; t->p.free = free_; t->size = size;
		if(kind == "mp") t->mp = memory_pool_new(size, 3);
		return t;
	}
	std::string complain()
	{
		std::string r;
		if(!live.empty()) r += " " + std::to_string(live.size()) + " pool items were not given back";
		if(bad) r += " " + std::to_string(bad) + " items were given to the pool which it had not handed out (or twice)";
		if(missing) r += " " + std::to_string(missing) + " elements were stored in nodes which were not taken from the given pool";
		return r;
	}
	~TestPool() { if(mp) memory_pool_destroy(mp); else for(void *x : live) ::free((char *)x - 16); }
};
