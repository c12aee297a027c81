// The user's objects: their memory is given back (and poisoned by the sanitizer), kept for an object that stands for the
// same thing, or used again for any other object at once - as a user's allocator, or a user with static objects, would do.
#pragma once
#include "core.hpp"
template<class T> struct Objs
{
	std::unordered_map<long, std::vector<T *>> kept;
	std::vector<T *> spare;
	Rng r{4711};
	T *make(long name, const T &v)
	{
		T *o = nullptr;
		auto k = kept.find(name);
		if(k != kept.end() && !k->second.empty() && r.below(4)) { o = k->second.back(); k->second.pop_back(); }
		else if(!spare.empty() && r.below(2)) { o = spare.back(); spare.pop_back(); }
		if(!o) return new T(v);
		*o = v;
		return o;
	}
	void drop(long name, T *o)
	{
		size_t c = r.below(4);
		if(c == 0 && spare.size() < 16) spare.push_back(o);
		else if(c == 1 && name)
		{
			auto &k = kept[name];
			if(k.size() < 4) k.push_back(o); else delete o;
		}
		else delete o;
	}
	// an object of that name which is not in use
	T *again(long name)
	{
		auto k = kept.find(name);
		return k != kept.end() && !k->second.empty() ? k->second.back() : nullptr;
	}
};
