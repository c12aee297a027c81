// Long use of every container and the memory it takes meanwhile, for SteadyTrace.tla
#define CORE_IMPL
#include "things.hpp"
int main(int argc, char **argv)
{
	Args a(argc, argv);
	vp_setup(a.str("report").c_str());
	rnd = Rng((size_t)a.num("seed", 1));
	long runs = a.num("runs", 4), ops = a.num("ops", 20000), burst = a.num("burst", 100);
	std::string kind = a.str("kind"), poolkind = a.str("pool", "none");
	vp_rep.context = kind + " pool=" + poolkind;
	FILE *f = fopen(a.str("trace").c_str(), "w");
	if(!f) { perror("trace"); return 2; }
	const long caps[] = {1, 3, 12, 60, 250};
	long lines = 0, total = 0;
	for(long run = 0; run < runs; ++run)
	{
		long cap = caps[(size_t)(run + R(2)) % 5], universe = cap < 5 ? 3 * cap : cap + cap / 4;
		size_t before = vp_mem.bytes;
		size_t nodes[] = {sizeof(ListItem), sizeof(SListItem), sizeof(RBNode)}, node = std::max(nodes[0], std::max(nodes[1], nodes[2]));
		Pool *pool = poolkind == "mp" ? (Pool *)LIB(memory_pool_new(node, 2 + R(40))) : nullptr;
		size_t isize = 8 + R(60), bsize = 2 + R(30);
		auto make = [&]() -> Thing *
		{
			if(kind == "list") return new TList(pool);
			if(kind == "slist") return new TSList(pool);
			if(kind == "stack") return new TStack(pool, false);
			if(kind == "queue") return new TStack(pool, true);
			if(kind == "async") return new TAsync(pool);
			if(kind == "ht") return new THash(universe);
			if(kind == "rb") return new TTree(universe, pool);
			if(kind == "aa") return new TArray(universe);
			if(kind == "pool") return new TPoolItems(isize, bsize);
			if(kind == "shared") return new TShared({new TList(pool), new TSList(pool), new TStack(pool, false), new TStack(pool, true), new TTree(universe, pool)});
			return new TBuffer(cap);
		};
		Thing *t = make();
		long unit = t->unit();
		fprintf(f, "{\"k\":\"start\",\"cap\":%ld,\"run\":%ld}\n", cap, run);
		++lines;
		vp_rep.history.assign(1, "start cap=" + std::to_string(cap));
		auto room = [&]() { return t->size() < cap * unit; };
		// up to the largest size and down again; then any use
		long how = -1, left = 0, want = 0, pace = 0;
		for(long done = 0; done < ops; )
		{
			long big = 0;
			size_t most = 0;
			for(long i = 0; i < burst; ++i, ++done)
			{
				if(left <= 0)
				{
					how = done < 2 * cap + 20 ? (how == 0 ? 1 : 0) : R(7);
					left = how < 2 ? cap + 5 : how == 6 ? 1 : 20 + R(4 * cap + 60);
					want = R(cap * unit + 1);
					pace = 1 + R(6);
				}
				--left;
				bool low = t->size() <= want;
				switch(how)
				{
					case 0: if(room()) t->add(); else left = 0; break;
					case 1: t->sub(); break;
					case 2: if(low && room()) t->add(); else t->sub(); break;                                      // hover
					case 3: if(R(pace + 1)) { if(low && room()) t->add(); else t->sub(); } else t->look(); break;
					case 4: if(t->size()) t->swap(); else t->add(); break;                                          // one out, one in
					case 5: t->look(); break;
					default: if(pace < 4) t->clear(); else if(pace < 5) { t->end(); delete t; t = make(); } else t->sub();
				}
				while(t->size() > cap * unit) t->sub();
				big = std::max(big, t->size());
				most = std::max(most, vp_mem.bytes - before);
			}
			fprintf(f, "{\"k\":\"step\",\"n\":%ld,\"s\":%ld,\"m\":%ld}\n", burst, big, (long)most);
			++lines;
			total += burst;
			vp_rep.history.push_back("at most " + std::to_string(big) + " stored, " + std::to_string(most) + " bytes");
		}
		t->end();
		delete t;
		if(pool) LIB(memory_pool_destroy((MemoryPool *)pool));
		if(vp_mem.bytes > before + 4096) vp_rep.fail("memory", std::to_string(vp_mem.bytes - before) + " bytes were not given back at the end");
		vp_rep.sample(kind + " pool=" + poolkind + ": " + vp_rep.history.back());
	}
	fclose(f);
	vp_rep.stats["histories"] = runs;
	vp_rep.stats["steps"] = total;
	vp_rep.stats["lines"] = lines;
	vp_rep.write();
	return 0;
}
