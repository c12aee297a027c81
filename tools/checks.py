"""What is checked for every property: which model, which operations, what is compared, on which variants."""
from vp import *

CHECKS = {}
def check(f):
    CHECKS[f.__name__] = f
    return f

# ------------------------------------------------------------------ the algorithms
# module: invariants, properties, constants of the quick tier, constants of further thorough runs, designs which TLC has to refute
_L = dict(Data={0, 10, 11, 20}, Keys={0, 1, 2})
_H = dict(Keys={1, 2, 3}, Copies={1}, Vals={1}, FreeModes={"kv"}, Iters={1}, HashMul=1)
_P = dict(Tokens={1}, BlockSize=2)
_A = dict(Copies={1}, FreeModes={"kv"}, Iters={1}, First=2)
_U = dict(Tokens={1, 2, 3}, Modes={0}, First=2)
IMPL = {
 "ListImpl": (["Linked"], ["Refines"], dict(_L, MaxLen=3), [dict(_L, MaxLen=5), dict(Data={10, 11, 12, 20, 21, 22}, Keys={1, 2, 3}, MaxLen=4)], ["unlinked", "tail"]),
 "SListImpl": (["Linked"], ["Refines"], dict(_L, MaxLen=3), [dict(_L, MaxLen=5), dict(Data={10, 11, 12, 20, 21, 22}, Keys={1, 2, 3}, MaxLen=4)], ["tail", "behind", "over"]),
 "PoolImpl": (["Complete"], ["Refines"], dict(_P, MaxItems=5), [dict(_P, MaxItems=8), dict(Tokens={1, 2}, BlockSize=3, MaxItems=7)], ["lost", "again", "fresh"]),
 "HashImpl": (["Placed"], ["Refines"], _H, [dict(_H, Vals={0, 1}), dict(_H, Keys={1, 2, 3, 4}, HashMul=2), dict(_H, Copies={1, 2}, HashMul=3, FreeModes={"k"})], ["lose", "stay", "second", "skip"]),
 "ArrayImpl": (["Sound"], ["Refines", "Cheap"], dict(_A, Keys={1, 2, 3}, Vals={0, 1}), [dict(_A, Keys={1, 2, 3, 4}, Vals={0, 1}), dict(_A, Keys=set(range(1, 8)), Vals={1})], ["early", "behind", "apart", "full", "linear"]),
 "BufferImpl": (["Inside"], ["Refines"], dict(_U, Limit=5, MaxWrite=4), [dict(_U, Limit=8, MaxWrite=4), dict(_U, Tokens={1, 3}, Limit=12, MaxWrite=7)], ["late", "limit", "past", "keep", "wrap"]),
}
def algorithm(ctx, module):
    """jobs: TLC checks that the modelled algorithm implements the specification of its users, and finds broken designs out"""
    inv, props, quick, more, bad = IMPL[module]
    def run(tag, c, design, expect=None):
        ctx.model("%s-%s" % (module, tag), module, ctx.cfg(constants=dict(c, Design=design), view="View", invariants=inv, properties=props, subst={"Sizes": "SmallSizes"} if module == "HashImpl" else None), workers=2 if ctx.quick else 4, expect=expect)
    def designs():
        run("code", quick, "code")
        for d in bad: run(d, quick, d, " is violated")
    return [designs] + ([] if ctx.quick else [lambda i=i, c=c: run("code-%d" % i, c, "code") for i, c in enumerate(more)])

# ------------------------------------------------------------------ very long containers
LONG_OPS = {"list": {"Append", "Prepend", "InsertSorted", "Pop", "Remove", "RemoveByData", "Find", "Contains", "Clear", "Destroy"},
            "queue": {"Append", "Pop", "Clear", "Destroy"}, "stack": {"Prepend", "Pop", "Clear", "Destroy"}}
LONG_OPS["slist"] = LONG_OPS["list"]
def long_containers(ctx, kind, aspects="*=RSFM", ops=None):
    """jobs: containers with tens of thousands of items"""
    q = ctx.quick
    spec = "queue" if kind == "async" else kind
    o = ops or LONG_OPS[spec]
    def exe(): return ctx.harness("long-" + kind, ["long.cpp"], ["-D" + kind.upper()])
    def one(i, tokens, sizes, dents, var):
        g = ctx.graph("long-%s-%d" % (kind, i), "Long", dict(Tokens=tokens, Sizes=sizes, MaxDents=dents, Kind=spec, OpNames=o), ["TypeOK", "NoTwice"], ["Conservation", "Order"])
        ctx.run(exe(), dict(var, graph=g, aspects=aspects, pairs=500 if q else 20000, budget=20 if q else 40), "long-%d" % i)
    ms = [({1, 2}, {1, 65535}, 1, dict(pool="mp", life="init")), ({1, 2}, {254, 1}, 1, dict(pool="none", life="new"))]
    # tens of thousands of items, then something else
    ms.append(({1, 2, 3}, {1, 65535}, 0, dict(pool="none", life="init")))
    if not q: ms += [({1, 2, 3}, {1, 32767, 65534}, 2, dict(pool="none", life="init")), ({1, 2}, {1, 1 << 17}, 2, dict(pool="mp", life="new")), ({1, 2, 3}, {254, 2}, 1, dict(pool="mp", life="new"))]
    return [lambda i=i, m=m: one(i, *m) for i, m in enumerate(ms)]

# ------------------------------------------------------------------ lists
LIST_OPS = {"Append", "Prepend", "InsertSorted", "Remove", "RemoveByData", "RemoveOwn", "Pop", "Clear", "Find", "Contains", "FreeData", "SetData", "Restart", "Destroy"}
LIST_PROPS = ["Conservation", "SortedKept", "NeverFreeStored", "NoFreeFunction"]

def lists(ctx, slist, ops, aspects, fields, models, variants, trace_lines, traces=2, extra=()):
    name = "slist" if slist else "list"
    fields = [f for f in fields if not (slist and f == "bwd")]
    base = {"aspects": aspects, "fields": ",".join(fields), "ops": ",".join(sorted(ops))}
    def exe(): return ctx.harness(name, ["seqlist.cpp"], ["-DSLIST"] if slist else [])
    def graph(i, var, vi):
        m = models[i]
        g = ctx.graph("%s-%d" % (name, i), "List", dict(Data=m["data"], Keys=m["keys"], MaxLen=m["len"], FirstOnly=slist, OpNames=ops), ["TypeOK"], LIST_PROPS)
        ctx.run(exe(), dict(base, graph=g, pairs=m["pairs"], budget=m.get("budget", 60), **var), "%d-%d" % (i, vi))
    def trace(i, var):
        t = os.path.join(ctx.work, "trace-%d.ndjson" % i)
        a = dict(base, mode="trace", trace=t, n=trace_lines, keys=[8, 3, 15, 5][i % 4], len=[30, 60, 40, 12][i % 4], **var)
        a["seed"] = ctx.seed * 100 + i
        ctx.run(exe(), a, "t%d" % i)
        ctx.trace("t%d" % i, "ListTrace", dict(Data=set(), Keys=set(), MaxLen=1000000, FirstOnly=slist, OpNames=ops), t, var,
                  properties=["SortedKept", "NeverFreeStored", "NoFreeFunction"])
    jobs = [lambda i=i, v=v, k=k: graph(i, v, k) for i in range(len(models)) for k, v in enumerate(variants)]
    jobs += [lambda i=i: trace(i, variants[i % len(variants)]) for i in range(traces)]
    ctx.par(algorithm(ctx, "SListImpl" if slist else "ListImpl") + list(extra) + jobs)

V3 = [dict(pool="none", life="new"), dict(pool="custom", life="init"), dict(pool="mp", life="new")]
ALLF = ["fwd", "bwd", "count", "empty", "head", "tail", "handles"]

def list_seq(ctx, sl):
    m = [dict(data={0, 10, 11, 20}, keys={0, 1, 2, 3}, len=4 if ctx.quick else 5, pairs=150000 if ctx.quick else 2000000)]
    if not ctx.quick: m.append(dict(data={10, 20}, keys={1, 2}, len=8, pairs=2000000))
    lists(ctx, sl, LIST_OPS, "*=RS", ALLF, m, V3, 4000 if ctx.quick else 20000, 2 if ctx.quick else 6, long_containers(ctx, "slist" if sl else "list", "*=RS"))
def list_sorted(ctx, sl):
    m = [dict(data={10, 11, 20, 30} if ctx.quick else {0, 10, 11, 20, 30}, keys=set(), len=5, pairs=150000 if ctx.quick else 2000000)]
    lists(ctx, sl, {"InsertSorted", "Append", "Prepend", "Remove", "Pop", "Clear", "Destroy"}, "InsertSorted=RS,*=", ALLF, m, V3, 4000 if ctx.quick else 20000, 2 if ctx.quick else 6,
          long_containers(ctx, "slist" if sl else "list", "InsertSorted=RS,*=", {"Append", "Prepend", "InsertSorted", "Pop", "Clear", "Destroy"}))
def list_find(ctx, sl):
    m = [dict(data={10, 11, 20}, keys={0, 1, 2, 3}, len=6 if ctx.quick else 7, pairs=100000 if ctx.quick else 2000000)]
    if not ctx.quick: m.append(dict(data={0, 10, 11, 20, 30}, keys={0, 1, 2, 3, 4}, len=4, pairs=1000000))
    lists(ctx, sl, {"Find", "Contains", "RemoveByData", "RemoveOwn", "Append", "Prepend", "Pop", "Destroy"}, "Find=RS,Contains=RS,RemoveByData=RS,RemoveOwn=RS,*=", ALLF, m, V3[:2] if ctx.quick else V3, 4000 if ctx.quick else 20000, 2 if ctx.quick else 6,
          long_containers(ctx, "slist" if sl else "list", "Find=RS,Contains=RS,RemoveByData=RS,*=", {"Append", "Prepend", "Remove", "RemoveByData", "Find", "Contains", "Destroy"}))
def list_mem(ctx, sl):
    m = [dict(data={0, 10, 11, 20}, keys={0, 1, 2}, len=4, pairs=150000 if ctx.quick else 2000000)]
    v = V3 + [dict(pool="none", life="init"), dict(pool="mp", life="init")]
    lists(ctx, sl, LIST_OPS, "*=FM", ["fwd"], m, v, 4000 if ctx.quick else 20000, 2 if ctx.quick else 6, long_containers(ctx, "slist" if sl else "list", "*=FM"))

@check
def L01(ctx): list_seq(ctx, False)
@check
def L02(ctx): list_sorted(ctx, False)
@check
def L03(ctx): list_find(ctx, False)
@check
def L04(ctx): list_mem(ctx, False)
@check
def S01(ctx): list_seq(ctx, True)
@check
def S02(ctx): list_sorted(ctx, True)
@check
def S03(ctx): list_find(ctx, True)
@check
def S04(ctx): list_mem(ctx, True)

# ------------------------------------------------------------------ maps
MAP_BASE = {"Set", "Remove", "SetOwn", "RemoveOwn", "Lookup", "Exists", "PairSet", "Forget", "Clear", "Restart", "Destroy"}
MAP_ITER = {"IterInit", "IterNext", "IterAll"}
KIND = {"H": ("ht", "HT"), "R": ("rb", "RB"), "D": ("aa", "AA")}
MAP_PROPS = ["Conservation", "NothingFreed", "IterOnce"]

def maps(ctx, ops, aspects, fields, models, trace_variants, trace_lines):
    """models: list of dict(keys, copies, vals, fill, iters, modes, pairs, variants)"""
    name, define = KIND[ctx.prop[0]]
    rb, aa = name == "rb", name == "aa"
    base = {"aspects": aspects, "fields": ",".join(fields)}
    def exe(): return ctx.harness(name, ["map.cpp", "mapshim.c"], ["-D" + define])
    def consts(m, o):
        return dict(Keys=set(range(1, m["keys"] + 1)), Copies=set(range(1, m["copies"] + 1)), Vals=set(range(0, m["vals"] + 1)), FillN=m.get("fill", 0),
                    Iters=set(range(1, m.get("iters", 1) + 1)), Ordered=aa, Reusable=rb, Reports=rb, FreeModes=set(m["modes"]), OpNames=o)
    def mops(m):
        o = set(m.get("ops", ops))
        if rb and "IterInit" in o: o |= {"IterReuse", "IterFree"}
        if m.get("fill"): o |= {"Fill", "Drain"}
        return o
    def graph(i, m, vi, var):
        o = mops(m)
        g = ctx.graph("%s-%d" % (name, i), "Map", consts(m, o), ["TypeOK"], MAP_PROPS)
        a = dict(base, graph=g, ops=",".join(sorted(o)), pairs=m["pairs"], keys=m["keys"], iters=m.get("iters", 1), fill=m.get("fill", 0), budget=m.get("budget", 60))
        for k in ("maxlen", "runlen"):
            if k in m: a[k] = m[k]
        a.update(var)
        ctx.run(exe(), a, "%d-%d" % (i, vi))
    def trace(i, var):
        t = os.path.join(ctx.work, "trace-%d.ndjson" % i)
        var = dict(var)
        m = dict(keys=var.pop("keys", 16), copies=0, vals=0, fill=var.pop("fill", 0), iters=2, modes=["kv"])
        n = var.pop("n", trace_lines)
        o = mops(m)
        a = dict(base, mode="trace", trace=t, n=n, keys=m["keys"], fill=m["fill"], iters=2, ops=",".join(sorted(o)), seed=ctx.seed * 100 + i, **var)
        ctx.run(exe(), a, "t%d" % i)
        c = consts(m, o)
        ctx.trace("t%d" % i, "MapTrace", c, t, dict(var, keys=m["keys"], fill=m["fill"]), properties=["NothingFreed", "IterOnce"])
    jobs = []
    for i, m in enumerate(models):
        for k, v in enumerate(m["variants"]): jobs.append(lambda i=i, m=m, k=k, v=v: graph(i, m, k, v))
    for i, v in enumerate(trace_variants): jobs.append(lambda i=i, v=v: trace(i, v))
    ctx.par(({"ht": algorithm(ctx, "HashImpl"), "aa": algorithm(ctx, "ArrayImpl")}.get(name, [])) + jobs)

HASHV = [dict(size=0, hash="ident", life="new"), dict(size=1, hash="ident", life="init"), dict(size=2, hash="mod7", life="new"),
         dict(size=3, hash="const", life="init"), dict(size=0, hash="neg", life="init"), dict(size=0, hash="const", life="new")]
RBV = [dict(pool="none", life="new"), dict(pool="custom", life="init"), dict(pool="mp", life="new")]
AAV = [dict(life="new"), dict(life="init")]
MAPF = ["count", "fill", "keys", "vals", "pair"]

def variants(p): return {"H": HASHV, "R": RBV, "D": AAV}[p[0]]

def big_maps(ctx, **kw):
    """models of maps with hundreds and thousands of other entries"""
    q, p = ctx.quick, ctx.prop[0]
    b = dict(copies=1, vals=0, keys=2, modes=["kv"], maxlen=400, budget=12 if q else 60, **kw)
    var = {"H": [dict(size=1, hash="ident", place="spread"), dict(size=0, hash="mul", place="high")], "R": [dict(pool="mp", place="spread"), dict(pool="none", place="low", order="asc")],
           "D": [dict(place="spread"), dict(place="low", life="init")]}[p]
    return [dict(b, fill=f, pairs=n, variants=[var[1 if p == "H" and f > 20000 else i % 2]]) for i, (f, n) in enumerate([(300, 3000), (4200, 150), (66200, 8)] + ([] if q else [(66000, 60), (1000, 20000)]))]

def wide_tables(ctx, ops):
    """hash tables of a chosen large size, which do not grow, with a few entries far apart"""
    if ctx.prop[0] != "H": return []
    return [dict(copies=1, vals=0, keys=3, modes=["kv"], ops=ops, maxlen=1000, budget=12 if ctx.quick else 60, pairs=1000 if ctx.quick else 20000,
                 variants=[dict(size=70001, hash="mul", life="new"), dict(size=65536, hash="neg", life="init"), dict(size=300, hash="mul", life="init")])]

def map_history(ctx):
    p = ctx.prop[0]
    q = ctx.quick
    ops = MAP_BASE
    v = variants(p)
    ms = [dict(keys=3, copies=2, vals=1, modes=["kv", ""], pairs=60000 if q else 1000000, variants=v)]
    # many keys: chains, deep trees, capacity limits
    ms.append(dict(keys=5 if q else 8, copies=1, vals=1 if q else 0, modes=["kv"], pairs=60000 if q else 600000, variants=v))
    if not q: ms.append(dict(keys=6, copies=1, vals=1, modes=["kv", ""], pairs=600000, variants=v))
    if p == "D":
        for f in ([6, 14, 30] if q else [5, 6, 7, 13, 14, 15, 29, 30, 62]):
            ms.append(dict(keys=3, copies=1, vals=1, fill=f, modes=["kv"], pairs=40000 if q else 200000, variants=[dict(life="new", place=x) for x in ("low", "spread", "high")]))
    if p == "R":
        for f in ([7] if q else [3, 7, 12, 30, 100]):
            ms.append(dict(keys=3, copies=1, vals=1, fill=f, modes=["kv"], pairs=30000 if q else 200000, variants=[dict(pool="mp", place=x, order=o) for x, o in (("low", "asc"), ("spread", "shuf"), ("high", "desc"))]))
    if p == "H":
        for f in ([6] if q else [6, 40]):
            ms.append(dict(keys=3, copies=1, vals=1, fill=f, modes=["kv"], pairs=30000 if q else 200000, variants=[dict(size=2, hash="ident", place="spread"), dict(size=1, hash="ident", place="high")]))
    ms += big_maps(ctx) + wide_tables(ctx, ops)
    t = {"H": [dict(keys=20, size=3, hash="mod7"), dict(keys=30, size=0, hash="ident")] + ([] if q else [dict(keys=12, size=1, hash="const"), dict(keys=40, size=5, hash="mul")]),
         "R": [dict(keys=24, pool="mp"), dict(keys=50, pool="none")] + ([] if q else [dict(keys=100, pool="custom"), dict(keys=12, pool="mp")]),
         "D": [dict(keys=12), dict(keys=36)] + ([] if q else [dict(keys=70), dict(keys=18)])}[p]
    maps(ctx, ops, "*=RS", MAPF, ms, t, 3000 if q else 20000)

def map_iter(ctx):
    p = ctx.prop[0]
    q = ctx.quick
    ops = {"Set", "Remove", "Lookup", "Exists", "Clear", "Destroy"} | MAP_ITER
    asp = "IterInit=RS,IterNext=RS,IterReuse=RS,IterFree=RS,IterAll=R,Lookup=S,Exists=S,*="
    v = variants(p)
    small = dict(copies=1, vals=0, modes=["kv"])
    ms = [dict(small, keys=3, iters=2, pairs=150000 if q else 1000000, variants=v),
          dict(small, keys=5 if q else 6, iters=1, pairs=60000 if q else 600000, variants=v)]
    if not q: ms.append(dict(small, keys=4, iters=2, pairs=1000000, variants=v[:2]))
    if p == "D":
        for f in ([6, 14] if q else [6, 7, 14, 15, 30]): ms.append(dict(small, keys=3, fill=f, pairs=20000, ops=ops - {"IterNext", "IterInit"}, variants=[dict(life="new", place=x) for x in ("low", "spread", "high")]))
    if p == "H":
        for f in ([255] if q else [255, 256, 257, 1031, 4127]): ms.append(dict(small, keys=3, fill=f, pairs=2000 if q else 6000, ops=ops - {"IterNext", "IterInit"}, variants=[dict(size=0, hash="ident", place="spread"), dict(size=0, hash="mul", place="high")]))
    if p == "R":
        for f in ([40] if q else [10, 40, 300]): ms.append(dict(small, keys=3, fill=f, pairs=10000, ops=ops - {"IterNext", "IterInit"}, variants=[dict(pool="mp", place="spread")]))
    ms += big_maps(ctx, ops=ops - {"IterNext", "IterInit"}) + wide_tables(ctx, ops)
    t = {"H": [dict(keys=12, size=3, hash="mod7"), dict(keys=20, size=0, hash="ident")],
         "R": [dict(keys=12, pool="mp"), dict(keys=40, pool="none")],
         "D": [dict(keys=12), dict(keys=36)]}[p]
    if not q: t = t * 2
    maps(ctx, ops, asp, ["its"], ms, t, 4000 if q else 20000)

def map_free(ctx):
    p = ctx.prop[0]
    q = ctx.quick
    ops = MAP_BASE | ({"IterInit", "IterNext"} if p == "R" else set())
    v = variants(p)
    it = 1
    ms = [dict(keys=2, copies=2, vals=1, iters=it, modes=["kv", "k", "v", ""], pairs=80000 if q else 1000000, variants=v),
          dict(keys=4 if q else 6, copies=1, vals=0, iters=it, modes=["kv"], pairs=40000 if q else 600000, variants=v)]
    f = {"H": [6] if q else [6, 300], "R": [9] if q else [9, 100], "D": [6, 7] if q else [6, 7, 14, 31]}[p]
    fv = {"H": [dict(size=2, hash="ident", place="spread"), dict(size=0, hash="ident")], "R": [dict(pool="mp", place="spread"), dict(pool="custom", place="high")], "D": [dict(place="spread"), dict(place="low", life="init")]}[p]
    for n in f: ms.append(dict(keys=2, copies=1, vals=1, fill=n, iters=it, modes=["kv", "k", "v"], pairs=20000 if q else 200000, variants=fv))
    ms += big_maps(ctx, ops=MAP_BASE) + wide_tables(ctx, MAP_BASE)
    t = {"H": [dict(keys=20, size=3, hash="mod7"), dict(keys=30, size=0, hash="ident")], "R": [dict(keys=24, pool="mp"), dict(keys=50, pool="custom")], "D": [dict(keys=12), dict(keys=36)]}[p]
    if not q: t = t * 2
    maps(ctx, ops, "*=FM", ["dead"], ms, t, 3000 if q else 20000)

@check
def H01(ctx): map_history(ctx)
@check
def H03(ctx): map_iter(ctx)
@check
def H04(ctx): map_free(ctx)
@check
def R01(ctx): map_history(ctx)
@check
def R03(ctx): map_iter(ctx)
@check
def R04(ctx): map_free(ctx)
@check
def D01(ctx): map_history(ctx)
@check
def D03(ctx): map_free(ctx)

# ------------------------------------------------------------------ stack, queue
def lifofifo(ctx, fifo):
    q = ctx.quick
    name = "queue" if fifo else "stack"
    ops = {"Push", "Pop", "Head", "Clear", "Restart", "Destroy"}
    def exe(): return ctx.harness(name, ["lifofifo.cpp"], ["-DQUEUE"] if fifo else [])
    models = [dict(Data={0, 1, 2, 3}, MaxLen=4 if q else 6), dict(Data={0, 1}, MaxLen=7 if q else 10)]
    vs = [dict(pool=p, life=l) for p in ("none", "custom", "mp") for l in ("new", "init")]
    def graph(i, k):
        g = ctx.graph("%s-%d" % (name, i), "LifoFifo", dict(models[i], Fifo=fifo, OpNames=ops), ["TypeOK"], ["Undo", "Conservation"])
        ctx.run(exe(), dict(vs[k], graph=g, pairs=60000 if q else 1000000), "%d-%d" % (i, k))
    def hist():
        ctx.model("histories", "LifoFifo", ctx.cfg(constants=dict(Data={0, 1, 2}, MaxLen=3 if q else 4, Fifo=fifo, OpNames=ops), invariants=["TypeOK", "CountOK", "Order"], properties=["Undo", "Conservation"], constraints=["HistBound"]))
    def trace(i):
        t = os.path.join(ctx.work, "trace-%d.ndjson" % i)
        ctx.run(exe(), dict(vs[i % 6], mode="trace", trace=t, n=4000 if q else 20000, len=[60, 400, 12, 5][i % 4], seed=ctx.seed * 100 + i), "t%d" % i)
        ctx.trace("t%d" % i, "LifoFifoTrace", dict(Data=set(), MaxLen=1000000, Fifo=fifo, OpNames=ops), t, vs[i % 6])
    ctx.par(long_containers(ctx, name) + [lambda i=i, k=k: graph(i, k) for i in range(len(models)) for k in range(len(vs))] + [hist] + [lambda i=i: trace(i) for i in range(2 if q else 6)])

@check
def K01(ctx): lifofifo(ctx, False)
@check
def K02(ctx): lifofifo(ctx, True)

# ------------------------------------------------------------------ pool
def pools(ctx, reuse):
    q = ctx.quick
    ops = {"Alloc", "Free", "Write", "Destroy"} if not reuse else {"Alloc", "Free", "Destroy"}
    asp = "Alloc=RM,Free=RM,*=M" if reuse else "*=S"
    base = dict(aspects=asp, fields="dead" if reuse else "items", meter=1 if reuse else 0)
    def exe(): return ctx.harness("pool", ["pool.cpp"])
    toks = {1} if reuse else {1, 2}
    def graph(i, n, isize, bsize):
        c = dict(MaxItems=n, Tokens=toks, BlockSize=bsize, Reuse=reuse, OpNames=ops)
        g = ctx.graph("pool-%d-%d" % (n, bsize), "Pool", c, ["TypeOK", "Footprint"], ["Stable"])
        ctx.run(exe(), dict(base, graph=g, isize=isize, bsize=bsize, pairs=60000 if q else 1000000), "g%d" % i)
    def trace(i, isize, bsize, live, n):
        t = os.path.join(ctx.work, "trace-%d.ndjson" % i)
        ctx.run(exe(), dict(base, mode="trace", trace=t, isize=isize, bsize=bsize, live=live, n=n, seed=ctx.seed * 100 + i), "t%d" % i)
        ctx.trace("t%d" % i, "PoolTrace", dict(MaxItems=1000000, Tokens=set(), BlockSize=bsize, Reuse=reuse, OpNames=ops | {"Write"}), t, dict(isize=isize, bsize=bsize))
    if reuse:
        gs = [(7, 4096, 2), (9, 4096, 3), (9, 4096, 4)] if q else [(9, 4096, 2), (12, 4096, 3), (12, 4096, 4), (13, 4096, 5)]
        ts = [(4096, 2, 30, 3000), (4096, 5, 60, 3000), (4096, 7, 40, 3000)] if q else [(4096, b, l, 20000) for b, l in ((2, 30), (3, 50), (5, 100), (7, 64), (16, 150))]
    else:
        gs = [(6, s, b) for s, b in ((2, 2), (3, 2), (8, 2), (24, 3), (40, 4), (4096, 2))] if q else [(7, s, b) for s, b in ((2, 2), (3, 2), (8, 2), (24, 3), (40, 4), (4096, 2), (5, 3), (16, 5))]
        ts = [(8, 2, 30, 3000), (3, 5, 60, 3000), (24, 7, 40, 3000)] if q else [(sz, b, l, 20000) for sz, b, l in ((8, 2, 30), (2, 3, 60), (24, 5, 100), (13, 7, 60), (64, 128, 300))]
    # items and blocks of gigabytes (of which little is touched)
    def huge(i, isize, bsize):
        mem = {l.split(":")[0]: int(l.split()[1]) >> 10 for l in open("/proc/meminfo")}
        if mem["MemTotal"] < 12000 or open("/proc/sys/vm/overcommit_memory").read().strip() == "2":
            ctx.notes.append("pools of gigabytes were left out: too little memory")
            return
        g = ctx.graph("pool-4-%d" % bsize, "Pool", dict(MaxItems=5, Tokens={1, 2}, BlockSize=bsize, Reuse=False, OpNames=ops), ["TypeOK", "Footprint"], ["Stable"])
        ctx.run(ctx.harness("pool-plain", ["pool.cpp"], kind="plain", opt="-O1"), dict(base, graph=g, isize=isize, bsize=bsize, pairs=500 if q else 20000, budget=5 if q else 40), "h%d" % i)
    hs = [] if reuse else [lambda i=i, x=x: huge(i, *x) for i, x in enumerate([(1 << 20, 4097), ((1 << 31) + 8, 2), ((1 << 32) + 16, 2)])]
    ctx.par(algorithm(ctx, "PoolImpl") + pool_bulk(ctx, reuse) + hs + [lambda i=i, x=x: graph(i, *x) for i, x in enumerate(gs)] + [lambda i=i, x=x: trace(i, *x) for i, x in enumerate(ts)])
def pool_bulk(ctx, reuse):
    q = ctx.quick
    def exe(): return ctx.harness("poolbulk", ["poolbulk.cpp"])
    def one(i, groups, lens, isize, bsize):
        g = ctx.graph("poolbulk-%d" % i, "PoolBulk", dict(Groups=set(range(1, groups + 1)), Lens=lens, Tokens={1} if reuse else {1, 2}, Orders={"asc", "desc", "shuf"}, BlockSize=bsize, Reuse=reuse,
                                                          OpNames={"Alloc", "Free", "Destroy"} | (set() if reuse else {"Write"})), ["TypeOK"], ["PeakOnly"])
        ctx.run(exe(), dict(graph=g, isize=isize, bsize=bsize, groups=groups, reuse=1 if reuse else 0, pairs=1000 if q else 20000, budget=5 if q else 40), "pb%d" % i)
    # a single block too many can be told from the book-keeping if a block is larger than the allowance made for it (all but the last)
    if reuse: ms = [(3, {15, 16, 17}, 800, 16), (3, {100, 130, 257}, 20000, 2), (3, {256, 300, 511}, 1200, 256), (2, {20000, 46000}, 24, 128)]
    else: ms = [(3, {15, 16, 17}, 24, 16), (3, {256, 300, 511}, 3, 256), (3, {63, 64, 65}, 40, 64), (2, {20000, 46000}, 24, 128)]
    if not q: ms += [(3, {1000, 33000, 66000}, 72, 1000), (4, {7, 8, 9, 70}, 400, 8), (3, {99, 201}, 400, 3)]
    return [lambda i=i, m=m: one(i, *m) for i, m in enumerate(ms)]
@check
def P01(ctx): pools(ctx, False)
@check
def P02(ctx): pools(ctx, True)

# ------------------------------------------------------------------ growth and cost
def map_growth(ctx):
    q = ctx.quick
    ops = {"Set", "Remove", "Clear", "IterAll", "Destroy"}
    def v(h, pl, order="shuf"): return dict(size=0, hash=h, place=pl, order=order)
    small = dict(copies=1, modes=["kv"], ops=ops)
    ms = [dict(small, keys=3, vals=1, fill=256, pairs=1500 if q else 20000, variants=[v("ident", "low"), v("ident", "spread", "asc"), v("mul", "high"), v("mod7", "low"), v("neg", "spread", "desc"), v("step", "spread")]),
          dict(small, keys=2, vals=0, fill=257, pairs=1000 if q else 10000, variants=[v("const", "spread"), v("ident", "high")]),
          dict(small, keys=3, vals=0, fill=1030, pairs=400 if q else 5000, variants=[v("ident", "spread"), v("mul", "low"), v("step", "high")]),
          dict(small, keys=3, vals=0, fill=4126, pairs=60 if q else 1000, maxlen=400, variants=[v("ident", "low", "asc"), v("mul", "spread")])]
    if q: ms += [dict(small, keys=2, vals=0, fill=f, pairs=6, maxlen=400, budget=25, variants=[v("ident", "spread")]) for f in (66082, 264342)]
    if not q:
        ms += [dict(small, keys=3, vals=0, fill=f, pairs=60, maxlen=400, variants=[v("ident", "low", "asc"), v("mul", "spread")]) for f in (16518, 66082, 264342, 1057386)]
        ms += [dict(small, keys=6, vals=1, fill=f, pairs=20000, variants=[v("ident", "spread"), v("mul", "high"), v("const", "low")]) for f in (253, 255)]
    t = [dict(keys=6, size=0, hash="ident", place="spread", fill=255, n=600 if q else 6000), dict(keys=8, size=0, hash="mul", place="high", fill=1027, n=400 if q else 4000)]
    maps(ctx, ops | {"Lookup", "Exists", "PairSet", "Forget", "Restart"}, "*=RS", ["count", "fill", "keys", "vals"], ms, t, 1000)

def bulk(ctx, kind, ms):
    name, define = {"hash": ("ht", "HT"), "tree": ("rb", "RB"), "array": ("aa", "AA")}[kind]
    ops = {"Insert", "Replace", "Remove", "Probe", "Clear", "Destroy"}
    def exe(): return ctx.harness("bulk-" + name, ["bulk.cpp", "mapshim.c"], ["-D" + define])
    def one(i, blocks, ln, orders, pairs, base=0):
        g = ctx.graph("bulk-%d-%d" % (blocks, ln), "Bulk", dict(NBlocks=blocks, BlockLen=ln, Kind=kind, Orders=orders, OpNames=ops), ["TypeOK", "BoundsOK"])
        ctx.run(exe(), dict(graph=g, blocks=blocks, len=ln, kind=kind, base=base, pairs=pairs), "b%d" % i)
    return [lambda i=i, m=m: one(i, *m) for i, m in enumerate(ms)]

@check
def H02(ctx): map_growth(ctx)
@check
def H05(ctx):
    q = ctx.quick
    O = {"asc", "desc"}
    S = O | {"shuf"}
    ctx.par(bulk(ctx, "hash", [(8, 1, S, 2000), (6, 52, O, 3000), (5, 65, S, 2000, 5000), (6, 260, S, 800, 2**31 - 700), (5, 1031, O, 300), (5, 4130, S, 60, 10**9), (2, 66100, O, 6)] +
                 ([] if q else [(5, 16520, S, 100), (4, 66100, O, 50), (7, 257, S, 3000, 2**32 - 2000), (9, 33, S, 5000)])))
@check
def D02(ctx):
    q = ctx.quick
    S = {"asc", "desc", "shuf", "mid"}
    ctx.par(bulk(ctx, "array", [(7, 1, S, 3000), (6, 3, S, 3000), (5, 16, S, 1000), (5, 100, S, 300), (4, 1000, S, 40), (3, 33000, {"asc", "desc"}, 4)] + ([] if q else [(8, 2, S, 30000), (5, 15, S, 10000), (4, 5000, S, 60)])) +
            [lambda: map_iter(ctx)])

# ------------------------------------------------------------------ red-black trees
def rb_shapes(ctx):
    q = ctx.quick
    n = 11 if q else 14
    parts = 8
    def exe(): return ctx.harness("rbshape", ["rbshape.cpp", "mapshim.c"], ["-DRB"])
    def judged(tag, args, parts):
        t = os.path.join(ctx.work, "rb-" + tag)
        ctx.run(exe(), dict(args, trace=t, parts=parts), tag)
        return [lambda i=i: ctx.trace("%s-%d" % (tag, i), "RBTrace", {}, "%s.%d" % (t, i), args) for i in range(parts)]
    jobs = []
    jobs += judged("all", dict(mode="all", max=n), parts)
    ctx.memo_rb = os.path.join(ctx.work, "rb-all")
    jobs += judged("rnd0", dict(mode="random", n=2000 if q else 10000, max=40, pool="mp"), 2)
    jobs += judged("rnd1", dict(mode="random", n=600 if q else 4000, max=300, seed=ctx.seed + 7), 3)
    impl = {}
    def model():
        m = 9 if q else 12
        ctx.model("shapes", "RBShapes", ctx.cfg(constants=dict(MaxNodes=8 if q else 10), invariants=["HeightOK"]))
        rc, tail, outf = ctx.tlc("impl", "RBImpl", ctx.cfg(constants=dict(MaxNodes=m), view="View", invariants=["RedBlack"], properties=["Implements"], action=["Emit"]))
        if "No error has been found" not in tail: raise CheckError("TLC on RBImpl:\n" + tail[-3000:])
        gen, dist = ctx.counts(tail)
        with ctx.lock:
            ctx.states += dist; ctx.transitions += gen
            ctx.runs.append(dict(tlc="RBImpl", constants=dict(MaxNodes=m), distinct_states=dist, states_generated=gen, checked=["RedBlack", "Implements (RBTree!Step)"]))
        # how far the code follows the modelled algorithm (information only: another correct algorithm is as good)
        for l in open(outf):
            if l.startswith('"{'):
                e = json.loads(json.loads(l))
                impl[(json.dumps(e["t"]), e["n"], e["x"])] = json.dumps(e["u"])
        same = other = 0
        for i in range(parts):
            for l in open("%s.%d" % (ctx.memo_rb, i)):
                e = json.loads(l)
                u = impl.get((json.dumps(e["t"]), e["n"], e["x"]))
                if u is not None:
                    if u == json.dumps(e["u"]): same += 1
                    else: other += 1
        ctx.notes.append("steps of the real tree equal to RBImpl's: %d, different (not judged): %d" % (same, other))
    ctx.par(jobs + [model])

@check
def R02(ctx):
    q = ctx.quick
    S = {"asc", "desc", "shuf", "mid"}
    ctx.par([lambda: rb_shapes(ctx)] + bulk(ctx, "tree", [(6, 5, S, 1000), (4, 500, S, 100), (3, 8000, {"asc", "desc"}, 4), (2, 66000, {"asc", "shuf"}, 4)] + ([] if q else [(3, 60000, S, 10), (7, 20, S, 5000)])))

# ------------------------------------------------------------------ buffer
def buffer_big(ctx, aspects):
    """jobs: a buffer of gigabytes (lengths beyond 2^31, thorough: 2^32)"""
    def one(i, sizes, lines, limit, ln):
        free = [int(l.split()[1]) for l in open("/proc/meminfo") if l.startswith("MemAvailable")][0] >> 10
        if free < 4 * limit:
            ctx.notes.append("a buffer of %d MiB was left out: too little memory" % limit)
            return
        g = ctx.graph("big-%d" % i, "BufferBig", dict(Sizes=sizes, LineSizes=lines, Limit=limit, MaxLen=ln), ["TypeOK"], ["InOrder"])
        ctx.run(ctx.harness("bufferbig", ["bufferbig.cpp"], kind="plain", opt="-O2"), dict(graph=g, aspects=aspects, max=limit, sizes=",".join(map(str, sorted(sizes | lines)))), "big-%d" % i)
    return [lambda: one(0, {2045}, {5}, 2060, 2)] if ctx.quick else [lambda: one(0, {2045}, {5}, 2060, 2), lambda: one(1, {2049}, {2050}, 4100, 2)]

def buffers(ctx, ops, aspects, fields, sources=(0,), modes=(0, 4), big=True, write=2, huge=None):
    q = ctx.quick
    base = dict(aspects=aspects, fields=",".join(fields))
    def exe(): return ctx.harness("buffer", ["buffer.cpp"])
    def consts(bs, mx, ln, w, toks, o): return dict(Tokens=toks, BlockSize=bs, Limit=mx, MaxLen=ln, MaxWrite=w, Modes=set(modes), Sources=set(sources), OpNames=o)
    def graph(i, bs, mx, ln, w, toks, life, extra=()):
        o = set(ops) | set(extra)
        g = ctx.graph("buf-%d-%d-%d-%d-%d" % (bs, mx, ln, w, len(toks)), "Buffer", consts(bs, mx, ln, w, toks, o), ["TypeOK"], ["Faithful", "OnlyTooMuchSpoils", "ClearHeals"])
        ctx.run(exe(), dict(base, graph=g, bs=bs, max=mx, life=life, pairs=60000 if q else 1500000, budget=25 if q else 200), "g%d" % i)
    def trace(i, bs, mx, ln):
        t = os.path.join(ctx.work, "trace-%d.ndjson" % i)
        toks = {1, 2, 3, 4}
        ctx.run(exe(), dict(base, mode="trace", trace=t, bs=bs, max=mx, len=ln, ops=",".join(sorted(ops)), n=3000 if q else 20000, life="init" if i % 2 else "new", seed=ctx.seed * 100 + i), "t%d" % i)
        c = consts(bs, mx, 1000000, 0, {1}, set(ops))
        c["Modes"], c["Sources"] = set(range(8)), {0, 1, 2, 3, 4, 5}
        ctx.trace("t%d" % i, "BufferTrace", c, t, dict(bs=bs, max=mx))
    A = {1, 2, 3, 4}
    w = write
    gs = [(1, 4, 4, w, A, "new"), (32, 97, 4, w, {1, 3, 4}, "init"), (63, 127, 4, w, {1, 2, 3}, "new"), (64, 129, 4, w, {1, 3, 4}, "new"), (1000, 3000, 4, w, {1, 3, 4}, "init"),
          (66000, 200000, 4, w, {1, 3, 4}, "new"), (120, 300, 4, w, {1, 3}, "init")]
    if not q: gs += [(1, 6, 6, w, {1, 3, 4}, "init"), (1, 3, 3, 3, A, "init"), (65, 195, 4, w, A, "new"), (21, 64, 4, w, A, "new"), (16, 128, 9, 1, {1, 3}, "new"), (30000, 64000, 4, 1, {1, 3, 4}, "new")]
    if big: gs += [(50, 64 << 20, 3, 1, {1, 3}, "new", ("FillFdMax",))]
    ts = [(1, 25, 30), (40, 900, 40), (17000, 300000, 30)] if q else [(1, 25, 30), (40, 900, 60), (64, 4096, 60), (7, 64, 40), (1000, 20000, 60), (17000, 300000, 30)]
    # the gigabytes one after the other, beside the rest
    def big_ones():
        for j in buffer_big(ctx, huge): j()
    ctx.par(([big_ones] if huge else []) + algorithm(ctx, "BufferImpl") + [lambda i=i, x=x: graph(i, *x) for i, x in enumerate(gs)] + [lambda i=i, x=x: trace(i, *x) for i, x in enumerate(ts)])
BUF = {"Fill", "FillTooMuch", "FillFd", "ReadLine", "Flush", "ToString", "Clear", "Restart", "Destroy"}
@check
def B01(ctx): buffers(ctx, BUF, "FillTooMuch=,InvFill=,InvFillFd=,InvFillTooMuch=,InvReadLine=,InvFlush=,InvToString=,*=RSM", ["content", "len", "empty"], huge="*=RS")
@check
def B02(ctx): buffers(ctx, BUF, "ReadLine=,Flush=,ToString=,*=RS", ["valid", "len", "empty"], huge="Write=RS,Over=RS,Clear=S,*=")
@check
def B03(ctx): buffers(ctx, {"Fill", "ReadLine", "Flush", "Clear", "Destroy"}, "ReadLine=RS,Flush=RS,*=", ["content", "valid"], modes=range(8), big=False, huge="ReadLine=R,Flush=R,*=")
@check
def B04(ctx): buffers(ctx, {"Fill", "FillFd", "Clear", "ReadLine", "Destroy"}, "FillFd=RSM,InvFillFd=RS,FillFdMax=RS,*=", ["content", "valid"], sources=(0, 1, 2, 3, 4, 5))

# ------------------------------------------------------------------ asynchronous queue
import itertools, random
def workload(*progs, unit=1, free=1): return dict(p=[list(p) for p in progs], unit=unit, free=free)
P_, T_ = ["pop", 0], lambda ms: ["tpop", ms]
C_, X_ = ["count", 0], ["clear", 0]
def push(v): return ["push", v]
def sleep(d): return ["sleep", d]
def numbered(progs):
    """give every push of a non-NULL item its own number"""
    return [[[o[0], 10 * (t + 1) + i + 1] if o == ["push", -1] else list(o) for i, o in enumerate(p)] for t, p in enumerate(progs)]
def programs(ops, n): return [list(x) for k in range(1, n + 1) for x in itertools.product(ops, repeat=k)]
def mixes(ops, shape, limit, rnd, need=lambda ps: True):
    """programs for some threads, up to the order of the threads; shape: longest program per thread"""
    all_ = [programs(ops, n) for n in shape]
    size = 1
    for x in all_: size *= len(x)
    if size <= 4 * limit:
        c, seen = [], set()
        for ps in itertools.product(*all_):
            k = tuple(sorted(map(repr, ps)))
            if k not in seen and need(ps): seen.add(k); c.append(ps)
        rnd.shuffle(c)
        return [numbered(ps) for ps in c[:limit]]
    c, seen, tries = [], set(), 0
    while len(c) < limit and tries < 50 * limit:
        tries += 1
        ps = tuple(rnd.choice(x) for x in all_)
        k = tuple(sorted(map(repr, ps)))
        if k not in seen and need(ps): seen.add(k); c.append(ps)
    return [numbered(ps) for ps in c]
N_ = ["push", -1]
def has(*ks): return lambda ps: all(any(o[0] in k for p in ps for o in p) for k in ks)

def asq(ctx, tag, ws, judge, strict=True, shards=8, **args):
    """all schedules (within the bounds) of the workloads on the real code, every event followed on AsyncApi"""
    nt = max(len(w["p"]) for w in ws)
    for w in ws: w["p"] = w["p"] + [[] for _ in range(nt - len(w["p"]))]
    shards = min(shards, len(ws))
    cfg = ctx.cfg(constants=dict(Threads=set(range(1, nt + 1)), Strict=strict), invariants=["TypeOK", "OnePlace"] + (["NeverAsleep"] if strict else []),
                  properties=["Fifo"], constraints=["EmitInit"], action=["Emit"])
    def one(k):
        part = ws[k::shards]
        wf = os.path.join(ctx.work, "w-%s-%d.json" % (tag, k))
        json.dump(part, open(wf, "w"))
        rc, tail, outf = ctx.tlc("%s-%d" % (tag, k), "AsyncApi", cfg, env=dict(WORKLOADS=wf), heap="2g")
        if "No error has been found" not in tail: raise CheckError("TLC on AsyncApi (%s):\n%s" % (tag, ctx.errors(tail)))
        gen, dist = ctx.counts(tail)
        with ctx.lock:
            ctx.states += dist; ctx.transitions += gen
            ctx.runs.append(dict(tlc="AsyncApi", workloads=len(part), threads=nt, strict=strict, distinct_states=dist, states_generated=gen))
        exe = ctx.harness("asq", ["asq.cpp"], kind="coop", opt="-O2")
        ctx.run(exe, dict(graph=outf, workloads=wf, judge=judge, strict=int(strict), **args), "%s-%d" % (tag, k))
        os.unlink(outf)
    return [lambda k=k: one(k) for k in range(shards)]

def asq_rnd(ctx): return random.Random(ctx.seed * 1000003 + hash_str(ctx.prop))
def hash_str(s): return sum(ord(c) * 31 ** i for i, c in enumerate(s)) % 1000003

def impl_model(ctx, design, P, C, T, M, expect=None):
    """the algorithm itself (AsyncImpl), for threads that never stop; broken designs must be found out"""
    cfg = ctx.cfg(constants=dict(Producers=P, Consumers=C, Timed=T, MaxQ=M, Design=design), invariants=["TypeOK", "Mutex", "NoFailure"] + (["Counter"] if design == "code" else []),
                  properties=["FailsEmpty", "Served", "PushEnds"])
    return lambda: ctx.model("impl-%s-%d%d%d" % (design, len(P), len(C), M), "AsyncImpl", cfg, workers=2 if ctx.quick else 6, expect=expect)

NP = ["push", 0]
@check
def A01(ctx):
    q, r = ctx.quick, asq_rnd(ctx)
    ops = [N_, NP, P_, T_(10), C_, X_]
    need = lambda ps: has({"push", "clear", "count"})(ps)
    def W(shape, n, ops=ops): return [workload(*ps) for ps in mixes(ops, shape, n, r, need)]
    k = 1 if q else 12
    ctx.par(long_containers(ctx, "async", "*=RS") + asq(ctx, "sync", W((3, 3), 150 * k) + W((2, 2, 2), 200 * k) + W((1, 1, 1, 1), 126) + W((2, 1, 1, 1), 40 * k) + W((4, 4), 20 * k, [N_, P_, T_(10), C_]),
                "R", strict=False, cap=12000 if q else 300000, random=2000 if q else 20000, preempt=3 if q else 5, spurious=1, budget=14 if q else 150)
            + asq(ctx, "mem", W((1, 1), 21) + W((2, 1), 60 * k) + W((1, 1, 1), 56) + W((2, 2), 40 * k), "R", strict=False, mem=1,
                  cap=12000 if q else 300000, random=2000 if q else 20000, preempt=2 if q else 3, spurious=1, budget=14 if q else 150))
@check
def A02(ctx):
    q, r = ctx.quick, asq_rnd(ctx)
    need = has({"push", "clear", "count"}, {"pop", "tpop"})
    def W(shape, n, ops): return [workload(*ps) for ps in mixes(ops, shape, n, r, need)]
    k = 1 if q else 12
    A, B, C = [N_, P_, T_(10), X_, C_], [N_, P_, T_(10)], [N_, P_]
    fixed = [[[P_], [P_], [N_, N_]], [[P_], [P_], [N_], [N_]], [[P_, P_], [P_], [N_, N_], [N_]], [[T_(10)], [P_], [N_]], [[P_, N_], [P_, N_], [N_]], [[P_], [P_], [P_], [N_, N_, N_]],
             [[P_], [T_(10)], [sleep(10), N_]], [[P_], [P_], [sleep(5), N_], [sleep(5), X_, N_]], [[T_(10)], [T_(10)], [sleep(10), N_, N_]], [[T_(10), P_], [sleep(10), N_, N_]]]
    ms = [impl_model(ctx, "code", {1, 2}, {3, 4}, {4}, 2), impl_model(ctx, "code", {1}, {3, 4, 5}, {5}, 3)] if q else [
          impl_model(ctx, "code", {1, 2}, {3, 4, 5}, {4}, 3), impl_model(ctx, "code", {1, 2}, {3, 4, 5, 6}, {5, 6}, 3), impl_model(ctx, "code", {1, 2, 3}, {4, 5, 6}, {6}, 4)]
    ms += [impl_model(ctx, "edge", {1, 2}, {3, 4}, set(), 2, "Temporal property Served was violated"), impl_model(ctx, "account", {1}, {3, 4}, set(), 2, "Temporal property Served was violated"),
           impl_model(ctx, "once", {1}, {3, 4}, {4}, 2, "Invariant NoFailure is violated")]
    ctx.par(crowd(ctx) + ms + asq(ctx, "rest", [workload(*numbered(ps)) for ps in fixed] + W((3, 3), 100 * k, A) + W((2, 2, 2), 150 * k, A) + W((1, 1, 1, 1), 70, A) + W((2, 2, 2, 1), 60 * k, B) + W((1, 1, 1, 1, 1), 20, B) + W((2, 2, 2, 2), 20 * k, C),
                "W", cap=15000 if q else 400000, random=2000 if q else 20000, preempt=3 if q else 5, spurious=2, budget=16 if q else 200))
@check
def A03(ctx):
    q, r = ctx.quick, asq_rnd(ctx)
    # one thread: many time-outs, many times of day
    vals = [0, 1, 2, 3, 10, 100, 499, 500, 501, 998, 999, 1000, 1001, 1500, 1999, 2000, 2001, 59999, 60000, 60001, 3599999, 86400000, 1000000000, 2147483, 2147484, 2147483646, 2147483647]
    vals += [r.randrange(1 << r.randrange(1, 31)) for _ in range(40 if q else 400)] + [1000 * r.randrange(1, 5000) + r.randrange(1000) for _ in range(20 if q else 200)]
    one = [workload([T_(v)]) for v in sorted(set(vals))] + [workload([T_(65535)], unit=65537), workload([T_(32768)], unit=65536), workload([T_(4294967)], unit=1000), workload([T_(2147483647)], unit=2)]
    one += [workload([push(11), T_(v), T_(v)]) for v in (0, 7, 1000, 86400000)]
    offs = [0, 1, 499999, 500000, 999, 1000, 998999, 999000, 999001, 999999] + [r.randrange(1000000) for _ in range(5 if q else 50)]
    # time-outs, other consumers, items which come in time, too late and just in time
    S = lambda: r.choice([1, 5, 10, 10, 15, 20, 999, 1000, 1001])
    def mix(n):
        out = []
        while len(out) < n:
            ps = []
            for t in range(r.choice([1, 2, 2, 3, 3])):
                p = []
                for _ in range(r.choice([1, 1, 2])):
                    p.append(r.choice([T_(S()), T_(S()), T_(0), N_, P_]))
                if r.random() < .5: p.insert(0, sleep(S()))
                ps.append(p)
            ps.append([sleep(S()), N_] if r.random() < .7 else [sleep(S()), N_, sleep(S()), N_])
            if any(o[0] == "tpop" for p in ps for o in p): out.append(workload(*numbered(ps)))
        return out
    fixed = [[[T_(20)], [sleep(10), N_], [P_]], [[T_(20)], [T_(20)], [sleep(10), N_]], [[T_(10)], [sleep(10), N_]], [[T_(20)], [sleep(15), X_]], [[T_(1000)], [T_(1000)], [sleep(500), N_], [sleep(999), N_]],
             [[T_(20)], [sleep(10), N_], [sleep(10), P_]], [[T_(20), T_(20)], [sleep(10), N_], [sleep(30), N_]], [[T_(30)], [sleep(10), N_, sleep(10), N_], [P_], [P_]]]
    ms = [impl_model(ctx, "code", {1}, {3, 4}, {3, 4}, 2), impl_model(ctx, "nolook", {1}, {3, 4}, {4}, 2, "Action property FailsEmpty is violated")]
    ctx.par(crowd(ctx, "ArriveTimed=RS,Elapse=RS,Push=RS,Rush=RS,*=") + ms + asq(ctx, "one", one, "T", offsets=",".join(map(str, offs)), cap=1000, spurious=3, budget=60)
            + asq(ctx, "mix", [workload(*numbered(ps)) for ps in fixed] + mix(200 if q else 3000), "T", offsets="0,999700", cap=4000 if q else 60000, random=1000 if q else 5000, preempt=2, spurious=2, budget=14 if q else 200))
@check
def A04(ctx):
    q, r = ctx.quick, asq_rnd(ctx)
    ops = [N_, P_, T_(10), C_, X_]
    def W(shape, n): return [workload(*ps) for ps in mixes(ops, shape, n, r)]
    k = 1 if q else 10
    ctx.par(asq(ctx, "mem", W((1, 1), 15) + W((2, 1), 80) + W((1, 1, 1), 35) + W((2, 2), 60 * k), "X", strict=False, mem=1, allcfg=1, cap=1500 if q else 60000, random=300 if q else 3000, preempt=2 if q else 3, spurious=1, budget=16 if q else 200)
            + asq(ctx, "sync", W((2, 2, 2), 150 * k) + W((3, 3), 60 * k) + W((1, 1, 1, 1), 70), "X", strict=False, cap=8000 if q else 200000, random=1000 if q else 10000, preempt=3, spurious=1, budget=12 if q else 150))
@check
def A05(ctx):
    q, r = ctx.quick, asq_rnd(ctx)
    ops = [N_, NP, P_, T_(10), X_]
    def W(shape, n, **k): return [workload(*ps, **k) for ps in mixes(ops, shape, n, r, has({"push"}))]
    k = 1 if q else 10
    ctx.par(long_containers(ctx, "async", "*=FM") + asq(ctx, "free", W((3, 3), 120 * k) + W((2, 2, 2), 120 * k) + W((1, 1, 1, 1), 70) + W((4,), 60) + W((2, 2), 40, free=0), "F", strict=False, allcfg=1, cap=1500 if q else 60000, random=500 if q else 5000, preempt=3, spurious=1, budget=14 if q else 200)
            + asq(ctx, "mem", W((1, 1), 15) + W((2, 1), 60 * k), "F", strict=False, mem=1, allcfg=1, cap=1500 if q else 60000, random=300, preempt=2, spurious=0, budget=12 if q else 150))

def crowd(ctx, aspects="*=RS"):
    q = ctx.quick
    def one(i, sizes, wait, items):
        g = ctx.graph("crowd-%d" % i, "Crowd", dict(Sizes=sizes, MaxWait=wait, MaxItems=items, OpNames={"Arrive", "ArriveTimed", "Push", "Rush", "Clear", "Elapse"}), ["TypeOK", "NeverAsleep"])
        exe = ctx.harness("crowd", ["asq.cpp"], ["-DCROWD"], kind="coop", opt="-O2")
        ctx.run(exe, dict(graph=g, aspects=aspects, budget=8 if q else 60, pairs=20000 if q else 2000000), "crowd-%d" % i)
    return [lambda i=i, m=m: one(i, *m) for i, m in enumerate([({1, 128, 255}, 300, 256), ({1, 2, 3}, 7, 4)])]

# ------------------------------------------------------------------ compare and hash functions
@check
def C01(ctx):
    q = ctx.quick
    def exe(): return ctx.harness("compare", ["compare.cpp"])
    # "ambiguous": one token is the beginning of another, so that different token sequences may be the same string - not used here
    vs = [dict(tokens=t, head=h, la=la, lb=lb) for (t, h, la, lb) in ([("plain", 0, 0, 0), ("high", 0, 0, 1), ("ctl", 7, 3, 3), ("case", 15, 0, 5), ("words", 0, 2, 7)]
          + ([] if q else [("high", h, la, lb) for h in (1, 3, 6, 8, 16, 31, 62, 250) for la, lb in ((0, 0), (1, 6), (4, 3))]))]
    def walk(k):
        g = ctx.graph("strings", "Strings", dict(Tokens={1, 2, 3}, MaxLen=3 if q else 4), ["TypeOK"], ["StayDifferent"])
        ctx.run(exe(), dict(vs[k], graph=g, budget=40), "w%d" % k)
    def table(k, mode, **args):
        t = os.path.join(ctx.work, "table-%d.ndjson" % k)
        a = dict(mode=mode, trace=t, seed=ctx.seed * 100 + k, **args)
        ctx.run(exe(), a, "t%d" % k)
        ctx.trace("t%d" % k, "Order", dict(Addresses=mode == "pointers"), t, args)
        ctx.states += 0
    jobs = [lambda k=k: walk(k) for k in range(len(vs))]
    jobs += [lambda: table(0, "strings", part="bytes"), lambda: table(1, "pointers", n=60 if q else 300)]
    jobs += [lambda k=k: table(2 + k, "strings", part="random", n=350 if q else 900) for k in range(2 if q else 8)]
    ctx.par(jobs)
# ------------------------------------------------------------------ several containers
KINDS = dict(lists="list,slist,queue", twice="list,list", singles="slist,slist", lifo="stack,queue,list", trees="rb,rb", mixed="list,rb,slist", tables="ht,ht", arrays="aa,aa", maps="rb,ht,aa",
             all="list,slist,stack,queue,rb,rb,ht,ht,aa")
@check
def X01(ctx):
    q = ctx.quick
    ops = {"Add", "Pop", "RemoveAll", "Has", "Put", "Del", "Look", "Hold", "Swap", "Clear", "Renew", "ClearInto", "IterInit", "IterReuse", "IterNext", "End"}
    def exe(): return ctx.harness("share", ["share.cpp"])
    def consts(cf, t, k, ln, s): return dict(Config=cf, NTokens=t, NKeys=k, MaxLen=ln, NSlots=s, OpNames=ops)
    def graph(i, cf, t, k, ln, s, vs):
        g = ctx.graph("share-%d" % i, "Share", consts(cf, t, k, ln, s), ["TypeOK"], ["Independent", "ItersGoOn", "PairGoesOn", "Conservation"])
        for j, v in enumerate(vs): ctx.run(exe(), dict(v, graph=g, kinds=KINDS[cf], keys=k, pairs=40000 if q else 600000, budget=25 if q else 100, seed=ctx.seed * 100 + i * 10 + j), "g%d-%d" % (i, j))
    P = [dict(pool="mp", mix=0), dict(pool="mp", mix=1)]
    F = [dict(pool="mp", mix=0, fill=20), dict(pool="none", mix=1, fill=5)]
    if q: gs = [("lists", 1, 0, 2, 0, P), ("twice", 2, 0, 3, 0, P), ("singles", 2, 0, 3, 0, P), ("lifo", 1, 0, 3, 0, P), ("trees", 1, 3, 0, 1, P + F[:1]), ("mixed", 1, 2, 3, 1, P), ("tables", 1, 2, 0, 2, P + F[:1]), ("arrays", 1, 2, 0, 2, P + F[:1]), ("maps", 1, 2, 0, 1, F)]
    else: gs = [("lists", 2, 0, 3, 0, P), ("twice", 2, 0, 4, 0, P), ("singles", 2, 0, 4, 0, P), ("lifo", 2, 0, 3, 0, P), ("trees", 1, 3, 0, 2, P + F), ("mixed", 1, 3, 3, 1, P + F), ("tables", 1, 3, 0, 1, P + F), ("arrays", 1, 3, 0, 1, P + F), ("maps", 2, 2, 0, 1, P + F), ("trees", 1, 5, 0, 1, P)]
    def trace(i, cf, keys, ln, fill):
        t = os.path.join(ctx.work, "trace-%d.ndjson" % i)
        v = dict(kinds=KINDS[cf], keys=keys, pool="mp", mix=i % 2, fill=fill)
        ctx.run(exe(), dict(v, mode="trace", trace=t, n=3000 if q else 15000, len=ln, seed=ctx.seed * 100 + i), "t%d" % i)
        ctx.trace("t%d" % i, "ShareTrace", consts(cf, 0, keys, 1000000, 2), t, v, properties=["Independent", "ItersGoOn", "PairGoesOn"])
    ts = [("all", 6, 20, 0), ("trees", 20, 0, 0), ("maps", 12, 0, 4)] + ([] if q else [("all", 12, 30, 6), ("mixed", 15, 30, 0), ("tables", 30, 0, 0), ("arrays", 30, 0, 0), ("lists", 1, 30, 0)])
    ctx.par([lambda i=i, x=x: trace(i, *x) for i, x in enumerate(ts)] + [lambda i=i, x=x: graph(i, *x) for i, x in enumerate(gs)])

# ------------------------------------------------------------------ memory refused
@check
def X02(ctx):
    q = ctx.quick
    def exe(): return ctx.harness("oom", ["oom.cpp"], kind="oom")
    def model():
        ctx.model("oom", "Oom", ctx.cfg(invariants=["TypeOK", "OnlyAbort"], properties=["NoWayBack", "Ends"]))
    def run(k):
        t = os.path.join(ctx.work, "oom-%d.ndjson" % k)
        a = dict(trace=t, seed=ctx.seed * 100 + k, budget=9 if q else 400)
        ctx.run(exe(), a, "o%d" % k, timeout=800)
        ctx.trace("o%d" % k, "OomTrace", {}, t, dict(seed=a["seed"]), properties=["NoWayBack"])
    ctx.par([model] + [lambda k=k: run(k) for k in range(8)])

# ------------------------------------------------------------------ memory over time
@check
def X03(ctx):
    q = ctx.quick
    def exe(): return ctx.harness("steady", ["steady.cpp"])
    def design(d, expect=None):
        c = dict(Warm=8, Slack=3, Design=d, MaxLive=4, MaxMem=20)
        ctx.model("steady-" + d, "Steady", ctx.cfg(constants=c, view="View", invariants=["TypeOK", "Quiet", "Bounded"], constraints=["Small"]), expect=expect)
    def designs():
        for d in ("reuse", "return", "chunks", "double"): design(d)
        for d in ("leak", "stash"): design(d, "Invariant Quiet is violated")
    def one(i, kind, pool):
        t = os.path.join(ctx.work, "steady-%d.ndjson" % i)
        # the observer forgives Slack bytes and what the first Warm operations after the largest size have cost
        warm = 3000 if q else 6000
        v = dict(kind=kind, pool=pool, runs=6 if q else 20, ops=30000 if q else 120000, seed=ctx.seed * 100 + i)
        ctx.run(exe(), dict(v, trace=t), "s%d" % i)
        ctx.trace("s%d" % i, "SteadyTrace", dict(Warm=warm, Slack=4096, Design="reuse", MaxLive=1, MaxMem=1), t, v)
    ks = [(k, p) for k in ("list", "slist", "stack", "queue", "async", "rb") for p in ("none", "mp")] + [(k, "none") for k in ("ht", "aa", "pool", "buffer")] + [("shared", "mp"), ("shared", "none")]
    ctx.par([designs] + [lambda i=i, k=k: one(i, *k) for i, k in enumerate(ks)])

# ------------------------------------------------------------------ separate objects, separate threads
@check
def X04(ctx):
    q = ctx.quick
    def exe(): return ctx.harness("apart", ["apart.cpp"], kind="apart", extra=["-rdynamic", "-ldl"])
    def design(d, inv, expect=None):
        ctx.model("apart-%s-%s" % (d, inv[0]), "Apart", ctx.cfg(constants=dict(T=2, Design=d, Calls=2 if q else 3), invariants=inv), expect=expect)
    def designs():
        for d in ("own", "const", "locked"): design(d, ["NoRace", "Alone"])
        for d in ("cache", "count", "half"): design(d, ["NoRace"], "Invariant NoRace is violated")
        for d in ("cache", "half"): design(d, ["Alone"], "Invariant Alone is violated")
    def one(i):
        t = os.path.join(ctx.work, "apart-%d.ndjson" % i)
        v = dict(runs=5 if q else 15, calls=500 if q else 1500, seed=ctx.seed * 100 + i)
        ctx.run(exe(), dict(v, trace=t), "a%d" % i)
        ctx.trace("a%d" % i, "ApartTrace", dict(T=3, Design="own", Calls=1), t, v)
    ctx.par([designs] + [lambda i=i: one(i) for i in range(6 if q else 16)])

# ------------------------------------------------------------------ texts for MANIFEST.json
_T = "TLA+ specification checked with TLC; TLC's transitions replayed on the real code; recorded executions validated by TLC"
NOTES = {
 "L": (_T, "Every (state, operation) pair of the bounded model and a large share of consecutive operation pairs are executed on the real code (address sanitizer) for each pool/life-cycle variant and compared with the specification; random long histories over larger domains are recorded and validated by TLC. Bounded list lengths; trusts TLC, clang, ASan and the harness's projection."),
}
NOTES["S"] = NOTES["L"]
_M = "Bounded map: every (state, operation) pair of the bounded model and a large share of consecutive operation pairs (keys, equal copies, values, installed free functions, fillers that put the size next to the resize points) run on the real code (address sanitizer) in every life-cycle/hash/allocator variant and are compared with the specification; random long histories are recorded and validated by TLC. Trusts TLC, clang, ASan and the harness's projection."
for _k in "HRD": NOTES[_k] = (_T, _M)
NOTES["K"] = (_T, "Every (state, operation) pair of the bounded stack/queue model and most consecutive operation pairs run on the real code (address sanitizer) on heap, custom pool and MemoryPool, created by new or init; the order of complete histories is checked on the specification; long random histories are recorded and validated by TLC. Trusts TLC, clang, ASan and the harness.")
NOTES["P"] = (_T, "Every (state, operation) pair of the bounded pool model (which addresses are live, what was written into them) runs on the real MemoryPool for several item and block sizes, so that item and pointer blocks are created, filled, emptied and released; every byte of every live item is compared after every call; requested memory is metered. Long random alloc/free/write histories are recorded and validated by TLC. Trusts TLC, clang, ASan and the harness.")
NOTES["R02"] = (_T + "; algorithm modelled (RBImpl) and shown by TLC to implement the abstract specification", "Every red-black tree the code can build with up to 11 (thorough 14) nodes is visited and every operation performed on it; TLC validates each of these steps of the real tree (keys, colours, black heights, comparisons). Random trees up to 300 nodes validated the same way, large trees (24000 / 180000 keys) checked for the cost bound. Trusts TLC, the harness's reading of the public node structure.")
_B = "Large maps built, replaced, drained and searched block by block in all orders of the bounded model on the real code; the number of distinct stored keys compared by every measured call is compared with the bound the specification computes. Bounded sizes; trusts TLC and the harness."
NOTES["H05"] = (_T, _B)
NOTES["D02"] = (_T, _M + " " + _B)
NOTES["B"] = (_T, "Every (state, operation) pair of the bounded buffer model (contents of up to 4 to 9 tokens, blocks of 1 to 30000 bytes around the growth steps, maximum sizes reached exactly and exceeded by one byte, lengths up to SIZE_MAX, destinations of every relevant length, pipes, files and failing descriptors) runs on the real code under the address sanitizer; long random histories are recorded and validated by TLC. Trusts TLC, clang, ASan and the harness.")
NOTES["A"] = ("TLA+ specification of what threads may observe (AsyncApi), explored by TLC; the real code runs under a scheduler that owns every choice, and every event of every schedule is followed on TLC's transitions",
  "The library's code is compiled with access callbacks, its thread, clock and heap calls are bound to a deterministic scheduler with virtual time; all schedules of hundreds of small workloads (2 to 5 threads, 1 to 8 calls, preemption bound 2 to 5, wake-up choice, spurious wake-ups, time-outs) are run, and more at random; each history is decided by the specification's transitions (TLC). Bounded workloads and preemptions; trusts TLC, clang's instrumentation and the scheduler's model of POSIX threads.")
NOTES["X01"] = (_T, "Two or three containers of the same and of different types sharing one MemoryPool: every (state, operation) pair of the bounded model of all of them together (contents, iterators, a free function which feeds another container) and a share of consecutive operation pairs run on the real code (address sanitizer, nodes overwritten when given back); long random histories over up to nine containers are recorded and validated by TLC. Trusts TLC, clang, ASan and the harness.")
NOTES["X02"] = ("TLA+ specification of a process that is refused memory (Oom); recorded outcomes of library calls with refused requests validated by TLC",
 "In random histories over all containers, pools and life cycles every request for memory of every call is refused in a child process, once and together with all later ones; the events inside the call and the end of the process are recorded and validated by TLC. Random histories; trusts TLC, the renaming of the heap functions in the library's object files.")
NOTES["X03"] = ("TLA+ specification of an observer of memory (Steady), checked by TLC against good and bad designs of containers; recorded use of the real containers judged by TLC",
 "Every kind of container, with and without a MemoryPool, is used for tens of thousands of random operations (growing, draining, hovering, replacing, searching, iterating, clearing) in several runs with largest sizes from 1 to about 250; the memory requested by the library is metered and TLC decides from the record whether it stayed within twice what the largest content had cost plus 4 KiB. A loss of less than that within a run is not seen here. Trusts TLC, the sanitizer's allocation hooks.")
NOTES["X04"] = ("TLA+ specification of an observer of footprints with vector clocks (Apart), checked by TLC against good and bad designs; recorded footprints of the real calls judged by TLC",
 "Three threads use objects of their own, of the same kinds (every container, with and without pools, pools and buffers), call by call in random order. The real code is compiled with access callbacks: TLC decides from the recorded footprints (memory read and written, mutexes and atomics taken) whether any two calls of different threads conflict without being ordered. As such calls commute, this holds for all schedules of the recorded calls, not only the recorded one. What libc does inside is not seen, except allocation and mutexes. Trusts TLC, clang's instrumentation.")
NOTES["C"] = ("TLA+ specification checked with TLC; TLC's transitions replayed on the real code; tables of the real functions' answers for all pairs decided by TLC",
 "All pairs of strings up to 3 (thorough: 4) tokens over several alphabets, common prefixes and alignments; all pairs of a few hundred strings (all one-byte strings, near copies, long ones) and of pointers around every power of two are recorded from the code, and TLC decides that the comparison is a total order whose equality is the equality of keys, and that hashes are functions of the key.")
