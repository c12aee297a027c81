#!/usr/bin/env python3
"""Does the binding bite?  python3 tools/selftest.py ID [number of alterations per trace and graph]

Runs the check of property ID against the unchanged tree; each recorded trace that TLC accepts and each transition graph
that the code follows is then altered in one place (a result, a freed object, an observed value; in a graph: the result, the
freed objects or the successor of one transition) and has to be refused. Prints what was not. Used by no registered check."""
import copy, json, os, random, sys, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vp, checks

prop, N = sys.argv[1], int(sys.argv[2]) if len(sys.argv) > 2 else 4
rnd = random.Random(7)
lock = threading.Lock()
tally = {"trace": [0, 0], "graph": [0, 0]}
kept = []

def leaves(v, path=()):
    if isinstance(v, bool) or isinstance(v, int): yield path
    elif isinstance(v, dict):
        for k in v: yield from leaves(v[k], path + (k,))
    elif isinstance(v, list):
        for i in range(len(v)): yield from leaves(v[i], path + (i,))
def get(v, p):
    for k in p: v = v[k]
    return v
def put(v, p, x):
    for k in p[:-1]: v = v[k]
    v[p[-1]] = x
def other(x): return (not x) if isinstance(x, bool) else (1 - x if x in (0, 1) and rnd.random() < .5 else x + rnd.choice([-1, 1]))

def judged(aspects, op):
    a = dict(x.split("=") for x in str(aspects).split(","))
    return a.get(op, a.get("*", ""))

def note(kind, refused, what):
    with lock:
        tally[kind][0] += 1
        if refused: tally[kind][1] += 1
        else: kept.append((kind, what))

class Ctx(vp.Ctx):
    def trace(self, tag, module, constants, tracef, variant, **kw):
        super().trace(tag, module, constants, tracef, variant, **kw)
        lines = open(tracef).read().split("\n")
        cand = [i for i, l in enumerate(lines) if l]
        for n in range(N):
            for _ in range(200):
                i = rnd.choice(cand)
                e = json.loads(lines[i])
                ps = [p for p in leaves(e) if p[0] in ("r", "f", "obs") and {"r": e.get("jr", True), "f": e.get("jf", True), "obs": e.get("js", True)}[p[0]]]
                if ps: break
            else: return
            p = rnd.choice(ps)
            d = copy.deepcopy(e)
            put(d, p, other(get(e, p)))
            f = "%s-alt%d" % (tracef, n)
            with open(f, "w") as o: o.write("\n".join(lines[:i] + [json.dumps(d, separators=(",", ":"))] + lines[i + 1:]))
            try: super().trace("%s-alt%d" % (tag, n), module, constants, f, variant, **kw); ok = False
            except (vp.Violation, vp.CheckError): ok = True
            note("trace", ok, "%s line %d %s: %s -> %s in %s" % (module, i + 1, p, get(e, p), get(d, p), lines[i][:300]))
            os.unlink(f)
    def run(self, exe, args, tag, **kw):
        r = super().run(exe, args, tag, **kw)
        g = args.get("graph")
        if not g: return r
        lines = open(g).read().split("\n")
        idx = []
        for i, l in enumerate(lines):
            if l.startswith('"{') and '\\"t\\":' in l: idx.append(i)
        if not idx: return r
        for n in range(N):
            for _ in range(200):
                i = rnd.choice(idx)
                e = json.loads(json.loads(lines[i]))
                if not isinstance(e.get("o"), dict): return r
                d = copy.deepcopy(e)
                j = json.loads(json.loads(lines[rnd.choice(idx)]))
                asp = judged(args.get("aspects", "*=RSFM"), e["o"]["name"])
                ps = [p for f, k in (("res", "R"), ("freed", "F")) if k in asp for p in leaves(e["o"].get(f, []), ("o", f))]
                if rnd.random() < .5 and ps:
                    p = rnd.choice(ps); put(d, p, other(get(e, p))); break
                if "S" in asp and j["o"]["name"] == e["o"]["name"] and j["t"]["obs"] != e["t"]["obs"]:
                    p = ("t",); d["t"] = j["t"]; break
            else: return r
            f = "%s-alt-%s-%d" % (g, tag, n)
            same = [k for k in idx if lines[k] == lines[i]]
            with open(f, "w") as o: o.write("\n".join(json.dumps(json.dumps(d, separators=(",", ":"))) if k in same else l for k, l in enumerate(lines)))
            a = dict(args, graph=f)
            try: super().run(exe, a, "%s-alt%d" % (tag, n), **kw); ok = False
            except (vp.Violation, vp.CheckError): ok = True
            note("graph", ok, "%s %s: %s %s -> %s" % (tag, p, json.dumps(e["o"]), str(get(e, p))[:200], str(get(d, p))[:200]))
            os.unlink(f)
        return r

ctx = Ctx(prop, "quick", 1)
try: checks.CHECKS[prop](ctx)
finally: ctx.cleanup()
print("%s: altered traces refused %d of %d, altered graphs refused %d of %d" % (prop, tally["trace"][1], tally["trace"][0], tally["graph"][1], tally["graph"][0]))
for k in kept: print("  accepted:", *k)
