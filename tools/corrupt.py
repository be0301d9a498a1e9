#!/usr/bin/env python3
"""Binding demonstration: corrupt one recorded value at a time and see whether TLC rejects the trace.
usage: corrupt.py Cnn [n_per_field]   -> per (action, field): rejected/corrupted, fields never rejected first.
Runs the property's check once (unmodified traces must be accepted), then validates mutated copies."""
import collections, json, os, random, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib")); sys.dont_write_bytecode = True
import vf, checks
pid = sys.argv[1]; per = int(sys.argv[2]) if len(sys.argv) > 2 else 12
rnd = random.Random(5)

def leaves(v, path=()):
    """every scalar and every list, with its path; list positions are generalised in the name"""
    if isinstance(v, dict):
        for k in sorted(v): yield from leaves(v[k], path + (k,))
    elif isinstance(v, list):
        yield path
        for i, x in enumerate(v): yield from leaves(x, path + (i,))
    else: yield path
def name(p): return ".".join("[]" if isinstance(x, int) else x for x in p)
def get(v, p):
    for x in p: v = v[x]
    return v
def put(v, p, x):
    for q in p[:-1]: v = v[q]
    v[p[-1]] = x
def corrupt(v):
    if isinstance(v, bool): return not v
    if isinstance(v, int): return v + rnd.choice([1, -1, 2])
    if isinstance(v, str): return {"ok": "err", "err": "ok"}.get(v, v + "x")
    if isinstance(v, list):
        if not v: return None
        w = list(v)
        del w[rnd.randrange(len(w))]
        return w
    return None

class Probe(vf.Check):
    def validate(self, module, tracefile, **kw):
        st = vf.Check.validate(self, module, tracefile, **kw)
        trs = [json.loads(l) for l in open(tracefile)]
        rnd.shuffle(trs)
        where = collections.defaultdict(list)
        for ti, t in enumerate(trs):
            for si, s in enumerate(t["steps"]):
                for p in leaves(s):
                    if p and p != ("op",):
                        k = (s["op"], name(p))
                        if len(where[k]) < per * 4 or rnd.random() < .02: where[k].append((ti, si, p))
        out, meta = [], {}
        for k in sorted(where):
            c = where[k]; rnd.shuffle(c); n = 0
            for ti, si, p in c:
                if n == per: break
                x = corrupt(get(trs[ti]["steps"][si], p))
                if x is None: continue
                t = json.loads(json.dumps(trs[ti])); put(t["steps"][si], p, x)
                t["id"] = "z%d" % len(out); t["steps"] = t["steps"][:si + 3]
                meta[t["id"]] = k; out.append(t); n += 1
        res = collections.defaultdict(lambda: [0, 0])
        todo = out
        while todo:   # a corrupted value TLC cannot evaluate stops the run there: count it, go on with the others
            f = self.path("corrupted.ndjson")
            with open(f, "w") as g: g.writelines(json.dumps(t) + "\n" for t in todo)
            o, s2 = vf.tlc(module, (kw.get("cfg") or module + ".cfg"), self.scratch, env=dict({"TRACE_FILE": f}, **(kw.get("env") or {})),
                           args=["-deadlock"], timeout=900, workers=1, ok_codes=tuple(range(256)))
            bad = {d["id"] for d in vf.printed(o, "FAIL")}
            if s2["rc"] == 0:
                for t in todo:
                    res[meta[t["id"]]][1] += 1; res[meta[t["id"]]][0] += t["id"] in bad
                break
            m = re.findall(r"/\\ xT = (\d+)", o)
            if not m: print(o[-1500:]); break
            i = int(m[-1]) - 1
            res[meta[todo[i]["id"]]][1] += 1; res[meta[todo[i]["id"]]][0] += 1
            k = meta[todo[i]["id"]]     # count it, and leave out the other corruptions of this field
            todo = [t for t in todo if meta[t["id"]] != k]
        tot = sum(v[1] for v in res.values()); hit = sum(v[0] for v in res.values())
        print("%s %s: %d of %d corruptions rejected, %d of %d fields rejected at least once" %
              (pid, module, hit, tot, sum(v[0] > 0 for v in res.values()), len(res)))
        for k, v in sorted(res.items(), key=lambda kv: (kv[1][0] / kv[1][1], kv[0])):
            if v[0] < v[1]: print("   %-40s %d/%d" % (" ".join(k), v[0], v[1]))
        return st
c = Probe(pid, "quick", int(os.environ.get("VERIF_SEED", "1")))
checks.CHECKS[pid](c)
print("unmodified traces rejected:", len(c.fails), c.fails[:2])
import shutil; shutil.rmtree(c.scratch, ignore_errors=True)
