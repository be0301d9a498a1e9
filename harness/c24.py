import os, random as pyrandom, sys
import numpy as np
from vlib import *
NS = 8
shard = fork_shards(NS)
os.mkdir("s%d" % shard)  # the experiments save their splits in the current directory
os.chdir("s%d" % shard)
from alipy.index import IndexCollection, MultiLabelIndexCollection
from alipy.utils.misc import randperm
from alipy.data_manipulate import split, split_features, split_multi_label
from alipy.experiment import AlExperiment
from alipy.toolbox import ToolBox
from alipy.oracle import Oracle, Oracles
from alipy.query_strategy.query_labels import QueryInstanceRandom, QueryRandom
from alipy.query_strategy.query_features import QueryFeatureRandom
from alipy.query_strategy.multi_label import QueryMultiLabelRandom
from alipy.query_strategy.cost_sensitive import QueryCostSensitiveRandom
from alipy.query_strategy.noisy_oracles import QueryNoisyOraclesRandom
r = random.Random("%d-c24-%d" % (SEED, shard)); w = Writer()
np.random.seed(r.randrange(2 ** 31)); pyrandom.seed(r.randrange(2 ** 31))

def ints(n): return r.sample(range(1, 40), n) if r.random() < .8 else r.sample(range(-9, 9), n)
def cells(n):
    d = r.choice([1, 2, 3]); return r.sample([(i, j) for i in range(n + 1) for j in range(d)], n), d
def holder(v, kinds=("list", "arr", "coll", "tuple")):
    k = r.choice(kinds)
    return dict(list=lambda: list(v), arr=lambda: np.array(v), coll=lambda: IndexCollection(v), tuple=lambda: tuple(v))[k]()
def snap(p): return list(p.index) if hasattr(p, "index") and not isinstance(p, (list, tuple)) else plain(p)
def at(v, x):
    if isinstance(x, np.ndarray): x = tuple(x.tolist())
    if isinstance(x, np.generic): x = x.item()
    if isinstance(x, tuple): x = tuple(int(i) for i in x)
    return v.index(x) + 1 if x in v else 0
def pos(v, o): return [at(v, x) for x in o]

# ---- every operation: a -> (draw: () -> outcome as positions, snapshot) or None when it does not fit
OPS = {}
def op(*kinds):
    def d(f):
        for k in kinds: OPS.setdefault(k, []).append(f)
        return f
    return d

@op("sample")
def random_sampling(a):
    n, k = a["n"], min(a["k"], a["n"])
    if r.random() < .5: v = ints(n) if r.random() < .7 else ["i%d" % x for x in range(n)]; p = IndexCollection(list(v))
    else: v, d = cells(n); p = MultiLabelIndexCollection(list(v), label_size=d)
    rate = .97 if k == n else k / n
    if round(rate * n) != k: return
    kw = {} if round(.3 * n) == k and r.random() < .5 else dict(rate=rate)
    return lambda: pos(v, p.random_sampling(**kw).index), lambda: snap(p)
@op("sample")
def empty_sampling(a):
    if a["k"] != 1 or a["n"] != 2: return
    a["n"] = 3; v = ints(3); p = IndexCollection(list(v)); a["k"] = 0
    return lambda: pos(v, p.random_sampling(rate=.1).index), lambda: snap(p)
@op("sample")
def instance_random(a):
    v = ints(a["n"]); p = holder(v); k = a["k"]; l = ints(2)
    s = r.choice([QueryInstanceRandom, QueryRandom])
    s = s() if r.random() < .5 else s(np.random.rand(5, 2), np.arange(5))
    kw = {} if k == 1 and r.random() < .5 else dict(batch_size=k)
    return lambda: pos(v, s.select(l, p, **kw)), lambda: snap(p)
@op("sample")
def feature_random(a):
    v, d = cells(a["n"]); k = a["k"]
    s = QueryFeatureRandom(np.random.rand(a["n"] + 1, d), np.arange(a["n"] + 1) % 2)
    p = list(v) if r.random() < .5 else MultiLabelIndexCollection(list(v), label_size=d)
    kw = {} if k == 1 and r.random() < .5 else dict(batch_size=k)
    return lambda: pos(v, s.select([], p, **kw)), lambda: snap(p)
@op("sample")
def pair_random(a):
    v, d = cells(a["n"]); k = a["k"]
    if d == 1: return
    s = QueryMultiLabelRandom(np.random.rand(a["n"] + 1, 2), np.ones((a["n"] + 1, d), dtype=int))
    p = list(v) if r.random() < .5 else MultiLabelIndexCollection(list(v), label_size=d)
    kw = {} if k == 1 and r.random() < .5 else dict(batch_size=k)
    return lambda: pos(v, s.select([], p, **kw)), lambda: snap(p)
@op("sample")
def ins_random(a):
    n, k, d = a["n"], a["k"], 2; ids = r.sample(range(n + 2), n); v = [(i,) for i in ids]
    s = QueryMultiLabelRandom(np.random.rand(n + 2, 2), np.ones((n + 2, d), dtype=int))
    allp = [(i, j) for i in ids for j in range(d)] + [(i, 1) for i in range(n + 2) if i not in ids]; r.shuffle(allp)
    p = list(allp) if r.random() < .5 else MultiLabelIndexCollection(list(allp), label_size=d)
    kw = {} if k == 1 and r.random() < .5 else dict(batch_size=k)
    return lambda: pos(v, s.select([], p, select_type="ins", **kw)), lambda: snap(p)
def crowd(n):
    ans = r.sample(range(100), n); o = [Oracle([x] * 4) for x in ans]; names = r.sample(["ann", "bob", "cy", "dee", "eve"], n)
    oc = Oracles()
    for m, x in zip(names, o): oc.add_oracle(m, x)
    return ans, o, names, oc
@op("sample")
def any_oracle(a):
    if a["k"] != 1: return
    ans, o, names, oc = crowd(a["n"]); idx = r.randrange(4)
    return lambda: pos(ans, [int(x) for x in np.ravel(oc.query_from(idx if r.random() < .5 else [idx])[0])]), lambda: names
@op("sample")
def any_oracle_strategy(a):
    if a["k"] != 1: return
    ans, o, names, oc = crowd(a["n"]); lst = r.random() < .5
    s = QueryNoisyOraclesRandom(oracles=o if lst else oc)
    return lambda: pos(list(range(a["n"])) if lst else names, s.select_by_given_instance(r.randrange(4))), lambda: names
@op("perm")
def perm(a):
    n, k = a["n"], a["k"]
    if k > n: return
    f = r.choice(["int", "np", "tuple", "none"]); lo = r.randrange(-3, 6) if f == "tuple" else 0
    x = dict(int=n - 1, np=np.int64(n - 1), tuple=(lo, lo + n - 1), none=(None, n - 1))[f]
    kw = {} if k == n and r.random() < .5 else dict(k=k)
    return lambda: pos(list(range(lo, lo + n)), randperm(x, **kw)), lambda: 0
@op("spend")
def cost_random(a):
    n, c, b = a["n"], a["c"], a["b"]; d = n
    rows = [r.randrange(3) for _ in range(n)]; v = [(i, j) for j, i in enumerate(rows)]; od = list(v); r.shuffle(od)
    s = QueryCostSensitiveRandom(np.random.rand(3, 2), np.ones((3, d), dtype=int))
    p = list(od) if r.random() < .5 else MultiLabelIndexCollection(list(od), label_size=d)
    if not hasattr(p, "index") or isinstance(p, list):
        if max(j for _, j in od) + 1 != d: return
    u = r.choice([1, .5, .25]); cu = [z * u for z in c]
    kw = dict(cost=np.array(cu)) if r.random() < .5 else dict(oracle=Oracle([1] * d, cost=cu))
    if set(c) == {1} and r.random() < .5: kw = {}; u = 1
    return lambda: pos(v, s.select([], p, budget=b * u, **kw)), lambda: snap(p)
def ratio(a, k):
    n, t, l = a["n"], a["t"], a["l"]; te = t / n; rate = l / (n - t)
    return dict(test_ratio=te, initial_label_rate=rate, split_count=k)
def target(a):
    n, cls = a["n"], a["cls"]
    if not cls: return None
    if len(cls) == 2 and not set(cls[0]) & set(cls[1]) and len(set(cls[0]) | set(cls[1])) == n and r.random() < .7:
        lab = r.choice([(0, 1), (-1, 1), (5, 3)]); return [lab[0] if i + 1 in cls[0] else lab[1] for i in range(n)]
    lo = r.choice([0, -1]); return [[1 if i + 1 in c else lo for c in cls] for i in range(n)]
@op("fold", "fold", "folds")
def fold(a):
    pair = a["kind"] == "folds"; n = a["n"]; b = dict(a, l=a.get("l", 1), cls=a.get("cls", []))
    y = target(b); names = None; kw = ratio(b, 2 if pair else 1); X = np.random.rand(n, 2)
    if y is None:
        m = r.choice(["X", "names", "off"])
        if m == "X": kw.update(X=X)
        if m == "names": names = ["a%d" % i for i in range(n)] if r.random() < .5 else ints(n); kw.update(instance_indexes=names if r.random() < .5 else np.array(names))
        if m == "off": kw.update(y=[0] * (n - 1) + [1], all_class=False)
    else: kw.update(y=y if r.random() < .5 else np.array(y))
    v = names or list(range(n))
    via = r.choice(["split", "split", "split", "experiment", "toolbox"]) if names is None and not (y and isinstance(y[0], list)) else "split"
    if via == "split":
        f = lambda: split(saving_path=None, **kw)
    else:
        yy = kw.pop("y", None); X_ = kw.pop("X", X); allc = kw.pop("all_class", yy is not None); kw["all_class"] = allc
        yy = yy if yy is not None else [0, 1] * (n // 2) + [0] * (n % 2)
        def f():
            if via == "toolbox":
                t = ToolBox(X=X_, y=yy, saving_path=None); t.split_AL(**kw); return t.train_idx, t.test_idx, t.label_idx, t.unlabel_idx
            e = AlExperiment(X_, yy); e.split_AL(**kw); return e._train_idx, e._test_idx, e._label_idx, e._unlabel_idx
    def draw():
        tr, te, la, un = f()
        whole = [sorted([str(x) for x in list(te[i]) + list(la[i]) + list(un[i])]) == sorted(map(str, v)) for i in range(len(te))]
        if not all(whole) or len(te) != (2 if pair else 1): return [[0], [0]]
        return [pos(v, te[0]), pos(v, te[1] if pair else la[0])]
    return draw, lambda: plain(y) if y else 0
@op("fold")
def fold_multi_label(a):
    y = target(a); n = a["n"]
    if y is None: y = [[1, 1]] * n
    elif not isinstance(y[0], list): return
    kw = ratio(a, 1)
    if not a["cls"]:
        if r.random() < .5: kw.update(label_shape=(n, 2), all_class=False)
        else: kw.update(y=np.array(y), all_class=False)
    else: kw.update(y=np.array(y))
    v = [(i,) for i in range(n)]
    def draw():
        tr, te, la, un = split_multi_label(saving_path=None, **kw)
        return [[int(x) + 1 for x in te[0]], pos(v, la[0])]
    return draw, lambda: plain(y)
@op("cells")
def features(a):
    n, t, d, m = a["n"], a["t"], a["d"], a["m"]; tr = n - t; rate = m / (tr * d)
    if int(round((1 - (1 - rate)) * tr * d)) != m: return
    if a["cover"] and round((1 - (1 - rate)) * tr) < d: return
    kw = dict(test_ratio=t / n, missing_rate=1 - rate, split_count=1, all_features=a["cover"], saving_path=None)
    if r.random() < .5: kw.update(feature_matrix_shape=(n, d))
    else: kw.update(feature_matrix=np.random.rand(n, d))
    def draw():
        trn, te, la, un = split_features(**kw)
        return [[int(x) + 1 for x in te[0]], [[int(i) + 1, int(j) + 1] for i, j in la[0]]]
    return draw, lambda: 0

def trial(c, f):
    a = dict(c["cfg"]); q = call(lambda: f(a))
    if q.ok and q.v is None: return None
    # the rarest outcome is expected at least 60 times
    T = int(min(9000, (100 if not THOROUGH else 250) * c["ways"] / c["rarest"])) + 40
    d = dict(op=f.__name__, a=a, T=T, seen=[], same=True)
    if not q.ok: d.update(k="err", e=q.e); return d
    draw, sn = q.v
    before = sn(); cnt = {}
    def many():
        for _ in range(T):
            o = json.dumps(plain(draw() if a["kind"] not in ("sample", "spend") else sorted(draw()))); cnt[o] = cnt.get(o, 0) + 1
    o = call(many, _timeout=120)
    d.update(o.rec()); d["same"] = sn() == before
    d["seen"] = [dict(o=json.loads(k), c=v) for k, v in cnt.items()]
    return d

cfgs = read(sys.argv[1])
r2 = random.Random("%d-c24" % SEED); jobs = []
by = {}
for c in cfgs: by.setdefault(c["cfg"]["kind"], []).append(c)
LIM = dict(sample=99, perm=14, spend=30, fold=40, folds=9, cells=18) if not THOROUGH else dict(sample=99, perm=99, spend=400, fold=400, folds=9, cells=99)
for k, l in sorted(by.items()):
    l = sorted(l, key=lambda c: json.dumps(c, sort_keys=True)); r2.shuffle(l)
    for i, c in enumerate(l[:LIM[k]]):
        fs = OPS[k] if k == "sample" else [r2.choice(OPS[k])]
        for f in fs: jobs.append((c, f))
r2.shuffle(jobs)
for i, (c, f) in enumerate(jobs):
    if i % NS != shard: continue
    d = trial(c, f)
    if d: w.trace(0, [d], f.__name__)
w.close()
