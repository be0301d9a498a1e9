import collections, sys
import numpy as np
from vlib import *
NS = 4
shard = fork_shards(NS)
import sklearn.ensemble as ens
from sklearn.base import BaseEstimator

class Tree(object):
    def __init__(self, f, j): self.f, self.j = f, j; self.tree_ = collections.namedtuple("T", "max_depth")(f.depths[j])
    def predict_proba(self, X):
        Forest.rows = [int(x[0]) for x in X]
        p = np.array([self.f.table[int(x[0])][self.j] for x in X]) / float(self.f.den)
        return np.column_stack([p, 1 - p])
class Forest(BaseEstimator):
    """trees whose predictions are looked up by the identity of the instance (first feature)"""
    table, den, depths, oob, asked = {}, 4, [1], .5, []
    def __init__(self, n_estimators=10, oob_score=False, n_jobs=None, **kw): self.n_estimators = n_estimators; self.oob_score = oob_score; self.n_jobs = n_jobs
    def fit(self, X, y):
        Forest.asked.append(([int(x[0]) for x in X], list(y)))
        self.estimators_ = [Tree(Forest, j) for j in range(len(Forest.depths))]
        self.oob_score_ = Forest.oob; self.feature_importances_ = np.array([.5, .3, .2][:X.shape[1]]); self.classes_ = np.unique(y)
        return self
class Regressor(BaseEstimator):
    rows, rule = [], None
    def __init__(self, n_estimators=10, max_depth=None, max_features=None, oob_score=False, n_jobs=None, **kw): pass
    def fit(self, X, y): self.oob_score_ = 0.; return self
    def predict(self, F):
        Regressor.rows = np.asarray(F).tolist(); v = [Regressor.rule(f) for f in Regressor.rows]
        Regressor.v = v; return np.array(v, dtype=float)
ens.RandomForestClassifier = Forest; ens.RandomForestRegressor = Regressor
from alipy.index import IndexCollection
from alipy.query_strategy.query_labels import QueryInstanceQUIRE, QueryInstanceGraphDensity, QueryInstanceLAL
r = random.Random("%d-c26-%d" % (SEED, shard)); w = Writer()
np.random.seed(r.randrange(2 ** 31))
def holder(v):
    k = r.choice(["list", "arr", "coll", "tuple"] if False else ["list", "arr", "coll"])
    return list(v) if k == "list" else np.array(v, dtype=int) if k == "arr" else IndexCollection(list(v))
def ints(o): return [int(x) for x in o]
def embed(X):
    """the training instances among others, in some order: data, train_idx"""
    n = len(X); N = n + r.randrange(0, 4); ids = r.sample(range(N), n)
    A = np.random.randint(-2, 3, size=(N, len(X[0]))).astype(float)
    for i, x in zip(ids, X): A[i] = x
    return A, ids
def at(ids, o): return [ids.index(int(x)) + 1 if int(x) in ids else 0 for x in o]

def quire(X, y, L, lam=1):
    """X integer points of the training set, y their labels, L labeled positions (from 1)"""
    A, ids = embed(X); N = len(A)
    yy = np.random.choice([-1, 1], size=N)
    for i, v in zip(ids, y): yy[i] = v
    kern = r.choice(["linear", "linear", "call", "poly"])
    kw = dict(linear=dict(kernel="linear"), call=dict(kernel=lambda X, Y: np.dot(X, Y.T)), poly=dict(kernel="poly", degree=1, coef0=0, gamma=1.))[kern]
    if lam != 1 or r.random() < .3: kw["lambda"] = float(lam)
    s = call(lambda: QueryInstanceQUIRE(A if r.random() < .7 else A.tolist(), yy, ids if r.random() < .5 else np.array(ids), **kw))
    U = [i for i in range(1, len(X) + 1) if i not in L]; r.shuffle(U); L = list(L); r.shuffle(L)
    steps = []
    for _ in range(3):
        if len(U) < 2: break
        o = call(lambda: ints(s.v.select(holder([ids[i - 1] for i in L]), holder([ids[i - 1] for i in U]))))
        sel = at(ids, o.v) if o.ok else []
        steps.append(dict(o.rec(), op="quire", X=X, y=list(y), L=L, lam=lam, pool=list(U), b=1, sel=sel))
        if not o.ok or len(sel) != 1 or sel[0] not in U: break
        if r.random() < .5: break
        U = [u for u in U if u != sel[0]]; L = L + sel
    return steps

def quire_order():
    """generic data: no ties, so the order of anything can not matter"""
    n = r.randrange(4, 9); N = n + 3; A = np.random.rand(N, 3); y = np.random.choice([-1, 1], size=N)
    tr = r.sample(range(N), n); nl = r.randrange(1, n - 2); L, U = tr[:nl], tr[nl:]
    kw = r.choice([{}, dict(kernel="rbf", gamma=.5), dict(kernel="poly", degree=2), {"lambda": .5}, dict(kernel="poly", coef0=0, gamma=2.)])
    def go(t, l, u, data, lab): return call(lambda: ints(QueryInstanceQUIRE(data, lab, t, **dict(kw)).select(holder(l), holder(u))))
    o = go(tr, L, U, A, y)
    t2, l2, u2 = r.sample(tr, n), r.sample(L, nl), r.sample(U, len(U))
    m = r.choice(["order", "names", "signs"])
    if m == "order": o2 = go(t2, l2, u2, A, y); back = o2.v
    elif m == "signs": o2 = go(t2, l2, u2, A, -y); back = o2.v
    else:
        p = r.sample(range(N), N)      # instance i is called p[i]
        A2, y2 = np.empty_like(A), np.empty_like(y)
        for i in range(N): A2[p[i]] = A[i]; y2[p[i]] = y[i]
        o2 = go([p[i] for i in t2], [p[i] for i in l2], [p[i] for i in u2], A2, y2); back = [p.index(x) for x in o2.v] if o2.ok else []
    return [dict(o.rec(), op="quire_order", sel=o.v if o.ok else [], pool=U, b=1, sel2=back if o2.ok else [], k2=o2.k)]

def density(X):
    A, ids = embed(X); k = 10; metric, name = r.choice([("l1", None), ("l1", "manhattan"), ("l1", "cityblock"), ("max", "chebyshev")])
    tr = ids if r.random() < .5 else np.array(ids); kw = {} if name is None else dict(metric=name)
    s = call(lambda: QueryInstanceGraphDensity(A, np.arange(len(A)) % 2, tr, **kw))
    left = list(range(1, len(X) + 1)); nl = r.randrange(0, len(left)); r.shuffle(left); lab, left = left[:nl], left[nl:]
    steps = []
    for _ in range(r.randrange(1, 5)):
        if not left: break
        pool = list(left); r.shuffle(pool)
        if r.random() < .4: pool = pool[:r.randrange(1, len(pool) + 1)]
        b = r.choice([1, 1, 1, 2, 2, 3, 4])
        o = call(lambda: ints(s.v.select(holder([ids[i - 1] for i in lab]), holder([ids[i - 1] for i in pool]), **asked(r, b))))
        sel = at(ids, o.v) if o.ok else []
        steps.append(dict(o.rec(), op="density", pool=pool, b=b, sel=sel))
        if not o.ok: break
        lab = lab + sel; left = [x for x in left if x not in sel]
    if s.ok:
        def told():
            d = s.v.to_dict(); G = np.asarray(d["connectivity"].todense())
            return dict(d=[round(float(x) * 1000000) for x in d["graph_density"]], nb=[[j + 1 for j in range(len(G)) if G[i, j] > 0] for i in range(len(G))])
        o = call(told); steps.append(dict(o.rec(), op="graph", told=o.v if o.ok else 0))
    w.trace(dict(kind="density", X=X, k=k, metric=metric), steps, "density")

def lal():
    n, nl = r.randrange(2, 7), r.randrange(2, 6); N = n + nl + 2; d = r.choice([2, 3])
    A = np.column_stack([np.arange(N), np.random.rand(N, d - 1)]); ids = r.sample(range(N), n + nl); L, U = ids[:nl], ids[nl:]
    lo = r.choice([0, -1]); y = np.array([lo if i % 2 else 1 for i in range(N)])
    for i, j in enumerate(L): y[j] = r.choice([lo, 1])
    out = [i for i in range(N) if i not in L]; y[out[0]], y[out[1]] = lo, 1  # two classes in the data, whatever is labeled
    m, den = r.choice([2, 3, 4]), r.choice([4, 5, 10])
    Forest.den = den; Forest.depths = [r.randrange(1, 9) for _ in range(m)]; Forest.oob = r.choice([.25, .5, .875]); Forest.asked = []
    Forest.table = {i: [r.randrange(den + 1) for _ in range(m)] for i in range(N)}
    kind = r.choice(["mean", "std", "any"]); rnd = {}
    Regressor.rule = dict(mean=lambda f: round(f[0] * 1e6), std=lambda f: round(-f[1] * 1e6), any=lambda f: rnd.setdefault((round(f[0], 6), round(f[1], 6)), r.randrange(9)))[kind]
    np.savez("lal%d.npz" % shard, np.zeros((3, 8)), np.zeros(3))
    def go():
        s = QueryInstanceLAL(A, y, mode=r.choice(["LAL_iterative", "LAL_independent"]), cls_est=m, train_slt=False)
        s.train_selector_from_file("lal%d.npz" % shard, reg_est=5, reg_depth=3); return s
    s = call(go); b = r.randrange(1, n)
    o = call(lambda: ints(s.v.select(holder(L), holder(U), **asked(r, b))))
    f = [[int(round(x * 1e6)) for x in row[:7]] + [int(row[7])] if len(row) == 8 else [] for row in Regressor.rows]; v = [int(x) for x in Regressor.v] if o.ok else []
    if o.ok and sorted(Forest.rows) == sorted(U) and len(f) == n: f, v = [f[Forest.rows.index(u)] for u in U], [v[Forest.rows.index(u)] for u in U]
    t = [[Forest.table[u][j] for u in U] for j in range(m)]
    if o.ok and (len(f) != n or not all(f)): o.k = "err"
    fit_ok = len(Forest.asked) == 1 and sorted(Forest.asked[0][0]) == sorted(L) and all(y[i] == c for i, c in zip(*Forest.asked[0]))
    if o.ok and not fit_ok: o.k = "err"
    return [dict(o.rec(), op="lal", pool=U, b=b, sel=o.v if o.ok else [], t=t, den=den, f=f, v=v, y=[int(y[i]) for i in L], oob=int(Forest.oob * 1e6), depths=Forest.depths)]

behs = sorted(read(sys.argv[1]), key=lambda b: json.dumps(b, sort_keys=True))
random.Random("%d-c26" % SEED).shuffle(behs)
q = [b for b in behs if b["kind"] == "quire"]; g = [b for b in behs if b["kind"] == "density"]
G = 6 if THOROUGH else 1
for b in (q if THOROUGH else q[:400])[shard::NS]: w.trace(dict(kind="quire"), quire(b["X"], b["y"], b["L"]), "enumerated")
for b in (g if THOROUGH else g[:160])[shard::NS]: density(b["X"])
for _ in range(40 * G):
    n, d = r.choice([3, 4, 4, 5]), r.choice([1, 2, 3]); vals = [-1, 0, 1] if d < 3 and n < 5 else [0, 1]
    X = [[r.choice(vals) for _ in range(d)] for _ in range(n)]; y = [r.choice([-1, 1]) for _ in range(n)]
    L = r.sample(range(1, n + 1), r.randrange(1, n - 1)); lam = r.choice([1, 1, 2]) if n < 5 else 1
    st = quire(X, y, L, lam)
    for _ in range(2): st += quire_order()
    for _ in range(2): st += lal()
    w.trace(dict(kind="quire"), st, "random")
    n, d = r.choice([3, 5, 8, 11, 12, 13, 14]), r.choice([1, 2])
    for _ in range(60):
        X = [[r.randrange(0, 26 if d == 1 else 8) for _ in range(d)] for _ in range(n)]
        D = [sorted(sum(abs(a - b) for a, b in zip(X[i], X[j])) for j in range(n) if j != i) for i in range(n)]
        if n <= 11 or all(z[9] < z[10] for z in D): break
    density(X)
w.close()
