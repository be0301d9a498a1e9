"""C17: knapsack and Pareto selection on enumerated instances; the cost-sensitive strategies on exact inputs; label marking."""
import sys, os, pickle
from vlib import *
import vlib
behs = read(sys.argv[1])
NS = 6
shard = fork_shards(NS)
r = random.Random("%d-c17-%d" % (SEED, shard))
np.random.seed(SEED * 100 + shard)
w = Writer(vlib.OUT)
sys.stdout = open(os.devnull, "w")
import warnings
warnings.simplefilter("ignore")
from alipy.query_strategy.cost_sensitive import *
from alipy.index import MultiLabelIndexCollection
from alipy.oracle import Oracle
from sklearn.svm import SVC
from sklearn.linear_model import LogisticRegression

def pl(v):
    if not isinstance(v, (list, tuple, MultiLabelIndexCollection)): raise TypeError("not a list")
    return [[int(x) for x in q] for q in v]
def as_int(x):
    x = float(x)
    return int(x) if x == int(x) else 10 ** 6 + 1
def conv(x): return np.array(x) if r.random() < .5 else list(x)
def form_pairs(ps, k, N, form):
    ps = [tuple(p) for p in ps]
    if form == "col": return MultiLabelIndexCollection(ps, k)
    if form == "list": return list(ps)
    one = [i + l * N for i, l in ps]
    return np.array(one, dtype=int) if form == "array" else one
def listing(c): return [tuple(x) if isinstance(x, tuple) else int(x) for x in c]
def snap(*a):
    try: return pickle.dumps(a)
    except Exception: return repr(a)

def knap(v, c, b, tag):
    o = call(lambda: (lambda m, f: (as_int(m), [as_int(x) for x in f]))(*select_Knapsack_01(conv(v), conv(c), b)))
    w.trace({}, [dict(o.rec(), op="knapsack", v=v, c=c, b=b, val=o.v[0] if o.ok else 0, flags=o.v[1] if o.ok else [])], tag)
for i, x in enumerate(behs):
    if i % NS == shard and (THOROUGH or i % 4 == (SEED + i // 24) % 4): knap(x["v"], x["c"], x["b"], "knapsack_enum")
for _ in range(300 if THOROUGH else 40):
    n = r.randrange(1, 12); b = r.randrange(0, 40)
    knap([r.randrange(0, 30) for _ in range(n)], [r.randrange(1, 15) for _ in range(n)], b, "knapsack_rand")
# Pareto optimisation: enough iterations that missing the optimum has negligible probability
for _ in range(30 if THOROUGH else 5):
    n = r.randrange(1, 5); b = r.randrange(9, 13)
    c = [r.randrange(2, 9) for _ in range(n)]; v = [r.randrange(1, 9) for _ in range(n)]
    o = call(lambda: (lambda m, f: (as_int(-m), [as_int(x) for x in f]))(*select_POSS(np.array([-x for x in v]), conv(c), b)), _timeout=100)
    w.trace({}, [dict(o.rec(), op="poss", v=v, c=c, b=b, opt=True, val=o.v[0] if o.ok else 0, flags=o.v[1] if o.ok else [])], "poss")
for _ in range(10):
    n = r.randrange(2, 7); b = r.randrange(2, 5)
    c = [r.randrange(1, b + 1) for _ in range(n)]; v = [r.randrange(1, 9) for _ in range(n)]
    o = call(lambda: (lambda m, f: (as_int(-m), [as_int(x) for x in f]))(*select_POSS(conv([-x for x in v]), conv(c), b)), _timeout=100)
    if o.ok and not any(o.v[1]): continue
    w.trace({}, [dict(o.rec(), op="poss", v=v, c=c, b=b, opt=False, val=o.v[0] if o.ok else 0, flags=o.v[1] if o.ok else [])], "poss_small")

class Model(object):
    """A classifier of one label with known outputs (rows recognised by their features)."""
    def __init__(self, rows, d, p): self.rows, self.d, self.p = rows, d, p
    def _ix(self, X): return [self.rows.index(tuple(float(t) for t in x)) for x in X]
    def decision_function(self, X): return np.array([self.d[i] for i in self._ix(X)], dtype=float)
    def predict(self, X): return np.array([self.p[i] for i in self._ix(X)])

class Base(object):
    """A classifier the code trains itself: told by its training data which label it is for, and then as known as Model."""
    def __init__(self, keys, models): self.keys, self.models, self.m = keys, models, None
    @staticmethod
    def key(X, y): return sorted((tuple(float(t) for t in x), int(c)) for x, c in zip(X, y))
    def fit(self, X, y):
        k = Base.key(X, y)
        if self.keys.count(k) != 1: raise ValueError("trained with something else than the known labels of one class")
        self.m = self.models[self.keys.index(k)]
        return self
    def decision_function(self, X): return self.m.decision_function(X)
    def predict(self, X): return self.m.predict(X)

def rows(N):
    while True:
        X = [[r.randrange(0, 40), r.randrange(0, 40)] for _ in range(N)]
        D = [[(a[0] - b[0]) ** 2 + (a[1] - b[1]) ** 2 for b in X] for a in X]
        if all(len(set(d)) == N for d in D): return X
def tree_of(k):
    t = [[0] * k for _ in range(k)]
    order = list(range(k)); r.shuffle(order)
    for n in range(1, k):
        if r.random() < .8: t[order[r.randrange(n)]][order[n]] = 1
    return t

def strategies():
    k = r.choice([1, 2, 3, 4, 5]); N = r.choice([5, 6, 8])
    X = rows(N); Xf = np.array(X, dtype=float)
    y = np.random.choice([-1, 1], size=(N, k))
    U = [(i, l) for i in range(N) for l in range(k) if r.random() < .6]
    if not U: return
    r.shuffle(U)
    L = [(i, l) for i in range(N) for l in range(k) if (i, l) not in U]
    if r.random() < .3: U = r.sample(U, (len(U) + 1) // 2)
    if not L: return
    W = [[r.choice([1, 2, 3, 4, 5, 7, 8, 11, 16]) for _ in range(k)] for _ in range(N)]
    P = [[r.choice([-1, 1]) for _ in range(k)] for _ in range(N)]
    models = [Model([tuple(map(float, x)) for x in X], [r.choice([-1, 1]) / W[i][l] for i in range(N)], [P[i][l] for i in range(N)]) for l in range(k)]
    ck = r.choice(["one", "same", "any", "oracle"])
    cost = [1] * k if ck == "one" else [r.randrange(1, 4)] * k if ck == "same" else [r.randrange(1, 8) for _ in range(k)]
    kw = {}
    if ck == "oracle": kw["oracle"] = Oracle(list(range(k)), cost=list(cost))
    elif ck != "one" or r.random() < .5: kw["cost"] = r.choice([list, np.array, lambda c: np.array([c])])(cost)
    b = r.choice([1, 2, 3, k, len(U), sum(cost), r.randrange(1, 30), 2 * sum(cost[l] for _, l in U)])
    form = r.choice(["col", "list", "array", "flat"])
    def run(op, f, **e):
        la, ua = form_pairs(L, k, N, form), form_pairs(U, k, N, form)
        before = snap(Xf, y, listing(la), listing(ua), cost)
        o = call(lambda: pl(f(la, ua)), _timeout=60)
        w.trace({}, [dict(o.rec(), op=op, pool=U, L=L, sel=o.v if o.ok else [], cost=cost, b=b, same=before == snap(Xf, y, listing(la), listing(ua), cost), **e)], op)
    u = r.choice([1, 1, .5, .25])       # the random strategy takes fractional costs: the same problem in another unit
    kr = dict(kw, cost=[c * u for c in cost]) if "cost" in kw else dict(oracle=Oracle(list(range(k)), cost=[c * u for c in cost])) if "oracle" in kw else kw
    ur = u if kr else 1
    run("random", lambda la, ua: QueryCostSensitiveRandom(Xf, y).select(la, ua, budget=b * ur, **kr))
    exact = r.random() < .8
    m = models
    if not exact and all(len(set(y[i][l] for i, q in L if q == l)) == 2 for l in range(k)): m = None
    if not exact and m is not None:
        for q in models: q.d = [x * r.choice([0, 1, 1]) for x in q.d]
    keys = [Base.key([X[i] for i, q in L if q == l], [y[i][l] for i, q in L if q == l]) for l in range(k)]
    own = exact and all(keys) and all(keys.count(z) == 1 for z in keys) and r.random() < .5
    if own: m = None
    base = Base(keys, models) if own else r.choice([None, SVC(kernel="linear"), LogisticRegression(solver="liblinear")])
    run("performance", lambda la, ua: QueryCostSensitivePerformance(Xf, y).select(la, ua, budget=b, models=m, basemodel=base, **kw), exact=exact, W=W)
    wt = [r.choice([1, 2, 4]) for _ in range(k)] if r.random() < .5 else None
    t = tree_of(k)
    tw = [[W[i][l] * (wt[l] if wt else 1) for l in range(k)] for i in range(N)]
    run("halc", lambda la, ua: QueryCostSensitiveHALC(Xf, y, np.array(t), weights=wt and r.choice([list, np.array])(wt)).select(la, ua, budget=b, models=m, base_model=base, **kw),
        exact=exact, W=tw, X=X, Y=y.tolist(), P=P, tree=t)

def mark():
    k = r.choice([2, 3, 4, 5]); N = r.choice([2, 3])
    t = tree_of(k)
    y = np.random.choice([-1, 1], size=(N, k))
    ps = [(i, l) for i in range(N) for l in range(k)]
    r.shuffle(ps)
    Q = ps[:r.randrange(1, 1 + max(1, len(ps) // 2))]
    L = ps[len(Q):][:r.randrange(1, len(ps) - len(Q) + 1)]
    form = r.choice(["col", "list", "array"])
    qa, la, ta = form_pairs(Q, k, N, form), form_pairs(L, k, N, form), np.array(t)
    before = snap(listing(qa), listing(la), ta, y)
    o = call(lambda: pl(hierarchical_multilabel_mark(qa, la, ta, y)))
    w.trace({}, [dict(o.rec(), op="mark", Q=Q, L=L, tree=t, Y=y.tolist(), out=o.v if o.ok else [], same=before == snap(listing(qa), listing(la), ta, y))], "mark")

for _ in range(400 if THOROUGH else 40): strategies()
for _ in range(300 if THOROUGH else 60): mark()
if shard == 0:
    ps = [(0, 0), (0, 1), (1, 1), (2, 0)]
    s = QueryCostSensitiveRandom(np.random.rand(3, 2), np.ones((3, 2), dtype=int))
    o = call(lambda: sorted(set(tuple(q) for _ in range(300) for q in pl(s.select(None, list(ps), budget=1)))))
    w.trace({}, [dict(o.rec(), op="cover", pool=ps, seen=o.v if o.ok else [])], "cover")
w.close()
sys.stdout.flush()
os._exit(0)
