"""C15: rankings of the selection strategies on rational predictions."""
import sys, os, copy
from vlib import *
import vlib
behs = read(sys.argv[1])
r = rng("c15")
np.random.seed(SEED)
w = Writer()
sys.stdout = open(os.devnull, "w")
import warnings
warnings.simplefilter("ignore")
from alipy.query_strategy.query_labels import *
from alipy.index import IndexCollection
from sklearn.base import BaseEstimator, ClassifierMixin

class Pool(list):
    """indexes in the order in which the object given to the strategy lists them"""
    def __init__(self, x):
        self.obj = conv(x)
        list.__init__(self, [int(i) for i in self.obj])

def conv(x):
    if isinstance(x, Pool): return x.obj
    f = r.choice(["col", "array", "list"])
    return IndexCollection(x) if f == "col" else np.array(x, dtype=int) if f == "array" else list(x)

def ids(n):
    """n distinct indexes, labeled ones, and the size of the data set"""
    N = n + r.randrange(4, 9)
    a = list(range(N)); r.shuffle(a)
    return Pool(a[:n]), a[n:n + r.randrange(3, N - n + 1)], N

class Look(BaseEstimator, ClassifierMixin):
    """predictions looked up by the identity of the instance (first feature)"""
    T, D = {}, {}
    def __init__(self, classes=(0, 1)): self.classes = classes; self.classes_ = np.array(classes)
    def fit(self, X, y, sample_weight=None): return self
    def predict_proba(self, X): return np.array([Look.T[int(x[0])] for x in X])
    def decision_function(self, X):
        v = np.array([Look.D[int(x[0])] for x in X])
        return v if r.random() < .6 else v.reshape(-1, 1)

class Voter(BaseEstimator, ClassifierMixin):
    """a committee member with random predictions which are noted down"""
    REC = []; K = 3; DEN = 6
    def __init__(self, a=1): self.a = a
    def fit(self, X, y, sample_weight=None): self.classes_ = np.unique(y); return self
    def predict_proba(self, X):
        P = [row(Voter.K, Voter.DEN) for _ in X]; Voter.REC.append(P)
        return np.array(P) / float(Voter.DEN)
    def predict(self, X):
        v = [r.randrange(Voter.K) for _ in X]; Voter.REC.append(v)
        return np.array(v)

class Retrain(BaseEstimator, ClassifierMixin):
    """predictions which depend on the instance added last and its label"""
    PV, AFTER = {}, {}
    def __init__(self): self.state = None
    def fit(self, X, y): self.state = (int(X[-1][0]), y[-1].item() if hasattr(y[-1], "item") else y[-1]); return self
    def predict_proba(self, X):
        if self.state is None: return np.array([Retrain.PV[int(x[0])] for x in X])
        i, yi = self.state
        return np.array([Retrain.AFTER[(i, yi, int(x[0]))] for x in X])

def row(k, den):
    if r.random() < .15: c = r.randrange(k); return [den if j == c else 0 for j in range(k)]
    if r.random() < .15 and den % k == 0: return [den // k] * k
    cuts = sorted(r.randrange(den + 1) for _ in range(k - 1))
    return [b - a for a, b in zip([0] + cuts, cuts + [den])]

def out(o, U, **k):
    pos = []
    if o.ok:
        try: pos = [U.index(int(x)) + 1 if int(x) in U else 0 for x in list(o.v)]
        except Exception: o.k = "err"
    return dict(o.rec(), sel=pos, **k)

def data(N, k):
    X = np.column_stack([np.arange(N), np.random.randint(0, 5, size=(N, 2))]).astype(float)
    y = np.arange(N) % k
    return X, y

MEAS = ["least_confident", "margin", "entropy"]
def uncertainty(P, den, k, meas):
    n = len(P)
    U, L, N = ids(n)
    b = r.randrange(1, n + 1) if n > 1 else 1
    X, y = data(N, k)
    M = np.array(P) / float(den)
    if r.random() < .3: M = M.tolist()
    mode = r.randrange(3)
    s = QueryInstanceUncertainty(X, y, measure=meas) if mode else QueryInstanceUncertainty(measure=meas)
    if mode == 2:
        Look.T = {u: list(np.array(p) / float(den)) for u, p in zip(U, P)}
        o = call(lambda: s.select(conv(L), conv(U), model=Look(tuple(range(k))), **asked(r, b)))
    else:
        o = call(lambda: s.select_by_prediction_mat(conv(U), M, **asked(r, b)))
    return out(o, U, op="uncertainty", meas=meas, P=P, den=den, n=n, b=b)

def boundary():
    n = r.randrange(2, 9); U, L, N = ids(n); b = r.randrange(1, n + 1); X, y = data(N, 2)
    d = [r.randrange(-6, 7) for _ in range(n)]
    s = QueryInstanceUncertainty(X, y, measure="distance_to_boundary")
    if r.random() < .5:
        Look.D = dict(zip(U, [x / 4. for x in d]))
        o = call(lambda: s.select(conv(L), conv(U), model=Look(), **asked(r, b)))
    else:
        m = np.array(d) / 4.
        if r.random() < .3: m = m.reshape(-1, 1)
        o = call(lambda: s.select_by_prediction_mat(conv(U), m if r.random() < .7 else m.tolist(), **asked(r, b)))
    return out(o, U, op="boundary", d=d, n=n, b=b)

def votes(ml):
    n = r.randrange(2, 7); U, L, N = ids(n); b = r.randrange(1, n); m = r.randrange(2, 7)
    if ml:
        k = r.randrange(2, 4)
        V = [[[r.randrange(2) for _ in range(k)] for _ in range(n)] for _ in range(m)]
        V[0][0] = [0] * k; V[1][0] = [1] * k
    else:
        k = r.randrange(2, 5)
        V = [[r.randrange(k) for _ in range(n)] for _ in range(m)]
    A = [np.array(v) for v in V]
    s = QueryInstanceQBC(disagreement="vote_entropy")
    yield out(call(lambda: s.select_by_prediction_mat(conv(U), A, **asked(r, b))), U, op="votes_ml" if ml else "votes", V=V, n=n, b=b)
    o = call(lambda: [int(round(x * 1e5)) for x in s.calc_vote_entropy(A)])
    yield dict(o.rec(o.v if o.ok else []), op="value_votes_ml" if ml else "value_votes", V=V, n=n)

def kl():
    n = r.randrange(2, 7); U, L, N = ids(n); b = r.randrange(1, n); m = r.randrange(2, 6); k = r.randrange(2, 4); den = r.choice([4, 6, 10])
    P = [[row(k, den) for _ in range(n)] for _ in range(m)]
    for i in range(n):
        if r.random() < .3:
            for c in range(m): P[c][i] = P[0][i]
    s = QueryInstanceQBC(disagreement="KL_divergence")
    return out(call(lambda: s.select_by_prediction_mat(conv(U), [np.array(p) / float(den) for p in P], **asked(r, b))), U, op="kl", P=P, den=den, n=n, b=b)

def committee(kind):
    n = r.randrange(2, 7); U, L, N = ids(n); b = r.randrange(1, n); X, y = data(N, 3)
    Voter.REC = []; Voter.K = 3; Voter.DEN = 6
    s = QueryInstanceQBC(X, y, disagreement=kind)
    o = call(lambda: s.select(conv(L), conv(U), model=Voter(), **asked(r, b)))
    rec = [list(x) for x in Voter.REC]
    if not o.ok or any(len(x) != n for x in rec) or len(rec) < 2: return out(o, U, op="votes", V=[[0] * n] * 2, n=n, b=b)
    return out(o, U, op="votes", V=rec, n=n, b=b) if kind == "vote_entropy" else out(o, U, op="kl", P=rec, den=Voter.DEN, n=n, b=b)

def dw():
    n = r.randrange(2, 7); U, L, N = ids(n); b = r.randrange(1, n); k = r.randrange(2, 4); den = r.choice([4, 6]); meas = r.choice(MEAS)
    X = np.random.randint(0, 5, size=(N, 2)).astype(float); X = np.column_stack([np.arange(N), X])
    P = [row(k, den) for _ in range(n)]
    beta = r.choice([0, 1, 1, 2]) if meas != "entropy" else r.choice([0, 1])
    s = QueryInstanceDensityWeighted(X, np.arange(N) % k, meas, r.choice(["cityblock", "l1", "manhattan"]), float(beta))
    if r.random() < .5:
        Look.T = {u: list(np.array(p) / float(den)) for u, p in zip(U, P)}
        o = call(lambda: s.select(conv(L), conv(U), b, model=Look(tuple(range(k)))))
    else:
        o = call(lambda: s.select(conv(L), conv(U), b, proba_prediction=np.array(P) / float(den)))
    return out(o, U, op="density_weighted", meas=meas, P=P, den=den, n=n, b=b, beta=beta, X=[[int(v) for v in X[u]] for u in U])

def eer():
    n = r.randrange(2, 6); U, L, N = ids(n); b = r.randrange(1, n)
    labs = r.choice([[0, 1], [-1, 1], [1, 2], [0, 1, 2], [2, 5, 7]]); k = len(labs); den = r.choice([4, 6])
    X = np.column_stack([np.arange(N), np.random.rand(N)])
    y = np.array([labs[i % k] for i in range(N)])
    if r.random() < .6:
        # classes of the data set which the model has not met (no labeled instance has them)
        new = [v for v in [-3, 0, 1, 2, 3, 4, 9] if v not in labs]
        for u in U:
            if r.random() < .5: y[u] = r.choice(new)
    pv = [row(k, den) for _ in range(n)]
    aft = [[[row(k, den) for _ in range(n)] for _ in range(k)] for _ in range(n)]
    Retrain.PV = {u: np.array(p) / float(den) for u, p in zip(U, pv)}
    Retrain.AFTER = {(U[i], labs[c], U[j]): np.array(aft[i][c][j]) / float(den) for i in range(n) for c in range(k) for j in range(n)}
    m = Retrain(); m.classes_ = np.array(labs)
    o = call(lambda: QueryExpectedErrorReduction(X, y).select(conv(L), conv(U), model=m, **asked(r, b)))
    return out(o, U, op="eer", pv=pv, after=aft, den=den, n=n, b=b)

def coreset():
    N = r.randrange(6, 12)
    X = np.random.randint(0, 6, size=(N + 3, 2)).astype(float)
    tr = list(range(N + 3)); r.shuffle(tr); tr = tr[:N]
    nl = r.randrange(1, 4); L, U = tr[:nl], tr[nl:]
    order = list(tr); r.shuffle(order)
    metric, name = r.choice([("l1", "manhattan"), ("l1", "cityblock"), ("l2", "euclidean"), ("l2", "l2")])
    s = QueryInstanceCoresetGreedy(X, np.arange(N + 3) % 2, order if r.random() < .5 else np.array(order), name)
    Xi = [[int(v) for v in x] for x in X]
    for _ in range(r.randrange(1, 4)):
        if len(U) < 2: break
        pool = list(U); r.shuffle(pool)
        if r.random() < .3: pool = pool[:max(2, len(pool) - 2)]
        b = r.randrange(1, len(pool))
        o = call(lambda: [int(x) for x in s.select(conv(L), conv(pool), b)])
        sel = o.v if o.ok else []
        yield dict(o.rec(), op="coreset", X=Xi, L=[x + 1 for x in L], pool=[x + 1 for x in pool], sel=[x + 1 for x in sel], metric=metric, b=b)
        if r.random() < .7:
            U = [x for x in U if x not in sel]; L = L + sel

# every prediction matrix of the model, through the measures in turn
B = list(behs); r.shuffle(B)
steps = []
for t, b in enumerate(B if THOROUGH else B[:900]):
    steps.append(uncertainty([list(x) for x in b["P"]], b["den"], b["k"], MEAS[t % 3]))
for i in range(0, len(steps), 10): w.trace(0, steps[i:i + 10], "enumerated")
G = 8 if THOROUGH else 1
for t in range(60 * G):
    st = []
    for _ in range(3):
        k, den = r.randrange(2, 6), r.choice([5, 8, 10, 20])
        st.append(uncertainty([row(k, den) for _ in range(r.randrange(2, 12))], den, k, r.choice(MEAS)))
    st += [boundary()] + list(votes(False)) + list(votes(True)) + [kl(), committee("vote_entropy"), committee("KL_divergence"), dw(), eer()] + list(coreset())
    k, den = r.randrange(2, 5), r.choice([4, 10])
    P = [row(k, den) for _ in range(3)]
    o = call(lambda: [int(round(float(x) * 1e5)) for x in QueryInstanceUncertainty.calc_entropy(np.array(P) / float(den))])
    st.append(dict(o.rec(o.v if o.ok else []), op="value_entropy", P=P, den=den))
    for C in (QueryInstanceRandom, QueryRandom):
        U, L, N = ids(6); X, y = data(N, 2); seed = r.randrange(10 ** 6); b = r.randrange(1, 6); y2 = np.random.randint(0, 3, size=N)
        def go(yy, LL):
            np.random.seed(seed); return [int(x) for x in C(X, yy).select(LL, conv(U), b)]
        o, o2 = call(lambda: go(y, L)), call(lambda: go(y2, L[:-1]))
        st.append(dict(o.rec(), op="random_labels", sel=o.v if o.ok else [], sel2=o2.v if o2.ok else []))
    w.trace(0, st, "random")
st = []
for C in (QueryInstanceRandom, QueryRandom):
    for n in (2, 3, 5):
        U, L, N = ids(n); X, y = data(N, 2)
        seen = set()
        def go():
            for _ in range(300): seen.update(int(x) for x in C(X, y).select(L, conv(U), 1))
        o = call(go)
        st.append(dict(o.rec(), op="random_cover", pool=U, seen=sorted(seen)))
P1 = np.array([[.5], [.4], [.3]])
st.append(dict(call(lambda: QueryInstanceUncertainty(measure="other")).rec(), op="refused"))
st.append(dict(call(lambda: QueryInstanceQBC(disagreement="other")).rec(), op="refused"))
for m in MEAS: st.append(dict(call(lambda: QueryInstanceUncertainty(measure=m).select_by_prediction_mat([1, 2, 3], P1, 1)).rec(), op="refused"))
st.append(dict(call(lambda: QueryInstanceUncertainty(measure="distance_to_boundary").select_by_prediction_mat([1, 2, 3], np.ones((3, 2)), 1)).rec(), op="refused"))
st.append(dict(call(lambda: QueryInstanceQBC().select_by_prediction_mat([1, 2, 3], [np.array([0, 1, 1])], 1)).rec(), op="refused"))
st.append(dict(call(lambda: QueryInstanceQBC(disagreement="KL_divergence").select_by_prediction_mat([1, 2, 3], [np.array([0, 1, 1])] * 2, 1)).rec(), op="refused"))
for m in MEAS: st.append(dict(call(lambda: QueryInstanceUncertainty(measure=m).select_by_prediction_mat([1, 2, 3], np.ones((3, 2)), 0)).rec(), op="refused"))
w.trace(0, st, "edge")
w.close()
