"""C14: every single-label query strategy on chosen pools, batch sizes and histories."""
import sys, os, types, pickle, copy, io
from vlib import *
import vlib

# Stand-in for the QP solver (not installed here): any weight vector may come out of it.
class _Expr(object):
    __array_ufunc__ = None
    def __getattr__(self, n): raise AttributeError(n)
    def _b(self, *a): return _Expr()
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __matmul__ = __rmatmul__ = __le__ = __ge__ = __eq__ = __lt__ = __gt__ = __truediv__ = _b
    __hash__ = object.__hash__
class _Var(_Expr):
    def __init__(self, n): self.n = n; self.value = None; CP.last = self
    def __iter__(self): return iter([_Expr() for _ in range(self.n)])
    def __len__(self): return self.n
class _Problem(object):
    def __init__(self, *a): pass
    def solve(self, **k):
        n = CP.last.n
        mode = CP.rng.randrange(4)
        v = [CP.rng.random() for _ in range(n)]
        if mode == 1: v = [CP.rng.choice([0., 1., .5]) for _ in range(n)]
        if mode == 2: v = [0.] * n
        if mode == 3: v = [x * 1e-9 for x in v]
        CP.last.value = np.array(v) if CP.rng.random() < .7 else np.array(v).reshape(-1, 1)
        return float("inf") if CP.rng.random() < .1 else 1.0
CP = types.ModuleType("cvxpy")
CP.Variable, CP.Problem, CP.Minimize, CP.quad_form = _Var, _Problem, (lambda x: x), (lambda *a: _Expr())
CP.OSQP, CP.ECOS = "OSQP", "ECOS"
CP.error = types.SimpleNamespace(DCPError=type("DCPError", (Exception,), {}))
sys.modules["cvxpy"] = CP

behs = read(sys.argv[1])
NS = 6
shard = fork_shards(NS)
os.mkdir("shard%d" % shard); os.chdir("shard%d" % shard)
r = random.Random("%d-c14-%d" % (SEED, shard))
CP.rng = r
np.random.seed(SEED * 100 + shard)
w = Writer(vlib.OUT)
sys.stdout = open(os.devnull, "w")
import warnings
warnings.simplefilter("ignore")
from alipy.query_strategy.query_labels import *
from alipy.query_strategy import query_labels as ql
from alipy.index import IndexCollection
from alipy import ToolBox
from sklearn.linear_model import LogisticRegression
from sklearn.tree import DecisionTreeClassifier
from sklearn.naive_bayes import GaussianNB
from sklearn.base import BaseEstimator, ClassifierMixin

np.savez("lal.npz", np.random.rand(40, 8), np.random.rand(40))

class Model(BaseEstimator, ClassifierMixin):
    """A deterministic classifier with any number of classes."""
    def __init__(self, k=2): self.k = k; self.classes_ = np.arange(k)
    def fit(self, X, y, sample_weight=None):
        self.fitted_ = len(np.unique(np.asarray(X), axis=0))
        u = np.unique(y)
        if len(u) == self.k: self.classes_ = u
        return self
    def predict_proba(self, X):
        p = np.abs(np.sin((np.asarray(X).sum(axis=1)[:, None] + getattr(self, 'fitted_', 0)) * (1 + np.arange(self.k)))) + .01
        return p / p.sum(axis=1)[:, None]
    def decision_function(self, X): return np.sin(np.asarray(X).sum(axis=1) * 3)
    def predict(self, X): return self.classes_[np.argmax(self.predict_proba(X), axis=1)]

def proba(n, k, style):
    if style == "int": return np.eye(k, dtype=int)[np.random.randint(k, size=n)]
    p = np.random.randint(0, 4, size=(n, k)).astype(float) + (0 if style == "zeros" else .1)
    p[p.sum(axis=1) == 0, 0] = 1
    p = p / p.sum(axis=1)[:, None]
    return p.tolist() if style == "list" else p

def mk_env(n):
    """n unlabeled instances among a training set, with labeled ones and test ones."""
    labs = r.choice([[0, 1], [-1, 1], [1, 2], [0, 1, 2], [3, 5, 9]])
    nl = max(2 * len(labs), r.randrange(4, 9))
    N = n + nl + 4
    style = r.choice(["rand", "rand", "int", "far", "dup", "const"])
    X = np.random.rand(N, 3)
    if style == "int": X = np.random.randint(0, 4, size=(N, 3)).astype(float)
    if style == "far": X = X * 1e4
    if style == "dup": X = X[np.random.randint(0, 4, size=N)]
    if style == "const": X[:, 1] = 1.0
    ids = list(range(N)); r.shuffle(ids)
    L, U = ids[:nl], ids[nl:nl + n]
    y = np.array([labs[0]] * N)
    for j, i in enumerate(L): y[i] = labs[j % len(labs)]
    for i in ids[nl:]: y[i] = r.choice(labs)
    return X, y, labs, L, U

def conv(x, form):
    return IndexCollection(x) if form == "col" else np.array(x, dtype=int) if form == "array" else list(x)

STRATS = {}
def strat(name, one=False, binary=False):
    def d(f): STRATS[name] = (f, one, binary); return f
    return d

def real_model(X, y, L):
    m = r.choice([lambda: LogisticRegression(solver="liblinear"), lambda: DecisionTreeClassifier(max_depth=2), lambda: GaussianNB(), lambda: Model(len(np.unique(y[L])))])()
    return m.fit(X[L], y[L])

for _m in ("least_confident", "margin", "entropy"):
    strat("uncertainty_" + _m)(lambda X, y, tr, labs, _m=_m: (lambda s: lambda L, U, b, extra: s.select(L, U, model=extra.setdefault("model", None if r.random() < .4 else real_model(X, y, list(L))), **asked(r, b)))(QueryInstanceUncertainty(X, y, measure=_m)))
    strat("uncertainty_mat_" + _m)(lambda X, y, tr, labs, _m=_m: (lambda s: lambda L, U, b, extra: s.select_by_prediction_mat(U, extra.setdefault("pv", proba(len(U), r.choice([2, 3, 4]), r.choice(["int", "zeros", "list", "x"]))), **asked(r, b)))(QueryInstanceUncertainty(X, y, measure=_m)))
    strat("density_weighted_" + _m)(lambda X, y, tr, labs, _m=_m: (lambda s: lambda L, U, b, extra: s.select(L, U, model=extra.setdefault("model", real_model(X, y, list(L))), **asked(r, b)) if r.random() < .5 else s.select(L, U, proba_prediction=extra.setdefault("pv", proba(len(U), 3, "x")), **asked(r, b)))(QueryInstanceDensityWeighted(X, y, _m, r.choice(["cityblock", "cosine", "euclidean", "l1", "l2", "manhattan"]), r.choice([1.0, .5, 0, 2]))))

@strat("uncertainty_boundary")
def _(X, y, tr, labs):
    s = QueryInstanceUncertainty(X, y, measure="distance_to_boundary")
    def f(L, U, b, extra):
        if r.random() < .5:
            return s.select(L, U, model=extra.setdefault("model", Model(2)), **asked(r, b))
        d = np.random.rand(len(U)) - .5
        return s.select_by_prediction_mat(U, extra.setdefault("pv", d if r.random() < .5 else d.reshape(-1, 1)), **asked(r, b))
    return f

for _m in ("vote_entropy", "KL_divergence"):
    strat("qbc_" + _m)(lambda X, y, tr, labs, _m=_m: (lambda s: lambda L, U, b, extra: s.select(L, U, model=extra.setdefault("model", Model(len(np.unique(y))).fit(X, y)), **asked(r, b)))(QueryInstanceQBC(X, y, disagreement=_m)))
    strat("qbc_mat_" + _m)(lambda X, y, tr, labs, _m=_m: (lambda s: lambda L, U, b, extra: s.select_by_prediction_mat(U, extra.setdefault("pv", [proba(len(U), 3, "x") for _ in range(r.choice([2, 3, 4]))] if _m[0] == "K" else [np.eye(3, dtype=int)[np.random.randint(3, size=len(U))] for _ in range(3)] if r.random() < .5 else [np.random.randint(3, size=len(U)) for _ in range(4)]), **asked(r, b)))(QueryInstanceQBC(X, y, disagreement=_m)))

strat("random")(lambda X, y, tr, labs: (lambda s: lambda L, U, b, extra: s.select(L, U, **asked(r, b)))(QueryInstanceRandom(X, y)))
strat("random_old")(lambda X, y, tr, labs: (lambda s: lambda L, U, b, extra: s.select(L, U, **asked(r, b)))(QueryRandom(X, y)))
strat("eer")(lambda X, y, tr, labs: (lambda s: lambda L, U, b, extra: s.select(L, U, model=extra.setdefault("model", None if r.random() < .3 else real_model(X, y, list(L))), **asked(r, b)))(QueryExpectedErrorReduction(X, y)))
strat("quire", one=True, binary=True)(lambda X, y, tr, labs: (lambda s: lambda L, U, b, extra: s.select(L, U, **asked(r, b)) if r.random() < .5 else s.select(L, U))(QueryInstanceQUIRE(X if X.max() < 100 else X / 1e4, y, tr, kernel=r.choice(["rbf", "poly", "linear"]))))
strat("graph_density")(lambda X, y, tr, labs: (lambda s: lambda L, U, b, extra: s.select(L, U, **asked(r, b)))(QueryInstanceGraphDensity(X, y, tr, metric=r.choice(["manhattan", "euclidean"]))))
strat("coreset")(lambda X, y, tr, labs: (lambda s: lambda L, U, b, extra: s.select(L, U, **asked(r, b)))(QueryInstanceCoresetGreedy(X, y, tr, r.choice(["cityblock", "cosine", "euclidean", "l1", "l2", "manhattan"]))))
strat("bmdr", binary=True)(lambda X, y, tr, labs: (lambda s: lambda L, U, b, extra: s.select(L, U, **asked(r, b, 5)))(QueryInstanceBMDR(X, y, kernel=r.choice(["rbf", "linear"]))))
strat("spal", binary=True)(lambda X, y, tr, labs: (lambda s: lambda L, U, b, extra: s.select(L, U, **asked(r, b, 5)))(QueryInstanceSPAL(X, y, kernel=r.choice(["rbf", "linear"]), mu=r.choice([.1, 1]), lambda_init=r.choice([.1, 5]))))

@strat("lal", binary=True)
def _(X, y, tr, labs):
    s = QueryInstanceLAL(X, y, mode=r.choice(["LAL_iterative", "LAL_independent"]), cls_est=5, train_slt=False)
    s.model.n_jobs = 1
    s.train_selector_from_file("lal.npz", reg_est=8, reg_depth=5)
    return lambda L, U, b, extra: s.select(L, U, **asked(r, b))

def snap(*a):
    try: return pickle.dumps(a)
    except Exception: return repr(a)

def sel_of(v):
    v = list(np.asarray(v).reshape(-1)) if not isinstance(v, (list, tuple)) else list(v)
    return [int(x) for x in v]

def play(name, beh, scale):
    f, single, binary = STRATS[name]
    n = max(1, beh["n"] * scale + r.choice([0, 0, 1, -1]))
    while True:
        X, y, labs, L, U = mk_env(n)
        if not binary or len(labs) == 2: break
    tr = L + U
    r.shuffle(tr)
    trf = np.array(tr) if r.random() < .5 else list(tr)
    made = call(f, X, y, trf, labs, _timeout=60)
    init = dict(U=U, L=L, one=single)
    steps = []
    if not made.ok:
        w.trace(init, [dict(op="select", k="err", e="init:" + made.e, b=1, pool=U, sel=[], same=True)], name); return
    for op in beh["ops"]:
        if not U: break
        b = op["b"] if op["b"] <= 2 else max(1, len(U) + op["b"] - beh["n"])
        pool = list(U)
        if op["part"]: r.shuffle(pool); pool = pool[:(len(pool) + 1) // 2]
        form = r.choice(["col", "array", "list"])
        la, ua = conv(L, form if r.random() < .7 else "list"), conv(pool, form)
        ebox = []
        class Extra(dict):
            def setdefault(self, k, v):
                ebox.append((v, snap(v))); return v
        before = snap(X, y, list(la), list(ua), trf)
        res = call(lambda: sel_of(made.v(la, ua, b, Extra())), _timeout=60)
        same = before == snap(X, y, list(la), list(ua), trf) and all(snap(v) == s for v, s in ebox)
        steps.append(dict(res.rec(), op="select", b=b, pool=pool, sel=res.v if res.ok else [], same=same))
        if res.ok and op["move"]:
            steps.append(dict(op="label", sel=res.v))
            U = [x for x in U if x not in res.v]; L = L + [x for x in res.v if x not in L]
    w.trace(init, steps, name)

def jobs():
    names = sorted(STRATS)
    slow = {"eer": .4, "lal": .3, "qbc_vote_entropy": .5, "qbc_KL_divergence": .5}
    for name in names:
        k = int((300 if THOROUGH else 40) * slow.get(name, 1))
        for t in range(k): yield name, t
for i, (name, t) in enumerate(jobs()):
    if i % NS != shard: continue
    play(name, r.choice(behs), r.choice([1, 2, 3]) if t % 4 else 1)
w.close()
sys.stdout.flush()
os._exit(0)
