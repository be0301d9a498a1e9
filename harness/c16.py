"""C16: the multi-label query strategies on chosen pools and histories, and their rules on exact inputs."""
import sys, os, pickle
from vlib import *
import vlib
behs = read(sys.argv[1])
NS = 6
shard = fork_shards(NS)
os.mkdir("shard%d" % shard); os.chdir("shard%d" % shard)
r = random.Random("%d-c16-%d" % (SEED, shard))
np.random.seed(SEED * 100 + shard)
w = Writer(vlib.OUT)
sys.stdout = open(os.devnull, "w")
import warnings
warnings.simplefilter("ignore")
from alipy.query_strategy.multi_label import *
from alipy.query_strategy.query_type import QueryTypeAURO
from alipy.index import IndexCollection, MultiLabelIndexCollection
from sklearn.linear_model import LogisticRegression
from sklearn.tree import DecisionTreeClassifier
from sklearn.svm import SVC

def pl(v):
    """selections as lists of lists of ints"""
    out = []
    for q in (v if isinstance(v, (list, tuple)) else [None]):
        if isinstance(q, (tuple, list)): out.append([int(x) for x in q])
        else: raise TypeError("not a list of tuples: %r" % (v,))
    if not isinstance(v, (list, tuple)): raise TypeError("not a list")
    return out
def form_pairs(ps, k, N, form):
    ps = [tuple(p) for p in ps]
    if form == "col": return MultiLabelIndexCollection(ps, k)
    if form == "list": return list(ps)
    one = [i + l * N for i, l in ps]
    return np.array(one, dtype=int) if form == "array" else one
def form_ins(ii, form): return IndexCollection(ii) if form == "icol" else np.array(ii, dtype=int) if form == "array" else list(ii)
def listing(c): return [tuple(x) if isinstance(x, tuple) else int(x) for x in c]
def snap(*a):
    try: return pickle.dumps(a)
    except Exception: return repr(a)

def play(beh):
    k = beh["k"]; scale = r.choice([1, 1, 2])
    nl = r.choice([3, 4, 5])
    rows = {}
    for i, l in beh["u"]:
        rows.setdefault(i, []).append(l)
    n = beh["n"] * scale
    N = n + nl
    ids = list(range(N)); r.shuffle(ids)
    X = np.random.rand(N, 3)
    if r.random() < .2: X = X[np.random.randint(0, 4, size=N)]
    neg = r.choice([0, -1])
    y = np.random.choice([neg, 1], size=(N, k))
    full = ids[n:]
    # every label both ways among the known instances, most of the time
    if r.random() < .8:
        y[full[0]], y[full[1]] = 1, neg
        y[full[1], r.randrange(k)] = 1
    U = []
    for j in range(n):
        for l in rows.get(j % beh["n"] + 1, []): U.append((ids[j], l))
    r.shuffle(U)
    L = [(i, l) for i in ids for l in range(k) if (i, l) not in set(U)]
    r.shuffle(L)
    ml = neg == -1
    strs = {}
    mm = lambda: QueryMultiLabelMMC(X, y, base_clf=r.choice([None, LogisticRegression(solver="liblinear"), DecisionTreeClassifier(max_depth=2)])) if r.random() < .7 else QueryMultiLabelMMC(X, y, random_state=3)
    ad = lambda: QueryMultiLabelAdaptive(X, y) if r.random() < .5 else QueryMultiLabelAdaptive(X, y, base_clf=SVC(kernel="linear"), betas=[0., .5, 1.], random_state=1)
    pick = {"pair": ["quire", "quire"] + (["audi"] if ml else []), "pairs": ["random"], "ins": ["random"] + ([] if ml else ["mmc", "adaptive"]), "auro": ["auro"]}
    gv = lambda: (X.tolist(), y.tolist()) if r.random() < .15 else (X, y)       # data may be given as lists
    mk = dict(quire=lambda: QueryMultiLabelQUIRE(*gv(), kernel=r.choice(["rbf", "poly", "linear"])), audi=lambda: QueryMultiLabelAUDI(*gv()), random=lambda: QueryMultiLabelRandom(*gv()), mmc=mm, adaptive=ad, auro=lambda: QueryTypeAURO(*gv()))
    steps, used = [], []
    for op in beh["ops"]:
        kind = op["kind"]
        if not U: break
        if kind == "auro":
            c = {}
            for i, l in U: c[i] = c.get(i, 0) + 1
            if not ml or max(c.values()) < 2: continue
        name = r.choice(pick[kind])
        if name not in strs or r.random() < .3:
            strs[name] = call(mk[name], _timeout=60)
        s = strs[name]
        used.append(name)
        b = op["b"] if op["b"] <= 2 else len(U) + r.choice([-1, 0, 1, 3])
        b = max(1, b)
        form = r.choice(["col", "list", "array", "flat"])
        pool = list(U)
        if name in ("mmc", "adaptive"):
            form = r.choice(["col", "icol", "array", "list"])
            W = [i for i in sorted(set(i for i, _ in U)) if sum(1 for q in U if q[0] == i) == k]
            F = [i for i in ids if all(q[0] != i for q in U)]
            if len(F) < 3: continue
            if form != "col":
                r.shuffle(W)
                la, ua = form_ins(F, form), form_ins(W, form)
            else: la, ua = form_pairs(L, k, N, form), form_pairs(U, k, N, form)
        else:
            la, ua = form_pairs(L, k, N, form), form_pairs(U, k, N, form)
        if not s.ok:
            steps.append(dict(op="select", kind=kind, k="err", e="init:" + s.e, b=b, pool=pool, sel=[], same=True)); break
        before = snap(X, y, listing(la), listing(ua))
        if kind == "auro":
            res = call(lambda: [int(x) for x in s.v.select(la, ua)], _timeout=60)
        elif name == "random":
            res = call(lambda: pl(s.v.select(la, ua, select_type="ins" if kind == "ins" else "ins-lab", **asked(r, b))), _timeout=60)
        elif kind == "pair": res = call(lambda: pl(s.v.select(la, ua)), _timeout=60)
        else: res = call(lambda: pl(s.v.select(la, ua, **asked(r, b))), _timeout=60)
        same = before == snap(X, y, listing(la), listing(ua))
        steps.append(dict(res.rec(), op="select", kind=kind, b=b, pool=pool, sel=res.v if res.ok else [], same=same))
        if not res.ok: break
        got = [(res.v[0], res.v[1]), (res.v[0], res.v[2])] if kind == "auro" else [(q[0], l) for q in res.v for l in (range(k) if len(q) == 1 else [q[1]])]
        U = [q for q in U if q not in got]; L = L + [q for q in got if q not in L]
    if steps: w.trace(dict(k=k), steps, "play_" + "+".join(sorted(set(used))))

class LRM(LabelRankingModel):
    """A trained label-ranking model with known outputs."""
    def __init__(self, ids, pres, labels):
        LabelRankingModel.__init__(self)
        self._init_flag = True
        self.t = ids, np.asarray(pres, dtype=float), np.asarray(labels, dtype=float)
    def fit(self, *a, **k): pass
    def predict(self, X):
        rows = [self.t[0].index(int(x[0])) for x in X]
        return self.t[1][rows].copy(), self.t[2][rows].copy()

def pool_of(N, k, known):
    U = [(i, l) for i in range(N) for l in range(k) if r.random() < .6 and i not in known]
    r.shuffle(U)
    return U

def rule_rank():
    N, k = r.choice([4, 5, 7]), r.choice([2, 3, 4])
    known = r.sample(range(N), r.choice([1, 2]))
    U = pool_of(N, k, known)
    if not U: return
    L = [(i, l) for i in range(N) for l in range(k) if (i, l) not in U]
    X = np.column_stack((np.arange(N), np.random.rand(N))).astype(float)
    y = np.random.choice([-1, 1], size=(N, k))
    pres = [r.sample(range(-9, 10), k + 1) if r.random() < .5 else [r.randrange(-3, 4) for _ in range(k + 1)] for _ in range(N)]
    labels = [[1 if p[l] > p[k] else -1 for l in range(k)] for p in pres]
    fl = [i for i in range(N) if all((i, l) not in U for l in range(k))]
    form = r.choice(["col", "list", "array"])
    m = LRM(list(range(N)), pres, labels)
    ids = sorted(set(i for i, _ in U))
    la, ua = form_pairs(L, k, N, form), form_pairs(U, k, N, form)
    base = dict(pool=U, n=len(ids), ids=ids, pres=[pres[i] for i in ids])
    res = call(lambda: pl(QueryMultiLabelAUDI(X, y).select(la, ua, model=m)))
    w.trace(dict(k=k), [dict(res.rec(), op="audi", sel=res.v if res.ok else [], card=[labels[i].count(1) for i in ids], tot=int((y[fl] == 1).sum()), cnt=len(fl), **base)], "rule_audi")
    if r.random() < .2:                                # one entry left: that is the one to ask for
        q = r.choice(U)
        one = form_pairs([q], k, N, r.choice(["col", "list"]))
        res = call(lambda: pl(list(listing(QueryTypeAURO(X, y).select(la, one, model=r.choice([m, None]))))))
        w.trace(dict(k=k), [dict(res.rec(), op="select", kind="pair", b=1, pool=[q], sel=res.v if res.ok else [], same=True)], "rule_auro")
    if max(sum(1 for q in U if q[0] == i) for i in ids) > 1:
        res = call(lambda: [int(x) for x in QueryTypeAURO(X, y).select(la, ua, model=m)])
        w.trace(dict(k=k), [dict(res.rec(), op="select", kind="auro", b=1, pool=U, same=True, sel=res.v if res.ok else []),
                            dict(res.rec(), op="auro", sel=res.v if res.ok else [], **base)], "rule_auro")

def rule_quire():
    N, k = r.choice([3, 4, 5]), r.choice([1, 2, 3])
    X = np.random.randint(0, 2, size=(N, 2)) if r.random() < .6 else np.random.randint(-1, 2, size=(N, 2))
    y = np.random.choice([-1, 1], size=(N, k))
    S = []
    for l in range(k):
        S += [(i, l) for i in r.sample(range(N), r.randrange(0, min(3, N - 1) + 1))]
    if not S: return
    r.shuffle(S)
    U = [(i, l) for i in range(N) for l in range(k) if (i, l) not in S]
    if not U: return
    r.shuffle(U)
    lam = r.choice([1, 1, 2])
    form = r.choice(["col", "list", "array"])
    la, ua = form_pairs(S, k, N, form), form_pairs(U, k, N, form)
    res = call(lambda: pl(QueryMultiLabelQUIRE(X.astype(float), y, kernel="linear", **{"lambda": lam}).select(la, ua)))
    st = [dict(res.rec(), op="quire", X=X.tolist(), Y=y.tolist(), S=S, lam=lam, pool=U, sel=res.v if res.ok else [])]
    Z = np.random.rand(N, 2)
    q = QueryMultiLabelQUIRE(Z, y)
    S2, U2 = r.sample(S, len(S)), r.sample(U, len(U))
    o1 = call(lambda: pl(q.select(la, ua)))
    o2 = call(lambda: pl(q.select(form_pairs(S2, k, N, r.choice(["list", "col", "array"])), form_pairs(U2, k, N, r.choice(["list", "col", "array"])))))
    st.append(dict(k="ok" if o1.ok and o2.ok else "err", op="order", sel=o1.v if o1.ok else [], sel2=o2.v if o2.ok else []))
    w.trace(dict(k=k), st, "rule_quire")

class Known(object):
    """Known outputs: the label is recognised by its values on the instances F, the outputs depend on the other instances it was trained on."""
    def __init__(self, F, y, tab, h): self.F, self.y, self.tab, self.h = F, y, tab, h
    def which(self, X, y):
        got = {int(x[0]): int(v) for x, v in zip(X, y)}
        l = [t for t in range(self.y.shape[1]) if len(set(self.y[self.F, t])) > 1 and all(got[i] == self.y[i, t] for i in self.F)]
        assert len(l) == 1
        return l[0], sum(i for i in got if i not in self.F)
    def out(self, ls, X): return np.array([float(self.tab[ls[0]][(self.h[0] * int(x[0]) + self.h[1] * ls[1]) % 13]) for x in X])
class Col(object):
    def __init__(self, k): self.k = k
    def fit(self, X, y): self.l = self.k.which(X, y); return self
    def predict_proba(self, X):
        p = self.k.out(self.l, X) / 8.
        return np.column_stack((1 - p, p))
    def predict(self, X): return (self.k.out(self.l, X) > 4).astype(int)
class LCol(LogisticRegression):
    def __init__(self, k=None): LogisticRegression.__init__(self); self.k = k
    def fit(self, X, y): self.l = self.k.which(X, y); return self
    def decision_function(self, X): return self.k.out(self.l, X) / 2
    def predict(self, X): return (self.decision_function(X) > 0).astype(int)

def rule_ins():
    k = r.choice([2, 3, 4]); n = r.choice([2, 3, 5]); nl = k + 1
    N = n + nl
    ids = list(range(N)); r.shuffle(ids)
    F, W = ids[:nl], ids[nl:]
    X = np.column_stack((np.arange(N), np.random.rand(N))).astype(float)
    y = np.zeros((N, k), dtype=int)
    # a cyclic pattern, so that the columns differ and every instance has the same number of labels
    c = r.randrange(1, k)
    base = [1] * c + [0] * (k - c)
    for j, i in enumerate(F + W): y[i] = base[-(j % k):] + base[:-(j % k)] if j % k else base
    const = None
    if r.random() < .4:
        const = r.randrange(k + 1); v = r.choice([0, 1])
        y = np.insert(y, const, v, axis=1); c += v; k += 1
    if len(set(tuple(y[F, l]) for l in range(k))) < k: return
    if r.random() < .5: F = r.sample(F, len(F))
    fl, pw = form_ins(F, r.choice(["list", "icol"])), form_ins(W, r.choice(["list", "array", "icol"]))
    h = [r.randrange(1, 13), r.randrange(1, 13)]
    P = [[r.randrange(0, 9) for _ in range(13)] for _ in range(k)]
    R = [[r.choice([-4, -3, -2, -1, 1, 2, 3, 4]) for _ in range(13)] for _ in range(k)]
    if const is not None: P[const] = [8 * v] * 13; R[const] = [4 * v - 2] * 13
    b = r.choice([1, 1, 2, len(W) - 1])
    if b >= len(W): b = len(W) - 1
    base = dict(ids=W, b=b, h=h, pool=[(i, l) for i in W for l in range(k)])
    res = call(lambda: pl(QueryMultiLabelMMC(X, y, base_clf=Col(Known(F, y, P, h))).select(fl, pw, **asked(r, b))))
    st = [dict(res.rec(), op="mmc", sel=res.v if res.ok else [], tab=P, c=c, **base)]
    res = call(lambda: pl(QueryMultiLabelAdaptive(X, y, base_clf=LCol(Known(F, y, R, h)), betas=[0., 1.]).select(fl, pw, **asked(r, b))))
    st.append(dict(res.rec(), op="adaptive", sel=res.v if res.ok else [], tab=R, c=c, **base))
    # one selection of the sequence, asked for directly
    form = r.choice([list, lambda v: np.array(v, dtype=int), IndexCollection, lambda v: MultiLabelIndexCollection([(i, l) for i in v for l in range(k)], k)])
    one = dict(base, b=1); W1 = W if r.random() < .7 else W[:1]; one.update(ids=W1, pool=[(i, l) for i in W1 for l in range(k)])
    for op, tab, q in (("mmc", P, lambda: QueryMultiLabelMMC(X, y, base_clf=Col(Known(F, y, P, h)))), ("adaptive", R, lambda: QueryMultiLabelAdaptive(X, y, base_clf=LCol(Known(F, y, R, h)), betas=[0., 1.]))):
        res = call(lambda: [(int(q().sequential_select(form(F), form(W1))),)])
        st.append(dict(res.rec(), op=op, sel=res.v if res.ok else [], tab=tab, c=c, **one))
    w.trace(dict(k=k), st, "rule_ins")

def rank_model():
    """A label ranking model which is fitted again: what it predicts depends on what it was fitted on since it (re)started"""
    N, k = 8, 3
    D = [(np.random.rand(N, 2), np.random.choice([-1, 1], size=(N, k))) for _ in range(3)]
    Z = np.random.rand(5, 2)
    for d in D: d[1][0], d[1][1] = 1, -1
    start = r.random() < .5
    seed = lambda d, n: np.random.seed(100 * d + n)
    if start: np.random.seed(7)
    m = LabelRankingModel(D[0][0], D[0][1], n_repeat=2) if start else LabelRankingModel()
    table, steps = [], []
    for t in range(r.randrange(3, 6)):
        d, n, inc = r.randrange(3), r.choice([1, 2]), r.random() < .4
        seed(d, n)
        o = call(lambda: m.fit(D[d][0], D[d][1], n_repeat=n, is_incremental=inc))
        p = call(lambda: [np.asarray(v).tolist() for v in m.predict(Z)])
        p2 = call(lambda: [np.asarray(v).tolist() for v in m.predict(Z)])
        if not (o.ok and p.ok and p2.ok): steps.append(dict((p if o.ok else o).rec(), op="fit", d=d, n=n, inc=inc, out=-1, again=-1)); break
        for v in (p.v, p2.v):
            if v not in table: table.append(v)
        steps.append(dict(op="fit", k="ok", d=d, n=n, inc=inc, out=table.index(p.v), again=table.index(p2.v)))
    w.trace(dict(k=k, start=start), steps, "rank_model")

def cover():
    k = r.choice([2, 3]); N = 3
    U = [(i, l) for i in range(N) for l in range(k) if i == 2 or r.random() < .7]
    ua = form_pairs(U, k, N, r.choice(["col", "list", "array"]))
    s = QueryMultiLabelRandom(np.random.rand(N, 2), np.ones((N, k), dtype=int))
    st = []
    for kind in ("ins", "ins-lab"):
        o = call(lambda: sorted(set(tuple(q) for _ in range(400) for q in pl(s.select(None, ua, batch_size=1, select_type=kind)))))
        st.append(dict(o.rec(), op="cover", kind=kind, pool=U, seen=[list(q) for q in o.v] if o.ok else []))
    w.trace(dict(k=k), st, "cover")

reps = 8 if THOROUGH else 1
for t in range(120 * reps): play(r.choice(behs))
for t in range(45 * reps): rule_rank(); rule_quire(); rule_ins()
for t in range(3): cover()
for t in range(4 * reps): rank_model()
w.close()
sys.stdout.flush()
os._exit(0)
