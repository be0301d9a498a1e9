"""C19: votes, IEthresh, CEAL and the baselines on enumerated behaviours and on random crowds (list or Oracles form)."""
import sys, os, pickle, math
from vlib import *
import vlib
behs = read(sys.argv[1])
NS = 6
shard = fork_shards(NS)
r = random.Random("%d-c19-%d" % (SEED, shard))
np.random.seed(SEED * 100 + shard)
w = Writer(vlib.OUT)
sys.stdout = open(os.devnull, "w")
import warnings
warnings.simplefilter("ignore")
from alipy.query_strategy import noisy_oracles as no
from alipy.query_strategy.noisy_oracles import *
from alipy.oracle import Oracle, Oracles
from alipy.index import IndexCollection

def snap(*a):
    try: return pickle.dumps(a)
    except Exception: return repr(a)
def txt(x): return str(plain(x))
def num(x, sc=1):
    x = float(x) * sc
    return int(x) if x == int(x) else 10 ** 6 + 7
CHARS = "abc"

# ---- 1. votes
def vote(labels, wt, tag):
    unit = 16 if wt is not None and any(x != int(x) for x in wt) else 1
    args = (list(labels), None if wt is None else list(wt))
    if r.random() < .3 and wt is not None: args = (args[0], np.array(wt))
    if r.random() < .3: args = (np.array(labels), args[1])
    b = snap(args)
    o = call(lambda: (lambda v: (num(v[0], unit), txt(v[1])))(majority_vote(*args) if wt is not None or r.random() < .5 else majority_vote(args[0])))
    w.trace(dict(n=1, names=["0"], ans=[], cost=[], eps=80),
            [dict(o.rec(), op="vote", labels=[txt(x) for x in labels], wt=[int(x * unit) for x in wt] if wt is not None else [1] * len(labels),
                  count=o.v[0] if o.ok else 0, label=o.v[1] if o.ok else "", same=snap(args) == b)], tag)
for i, x in enumerate(behs):
    if x["kind"] == "vote" and i % NS == shard:
        ls = x["labels"] if i % 2 else [CHARS[l - 1] for l in x["labels"]]
        vote(ls, x["w"] if r.random() < .8 else [k / 4 for k in x["w"]], "vote_enum")
        if all(k == 1 for k in x["w"]): vote(ls, None, "vote_enum")
for _ in range(200 if THOROUGH else 30):
    n = r.randrange(1, 10); L = [r.choice([-1, 1, 2, 0]) for _ in range(n)]
    vote(L, None if r.random() < .3 else [r.choice([0, 1, 1, 2, 5, r.randrange(1, 60)]) / 16 for _ in range(n)], "vote_rand")
for a in (([1, 0], [1]), ([1], [1, 2])):
    o = call(majority_vote, *a)
    w.trace(dict(n=1, names=["0"], ans=[], cost=[], eps=80), [dict(o.rec(), op="badvote")], "badvote")

# ---- crowds: ans[o][i], cost[o][i]
class Fickle(Oracle):
    """an oracle whose answers are kept in a table of the harness, and may change"""
    def query_by_index(self, indexes):
        one = not isinstance(indexes, (list, tuple, np.ndarray))
        ii = [indexes] if one else list(indexes)
        return [self.table[int(i)] for i in ii], [self.prices[int(i)] for i in ii]
class Crowd(object):
    def __init__(self, ans, cost, form, strs=False):
        self.ans, self.cost, self.form = ans, cost, form
        lab = (lambda v: CHARS[v % 3]) if strs else (lambda v: v)
        self.lab = lab
        os_ = [Oracle(labels=[lab(v) for v in a], cost=list(c)) for a, c in zip(ans, cost)]
        n = len(ans); self.list = os_
        if form == "list": self.names, self.o = list(range(n)), os_
        else:
            self.names = ["o%d" % k for k in range(n)]
            if r.random() < .3: r.shuffle(self.names)
            self.o = Oracles()
            for nm, x in zip(self.names, os_): self.o.add_oracle(nm, x)
    def init(self, eps=80):
        return dict(n=len(self.ans), names=[txt(x) for x in self.names], ans=[[txt(self.lab(v)) for v in a] for a in self.ans], cost=self.cost, eps=eps)
    def fickle(self):
        """give the oracles answers which can be changed"""
        for x, a, c in zip(self.list, self.ans, self.cost):
            x.__class__ = Fickle; x.table, x.prices = [self.lab(v) for v in a], list(c)
    def change(self, i, now):
        for x, v in zip(self.list, now): x.table[i] = self.lab(v)
        return dict(k="ok", op="change", i=i, now=[txt(self.lab(v)) for v in now])
    def paid(self): return 0 if self.form == "list" else self.o.cost_inall
def who(v):
    if not isinstance(v, (list, tuple, np.ndarray)): raise TypeError("not a list of oracles")
    return [txt(x) for x in v]
class Table(object):
    """a model whose prediction is a table from the instance's last feature"""
    def __init__(self, P): self.P = P
    def predict_proba(self, X): return np.array([self.P[int(x[-1])] for x in np.asarray(X)])
    def predict(self, X): return np.argmax(self.predict_proba(X), axis=1)

# ---- 2. IEthresh, enumerated
ies = [x for x in behs if x["kind"] == "ie"]
for i, x in enumerate(ies):
    if i % NS != shard or (not THOROUGH and (i // NS) % 4 != SEED % 4): continue
    perm = list(range(x["n"])); r.shuffle(perm); swap = r.random() < .5
    x["tab"] = [[3 - t[o] if swap else t[o] for o in perm] for t in x["tab"]]
    now = {}
    for i_, t in zip(x["asked"], x["tab"]): now.setdefault(i_, t)
    ni = max(x["asked"])
    c = Crowd([[now[k + 1][o] for k in range(ni)] for o in range(x["n"])], [[1] * ni for _ in range(x["n"])], r.choice(["list", "oracles"]))
    fixed = all(now[i_] == t for i_, t in zip(x["asked"], x["tab"]))
    if not fixed: c.fickle()
    X, y = np.zeros((ni, 2)), np.ones(ni, dtype=int)
    q = call(QueryNoisyOraclesIEthresh, X, y, c.o, [0], epsilon=x["eps"] / 100)
    st = []
    for a, t in zip(x["asked"], x["tab"]):
        if now[a] != t: st.append(c.change(a - 1, t)); now[a] = t
        o = call(lambda: who(q.v.select_by_given_instance(a - 1)))
        st.append(dict(o.rec(), op="iegiven", ins=[a - 1], who=o.v if o.ok else []))
    w.trace(c.init(x["eps"]), st, "ie_enum")
for t in range(100 if THOROUGH else 12):
    # longer runs over few instances with answers which change
    n, no_ = r.choice([1, 2, 3, 3, 5, 6]), r.randrange(2, 6)
    eps = r.choice([30, 50, 80, 90, 100])
    c = Crowd([[r.randrange(2) for _ in range(n)] for _ in range(no_)], [[1] * n for _ in range(no_)], r.choice(["list", "oracles"]), strs=r.random() < .3)
    c.fickle()
    q = call(QueryNoisyOraclesIEthresh, np.zeros((n, 2)), np.ones(n, dtype=int), c.o, [0], epsilon=eps / 100)
    st = []
    for _ in range(r.randrange(3, 9) if n < 4 else r.randrange(9, 15)):
        a = r.randrange(n)
        if r.random() < .5: st.append(c.change(a, [r.randrange(2) for _ in range(no_)]))
        o = call(lambda: who(q.v.select_by_given_instance(a)))
        st.append(dict(o.rec(), op="iegiven", ins=[a], who=o.v if o.ok else []))
    w.trace(c.init(eps), st, "ie_fickle")

# ---- 3. CEAL
def proba(m, K):
    """a row whose largest entry is m / 100"""
    if m == 100: v = [100] + [0] * (K - 1)
    else:
        v = [m]; rest = 100 - m
        for _ in range(K - 2):
            k = r.randrange(max(0, rest - m * (K - 2)), min(m, rest) + 1) if K > 2 else 0
            v.append(k); rest -= k
        v.append(rest)
        if max(v) != m: v = [m] + ([100 - m] + [0] * (K - 2))
    r.shuffle(v)
    return [a / 100 for a in v]
def pool(idx):
    f = r.random()
    return IndexCollection(list(idx)) if f < .3 else np.array(idx) if f < .6 else list(idx)
def ceal(coords, y, c, ini, lab, unl, pmax, nn, ec, exact, tag, K=3):
    P = {u: proba(m, K) for u, m in zip(unl, pmax)}
    X = np.array([list(p) + [i] for i, p in enumerate(coords)], dtype=float)
    Xd = np.array([list(p) for p in coords], dtype=float)
    ua, la = pool(unl), pool(lab)
    order = [int(v) for v in ua]
    lorder = [int(v) for v in la]
    pm = dict(zip(unl, pmax))
    yv = np.array([c.lab(v) for v in y])
    q = call(lambda: QueryNoisyOraclesCEAL(Xd, yv, c.o, pool(ini)))
    b, paid = snap(Xd, yv, list(ua), list(la)), c.paid()
    pred = [P[u] for u in order]
    kw = {}
    if nn != 10 or r.random() < .3: kw["n_neighbors"] = nn
    if ec or r.random() < .3: kw["eval_cost"] = ec
    if r.random() < .5:
        f = lambda: q.v.select_by_prediction_mat(la, ua, np.array(pred), **kw)
    else:
        class M(object):
            def predict_proba(s, Z):
                rows = []
                for z in np.asarray(Z):
                    rows.append(next(P[u] for u in order if list(Xd[u]) == list(z)))
                return np.array(rows)
        f = lambda: q.v.select(la, ua, model=M(), **kw)
    o = call(lambda: (lambda v: ([int(a) for a in v[0]], who(v[1])))(f()))
    sc = 1 if exact else 100
    dist = [[int(round(sc * math.hypot(*(a - b for a, b in zip(coords[u], coords[i]))))) for i in ini] for u in order]
    st = dict(o.rec(), op="ceal", ins=o.v[0] if o.ok else [], who=o.v[1] if o.ok else [], unl=order, lab=lorder, pmax=[pm[u] for u in order],
              nb=min(nn, len(ini) - 1), ec=ec, exact=exact, dist=dist, right=[[n + 1 for n, i in enumerate(ini) if a[i] == y[i]] for a in c.ans],
              good=[sum(a[i] == y[i] for i in lorder) for a in c.ans], same=snap(Xd, yv, list(ua), list(la)) == b, charged=c.paid() != paid)
    w.trace(c.init(), [st], tag)
ce = [x for x in behs if x["kind"] == "ceal"]
for i, x in enumerate(ce):
    if i % NS != shard or (not THOROUGH and (i // NS) % 8 != SEED % 8): continue
    ini = [0, 1, 2]
    a0 = [[1 if n + 1 in set(x["right"][o]) else 0 for n in range(3)] + [1, 1] for o in range(2)]
    c = Crowd(a0, [[x["cost"][o]] * 5 for o in range(2)], r.choice(["list", "oracles"]))
    # ini at 0, 4, 7; unlabeled at 1 and 9
    coords = [(0,), (4,), (7,), (1,), (9,)]
    ceal(coords, [1] * 5, c, ini, ini, [3, 4], x["pred"], x["nn"], x["ec"], True, "ceal_enum", K=2)
N = 400 if THOROUGH else 30
for t in range(N):
    exact = r.random() < .6
    ni, nu, no_ = r.randrange(2, 6), r.randrange(1, 5), r.randrange(1, 5)
    n = ni + nu
    for _ in range(200):
        if exact: coords = [(v,) for v in r.sample(range(30), n)]
        else: coords = r.sample([(a, b) for a in range(10) for b in range(10)], n)
        ids = list(range(n)); r.shuffle(ids)
        ini, unl = ids[:ni], ids[ni:]
        if all(len({sum((a - b) ** 2 for a, b in zip(coords[u], coords[i])) for i in ini}) == ni for u in unl): break
    else: continue
    y = [r.randrange(3) for _ in range(n)]
    acc = [r.choice([.3, .6, .9]) for _ in range(no_)]
    ans = [[v if r.random() < p else (v + r.randrange(1, 3)) % 3 for v in y] for p in acc]
    lo = 0 if exact else 1
    cost = [[r.randrange(lo, 6)] * n for _ in range(no_)]
    ec = r.random() < .4
    lab = list(ini) if r.random() < .5 else r.sample(ini, r.randrange(1, ni + 1))
    if not exact and ec and any(not any(a[i] == y[i] for i in lab) for a in ans): ec = False
    if not exact and len(lab) > 4: lab = lab[:4]
    if not exact and ec and any(not any(a[i] == y[i] for i in lab) for a in ans): ec = False
    ceal(coords, y, Crowd(ans, cost, r.choice(["list", "oracles"])), ini, lab, unl, [r.randrange(50, 101) for _ in unl], r.choice([1, 2, 3, 10]), ec, exact, "ceal_rand")

# ---- 4. the uncertainty based strategies, whole runs on one crowd; the answers of a crowd
for t in range(200 if THOROUGH else 40):
    n, no_ = r.randrange(4, 9), r.randrange(1, 6)
    kind = ["ie", "ie", "all", "random"][t % 4]
    ans = [[r.randrange(2 + t % 2) for _ in range(n)] for _ in range(no_)]
    cost = [[r.randrange(5) for _ in range(n)] for _ in range(no_)]
    c = Crowd(ans, cost, r.choice(["list", "oracles"]), strs=r.random() < .3)
    X = np.array([[r.randrange(9), i] for i in range(n)], dtype=float); y = np.array([i % 2 for i in range(n)])
    eps = r.choice([10, 50, 80, 80, 95, 100])
    lab, unl = list(range(2)), list(range(2, n))
    if kind == "ie": q = call(lambda: QueryNoisyOraclesIEthresh(X, y, c.o, pool(lab), epsilon=eps / 100) if eps != 80 else QueryNoisyOraclesIEthresh(X, y, c.o, pool(lab)))
    elif kind == "all": q = call(lambda: QueryNoisyOraclesAll(c.o, X=X, y=y) if r.random() < .7 else QueryNoisyOraclesAll(c.o))
    else: q = call(lambda: QueryNoisyOraclesRandom(oracles=c.o, X=X, y=y))
    st = []
    while unl and len(st) < 6:
        pmax = {u: r.choice([50, 60, 70, 90, 100]) if r.random() < .5 else r.randrange(50, 101) for u in unl}
        P = {u: proba(m, 3) for u, m in pmax.items()}
        ua, la = pool(unl), pool(lab)
        order = [int(v) for v in ua]
        b, paid = snap(X, y, list(ua), list(la)), c.paid()
        if q.ok and q.v.X is not None and r.random() < .5: f = lambda: q.v.select(la, ua, model=Table(P))
        else: f = lambda: q.v.select_by_prediction_mat(la, ua, np.array([P[u] for u in order]))
        o = call(lambda: (lambda v: ([int(a) for a in v[0]], who(v[1])))(f()))
        st.append(dict(o.rec(), op=kind, ins=o.v[0] if o.ok else [], who=o.v[1] if o.ok else [], unl=order, pmax=[pmax[u] for u in order],
                       same=snap(X, y, list(ua), list(la)) == b, charged=c.paid() != paid))
        u = o.v[0][0] if o.ok and o.v[0] and o.v[0][0] in unl else unl[0]
        # the answers of the chosen oracles, of everybody, or of a stranger
        nm = r.choice(["chosen", "all", "some", "stranger"])
        names = None if nm == "all" else list(c.names) if nm == "some" and r.random() < .3 else r.sample(c.names, r.randrange(1, len(c.names) + 1))
        if nm == "chosen" and o.ok: names = [x for x in c.names if txt(x) in o.v[1]] or names
        if nm == "stranger" and r.random() < .5: names = names + ([99] if c.form == "list" else ["nobody"])
        ask = [u] if r.random() < .6 else u
        nl = [txt(x) for x in (c.names if names is None else names)]
        if r.random() < .5:
            g = call(lambda: (lambda v: ([txt(a) for a in v[0]], [num(a) for a in v[1]]))(get_query_results(ask, c.o, names) if names is not None or r.random() < .5 else get_query_results(ask, c.o)))
            st.append(dict(g.rec(), op="results", i=u, names=nl, labels=g.v[0] if g.ok else [], costs=g.v[1] if g.ok else []))
        else:
            p0 = c.paid()
            g = call(lambda: (lambda v: (num(v[0]), txt(v[1]), num(v[2])))(get_majority_vote(ask, c.o, names)))
            st.append(dict(g.rec(), op="mvote", i=u, names=nl, count=g.v[0] if g.ok else 0, label=g.v[1] if g.ok else "", cost=g.v[2] if g.ok else 0,
                           crowd=c.form != "list", charge=num(c.paid() - p0)))
        if r.random() < .85: unl.remove(u); lab.append(u)
    w.trace(c.init(eps), st, kind)
# ---- the random strategy can choose every oracle
for t in range(4 if THOROUGH else 1):
    c = Crowd([[0, 1, 0]] * 3, [[1] * 3] * 3, ["list", "oracles"][(shard + t) % 2])
    q = call(lambda: QueryNoisyOraclesRandom(oracles=c.o))
    seen = set()
    for _ in range(80):
        o = call(lambda: who(q.v.select_by_given_instance(1)))
        if o.ok: seen |= set(o.v)
    w.trace(c.init(), [dict(op="reach", k="ok", seen=sorted(seen))], "reach")
for bad in ({"a": 1}, "oracles", 3):
    o = call(lambda: QueryNoisyOraclesAll(bad))
    g = call(lambda: get_query_results(0, bad))
    w.trace(dict(n=1, names=["0"], ans=[], cost=[], eps=80), [dict(o.rec(), op="badcrowd"), dict(g.rec(), op="badcrowd")], "badcrowd")
w.close(); sys.stdout.flush(); os._exit(0)
