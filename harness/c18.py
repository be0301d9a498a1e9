"""C18: feature acquisition and matrix completion, each run twice on data that differ in the hidden entries only."""
import sys, os, pickle
from vlib import *
import vlib
behs = read(sys.argv[1])
NS = 6
shard = fork_shards(NS)
r = random.Random("%d-c18-%d" % (SEED, shard))
np.random.seed(SEED * 100 + shard)
w = Writer(vlib.OUT)
sys.stdout = open(os.devnull, "w")
import warnings
warnings.simplefilter("ignore")
from alipy.query_strategy.query_features import *
from alipy.index import MultiLabelIndexCollection

def pl(v):
    if not isinstance(v, (list, tuple)): raise TypeError("not a list")
    out = []
    for q in v:
        if not isinstance(q, (list, tuple)): raise TypeError("not a pair")
        out.append([int(x) for x in q])
    return out
def form_pairs(ps, k, N, form):
    ps = [tuple(p) for p in ps]
    if form == "col": return MultiLabelIndexCollection(ps, k)
    if form == "list": return list(ps)
    one = [i + l * N for i, l in ps]
    return np.array(one, dtype=int) if form == "array" else one
def listing(c): return [tuple(x) if isinstance(x, tuple) else int(x) for x in c]
def snap(*a):
    try: return pickle.dumps(a)
    except Exception: return repr(a)
def scaled(M):
    def one(x):
        x = float(x)
        return int(round(x * 1000)) if abs(x) < 2e6 else 2 * 10 ** 9
    return [[one(x) for x in row] for row in np.asarray(M)]

def garble(X, mask, nan):
    Y = np.array(X, dtype=float)
    hid = np.asarray(mask) == 0
    Y[hid] = np.nan if nan else Y[hid] + np.random.randint(1, 50, size=hid.sum()) * np.random.choice([-1, 1], size=hid.sum())
    return Y

def rand_mask(n, f):
    while True:
        m = (np.random.rand(n, f) < r.choice([.3, .6, .8])).astype(int)
        if 0 < m.sum() < n * f: return m

def complete():
    n, f = r.choice([4, 5, 8]), r.choice([3, 4, 6])
    X = np.random.randint(-3, 10, size=(n, f))
    mask = rand_mask(n, f)
    y = np.random.randint(0, 2, size=n)
    if mask.sum(axis=0).min() == 0: return
    conv = lambda a: a.tolist() if r.random() < .3 else np.array(a)
    fn = r.choice(["mask", "mask", "omega", "svd", "svd", "svd"])
    lo, hi = -2 * 10 ** 9, 2 * 10 ** 9
    seed = r.randrange(10 ** 6)
    if fn == "svd":
        kw = dict(rank=r.randrange(1, min(n, f)), max_iters=r.choice([5, 40]), gradual_rank_increase=r.random() < .5)
        if r.random() < .5:
            a, b = r.choice([(0, 5), (None, 0), (-2, 0), (0, None), (2, None), (None, 4)])
            if a is not None: lo = 1000 * a
            if b is not None: hi = 1000 * b
            kw.update(min_value=a, max_value=b)
        run = lambda A: IterativeSVD_mc(**kw).impute(A, observed_mask=conv(mask))
    else:
        kw = dict(lambda1=r.choice([1, .1]), lambda2=r.choice([1, .5]), max_in_iter=r.choice([3, 30]), max_out_iter=r.choice([2, 5]))
        obs = [(i, j) for i in range(n) for j in range(f) if mask[i, j]]
        form = r.choice(["col", "list", "array"])
        run = lambda A: AFASMC_mask_mc(A, y, conv(mask), **kw) if fn == "mask" else AFASMC_mc(A, y, form_pairs(obs, f, n, form), **kw)
    A, B = X.astype(float), garble(X, mask, r.random() < .4)
    before = snap(A, mask)
    real = []
    def go(M):
        np.random.seed(seed)
        v = run(M); real.append(bool(np.isrealobj(np.asarray(v))))
        return scaled(v)
    o1 = call(lambda: go(A)); same = before == snap(A, mask)
    o2 = call(lambda: go(B))
    st = [dict(o1.rec(), op="complete", X=X.tolist(), mask=mask.tolist(), out=o1.v if o1.ok else [], out2=o2.v if o2.ok else [], k2=o2.k, lo=lo, hi=hi, same=same, real=all(real))]
    if fn != "svd":
        o3 = call(lambda: scaled(AFASMC_mask_mc(A, y, mask, **kw)))
        o4 = call(lambda: scaled(AFASMC_mc(A, y, form_pairs(obs, f, n, r.choice(["col", "list", "array"])), **kw)))
        st.append(dict(k="ok" if o3.ok and o4.ok else "err", op="forms", out=o3.v if o3.ok else [], out2=o4.v if o4.ok else []))
    w.trace({}, st, "complete_" + fn)

def optimum():
    f = r.choice([3, 3, 4]); q = r.choice([1, 2]); x = r.randrange(1, 5 if f == 3 else 3); y = r.randrange(0, 3); L1, L2 = r.choice([1, 2]), r.choice([1, 2, 4])
    n = q * q * f
    mask = np.ones((n, f), dtype=int); mask[range(n), [i % f for i in range(n)]] = 0
    X = np.where(mask == 1, float(x), np.random.randint(-5, 6, size=(n, f)))
    kw = dict(lambda1=L1 / 2, lambda2=L2 / 2, max_in_iter=500, max_out_iter=2)
    if L1 == 2 and r.random() < .5: del kw["lambda1"]
    if L2 == 2 and r.random() < .5: del kw["lambda2"]
    o = call(lambda: [scaled([[Z[i, i % f] for i in range(n)]])[0] for Z in [AFASMC_mask_mc(X, np.full(n, y), mask, **kw)]][0], _timeout=60)
    st = [dict(o.rec(), op="same", f=f, q=q, x=x, y=y, L1=L1, L2=L2, out=o.v if o.ok else [])]
    n, f = r.randrange(4, 7), r.choice([1, 2, 2])
    X = np.random.randint(0, 4, size=(n, f)); y = np.random.randint(0, 2, size=n); mask = np.ones((n, f), dtype=int)
    for i in r.sample(range(n), 2): mask[i, r.randrange(f)] = 0
    o = call(lambda: scaled(AFASMC_mask_mc(X.astype(float), y, mask, lambda1=0, lambda2=n, max_in_iter=1000, max_out_iter=2)), _timeout=60)
    st.append(dict(o.rec(), op="fit", X=X.tolist(), y=y.tolist(), mask=mask.tolist(), out=o.v if o.ok else []))
    n, f = r.randrange(3, 6), r.randrange(3, 6)
    X = np.outer([r.randrange(1, 4) for _ in range(n)], [r.randrange(1, 4) for _ in range(f)]).astype(float)
    mask = np.ones((n, f), dtype=int)
    for _ in range(r.randrange(1, 4)): mask[r.randrange(n), r.randrange(f)] = 0
    if mask.sum(axis=0).min() > 1 and mask.sum(axis=1).min() > 1 and mask.min() == 0:
        kw = {} if r.random() < .5 else dict(gradual_rank_increase=False)
        o = call(lambda: scaled(IterativeSVD_mc(rank=1, convergence_threshold=1e-12, max_iters=2000, **kw).impute(np.where(mask == 1, X, 77.), mask)), _timeout=60)
        st.append(dict(o.rec(), op="rankone", out=o.v if o.ok else []))
    w.trace({}, st, "optimum")

def scores(hist, cand):
    v = np.var(np.array(hist), axis=0)
    v = np.array([v[i, j] for i, j in cand])
    if not np.all(np.isfinite(v)) or v.max() < 1e-9: return []
    return [int(x) for x in np.round(v / v.max() * 10 ** 6)]

def play(beh, name):
    """One strategy object and its twin, which sees other values in the hidden cells."""
    sn, sf = r.choice([2, 3]), r.choice([1, 2])
    n, f = beh["n"] * sn, beh["f"] * sf
    ranks = r.choice([[1, 2, 3], [1, 2], [2], [1, 4], [4, 2, 3], [2, 5, 1]])
    if name == "stability": n, f = max(n, max(ranks) + 2), max(f, max(ranks) + 1)
    extra = r.choice([0, 2])
    N = n + extra
    X = np.random.rand(N, f) if r.random() < .7 else np.random.randint(0, 5, size=(N, f)).astype(float)
    y = np.random.randint(0, 2, size=N)
    tr = list(range(N)); r.shuffle(tr); tr = tr[:n]
    H = [(tr[i], j) for i in range(n) for j in range(f) if [i % beh["n"] + 1, j % beh["f"] + 1] in beh["h"]]
    O = [(i, j) for i in tr for j in range(f) if (i, j) not in H]
    r.shuffle(H)
    if any(all(q[1] != j for q in O) for j in range(f)): return
    X2 = X.copy()
    for i, j in H: X2[i, j] += r.choice([-7, 3, 11])
    tri = r.choice([list(tr), np.array(tr), None]) if name != "random" else None
    if tri is None and name != "random":
        if any(all(q[0] != i for q in O + H) for i in tr): return
        order = sorted(tr)
    else: order = list(tr)
    bymask = name != "random" and tri is not None and r.random() < .4
    kw = dict(max_in_iter=5, max_out_iter=2) if name == "afasmc" else {}
    mk = dict(afasmc=lambda A: QueryFeatureAFASMC(A, y, train_idx=tri), stability=lambda A: QueryFeatureStability(A, y, train_idx=tri, rank_arr=ranks), random=lambda A: QueryFeatureRandom(A, y))[name]
    s1, s2 = call(mk, X), call(mk, X2)
    steps, hist = [], []
    ops = list(beh["ops"])
    if name == "afasmc" and r.random() < .6: ops += [o for _ in range(2) for o in r.choice(behs)["ops"]]
    for op in ops:
        if not H or (bymask and not O): break
        b = op["b"] if op["b"] <= 2 else len(H) + r.choice([-1, 0, 2])
        b = max(1, b)
        pool = H[:(len(H) + 1) // 2] if op["part"] and not bymask else list(H)
        # without training indexes the instances are those which are mentioned
        if tri is None and any(all(q[0] != i for q in O + pool) for i in tr): pool = list(H)
        form = r.choice(["col", "list", "array"])
        seed = r.randrange(10 ** 6)
        mask = [[1 if (i, j) in O else 0 for j in range(f)] for i in order]
        oa, pa = form_pairs(O, f, N, form), form_pairs(pool, f, N, form)
        def go(s):
            np.random.seed(seed)
            if bymask: return [[order[q[0]], q[1]] for q in pl(s.select_by_mask(mask, **kw))]
            if name == "random": return pl(s.select(oa, pa, **asked(r, b)))
            return pl(s.select(oa, pa, **kw))
        if not (s1.ok and s2.ok):
            steps.append(dict(op="select", k="err", e="init", sel=[], sel2=[], pool=pool, b=b, one=True, same=True, scores=[], least=0)); break
        before = snap(X, y, listing(oa), listing(pa), mask)
        o1 = call(lambda: go(s1.v), _timeout=60); same = before == snap(X, y, listing(oa), listing(pa), mask)
        o2 = call(lambda: go(s2.v), _timeout=60)
        sc = []
        if len(pool) > 1 or bymask:
            if name == "afasmc":
                c = call(lambda: AFASMC_mask_mc(X[order], y[order], np.array(mask), check_para=False, **kw))
                if c.ok: hist.append(c.v)
                if len(hist) > 1: sc = scores(hist, [(order.index(i), j) for i, j in pool])
            if name == "stability" and len(ranks) > 1:
                def com():
                    np.random.seed(seed)
                    return [IterativeSVD_mc(rank=k).impute(X[order], np.array(mask)) for k in ranks]
                c = call(com)
                if c.ok: sc = scores(c.v, [(order.index(i), j) for i, j in pool])
        steps.append(dict(o1.rec(), op="select", pool=pool, b=b, one=name != "random", sel=o1.v if o1.ok else [], sel2=o2.v if o2.ok else [], same=same, scores=sc, least=999000 if name == "afasmc" else 900000))
        if not o1.ok: break
        if op["acquire"]:
            got = [tuple(q) for q in o1.v]
            H = [q for q in H if q not in got]; O += [q for q in got if q not in O]
            for i, j in got:
                if 0 <= i < N and 0 <= j < f: X2[i, j] = X[i, j]
    if steps: w.trace({}, steps, name)

reps = 8 if THOROUGH else 1
for _ in range(50 * reps): complete()
for _ in range(9 * reps): optimum()
for _ in range(36 * reps): play(r.choice(behs), "afasmc")
for _ in range(16 * reps): play(r.choice(behs), "stability")
for _ in range(25 * reps): play(r.choice(behs), "random")
if shard == 0:
    ps = [(0, 0), (0, 1), (1, 1), (2, 0)]
    s = QueryFeatureRandom(np.random.rand(3, 2), np.array([0, 1, 0]))
    o = call(lambda: sorted(set(tuple(q) for _ in range(300) for q in pl(s.select(None, list(ps), batch_size=1)))))
    w.trace({}, [dict(o.rec(), op="cover", pool=ps, seen=o.v if o.ok else [])], "cover")
w.close()
sys.stdout.flush()
os._exit(0)
