import copy, math, sys
from fractions import Fraction
import numpy as np
from scipy.sparse import csr_matrix, csc_matrix
from vlib import *
from alipy.index import IndexCollection, MultiLabelIndexCollection
from alipy.utils import misc as U
from alipy.data_manipulate import minmax_scale, StandardScale
r = rng("c25"); w = Writer()
np.random.seed(r.randrange(2 ** 31))
STEPS = []
def snap(x): return x.toarray().tolist() if hasattr(x, "toarray") else list(x.index) if hasattr(x, "index") and not isinstance(x, (list, tuple, str)) else repr(x.tolist() if isinstance(x, np.ndarray) else x)
def step(op, fn, enc, inputs, refuse=False, **k):
    before = [snap(x) for x in inputs]
    o = call(lambda: enc(fn()))
    d = o.rec(); d.update(op=op, v=o.v if o.ok else 0, refuse=refuse, same=[snap(x) for x in inputs] == before, **k)
    STEPS.append(d)
    if len(STEPS) == 12: w.trace(0, STEPS); STEPS[:] = []
SC = [lambda x: x, lambda x: float(x), lambda x: x * .25 - 1, lambda x: 1 + x * 1e-9, lambda x: x * 1e12, lambda x: -5 + x, lambda x: x * 1e-300]
def ranks(a):
    sc = r.choice(SC); b = [sc(x) for x in a]
    if r.random() < .15 and 0 in a: b = [-float("inf") if x == 0 else float(y) for x, y in zip(a, b)]
    f = r.choice(["list", "arr", "view", "tuple"])
    b = b if f == "list" else np.array(b) if f == "arr" else np.repeat(np.array(b), 2)[::2] if f == "view" else tuple(b)
    n = r.randrange(1, len(a) + 3)
    for op, fn in (("nlargest", U.nlargestarg), ("nsmallest", U.nsmallestarg)):
        step(op, lambda: fn(b, n), lambda v: [int(x) for x in v], [b], a=list(a), n=n)
        if r.random() < .05: step(op, lambda: fn(b, r.choice([0, -1])), plain, [b], refuse=True)
def num(x, lim=2000):
    x = float(x)
    if math.isnan(x): return [99, 0]
    if not math.isfinite(x): return [-99, 0]
    f = Fraction(x).limit_denominator(lim); return [f.numerator, f.denominator] if abs(float(f) - x) < 1e-9 else [-98, 0]
def scale(cols):
    """cols: the features, sequences of small integers of one length"""
    n = len(cols[0]); one = len(cols) == 1 and r.random() < .5
    off = r.choice([0, 0, -3, 100]); div = r.choice([1, 1, 2, 4, 10, 10 ** 6])
    A = [[(cols[j][i] + off) / div if div > 1 else cols[j][i] + off for j in range(len(cols))] for i in range(n)]
    if div == 1 and r.random() < .3: A = [[float(x) for x in q] for q in A]
    if one: A = [q[0] for q in A]
    f = r.choice(["list", "arr", "F", "view"])
    X = A if f == "list" else np.array(A) if f == "arr" else np.asfortranarray(np.array(A)) if f == "F" else np.repeat(np.array(A), 2, axis=0)[::2]
    back = lambda M: (np.asarray(M).reshape(-1, 1) if one else np.asarray(M)).T
    def sq(x):
        x = float(x)
        if not math.isfinite(x): return dict(sg=9, sq=0)
        return dict(sg=0 if abs(x) < 1e-7 else 1 if x > 0 else -1, sq=int(round(x * x * 1e6)))
    step("standard", lambda: StandardScale(X), lambda M: [[sq(x) for x in q] for q in back(M)], [X], C=[list(c) for c in cols])
    C = [list(c) for c in cols]; Y = X
    if r.random() < .4 and not isinstance(X, list):
        Y = np.array(X, dtype=float)
        for j in range(len(C)):
            for i in range(n):
                if r.random() < .3 and len([x for x in C[j] if x != 99]) > 1:
                    C[j][i] = 99
                    if one: Y[i] = np.nan
                    else: Y[i, j] = np.nan
    lo, hi = r.choice([(0, 1), (0, 1), (-1, 1), (2, 5), (-3, -1)])
    kw = {} if (lo, hi) == (0, 1) and r.random() < .6 else dict(feature_range=(lo, hi) if r.random() < .7 else [lo, hi])
    step("minmax", lambda: minmax_scale(Y, **kw), lambda M: [[num(x) for x in q] for q in back(M)], [] if Y is not X else [Y], C=C, lo=lo, hi=hi)
    if r.random() < .05:
        step("minmax", lambda: minmax_scale(X, feature_range=r.choice([(1, 1), (2, 0)])), plain, [X], refuse=True)
        step("minmax", lambda: minmax_scale(csr_matrix(np.ones((2, 2)))), plain, [], refuse=True)
        step("standard", lambda: StandardScale(csr_matrix(np.ones((2, 2)))), plain, [], refuse=True)
def ints(M): return [[int(x) if float(x) == int(x) else -999 for x in q] for q in np.asarray(M).tolist()]
def logs(M): return [[int(round(-math.log(x) * 1e6)) if x > 0 else -1 for x in q] for q in np.asarray(M).tolist()]
def kernels(X):
    f = r.choice(["list", "arr", "float", "F"]); A = X if f == "list" else np.array(X) if f == "arr" else np.array(X, dtype=float) if f == "float" else np.asfortranarray(np.array(X, dtype=float))
    k = r.choice(["linear", "poly", "rbf", "call", "gauss", "bad"])
    if k == "linear": step("linear", lambda: U.calc_kernel_matrix(A, "linear"), ints, [A], X=X)
    if k == "call": step("linear", lambda: U.calc_kernel_matrix(A, lambda X, Y: np.dot(X, Y.T)), ints, [A], X=X)
    if k == "poly":
        g, c, d = r.choice([1, 2]), r.choice([0, 1, 2]), r.choice([1, 2, 3]); kw = dict(gamma=g, coef0=c, degree=d)
        for n, v in (("gamma", 1), ("coef0", 1), ("degree", 3)):
            if kw[n] == v and r.random() < .6: del kw[n]
        step("poly", lambda: U.calc_kernel_matrix(A, "poly", **kw), ints, [A], X=X, g=g, c=c, d=d)
    if k == "rbf":
        g = r.choice([1, 2, 2, 4]); kw = {} if g == 2 and r.random() < .6 else dict(gamma=g / 2)
        step("rbf", lambda: U.calc_kernel_matrix(A, "rbf", **kw), logs, [A], X=X, g=g)
    if k == "gauss":
        s = r.choice([1, 1, 2, 3]); kw = {} if s == 1 and r.random() < .6 else dict(sigma=float(s))
        if r.random() < .4: kw["check_arr"] = False
        step("gauss", lambda: U.get_gaussian_kernel_mat(A, **kw), logs, [A], X=X, s2=s * s)
    if k == "bad": step("linear", lambda: U.calc_kernel_matrix(A, r.choice(["other", None, 3])), plain, [A], refuse=True)
def thing(l):
    """-1: None, 0: a plain object, otherwise a container of l - 1 elements"""
    if l == -1: return None
    if l == 0: return r.choice([3, "abc", (1, 2, 3), 2.5, {1: 2, 3: 4}])
    n = l - 1; k = r.choice(["list", "arr", "coll", "nested", "mlc", "arr2"])
    if n == 0: return [] if k != "arr" else np.array([])
    if k == "list": return r.sample(range(50), n)
    if k == "arr": return np.arange(n)
    if k == "arr2": return np.arange(2 * n).reshape(n, 2)
    if k == "coll": return IndexCollection(r.sample(range(50), n))
    if k == "mlc": return MultiLabelIndexCollection([(i, 0) for i in range(n)], label_size=2)
    return [[i, i] for i in range(n)]
def args():
    m = r.randrange(1, 4); n = r.choice([-1, 0, 1, 2, 3, 4])
    ls = [n if r.random() < .6 else r.choice([-1, 0, 1, 2, 2, 3, 4]) for _ in range(m)]
    a = [thing(l) for l in ls]
    step("correspond", lambda: U.check_one_to_one_correspondence(*a), lambda v: int(bool(v)), a, ls=ls)
    b = [x for x, l in zip(a, ls) if not isinstance(x, (IndexCollection, MultiLabelIndexCollection))]; lb = [l for x, l in zip(a, ls) if not isinstance(x, (IndexCollection, MultiLabelIndexCollection))]
    kept = []
    def enc(v):
        if not isinstance(v, tuple) or len(v) != len(b): return [2]
        opened = [bool(isinstance(x, (list, np.ndarray)) and len(x) == 1 and y is not x and np.array_equal(np.asarray(y), np.asarray(x[0]))) for x, y in zip(b, v)]
        kept.append(all(o or y is x for o, x, y in zip(opened, b, v)))
        return opened
    o = call(lambda: U.unpack(*b)); enc_v = enc(o.v) if o.ok else []
    step("unpack", lambda: U.unpack(*b), enc, b, ls=lb, kept=bool(kept and kept[0]))
def perms():
    lo = r.randrange(-4, 5); n = r.randrange(1, 7) if r.random() < .7 else r.choice([30, 120, 700]); k = r.randrange(0, min(n, 25) + 1); hi = lo + n - 1
    f = r.choice(["tuple", "int", "np", "none"])
    if f != "tuple": lo, hi = 0, n - 1
    x = dict(tuple=(lo, hi), int=hi, np=np.int64(hi), none=(None, hi))[f]; full = k == n and r.random() < .5
    step("perm", lambda: U.randperm(x, **({} if full else dict(k=k))), lambda v: [int(i) for i in v], [], lo=lo, hi=hi, n=k)
    b = r.choice([lambda: U.randperm(x, n + 1), lambda: U.randperm(x, 1.5), lambda: U.randperm([0, 3]), lambda: U.randperm("3"), lambda: U.randperm(2.5), lambda: U.randperm(x, "1")])
    if n < 10: step("perm", b, plain, [], refuse=True)
def matrices():
    n, m = r.randrange(1, 4), r.randrange(1, 4); X = np.random.randint(-3, 4, size=(n, m)).tolist()
    f = r.choice(["list", "arr", "F", "csr", "csc", "one", "vec", "three"])
    if f == "one": X = [[5]]; A = r.choice([[5], np.array([5.])])
    elif f == "vec": A = [1, 2, 3]
    elif f == "three": A = np.zeros((2, 2, 2))
    else: A = dict(list=lambda: X, arr=lambda: np.array(X), F=lambda: np.asfortranarray(np.array(X)), csr=lambda: csr_matrix(np.array(X)), csc=lambda: csc_matrix(np.array(X)))[f]()
    step("matrix", lambda: U.check_matrix(A), lambda v: ints(v.toarray() if hasattr(v, "toarray") else v), [A], refuse=f in ("vec", "three"), X=X)
B = sorted(b["c"] for b in read(sys.argv[1]) if b["c"]); r.shuffle(B)
for c in B if THOROUGH else B[:340]: ranks(c)
for i, c in enumerate(B if THOROUGH else B[:300]):
    mates = [d for d in B[:60] if len(d) == len(c)]; scale([c] + (r.sample(mates, min(len(mates), r.randrange(0, 3)))))
for _ in range(3000 if THOROUGH else 300):
    d = r.randrange(1, 4); kernels([[r.randrange(-1, 3) for _ in range(d)] for _ in range(r.randrange(1, 5))])
    args(); perms(); matrices()
    if r.random() < .3: ranks([r.randrange(0, 6) for _ in range(r.randrange(5, 30))]); scale([[r.randrange(0, 9) for _ in range(n)] for n in [r.randrange(2, 9)] for _ in range(2)])
if STEPS: w.trace(0, STEPS)
w.close()
