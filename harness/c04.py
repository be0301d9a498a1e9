import copy, os, shutil, sys, tempfile
import numpy as np
from fractions import Fraction
from vlib import *
from alipy.data_manipulate.al_split import split, split_multi_label, split_features, split_load, split_save

MODE = sys.argv[1]              # c04 | c05
r = rng(MODE)
np.random.seed(SEED * 7919 + 3)
w = Writer()

CUR = dict(pairs=False)

def folds(res, kind):
    tr, te, la, un = res
    out = []
    for k in range(len(tr)):
        f = dict(train=plain(tr[k]), test=plain(te[k]), lab=plain(list(la[k])), unlab=plain(list(un[k])))
        out.append(f)
    return out

DEFAULTS = dict(test_ratio=.3, split_count=10, initial_label_rate=.05, missing_rate=.5, all_class=True, all_features=True, saving_path=".")
def do_split(c, path):
    """c: config dict; returns Outcome, argsame"""
    t, lr = c["t"][0] / float(c["t"][1]), c["r"][0] / float(c["r"][1])
    y = c["y"]
    kw = dict(test_ratio=t, split_count=c["folds"], saving_path=path)
    args = {}
    # what has its default value need not be said
    said = lambda **d: {k: v for k, v in d.items() if not (v == DEFAULTS[k] and r.random() < .5)}
    kw = said(**kw) if path is None else dict(said(test_ratio=t, split_count=c["folds"]), saving_path=path)
    if c["kind"] in ("single", "single2d"):
        args["y"] = list(y) if r.random() < .3 and c["kind"] == "single" else np.array(y)
        f = r.random()
        if f < .3: args["X"] = np.zeros((c["n"], 2))
        if c["names"] != list(range(c["n"])): args["instance_indexes"] = list(c["names"]) if r.random() < .5 else np.array(c["names"])
        if not c["all"]:
            if r.random() < .4:
                if "X" in args or "instance_indexes" in args: del args["y"]
        kw.update(said(initial_label_rate=lr, all_class=c["all"]))
        fn = lambda: split(query_type=r.choice([None, "AllLabels"]), **dict(args, **kw))
    elif c["kind"] == "multi":
        if not c["all"] and r.random() < .4: args["label_shape"] = (c["n"], c["K"])
        else: args["y"] = np.array(y)
        kw.update(said(initial_label_rate=lr, all_class=c["all"]))
        fn = lambda: split_multi_label(**dict(args, **kw))
    else:
        if r.random() < .5: args["feature_matrix_shape"] = (c["n"], c["K"])
        else: args["feature_matrix"] = np.array(y, dtype=float)
        mr = float(1 - Fraction(*c["r"]))
        kw.update(said(missing_rate=mr, all_features=c["all"]))
        fn = lambda: split_features(**dict(args, **kw))
    before = copy.deepcopy(args)
    o = call(fn, _timeout=8)
    same = all(np.array_equal(np.asarray(args[k]), np.asarray(before[k])) for k in args)
    return o, same

def do_save(c, path):
    """save the caller's own split: lists, arrays or tuples of indexes, of any size"""
    args = dict(zip(("train_idx", "test_idx", "label_idx", "unlabel_idx"), c["given"]))
    if c["form"] == "array": args = {k: np.array(v) if np.ndim(v) == 2 else v for k, v in args.items()}
    before = copy.deepcopy(args)
    o = call(lambda: (split_save(path=path, **args), c["given"])[1])
    return o, all(plain(args[k]) == plain(before[k]) for k in args)

def is_ok_forms(res, kind):
    if kind in ("multi", "features") or kind == "given" and CUR["pairs"]:
        return all(isinstance(x, tuple) for part in res[2:] for f in part for x in f)
    return True

def run(c, tag, persist=False, stale=False):
    path = tempfile.mkdtemp(dir=".") if persist else None
    if stale:      # the folder already holds a split of another kind
        other = dict(c, kind="multi" if c["kind"] != "multi" else "single", all=False)
        if other["kind"] == "multi": other.update(K=2, y=[[1, 0]] * c["n"])
        else: other["y"] = [0] * c["n"]
        other["names"] = list(range(c["n"]))
        do_split(other, path)
    steps = []
    o, same = do_split(c, path) if c["kind"] != "given" else do_save(c, path)
    rec = o.rec(); rec.update(op="split", a=0, argsame=same, v=[], missing=[], forms=True)
    if o.ok:
        v = call(folds, o.v, c["kind"])
        if v.ok: rec["v"] = v.v
        else: rec.update(k="err", e="Shape")
    steps.append(rec)
    names = ["train", "test", "lab", "unlab"]
    def load(op, a):
        q = call(split_load, path if op != "load_nodir" else path + "_nope")
        rec = q.rec(); rec.update(op=op, a=a, argsame=True, v=[], missing=[], forms=True)
        if q.ok:
            rec["missing"] = [names[k] for k in range(4) if q.v[k] is None]
            if not rec["missing"]:
                v = call(folds, q.v, c["kind"])
                if v.ok:
                    rec["v"] = v.v
                    g = call(is_ok_forms, q.v, c["kind"]); rec["forms"] = bool(g.v)
                else: rec.update(k="err", e="Shape")
        steps.append(rec)
    # (empty sets are outside the property: a text table of empty rows has no rows)
    if persist and rec["k"] == "ok" and all(len(f[k]) for f in rec["v"] for k in f):
        load("load", 0)
        load("load_nodir", 0)
        part = r.randrange(4)
        stem = ["train_idx", "test_idx", "label_idx", "unlabel_idx"][part]
        for ext in (".txt", ".npy"):
            if os.path.exists(os.path.join(path, stem + ext)): os.unlink(os.path.join(path, stem + ext))
        load("load_missing", names[part])
    w.trace(c, steps, tag=tag)
    if path: shutil.rmtree(path)

def feasible(c):
    """avoid requests that no labeled set can satisfy (out of the property's scope) or that need astronomically many draws"""
    return True

def rand_config(kind, persist):
    n = r.choice([4, 6, 9, 12, 20, 33, 50])
    t = r.choice([(3, 10), (1, 2), (1, 4), (2, 5), (1, 10)])
    rt = r.choice([(1, 2), (3, 10), (1, 5), (3, 5), (4, 5), (1, 20)])
    if kind == "features" and persist and rt == (1, 20): rt = (1, 2)
    al = r.random() < .6
    K = r.choice([2, 3, 4])
    c = dict(kind=kind, n=n, K=K, t=list(t), r=list(rt), folds=r.choice([1, 1, 2, 4, 6, 10]), names=list(range(n)))
    c["all"] = al
    if kind == "single":
        y = [i % K for i in range(n)]; r.shuffle(y); c["y"] = y
        if r.random() < .4: c["names"] = [3 * i + 7 for i in range(n)]; r.shuffle(c["names"])
        elif persist and r.random() < .3:
            m = r.choice([97, 1021, 33333, 40000001]); c["names"] = [m * (i + 1) for i in range(n)]; r.shuffle(c["names"])
        if not persist and r.random() < .2: c["names"] = ["img%d" % i for i in range(n)]
    elif kind in ("single2d", "multi"):
        neg = r.choice([0, -1])
        c["y"] = [[1 if (i + j) % 3 or r.random() < .5 else neg for j in range(K)] for i in range(n)]
        c["K"] = K
    else:
        c["y"] = [[r.randrange(9) for _ in range(K)] for _ in range(n)]
    return c

if MODE == "c04":
    for c in read(sys.argv[2]):
        n = c["n"]
        run(dict(c, kind="single", K=2, folds=2, names=list(range(n))), "enumerated")
    # labeled sets whose size depends on the order of rounding
    for (n, t, rt) in [(8, (7, 10), (63, 100)), (8, (7, 10), (31, 50)), (12, (4, 5), (5, 8)), (7, (1, 2), (3, 8))]:
        for kind in ("single", "multi"):
            y = [i % 2 for i in range(n)] if kind == "single" else [[1, i % 2] if i % 3 else [0, 1] for i in range(n)]
            c = dict(kind=kind, n=n, K=2, t=list(t), r=list(rt), folds=2, names=list(range(n)), y=y); c["all"] = True
            run(c, "rounding")
    for i in range(3000 if THOROUGH else 400):
        run(rand_config(["single", "single", "single2d", "multi", "features", "features"][i % 6], False), "random")
    # few positives: labels of +1/-1 and few observed features force retries
    for i in range(60):
        K, n = 3, 16
        neg = r.choice([0, -1])
        c = dict(kind=r.choice(["multi", "single2d"]), n=n, K=K, t=[1, 4], r=[1, 2], folds=3, names=list(range(n)),
                 y=[[1 if i % 3 == j else neg for j in range(K)] for i in range(n)]); c["all"] = True
        run(c, "retry")
        c = dict(kind="features", n=12, K=4, t=[1, 4], r=[9, 20], folds=6, names=list(range(12)), y=[[1] * 4] * 12); c["all"] = True
        run(c, "retry")
else:
    for i in range(1200 if THOROUGH else 250):
        kind = ["single", "single2d", "multi", "features", "single"][i % 5]
        c = rand_config(kind, True)
        if r.random() < .15 and kind == "single":
            c.update(n=3, y=[0, 0, 0], names=[0, 1, 2], t=[1, 3], r=[1, 2])
        run(c, "persist", True)
    for i in range(600 if THOROUGH else 120):
        k = r.choice([1, 2, 3, 5]); top = r.choice([10, 200, 300, 40000, 70000, 2000000000])
        pool = sorted(r.sample(range(top), 10) if top < 100 else set(r.randrange(top) for _ in range(r.choice([10, 14])))); r.shuffle(pool)
        if top >= 40000: pool[:2] = [top - 1, top - 2]
        pool = list(dict.fromkeys(pool))
        a, b = r.randint(2, len(pool) - 2), 0
        b = r.randint(1, a - 1)
        form = r.choice(["list", "array"]); pairs = r.random() < .4
        g = [[], [], [], []]
        for _ in range(k):
            q = pool[:]; r.shuffle(q)
            lab, un = q[:b], q[b:a]
            if pairs:
                e = [(x, j) for x in q[:a] for j in range(3)]; r.shuffle(e)
                m = b + 1          # the folds of a split have the same sizes
                lab, un = e[:m], e[m:]
            for dst, x in zip(g, (q[:a], q[a:], lab, un)): dst.append(x)
        CUR["pairs"] = pairs
        c = dict(kind="given", n=len(pool), K=3, t=[1, 2], r=[1, 2], folds=k, names=[0], y=[0], given=g, form=form if not pairs else "list"); c["all"] = False
        run(c, "given", True)
    CUR["pairs"] = False
    for i in range(40):
        c = rand_config(["single", "multi", "features"][i % 3], True); c["all"] = False
        c["n"] = max(c["n"], 6)
        if len(c["y"]) != c["n"]: continue
        run(c, "resave", True, stale=True)
w.close()
