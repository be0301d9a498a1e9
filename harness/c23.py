import copy, os, sys
from fractions import Fraction
import numpy as np
from scipy.sparse import csr_matrix
from vlib import *
from alipy.metrics import performance as M
r = rng("c23"); w = Writer()

def fr(v):
    v = float(v)
    if not np.isfinite(v): return [-99, 1]
    f = Fraction(v).limit_denominator(40000)
    return [f.numerator, f.denominator] if abs(float(f) - v) < 1e-9 and abs(f.numerator) < 2 ** 30 else [-98, 1]
def frs(v): return [fr(x) for x in v]

SCALES = [lambda k: float(k), lambda k: k, lambda k: k / 8, lambda k: (k - 2) / 4, lambda k: 1 + k * 1e-9, lambda k: k * 1e-12, lambda k: 1e6 + k, lambda k: -9.5 + k, lambda k: k - 3]
LABELS = [(0, 1), (0, 1), (-1, 1), ("n", "p"), (2, 7), (False, True)]

def form(x, kinds):
    f = r.choice(kinds)
    if f == "list": return copy.deepcopy(x)
    if f == "arr": return np.array(x)
    if f == "f": return np.asfortranarray(np.array(x))
    if f == "view": return np.repeat(np.array(x), 2, axis=0)[::2]
    if f == "col": return np.array(x)[:, None]
    return csr_matrix(np.array(x))

def snap(x): return x.toarray().tolist() if hasattr(x, "toarray") else plain(x)

class T(object):
    def __init__(self): self.steps = []
    def step(self, op, a, mk, enc, bad=False):
        """mk(order): (function, arguments) for the samples in the given order"""
        n = len(a["y"] if "y" in a else a["Y"])
        od = list(range(n)); sh = list(od); r.shuffle(sh)
        fn, kw = mk(od); b = {k: snap(v) for k, v in kw.items()}
        o = call(lambda: enc(fn(**kw)))
        same = {k: snap(v) for k, v in kw.items()} == b
        fn, kw = mk(sh)
        o2 = call(lambda: enc(fn(**kw)))
        d = o.rec(); d.update(op=op, a=dict(a, bad=bad), v=o.v if o.ok else 0, vp=o2.v if o2.ok else 0, vpok=o2.ok, argsame=same); self.steps.append(d)

    def weights(self, n, lo=1):
        if r.random() < .5: return [1] * n, {}
        ws = [r.randrange(lo, 4) for _ in range(n)]
        if sum(ws) == 0: ws[0] = 1
        scale = r.choice([1, .5, 3])
        return ws, dict(ws=[x * scale for x in ws], scale=scale)

    def wkw(self, wk, od):
        if not wk: return {}
        z = [wk["ws"][i] for i in od]
        return dict(sample_weight=np.array(z) if r.random() < .6 else z)

    def binary(self, y, s, ws=None):
        """y: 0/1, s: small integers"""
        n = len(y); lab = r.choice(LABELS); sc = r.choice(SCALES)
        yy = [lab[v] for v in y]; ss = [sc(v) for v in s]
        back = {float(v): k for v, k in zip(ss, s)}
        op = r.choice(["roc_auc_score"] * 3 + ["get_fps_tps_thresholds", "roc_curve", "precision_recall_curve"])
        wts, wk = self.weights(n, 0 if op == "roc_auc_score" else 1) if ws is None else (ws, dict(ws=list(ws), scale=1))
        if op == "get_fps_tps_thresholds": wts, wk = [1] * n, {}
        std = lab in ((0, 1), (-1, 1), (False, True))
        given = not std or r.random() < .3
        nopos = r.random() < .03 and len(set(yy)) == 2 and not std
        if op == "precision_recall_curve" and 1 not in y: return
        a = dict(y=[str(v) for v in y], s=s, w=wts, pos="1")
        def mk(od):
            kw = dict(y_true=form([yy[i] for i in od], ["list", "arr", "arr", "view"]), y_score=form([ss[i] for i in od], ["list", "arr", "arr", "view"]))
            kw.update(self.wkw(wk, od))
            if given and not nopos: kw["pos_label"] = lab[1]
            return getattr(M, op), kw
        th = lambda t: [back.get(float(x), -99) for x in t]
        cnt = lambda q: [int(x) if float(x) == int(x) else -99 for x in q]
        enc = dict(roc_auc_score=fr, get_fps_tps_thresholds=lambda o: dict(fps=cnt(o[0]), tps=cnt(o[1]), thr=th(o[2])),
                   roc_curve=lambda o: dict(x=frs(o[0]), y=frs(o[1]), thr=th(o[2][1:]), above=bool(o[2][0] > max(ss))),
                   precision_recall_curve=lambda o: dict(p=frs(o[0]), r=frs(o[1]), thr=th(o[2])))[op]
        self.step(op, a, mk, enc, bad=nopos)

    def classes(self, n=None):
        n = n or r.randrange(1, 8); C = r.choice([[0, 1], [-1, 1], [0, 1, 2], ["a", "b", "c"], [False, True], [3, 5, 9, 11]])
        y = [r.choice(C) for _ in range(n)]; p = [v if r.random() < .5 else r.choice(C) for v in y]
        op = r.choice(["accuracy_score", "zero_one_loss", "zero_one_count", "hamming_loss"] + ["f1_score"] * (C in ([0, 1], [-1, 1])))
        wts, wk = self.weights(n) if op not in ("hamming_loss", "f1_score") else ([1] * n, {})
        bad = r.random() < .04 and n > 1
        a = dict(y=[str(v) for v in y], p=[str(v) for v in p], w=wts, pos=str(C[1]))
        def mk(od):
            col = ["list", "arr", "view"] + (["col"] if op != "f1_score" and not (n == 1 and bad) else [])
            kw = dict(y_true=form([y[i] for i in od], col), y_pred=form([p[i] for i in od][:-1 if bad else None], col))
            kw.update(self.wkw(wk, od))
            if op == "zero_one_count": kw["normalize"] = False
            return getattr(M, "zero_one_loss" if op == "zero_one_count" else op), kw
        sc = wk.get("scale", 1) if op == "zero_one_count" else 1
        self.step(op, a, mk, lambda v: fr(v / sc), bad=bad)

    def multiclass_ml(self):
        n, K = r.randrange(1, 6), r.choice([2, 3, 4])
        lab = r.choice([(0, 1), (0, 1), (-1, 1), (False, True)])
        Y = [[r.choice(lab) for _ in range(K)] for _ in range(n)]
        P = [list(row) if r.random() < .4 else [r.choice(lab) for _ in range(K)] for row in Y]
        op = r.choice(["accuracy_score", "zero_one_loss", "zero_one_count", "hamming_loss_ml"])
        if lab == (False, True) and op != "hamming_loss_ml": return
        wts, wk = self.weights(n) if op != "hamming_loss_ml" else ([1] * n, {})
        a = dict(w=wts, pos="1", **(dict(Y=[[str(v) for v in q] for q in Y], P=[[str(v) for v in q] for q in P]) if op == "hamming_loss_ml" else dict(y=[str(q) for q in Y], p=[str(q) for q in P])))
        def mk(od):
            k = ["list", "arr", "f", "view"] + (["csr"] if lab != (-1, 1) and lab != (False, True) else [])
            kw = dict(y_true=form([Y[i] for i in od], k), y_pred=form([P[i] for i in od], k))
            kw.update(self.wkw(wk, od))
            if op == "zero_one_count": kw["normalize"] = False
            return getattr(M, dict(zero_one_count="zero_one_loss", hamming_loss_ml="hamming_loss").get(op, op)), kw
        sc = wk.get("scale", 1) if op == "zero_one_count" else 1
        self.step(op, a, mk, lambda v: fr(v / sc))

    def ranking(self, Y, S):
        n, K = len(Y), len(Y[0])
        op = r.choice(["coverage_error", "label_ranking_loss", "label_ranking_loss", "label_ranking_average_precision_score", "label_ranking_average_precision_score", "one_error", "average_precision_score", "micro_auc_score"])
        lab = r.choice([(0, 1), (0, 1), (-1, 1)]); sc = r.choice(SCALES)
        YY = [[lab[v] for v in q] for q in Y]; SS = [[sc(v) for v in q] for q in S]
        wts, wk = self.weights(n)
        bad = r.random() < .04
        how = r.choice(["shape", "three"] if op != "coverage_error" and op != "one_error" else ["three"])
        a = dict(Y=Y, S=S, w=wts, pos="1")
        def mk(od):
            y = [list(YY[i]) for i in od]; s = [SS[i] for i in od]
            if bad and how == "shape": s = [q + [0] for q in s]
            if bad and how == "three": y[0][0] = 5; y[0][1] = 7; y[-1][-1] = 9 if K > 2 or n > 1 else 7
            if bad and how == "three" and K == 2 and n == 1: s = s + s
            kw = dict(y_true=form(y, ["arr", "arr", "f", "view"] + (["csr"] if op == "label_ranking_loss" and lab == (0, 1) else [])))
            kw["y_pred" if op == "one_error" else "y_score"] = form(s, ["arr", "arr", "f", "view"])
            kw.update(self.wkw(wk, od))
            return getattr(M, op), kw
        self.step(op, a, mk, fr, bad=bad)

beh = read(sys.argv[1])
bins = [b for b in beh if b["kind"] == "bin"]; rows = [b for b in beh if b["kind"] == "row"]
def small(b): return b["y"], b["s"]
def matrix(n):
    K = r.choice([2, 3, 3, 4]); q = [small(b) for b in r.sample(byk[K], n)] if n <= len(byk[K]) else []
    return [list(z[0]) for z in q], [list(z[1]) for z in q]
byk = {K: [b for b in rows if len(b["s"]) == K] for K in (2, 3, 4)}
for b in (bins if THOROUGH else r.sample(bins, min(len(bins), 500))):
    t = T()
    for _ in range(3 if THOROUGH else 2): t.binary(b["y"], b["s"], b["w"] if r.random() < .3 else None)
    if t.steps: w.trace(0, t.steps, tag="graph")
for b in (rows if THOROUGH else r.sample(rows, min(len(rows), 400))):
    t = T()
    for _ in range(4 if THOROUGH else 2): t.ranking([list(b["y"])], [list(b["s"])])
    w.trace(0, t.steps, tag="graph")
for i in range(6000 if THOROUGH else 1300):
    t = T()
    for _ in range(3):
        f = r.random()
        if f < .3: t.classes()
        elif f < .45: t.multiclass_ml()
        elif f < .6:
            if f < .5: n = r.randrange(20, 40); t.binary([r.randrange(2) for _ in range(n)], [r.randrange(60) for _ in range(n)], [1] * n)
            else: n = r.randrange(2, 9); t.binary([r.randrange(2) for _ in range(n)], [r.randrange(r.choice([2, 4, 9])) for _ in range(n)])
        else:
            Y, S = matrix(r.randrange(1, 6))
            if r.random() < .4 and Y:
                K = len(Y[0]); S = [[r.randrange(8) for _ in range(K)] for _ in Y]
            if Y: t.ranking(Y, S)
    if t.steps: w.trace(0, t.steps, tag="random")
w.close()
sys.stdout.flush(); os._exit(0)
