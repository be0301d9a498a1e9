import copy, sys
import numpy as np
from vlib import *
from alipy.index import MultiLabelIndexCollection
from alipy.index.multi_label_tools import (flattern_multilabel_index, integrate_multilabel_index, infer_label_size_multilabel,
                                           get_labelmatrix_in_multilabel, get_Xy_in_multilabel)
import alipy.index as ai

r = rng("c03")
w = Writer()

def spell(e):
    if e[0] == "all": return (e[1],)
    if e[0] == "one": return (e[1], np.int64(e[2]) if r.random() < .2 else e[2])
    f = r.randrange(3)
    return (e[1], tuple(e[2]) if f == 0 else list(e[2]) if f == 1 else np.array(e[2]))

def back(x):
    """an integrated index -> entry"""
    if len(x) == 1: return ["all", plain(x[0])]
    if isinstance(x[1], (tuple, list, np.ndarray, set)): return ["many", plain(x[0]), [plain(j) for j in x[1]]]
    return ["one", plain(x[0]), plain(x[1])]

def mat(m):
    return [[int(v) if float(v) == int(v) else -777 for v in row] for row in np.asarray(m)]

def mat2(m):
    """label matrices are logged doubled: markers of unknown entries may be halves"""
    return mat(np.asarray(m) * 2)

def case(b, N, K, tag):
    X = [[100 * i + c for c in range(3)] for i in range(N)]
    if r.random() < .5:
        Y = [[r.randrange(1, 50) for _ in range(K)] for _ in range(N)]
    else:
        Y = [[r.randrange(2) for _ in range(K)] for _ in range(N)]
    Xa, Ya = np.array(X, dtype=float), (np.array(Y) if r.random() < .6 else np.array(Y, dtype=float))
    steps = []
    allone = all(e[0] == "one" for e in b)
    def do(op, f, conv, a=0, arg=None):
        bx, by, ba = Xa.copy(), Ya.copy(), copy.deepcopy(arg)
        o = call(f)
        v = 0
        if o.ok:
            c = call(conv, o.v)
            if c.ok: v = c.v
            else: o.k, o.e = "err", "Shape"
        same = bool((bx == Xa).all() and (by == Ya).all()) and plain(list(arg) if not isinstance(arg, (list, tuple)) else arg) == plain(list(ba) if not isinstance(ba, (list, tuple)) else ba)
        rec = o.rec(); rec.update(op=op, a=a, v=v, argsame=same)
        steps.append(rec)
    def arg0(coll=False):
        if coll and allone and len(set(map(tuple, b))) == len(b) and len(b) == 1:
            return MultiLabelIndexCollection([(e[1], e[2]) for e in b], label_size=K)
        if len(b) == 1 and r.random() < .4: return spell(b[0])
        return [spell(e) for e in b]
    a1 = arg0(); do("flatten", lambda: flattern_multilabel_index(a1, K), lambda v: [plain(x) for x in v], arg=a1)
    a2 = arg0(); do("integrate", lambda: integrate_multilabel_index(a2, K), lambda v: [back(x) for x in v], arg=a2)
    unk = r.choice([0, -9, 7, .5, -1.5])
    a3 = arg0(True); do("labelmatrix", lambda: get_labelmatrix_in_multilabel(a3, Ya, unknown_element=unk), lambda v: [mat2(v[0]), plain(list(v[1]))], a=int(2 * unk), arg=a3)
    a4 = arg0(True); do("getXy", lambda: get_Xy_in_multilabel(a4, Xa, Ya, unknown_element=unk), lambda v: [mat(v[0]), mat2(v[1]), plain(list(v[2]))], a=int(2 * unk), arg=a4)
    if b and any(e[0] == "one" for e in b) and not any(e[0] == "many" for e in b):
        a5 = [spell(e) for e in b]; do("infer", lambda: infer_label_size_multilabel(a5), plain, arg=a5)
    w.trace(dict(b=b, K=K, X=X, Y=[[2 * v for v in row] for row in Y]), steps, tag=tag)

beh = read(sys.argv[1])
sel = beh if THOROUGH or len(beh) < 2600 else r.sample(beh, 2600)
for b in sel:
    case(b, 2, 2, "enumerated")
for _ in range(3000 if THOROUGH else 300):
    N, K = r.choice([(3, 4), (5, 3), (6, 6), (4, 1), (2, 5)])
    b = []
    for _ in range(r.randrange(1, 9)):
        f = r.random(); i = r.randrange(N)
        b.append(["all", i] if f < .15 else ["one", i, r.randrange(K)] if f < .6 else ["many", i, [r.randrange(K) for _ in range(r.randrange(1, K + 1))]])
    case(b, N, K, "random")
w.close()
