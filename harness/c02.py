import copy, sys
import numpy as np
from vlib import *
from alipy.index import MultiLabelIndexCollection, FeatureIndexCollection, IndexCollection, map_whole_index_to_train

def pair(x):
    p = plain(x)
    return p if isinstance(p, list) and len(p) == 2 and all(type(z) is int for z in p) else [-99, -99]

def obs0(c, N, K):
    return dict(ok=True, list=[pair(x) for x in c.index], len=len(c),
                mem=[[[i, j], bool((i, j) in c)] for i in range(N) for j in range(K)])
def obs(c, N, K):
    o = call(obs0, c, N, K)
    return o.v if o.ok else dict(ok=False, list=[], len=0, mem=[])

class Run(object):
    def __init__(self, r, N, K, cls):
        self.r, self.N, self.K, self.cls = r, N, K, cls
        self.steps = []
        self.c = self.make(None)

    def make(self, data, infer=False):
        if self.cls is FeatureIndexCollection:
            return FeatureIndexCollection(data, feature_size=None if infer else self.K)
        return MultiLabelIndexCollection(data, label_size=None if infer else self.K)

    def num(self, x):
        return np.int64(x) if self.r.random() < .3 else x

    def spell(self, e):
        if e[0] == "all":
            return (self.num(e[1]),)
        if e[0] == "one":
            return (self.num(e[1]), self.num(e[2]))
        f = self.r.randrange(3)
        js = [self.num(j) for j in e[2]]
        return (self.num(e[1]), tuple(js) if f == 0 else list(js) if f == 1 else np.array(e[2], dtype=int))

    def batch(self, b, forms=True):
        xs = [self.spell(e) for e in b]
        if forms and b and self.r.random() < .3 and all(e[0] == "one" and 0 <= e[2] < self.K for e in b) and len(set(map(tuple, b))) == len(b):
            return self.make([(e[1], e[2]) for e in b])
        return xs

    def step(self, op, a=()):
        c, arg, v, ea, cols = self.c, None, 0, a, self.K
        r = self.r
        before = None
        nw0 = False
        def setc(o):
            if o.ok: self.c = o.v
            else: self.c = self.make(None)
        if op == "new":
            arg = self.batch(a, False); before = copy.deepcopy(arg)
            if len(a) == 1 and r.random() < .4: arg = before = arg[0]
            o = call(self.make, arg); setc(o)
            if not a: o.w = []
        elif op == "new_infer":
            arg = [(e[1], e[2]) for e in a]; before = copy.deepcopy(arg)
            o = call(self.make, arg, True); setc(o)
        elif op == "from_1d":
            arg = list(a[0]) if r.random() < .5 else np.array(a[0], dtype=int); before = copy.deepcopy(arg)
            if a[1] == "F" and r.random() < .5:
                o = call(self.cls.construct_by_1d_array, arg, (self.N, self.K))
            else:
                o = call(self.cls.construct_by_1d_array, arg, label_mat_shape=(self.N, self.K), order=a[1])
            setc(o)
        elif op == "from_mask":
            arg = np.array(a) if r.random() < .5 else [list(x) for x in a]; before = copy.deepcopy(arg)
            o = call(self.cls.construct_by_element_mask, arg); setc(o)
        elif op in ("add", "discard"):
            arg = self.spell(a); before = copy.deepcopy(arg)
            f = getattr(c, op) if r.random() < .7 else (c.update if op == "add" else c.difference_update)
            o = call(f, arg)
        elif op in ("update", "diff"):
            arg = self.batch(a); before = copy.deepcopy(arg)
            o = call(c.update if op == "update" else c.difference_update, arg)
        elif op == "update_self": o = call(c.update, c)
        elif op == "diff_self":
            o = call(c.difference_update, c)
        elif op == "clear": o = call(c.clear)
        elif op == "copy":
            def f():
                d = (MultiLabelIndexCollection if r.random() < .5 else self.cls)(c) if r.random() < .6 else copy.deepcopy(c)
                for i in range(self.N):
                    for j in range(self.K):
                        if (i, j) in d: d.discard((i, j))
                        else: d.add((i, j))
                    d.update([(i,)])
            o = call(f); o.w = []
        elif op == "into_copy":
            o = call(lambda: self.cls(c) if len(c) and r.random() < .7 else copy.deepcopy(c))
            if o.ok: self.c = o.v
        elif op == "alias":
            def f():
                x = c.index
                if x: x.pop()
                x.append((0, 0))
            o = call(f)
        elif op == "pop":
            o = call(c.pop); v = o.v
        elif op == "onedim":
            o = call(c.get_onedim_index, order=a, ins_num=self.N); v = o.v
        elif op == "instances":
            o = call(c.get_instance_index); v = o.v
        elif op == "unbroken":
            o = call(c.get_unbroken_instances); v = o.v
        elif op == "broken":
            o = call(c.get_break_instances); v = o.v
        elif op == "mask":
            if r.random() < .5:
                o = call(lambda: np.asarray(c.get_matrix_mask((self.N, self.K), fill_value=a, sparse=False)))
            else:
                fm = r.choice(["lil_matrix", "csr_matrix", "csc_matrix", "dok_matrix", "coo_matrix"])
                o = call(lambda: np.asarray(c.get_matrix_mask((self.N, self.K), fill_value=a, sparse=True, sparse_format=fm).todense()))
            if o.ok: v = np.asarray(o.v).astype(int).tolist()
        elif op == "map":
            arg = list(a) if r.random() < .5 else np.array(a); before = copy.deepcopy(arg)
            o = call(map_whole_index_to_train, arg, c)
            if o.ok:
                v = [list(x) for x in o.v.index]
                # number of columns: what a whole-instance index of the result denotes
                d = copy.deepcopy(o.v); n0 = len(d)
                q = call(lambda: (d.update((10 ** 6,)), len(d) - n0)[1])
                cols = q.v if q.ok else -1
        elif op == "map1":
            arg = list(a[0]) if r.random() < .5 else np.array(a[0]); before = copy.deepcopy(arg)
            o = call(lambda: map_whole_index_to_train(arg, IndexCollection(list(a[1]))))
            v = o.v.index if o.ok else []
        same = True
        if arg is not None:
            g = lambda z: sorted(plain(z.index)) if isinstance(z, MultiLabelIndexCollection) else plain(z)
            same = type(arg) == type(before) and g(arg) == g(before)
        rec = o.rec()
        rec.update(op=op, a=ea, argsame=same, post=obs(self.c, self.N, self.K), v=plain(v) if o.ok else 0, cols=cols)
        self.steps.append(rec)

w = Writer()
r = rng("c02")
for i, h in enumerate(read(sys.argv[1])):
    run = Run(r, 2, 2, FeatureIndexCollection if i % 4 == 0 else MultiLabelIndexCollection)
    for op, a in h:
        run.step(op, a)
    if i % 5 == 0:
        for op, a in (("onedim", "C"), ("onedim", "F"), ("instances", 0), ("unbroken", 0), ("broken", 0)):
            if len(run.c): run.step(op, a)
        run.step("mask", 1)
    w.trace(dict(N=2, K=2), run.steps, tag="graph")

def entry(r, N, K, oob=True):
    f = r.random(); i = r.randrange(N)
    if f < .2: return ["all", i]
    if f < .65: return ["one", i, r.choice([-1, K, K + 2]) if oob and r.random() < .12 else r.randrange(K)]
    return ["many", i, [r.choice([-1, K]) if oob and r.random() < .08 else r.randrange(K) for _ in range(r.randrange(1, 4))]]

for t in range(1500 if THOROUGH else 200):
    N, K = r.choice([(2, 3), (3, 4), (5, 2), (4, 4), (6, 3), (1, 3), (3, 1)])
    run = Run(r, N, K, FeatureIndexCollection if t % 4 == 0 else MultiLabelIndexCollection)
    f = r.random()
    if f < .3: run.step("new", [entry(r, N, K, False) for _ in range(r.randrange(0, 6))])
    elif f < .4: run.step("new", [entry(r, N, K, True) for _ in range(r.randrange(1, 6))])
    elif f < .6: run.step("from_1d", [sorted(r.sample(range(N * K), r.randrange(1, N * K + 1)), key=lambda _: r.random()), r.choice("CF")])
    elif f < .8:
        m = [[r.randrange(2) for _ in range(K)] for _ in range(N)]
        if N * K > 1:
            cells = r.sample([(a, b) for a in range(N) for b in range(K)], 2)
            m[cells[0][0]][cells[0][1]] = 1; m[cells[1][0]][cells[1][1]] = 0
            run.step("from_mask", m)
    elif f < .9:
        es = [["one", r.randrange(N), r.randrange(K)] for _ in range(r.randrange(0, 4))] + [["one", r.randrange(N), K - 1]]
        run.step("new_infer", es)
    for _ in range(r.randrange(5, 30)):
        op = r.choice(["add"] * 4 + ["discard"] * 3 + ["update"] * 3 + ["diff"] * 2 + ["onedim", "instances", "unbroken", "broken", "mask", "map", "copy",
                       "into_copy", "alias", "pop", "update_self"] + (["clear", "diff_self"] if r.random() < .15 else []) + ["map1"])
        if op in ("add", "discard"): run.step(op, entry(r, N, K))
        elif op in ("update", "diff"): run.step(op, [entry(r, N, K, r.random() < .3) for _ in range(r.randrange(1, 4))])
        elif op == "onedim": run.step(op, r.choice("CF"))
        elif op == "mask": run.step(op, r.choice([1, 1, 5, -1]))
        elif op == "map1":
            tr = r.sample(range(20), r.randrange(2, 8))
            run.step(op, [tr, r.sample(tr, r.randrange(1, len(tr) + 1)) if r.random() < .8 else [tr[0], 33]])
        elif op == "map":
            if len(run.c):
                tr = list(range(N)); r.shuffle(tr)
                if r.random() < .3: tr = tr[:-1] or tr
                run.step(op, tr)
        elif op in ("instances", "unbroken", "broken"):
            if len(run.c): run.step(op)
        else: run.step(op)
    w.trace(dict(N=N, K=K), run.steps, tag="random")
w.close()
