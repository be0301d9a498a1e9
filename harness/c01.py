import copy, sys
import numpy as np
from vlib import *
from alipy.index import IndexCollection

def obs(c, universe):
    o = call(obs0, c, universe)
    return dict(o.v, ok=True) if o.ok else dict(ok=False, list=[], iter=[], len=0, get=[], mem=[])

def obs0(c, universe):
    n = len(c)
    return dict(list=plain(c.index), iter=plain([x for x in c]), len=n, get=plain([c[i] for i in range(n)]),
                mem=[[plain(x), bool(x in c)] for x in universe])

class Run(object):
    """One behaviour: elements are mapped by el (int -> element) and forms chosen by r."""
    def __init__(self, r, el, universe, bad):
        self.r, self.el, self.bad = r, el, bad
        self.uni = [el(u) for u in universe]
        self.c = None
        self.steps = []

    def one(self, u):
        x = self.el(u)
        if isinstance(x, int) and not isinstance(x, bool) and self.r.random() < .4:
            return np.int64(x) if self.r.random() < .6 else np.int32(x)
        return x

    def batch(self, us, selfok=True):
        xs = [self.one(u) for u in us]
        f = self.r.random()
        if us and f < .25 and not isinstance(xs[0], tuple):
            return np.array([self.el(u) for u in us])
        if f < .5 and len(set(us)) == len(us):
            return IndexCollection([self.el(u) for u in us])
        if len(us) == 1 and f < .75:
            return xs[0]
        return xs

    def step(self, op, a=(), prob=None):
        c, arg, v = self.c, None, None
        same = True
        ea = plain([self.el(u) for u in a]) if isinstance(a, (list, tuple)) else plain(self.el(a))
        if op == "new":
            arg = self.batch(a)
            if isinstance(arg, IndexCollection):
                arg = list(arg.index)
            if len(a) == 0 and self.r.random() < .5:
                arg = None
            before = copy.deepcopy(arg)
            o = call(IndexCollection, arg)
            if o.ok:
                self.c = c = o.v
            else:
                self.c = c = IndexCollection()
        elif op in ("add", "discard", "remove"):
            arg = self.one(a)
            before = copy.deepcopy(arg)
            o = call(getattr(c, op), arg)
        elif op == "add_bad":
            arg = before = self.bad
            o = call(c.add, arg)
            ea = []
        elif op == "pop":
            before = None
            o = call(c.pop)
            v = plain(o.v)
        elif op in ("update", "diff"):
            arg = self.batch(a)
            before = copy.deepcopy(arg)
            o = call(c.update if op == "update" else c.difference_update, arg)
        elif op == "update_self":
            before = None; o = call(c.update, c)
        elif op == "diff_self":
            before = None; o = call(c.difference_update, c)
        elif op == "clear":
            before = None; o = call(c.clear)
        elif op == "copy":
            before = None
            def f():
                d = IndexCollection(c) if self.r.random() < .5 else copy.deepcopy(c)
                for u in self.uni:
                    if u in d: d.discard(u)
                    else: d.add(u)
            o = call(f); o.w = []
        elif op == "into_copy":
            before = None
            o = call(lambda: IndexCollection(c) if self.r.random() < .5 else copy.deepcopy(c))
            if o.ok:
                self.c = c = o.v
        elif op == "alias":
            before = None
            def f():
                lst = c.index
                if lst: lst.pop()
                lst.append(self.uni[0])
                lst[0] = self.uni[-1]
            o = call(f)
        elif op == "sample":
            before = None
            o = call(c.random_sampling, a[0] / float(a[1]))
            ea = list(a)
            v = plain(o.v.index) if o.ok else []
        elif op == "sample_spread":
            before = None
            def f():
                got = set()
                for _ in range(400):
                    got |= set(plain(x) for x in c.random_sampling(.5).index)
                return sorted(got)
            o = call(f); ea = []
            v = plain(o.v) if o.ok else []
        if arg is not None:
            if isinstance(arg, IndexCollection):
                same = plain(arg.index) == plain(before.index)
            else:
                same = type(arg) == type(before) and plain(arg) == plain(before)
        rec = o.rec()
        rec.update(op=op, a=ea, argsame=same, post=obs(self.c, self.uni), v=v if v is not None else 0)
        self.steps.append(rec)

def ints(u): return u
def big(u): return u * 1000 - 7
def strs(u): return "abcdefghijklmnop"[u]
def floats(u): return u + .5
def pairs(u): return (u, u % 3)
KINDS = [(ints, "x"), (big, 2.5), (strs, 3), (floats, "y"), (pairs, 3)]

w = Writer()
r = rng("c01")
beh = read(sys.argv[1])
# conformance to every transition of the model's state graph
for i, h in enumerate(beh):
    el, bad = KINDS[0] if i % 3 else KINDS[i // 3 % len(KINDS)]
    run = Run(r, el, range(4), bad)
    for op, a in h:
        run.step(op, a)
    w.trace({}, run.steps, tag="graph")
# longer seeded histories over a larger universe
for i in range(1500 if THOROUGH else 150):
    el, bad = KINDS[i % len(KINDS)]
    n = r.choice([3, 6, 12])
    run = Run(r, el, range(n), bad)
    run.step("new", [r.randrange(n) for _ in range(r.randrange(0, n))])
    for _ in range(r.randrange(5, 40)):
        op = r.choice(["add"] * 4 + ["discard"] * 4 + ["remove", "pop", "update", "update", "diff", "diff", "update_self", "copy",
                       "alias", "into_copy", "sample", "sample", "add_bad", "clear" if r.random() < .2 else "add", "diff_self" if r.random() < .2 else "add"])
        if op in ("add", "discard"):
            run.step(op, r.randrange(n))
        elif op == "remove":
            present = [u for u in range(n) if call(lambda: el(u) in run.c).v]
            if present: run.step(op, r.choice(present))
        elif op in ("update", "diff"):
            run.step(op, [r.randrange(n) for _ in range(r.randrange(0, 5))])
        elif op == "add_bad":
            if len(run.c): run.step(op)
        elif op == "sample":
            if len(run.c): run.step(op, r.choice([(1, 2), (1, 3), (3, 10), (9, 10), (1, 10), (2, 3)]))
        else:
            run.step(op)
    w.trace({}, run.steps, tag="random")
run = Run(r, ints, range(10), "x")
run.step("new", list(range(10))); run.step("sample_spread")
w.trace({}, run.steps, tag="spread")
w.close()
