import sys, copy
import numpy as np
from vlib import *
from alipy.oracle import ElementRepository, MatrixRepository
from alipy.index import IndexCollection
r = rng("c11"); w = Writer()
def ei(i): i = plain(i); return ("s" + i) if isinstance(i, str) else "i%s" % (i,)
def el(x): return str(plain(x))
def ex(v): return str(plain(list(v)))

class Run(object):
    def __init__(self, kind, hasx, strings=False, vec=False, rows=None, tup=False):
        self.kind, self.hasx, self.strings, self.vec, self.tup = kind, hasx, strings, vec, tup
        self.nf = 2
        self.ints = r.random() < .4
        self.grid = r.choice([[0., .5, 1., 1.5, 2., 2.5]] * 3 + [[1 + k * 1e-9 for k in range(4)], [k * 1e-10 for k in range(4)], [1e9 + k for k in range(4)], [-1., 1., -2., 2.]])
        n = r.randrange(1, 4)
        self.seen_x, self.seen_i = [], []
        self.rows = rows or []
        for _ in range(0 if rows else n):
            e = self.entry(dup=False); self.rows.append(e)
        for e in self.rows: self.note(e)
        a = dict(labels=[e["lab"] for e in self.rows], indexes=[e["i"] for e in self.rows])
        if r.random() < .5: a["labels"] = np.array(a["labels"])
        f = r.random()
        if not tup:
            if f < .3: a["indexes"] = np.array(a["indexes"])
            elif f < .6 and sorted(a["indexes"]) == a["indexes"]: a["indexes"] = IndexCollection(a["indexes"])
        if hasx: a["examples"] = np.array([e["exa"] for e in self.rows]) if r.random() < .5 else [list(e["exa"]) for e in self.rows]
        self.a0 = a
        o = call(lambda: (ElementRepository if kind == "element" else MatrixRepository)(**a))
        self.o = o.v
        self.steps = []
        self.rec("new", 0, o)

    def note(self, e):
        if e["i"] not in self.seen_i: self.seen_i.append(e["i"])
        if e["exa"] not in self.seen_x: self.seen_x.append(e["exa"])

    def index(self):
        k = r.randrange(8)
        return "k%d" % k if self.strings else (k, r.randrange(2)) if self.tup else k

    def entry(self, dup=True):
        while True:
            i = self.index()
            if dup or i not in self.seen_i: break
        while True:
            x = tuple(r.randrange(3) if self.ints else r.choice(self.grid) for _ in range(self.nf))
            if dup or x not in self.seen_x: break
        e = dict(i=i, exa=x, lab=self.label(), cost=r.randrange(4))
        if r.random() < .2: e["costs"] = [r.randrange(4) for _ in range(r.randrange(1, 4))]; e["cost"] = sum(e["costs"])
        if not dup: self.note(e)
        return e

    def label(self):
        return [r.randrange(2), r.randrange(3)] if self.vec else r.randrange(-1, 3)

    def enc(self, e): return dict(i=ei(e["i"]), lab=el(e["lab"]), exa=ex(e["exa"]), cost=e.get("cost", 0))

    def init(self):
        return dict(kind=self.kind, hasx=self.hasx, kb=[dict(i=ei(e["i"]), lab=el(e["lab"]), exa=ex(e["exa"]) if self.hasx else "-") for e in self.rows])

    def rec(self, op, a, o, same=True, v=0):
        d = o.rec(); d.update(op=op, a=a, argsame=bool(same), v=v, post=self.obs()); self.steps.append(d)

    def ret(self, t):
        X, y = t
        if y is None: return dict(lab=[], exa=[])
        y = np.asarray(y)
        base = 2 if self.vec else 1
        if y.ndim < base: y = y.reshape((1,) + y.shape)
        labs = [el(z) for z in y] if y.size else []
        if X is None or np.size(X) == 0: return dict(lab=labs, exa=[])
        X = np.atleast_2d(np.asarray(X))
        return dict(lab=labs, exa=[ex(z) for z in X])

    def obs(self):
        def f():
            o = self.o
            X, y, ind = o.get_training_data()
            ind = [tuple(i) if isinstance(i, np.ndarray) else i for i in ind]
            d = dict(ok=True, idx=[ei(i) for i in ind], labs=[el(z) for z in y], exas=[] if X is None or np.size(X) == 0 else [ex(z) for z in X])
            d["members"] = [ei(i) for i in self.seen_i + [99] if i in o]
            d["byi"] = []
            for i in ind:
                q = plain(i) if not self.tup else tuple(plain(z) for z in i)
                t = self.ret(o.retrieve_by_indexes(q) if r.random() < .5 else o[[q]] if not self.tup else o[q])
                d["byi"].append(dict(i=ei(i), lab=t["lab"][0] if len(t["lab"]) == 1 else "?", exa=t["exa"][0] if len(t["exa"]) == 1 else "-"))
            d["byx"] = []
            for x in {tuple(z): 1 for z in X} if d["exas"] else {}:
                t = self.ret(o.retrieve_by_examples(list(x)))
                d["byx"].append(dict(exa=ex(x), labs=t["lab"]))
            d["cost"] = plain(o.cost_inall); d["nq"] = plain(o.num_of_queries)
            h = o.full_history()
            t = " ".join(l.rstrip().rstrip("|").split("|")[-1].strip() for l in o.full_history().splitlines() if l.startswith("|"))
            d["hn"] = int(t.split("number_of_queries:")[1].split()[0]); d["hcost"] = int(float(t.split("cost:")[-1].split()[0]))
            return d
        o = call(f)
        return o.v if o.ok else dict(ok=False, why=o.e)

    def add(self, e, withexa=True, bad=False, cost=True):
        a = dict(select_index=e["i"], label=e["lab"])
        if bad: a["label"] = [1, 2, 3]
        if withexa: a["example"] = list(e["exa"]) if r.random() < .5 else np.array(e["exa"])
        if cost and "costs" in e: a["cost"] = list(e["costs"]) if r.random() < .5 else np.array(e["costs"])
        elif cost: a["cost"] = e["cost"] if r.random() < .7 else np.array([e["cost"]])
        else: e = dict(e, cost=0)
        b = plain(a)
        o = call(lambda: self.o.add(**a))
        if o.ok: self.note(e)
        self.rec("add", dict(es=[self.enc(e)], hasexa=withexa, bad=bad), o, plain(a) == b)

    def update(self, es, withexa=True, bad=False, cost=True):
        a = dict(labels=[e["lab"] for e in es], indexes=[e["i"] for e in es])
        if r.random() < .4: a["labels"] = np.array(a["labels"])
        f = r.random()
        if f < .2 and not self.tup: a["indexes"] = np.array(a["indexes"])
        elif f < .4 and not self.tup and sorted(set(a["indexes"])) == a["indexes"]: a["indexes"] = IndexCollection(a["indexes"])
        elif f < .7 and len(es) == 1: a["indexes"] = es[0]["i"]
        if withexa: a["examples"] = np.array([e["exa"] for e in es]) if r.random() < .5 else [list(e["exa"]) for e in es]
        if cost: a["cost"] = [list(e["costs"]) if "costs" in e else e["cost"] for e in es]
        else: es = [dict(e, cost=0) for e in es]
        if bad: a["labels"] = list(a["labels"]) + [a["labels"][0]]
        b = plain({k: list(v) if isinstance(v, IndexCollection) else v for k, v in a.items()})
        o = call(lambda: self.o.update_query(**a))
        if o.ok:
            for e in es: self.note(e)
        self.rec("update", dict(es=[self.enc(e) for e in es], hasexa=withexa, bad=bad), o, b == plain({k: list(v) if isinstance(v, IndexCollection) else v for k, v in a.items()}))

    def someindex(self): return r.choice(self.seen_i) if self.seen_i and r.random() < .8 else self.index()
    def somex(self): return r.choice(self.seen_x) if self.seen_x and r.random() < .8 else (77., 77.)

    def discard_i(self, i): self.rec("discard_i", ei(i), call(lambda: self.o.discard(index=i)))
    def discard_x(self, x): self.rec("discard_x", ex(x), call(lambda: self.o.discard(example=list(x) if r.random() < .5 else np.array(x))))
    def get_i(self, q):
        f = r.random()
        arg = q[0] if len(q) == 1 and f < .5 else np.array(q) if f < .7 and not self.tup else IndexCollection(q) if f < .9 and not self.tup and sorted(set(q)) == q else q
        o = call(lambda: self.o.retrieve_by_indexes(arg)); v = call(lambda: self.ret(o.v)) if o.ok else None
        self.rec("get_i", [ei(i) for i in q], o, True, v.v if v and v.ok else dict(lab=["?"], exa=[]))
    def get_x(self, q):
        arg = list(q[0]) if len(q) == 1 and r.random() < .6 else np.array(q) if r.random() < .5 else [list(x) for x in q]
        o = call(lambda: self.o.retrieve_by_examples(arg)); v = call(lambda: self.ret(o.v)) if o.ok else None
        self.rec("get_x", [ex(x) for x in q], o, True, v.v if v and v.ok else dict(lab=["?"], exa=[]))
    def clear(self): self.rec("clear", 0, call(lambda: self.o.clear() and None))
    def mutate(self):
        def f():
            for z in self.o.get_training_data():
                if isinstance(z, np.ndarray) and z.dtype.kind in "if": z += 5
        self.rec("mutate", 0, call(f))
    def done(self, tag): w.trace(self.init(), self.steps, tag=tag)

beh = read(sys.argv[1])
for b in (beh if THOROUGH else r.sample(beh, min(len(beh), 700))):
    run = Run(b["kind"], True, rows=[dict(i=0, lab=0, exa=(0, 0))])
    cl = False
    E = lambda e: dict(i=e["i"], lab=e["lab"], exa=(e["exa"], 1), cost=1)
    for x in b["h"]:
        if x[0] == "add": run.add(E(x[1]))
        elif x[0] == "update": run.update([E(x[1]), E(x[2])])
        elif x[0] == "discard_i": run.discard_i(x[1])
        elif x[0] == "discard_x": run.discard_x((x[1], 1))
        elif x[0] == "get_i": run.get_i(x[1:])
        else: run.clear()
    run.done("graph")
for i in range(2500 if THOROUGH else 350):
    kind = ["element", "matrix"][i % 2]
    f = r.random()
    run = Run(kind, r.random() < .7, strings=f < .15, vec=r.random() < .3, tup=kind == "element" and f > .8)
    for _ in range(r.randrange(4, 16)):
        op = r.choice(["add"] * 3 + ["update"] * 3 + ["discard_i"] * 2 + ["discard_x", "get_i", "get_i", "get_x", "get_x", "mutate"] + (["clear"] if r.random() < .15 else []))
        wx = (run.hasx or r.random() < .3) and r.random() > .07
        if op == "add": run.add(run.entry(), wx, bad=kind == "matrix" and r.random() < .07 and False, cost=r.random() < .7)
        elif op == "update":
            n = r.choice([1, 1, 2, 3])
            es = [run.entry() for _ in range(n)]
            run.update(es, wx, bad=r.random() < .07, cost=r.random() < .7)
        elif op == "discard_i": run.discard_i(run.someindex())
        elif op == "discard_x": run.discard_x(run.somex())
        elif op == "get_i": run.get_i([run.someindex() for _ in range(r.choice([1, 1, 2, 3]))])
        elif op == "get_x": run.get_x([run.somex() for _ in range(r.choice([1, 1, 2, 3]))])
        else: getattr(run, op)()
    run.done("random")
w.close()
