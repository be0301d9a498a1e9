import sys, os, copy
import numpy as np
from vlib import *
from alipy.oracle import Oracle, OracleQueryInstance, OracleQueryMultiLabel, OracleQueryFeatures, Oracles
from alipy.index import IndexCollection, MultiLabelIndexCollection

MODE = sys.argv[1]
r = rng(MODE); w = Writer()

def ei(i): i = plain(i); return ("s" + i) if isinstance(i, str) else "i%s" % i
def el(x): return str(plain(x))
def ec(c):
    try: x = float(c) * 4
    except Exception: return -999
    return int(x) if x == int(x) else -998
def ex(v): return str(plain(list(v)))

class KB(object):
    """an oracle under test and the knowledge handed to it"""
    def __init__(self, multi, K, n, strings=False, n0=None):
        self.multi, self.K = multi, K
        self.nf = r.choice([2, 3])
        self.cls = (r.choice([OracleQueryMultiLabel, OracleQueryMultiLabel, OracleQueryFeatures]) if multi else r.choice([Oracle, OracleQueryInstance]))
        self.inst = r.random() < .5 and self.cls is not OracleQueryFeatures
        self.costflag = r.random() < .6
        self.defcost = multi and self.costflag and r.random() < .4
        self.lt = r.choice(["int", "neg", "str", "vec", "float"]) if not multi else r.choice(["int", "neg", "float"])
        self.used = set()
        self.labcost = [r.randrange(9) for _ in range(K)]
        self.strings = strings
        self.next = 0
        rows = [self.fresh() for _ in range(n)]
        self.auto = (not strings) and r.random() < .5
        if self.auto:
            for i, e in enumerate(rows): e["i"] = i
            self.next = n
        self.rows = rows
        labs = [e["lab"] for e in rows]
        f = r.random()
        a = dict(labels=np.array(labs) if f < .5 else labs)
        if self.inst: a["examples"] = np.array([e["exa"] for e in rows]) if r.random() < .5 else [e["exa"] for e in rows]
        if not self.auto:
            ix = [e["i"] for e in rows]
            a["indexes"] = np.array(ix) if r.random() < .3 else ix
        if self.costflag:
            if self.defcost:
                a["cost"] = [c / 4 for c in self.labcost] if r.random() < .5 else np.array(self.labcost) / 4
                if n == K: pass
            else:
                cs = [[c / 4 for c in e["cost"]] for e in rows] if multi else [e["cost"][0] / 4 for e in rows]
                a["cost"] = np.array(cs) if r.random() < .5 else cs
        if self.cls is OracleQueryFeatures: a["feature_mat"] = a.pop("labels")
        before = plain(a)
        self.o = call(lambda: self.cls(**a))
        self.same = plain(a) == before
        self.obj = self.o.v

    def label(self):
        one = lambda: r.choice(dict(int=[0, 1, 2], neg=[1, -1], float=[.5, 1.5, -2.5], str=["a", "bb"], vec=[0, 1, 2, 3])[self.lt])
        return [one() for _ in range(self.K)] if self.multi else [one(), one()] if self.lt == "vec" else one()

    def fresh(self):
        while True:
            exa = [r.randrange(-9, 10) / 2 for _ in range(self.nf)]
            if tuple(exa) not in self.used: break
        self.used.add(tuple(exa))
        self.next += r.randrange(1, 3)
        i = "k%d" % self.next if self.strings else self.next
        n = self.K if self.multi else 1
        cost = [4] * n if not self.costflag else list(self.labcost) if self.defcost else [r.randrange(9) for _ in range(n)]
        return dict(i=i, exa=exa, lab=self.label(), cost=cost)

    def enc(self, e):
        return dict(i=ei(e["i"]), exa=ex(e["exa"]), lab=[el(x) for x in e["lab"]] if self.multi else [el(e["lab"])], cost=e["cost"])

    def init(self):
        return dict(K=self.K if self.multi else 1, multi=self.multi, kb=[self.enc(e) for e in self.rows], inst=self.inst, costflag=self.costflag, defcost=self.defcost)

    def answer(self, res):
        labs, costs = res
        if self.multi: return dict(lab=[[el(x) for x in l] for l in labs], cost=[[ec(x) for x in c] for c in costs])
        return dict(lab=[[el(l)] for l in labs], cost=[[ec(c)] for c in costs])

    def spell(self, q, byexa=False):
        """the spelling(s) -> an argument for the oracle"""
        out = []
        for x in q:
            if byexa:
                k = list(x[1]) if r.random() < .5 else np.array(x[1])
            else: k = x[1]
            if not self.multi: out.append(k)
            elif x[0] == "all": out.append((k,))
            elif x[0] == "one": out.append((k, x[2]))
            else: out.append((k, tuple(x[2])) if r.random() < .5 else (k, list(x[2])))
        return out

    def queries(self, unknown=.15):
        q = []
        for _ in range(r.choice([1, 1, 2, 3])):
            e = r.choice(self.rows)
            i = e["i"] if r.random() > unknown else ("zz" if self.strings else 999)
            q.append(self.qform(i))
        return q

    def qform(self, i):
        f = r.random()
        if not self.multi or f < .3: return ["all", i]
        if f < .6: return ["one", i, r.choice(list(range(self.K)) + ([self.K, -1] if r.random() < .2 else []))]
        return ["many", i, r.sample(range(-1 if r.random() < .1 else 0, self.K + 1), r.randrange(1, self.K + 1))]

    def enq(self, q, f=ei): return [[x[0], f(x[1])] + x[2:] for x in q]

    def form(self, arg, q):
        """list / single / array / collection"""
        f = r.random()
        if len(arg) == 1 and f < .4: return arg[0]
        if not self.multi and f < .6: return np.array(arg)
        if not self.multi and f < .8 and len(set(arg)) == len(arg):
            c = IndexCollection(arg)
            if [plain(x) for x in c.index] == [plain(x) for x in arg]: return c
        return arg

    def learn(self, es, hasexa=True, hascost=True, shapeok=True):
        labs = [e["lab"] for e in es]; ix = [e["i"] for e in es]
        a = dict(labels=labs, indexes=ix)
        if r.random() < .4: a["labels"] = np.array(labs)
        if not shapeok: a["labels"] = [l + [1] for l in labs] if self.multi else [(1, 2) for l in labs] if len(es) > 1 else [{"x": 1}]
        if hasexa: a["examples"] = [e["exa"] for e in es]
        if hascost: a["cost"] = [[c / 4 for c in e["cost"]] if self.multi else e["cost"][0] / 4 for e in es]
        if len(es) == 1 and r.random() < .5:
            a = {k: v[0] for k, v in a.items()}
        before = plain(a)
        o = call(lambda: self.obj.add_knowledge(**a))
        return o, plain(a) == before

    def obs(self):
        def f():
            keys = list(self.obj.index_keys)
            d = dict(ok=True, n=len(keys), ans=[], byexa=[])
            for k in keys:
                z = self.answer(self.obj.query_by_index((k,) if self.multi else k))
                d["ans"].append(dict(i=ei(k), lab=z["lab"][0], cost=z["cost"][0]))
            if self.inst:
                for v in self.obj.example_keys:
                    z = self.answer(self.obj.query_by_example([(list(v),)] if self.multi else [list(v)]))
                    d["byexa"].append(dict(exa=ex(v), lab=z["lab"][0], cost=z["cost"][0]))
            return d
        o = call(f)
        return o.v if o.ok else dict(ok=False, why=o.e)

def c09_history(kb, ops, tag):
    steps = []
    def rec(op, a, o, same=True, v=0):
        d = o.rec(); d.update(op=op, a=a, argsame=bool(same), v=v, post=kb.obs()); steps.append(d)
    rec("new", 0, kb.o, kb.same)
    init = kb.init()
    kb.rows = list(kb.rows)
    for op in ops:
        if op == "q":
            q = kb.queries(); arg = kb.form(kb.spell(q), q); b = repr(arg)
            o = call(lambda: kb.answer(kb.obj.query_by_index(arg)))
            rec("q", kb.enq(q), o, repr(arg) == b, o.v if o.ok else 0)
        elif op == "qe":
            q = []
            for _ in range(r.choice([1, 1, 2, 3])):
                x = kb.qform(r.choice(kb.rows)["exa"] if r.random() > .15 else [100.5] * kb.nf)
                if x[0] == "one" and not 0 <= x[2] < kb.K: x[2] = 0
                q.append(x)
            arg = kb.spell(q, True); b = repr(arg)
            f = r.random()
            if not kb.multi and f < .4: arg = np.array([list(z) for z in arg])
            elif len(arg) == 1 and f < .6: arg = arg[0]
            o = call(lambda: kb.answer(kb.obj.query_by_example(arg)))
            rec("qe", kb.enq(q, ex), o, True, o.v if o.ok else 0)
        elif op == "learn":
            es = [kb.fresh() for _ in range(r.choice([1, 1, 2, 3]))]
            if kb.multi and r.random() < .2: es[-1]["i"] = r.choice(kb.rows)["i"]
            f = r.random()
            hx, hc, so = (kb.inst or r.random() < .3), (kb.costflag and (not kb.defcost or r.random() < .5) or (not kb.costflag and r.random() < .3)), True
            if f < .1: hx = False
            elif f < .2: hc = False
            elif f < .25 and kb.lt != "vec" and not any(e["i"] in [z["i"] for z in kb.rows] for e in es): so = False
            old = [e for e in es if e["i"] in [z["i"] for z in kb.rows]]
            bad = (kb.inst and not hx) or (kb.costflag and not kb.defcost and not hc) or not so
            if bad and (old or len(es) > 1): es = [kb.fresh()]
            o, same = kb.learn(es, hx, hc, so)
            rec("learn", dict(es=[kb.enc(e) for e in es], hasexa=hx, hascost=hc, shapeok=so), o, same)
            if not bad: kb.rows += [e for e in es if e["i"] not in [z["i"] for z in kb.rows]]
        elif op == "reload":
            if r.random() < .5: o = call(lambda: copy.deepcopy(kb.obj))
            else: o = call(lambda: (kb.obj.save_oracle("."), type(kb.obj).load_oracle("oracle.pkl"))[1])
            if o.ok: kb.obj = o.v
            rec("reload", 0, o)
    w.trace(init, steps, tag=tag)

class Crowd(object):
    def __init__(self, multi, K, strings=False):
        self.multi, self.K, self.strings = multi, K, strings
        self.obj = Oracles(); self.m = {}; self.steps = []; self.lists = []

    def rec(self, op, a, o, v=0):
        d = o.rec(); d.update(op=op, a=a, v=v, post=self.obs()); self.steps.append(d)

    def add(self, name, n=None, kb=None):
        kb = kb or KB(self.multi, self.K, n or r.randrange(1, 5), self.strings)
        if not kb.o.ok: self.rec("addoracle", dict(name=name, kb=kb.init()["kb"]), kb.o); return
        o = call(lambda: self.obj.add_oracle(name, kb.obj) and None)
        self.m[name] = kb
        self.rec("addoracle", dict(name=name, kb=kb.init()["kb"]), o)

    def learn(self, name):
        kb = self.m[name]
        es = [kb.fresh() for _ in range(r.choice([1, 2]))]
        old = [z["i"] for z in kb.rows]
        es = [e for e in es if e["i"] not in old]
        if not es: return
        o, _ = kb.learn(es, kb.inst, kb.costflag)
        kb.rows += es
        self.rec("learn", dict(name=name, es=[kb.enc(e) for e in es]), o)

    def kb(self): return next(iter(self.m.values()))

    def ask(self, names, q):
        kb = self.kb()
        arg = kb.form(kb.spell(q), q)
        any_, all_ = names == "any", names == "all"
        how = "s" if all_ or (not any_ and (len(names) != 1 or r.random() < .4)) else "one"
        lst = None if any_ or all_ else list(names)
        def f():
            if how == "one":
                return [self.obj.query_from(arg) if any_ else self.obj.query_from(arg, names[0] if r.random() < .5 else str(names[0]))]
            return self.obj.query_from_s(arg) if all_ else self.obj.query_from_s(arg, lst)
        o = call(f)
        v = call(lambda: [kb.answer(x) for x in o.v]) if o.ok else None
        if o.ok: self.lists += [arg, lst] + [z for x in o.v for z in x]
        nm = [] if any_ else list(self.m) if all_ else list(names)
        self.rec("ask", dict(any=any_, names=nm, q=kb.enq(q)), o, v.v if v and v.ok else 0)

    def mutate(self):
        def f():
            for l in self.lists:
                if isinstance(l, list): l.append(l[0] if l else 0); l.reverse()
                elif isinstance(l, np.ndarray) and l.dtype.kind in "if": l += 1
                elif isinstance(l, IndexCollection) and len(l) > 1: l.pop()
        o = call(f); self.lists = []
        self.rec("mutate", 0, o)

    def qs(self, x):
        if isinstance(x, (IndexCollection, MultiLabelIndexCollection)): x = x.index
        if not isinstance(x, (list, np.ndarray)): x = [x]
        out = []
        for k in x:
            if not self.multi: out.append(["all", ei(k)])
            elif len(k) == 1: out.append(["all", ei(k[0])])
            elif isinstance(k[1], (list, tuple)): out.append(["many", ei(k[0]), list(k[1])])
            else: out.append(["one", ei(k[0]), plain(k[1])])
        return out

    def table(self, txt, full=False):
        rows = [[c.strip() for c in l.strip("|").split("|")] for l in txt.splitlines() if l.startswith("|")][1:]
        if full: return [dict(name=x[0], n=int(x[-1])) for x in rows if x[0]]
        return [dict(name=x[0], n=int(x[1]), cost=ec(float(x[2]))) for x in rows]

    def obs(self):
        def f():
            kb = self.kb() if self.m else None
            h = [dict(names=list(x[0]), ans=[kb.answer(z) for z in x[1]], q=self.qs(x[2])) for x in self.obj.query_history]
            return dict(ok=True, cost=ec(self.obj.cost_inall), hist=h, names=list(self.obj.names()), len=len(self.obj),
                        table=self.table(repr(self.obj)), full=self.table(self.obj.full_history(), True))
        o = call(f)
        return o.v if o.ok else dict(ok=False, why=o.e)

if MODE == "c09":
    for i in range(3000 if THOROUGH else 420):
        multi = i % 2 == 1
        kb = KB(multi, r.choice([2, 3, 4]) if multi else 1, r.choice([1, 2, 3, 6]), strings=r.random() < .2)
        c09_history(kb, [r.choice(["q"] * 4 + ["qe"] * (3 if kb.inst else 1) + ["learn"] * 3 + ["reload"]) for _ in range(r.randrange(2, 9))], "multi" if multi else "single")
else:
    beh = read(sys.argv[2])
    for h in (beh if THOROUGH else r.sample(beh, min(len(beh), 350))):
        c = Crowd(True, 2)
        for nm in ("a", "b"):
            for _ in range(50):
                kb = KB(True, 2, 1)
                if not kb.costflag or not kb.defcost: break
            kb = KB(True, 2, 1)
            if not kb.auto:
                while not kb.auto: kb = KB(True, 2, 1)
            c.add(nm, kb=kb)
        for x in h:
            if x[0] == "learn":
                kb = c.m[x[1]]; e = kb.fresh(); e["i"] = x[2]
                if any(z["i"] == x[2] for z in kb.rows): continue
                o, _ = kb.learn([e], kb.inst, kb.costflag); kb.rows.append(e)
                c.rec("learn", dict(name=x[1], es=[kb.enc(e)]), o)
            else: c.ask(x[1], [[z[0], z[1]] + z[2:] for z in x[2]])
        w.trace(dict(K=2), c.steps, tag="graph")
    for i in range(1500 if THOROUGH else 220):
        multi = i % 2 == 1
        K = r.choice([2, 3]) if multi else 1
        c = Crowd(multi, K, strings=r.random() < .2)
        names = ["o%d" % k for k in range(r.choice([1, 2, 3, 5]))]
        r.shuffle(names)
        size = r.choice([None, 4])
        for nm in names[:-1] or names: c.add(nm, size)
        rest = names[len(names[:-1] or names):]
        for _ in range(r.randrange(2, 10)):
            op = r.choice(["ask"] * 7 + ["learn", "mutate", "addoracle", "badoracle"])
            if op == "ask":
                q = r.choice(list(c.m.values())).queries(unknown=.05)
                f = r.random()
                held = list(c.m)
                nm = "any" if f < .2 else "all" if f < .4 else r.sample(held, r.randrange(0 if f > .9 else 1, len(held) + 1))
                if isinstance(nm, list) and nm and r.random() < .1: nm.append("nobody")
                if isinstance(nm, list) and nm and r.random() < .1: nm.append(nm[0])
                c.ask(nm, q)
            elif op == "learn": c.learn(r.choice(list(c.m)))
            elif op == "mutate": c.mutate()
            elif op == "badoracle": c.rec("badoracle", 0, call(lambda: c.obj.add_oracle("x", {"a": 1})))
            elif rest: c.add(rest.pop(), size)
        for nm, kb in list(c.m.items()):        # everything that was added or learned can be asked for in the end
            known = [["all", z["i"]] for z in kb.rows]
            r.shuffle(known)
            if known: c.ask([nm], known)
        w.trace(dict(K=K), c.steps, tag="random")
w.close()
