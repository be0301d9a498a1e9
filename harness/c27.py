"""C27: whole active learning loops, composed of the real collections, oracles, repositories, histories and criteria."""
import copy, os, shutil, sys, tempfile
import numpy as np
from vlib import *
from alipy import ToolBox
from alipy.index import IndexCollection, MultiLabelIndexCollection, FeatureIndexCollection
from alipy.oracle import Oracle, OracleQueryMultiLabel, OracleQueryFeatures, Oracles, MatrixRepository, ElementRepository
from alipy.experiment import State, StoppingCriteria, ExperimentAnalyser
from alipy.experiment.state_io import StateIO
from alipy.query_strategy.query_labels import QueryInstanceRandom
from alipy.query_strategy.multi_label import QueryMultiLabelRandom
from alipy.query_strategy.query_features import QueryFeatureRandom
from alipy.query_strategy.cost_sensitive import QueryCostSensitiveRandom
r = rng("c27"); np.random.seed(SEED * 7919 + 5)
w = Writer()
sys.stdout.flush(); sys.stdout = open(os.devnull, "w")
TMP = tempfile.mkdtemp(prefix="c27_")
def V(v):
    if not hasattr(v, "__len__") or isinstance(v, str): return str(plain(v))
    v = plain(list(v))
    return str(v[0]) if len(v) == 1 else str(v)     # the label of an entry may come as a list of one
def tot(c): return float(np.sum([np.sum(z) for z in c]))

class Loop(object):
    def __init__(self, kind, n, n0, crit, names=True):
        """n rows to learn about, n0 of which are labeled at first; a test row more"""
        self.kind, self.steps, self.crit = kind, [], crit
        self.K = K = 1 if kind == "single" else r.choice([2, 3]); N = n + 2
        self.N = N
        self.names = list(range(N))
        self.tb = r.random() < .4
        if kind == "single" and names and r.random() < .4:
            self.names = r.sample(range(5 * N), N) if r.random() < .6 else ["p%d" % i for i in r.sample(range(99), N)]
        self.X = np.array([[i + .5] + [r.randrange(9) / 4 for _ in range(max(K, 2) - 1)] for i in range(N)])
        if kind == "feat": self.X = self.X[:, :K]
        pool = [0, 1, 2] if kind == "single" else r.choice([[0, 1], [-1, 1]])
        if kind == "feat": pool = [0, 1]
        self.y = np.array([r.choice(pool) if kind in ("single", "feat") else [r.choice(pool) for _ in range(K)] for _ in range(N)])
        if kind not in ("single", "feat"): self.y[0] = pool[0]; self.y[1] = pool[1]
        if kind in ("single", "feat"): self.y[:2] = [0, 1]
        self.u = r.choice([1, .5, .25])
        self.cm = [[r.randrange(1, 5) for _ in range(K)] for _ in range(N)]
        if r.random() < .2: self.cm = [[1] * K for _ in range(N)]; self.u = 1
        self.free = self.u == 1 and set(sum(self.cm, [])) == {1} and r.random() < .5
        rows = list(range(N)); r.shuffle(rows)
        self.test, tr = rows[:1], rows[1:]
        self.train = tr
        self.whole = kind in ("single", "multi")
        keys = [(i,) for i in tr] if self.whole else [(i, j) for i in tr for j in range(K)]
        r.shuffle(keys)
        self.l0 = keys[:n0]; self.u0 = keys[n0:n0 + n] if n else keys[n0:]
        self.inst = r.random() < .5
        self.dir = tempfile.mkdtemp(dir=TMP)
        self.mat = kind == "multi" or (kind == "single" and (self.tb or r.random() < .5))
        if isinstance(self.names[0], str) and not self.tb: self.mat = False
        self.crowd = r.random() < .6
        self.up = bool(r.random() < .5)
        o = call(self.build); self.rec("start", 0, o)

    # ---- keys and what the library calls them
    def ix(self, k): return self.names[k[0]] if self.kind == "single" else tuple(k)
    def key(self, x):
        if self.kind == "single": return [self.names.index(plain(x))]
        x = [int(v) for v in x] if hasattr(x, "__len__") else [int(x)]
        return x
    def keys(self, c):
        if isinstance(c, IndexCollection): c = c.index
        if self.kind != "multi": return sorted(self.key(x) for x in c)
        p = set()
        for x in c:
            x = tuple(x) if hasattr(x, "__len__") else (x,)
            for j in (range(self.K) if len(x) == 1 else np.ravel(x[1]).tolist()): p.add((int(x[0]), int(j)))
        out = []
        for i in sorted(set(a for a, _ in p)):
            js = [j for a, j in p if a == i]
            out += [[i]] if len(js) == self.K else [[i, j] for j in sorted(js)]
        return out
    def rk(self, k): return self.names[k[0]] if self.kind == "single" else k[0] if self.kind == "multi" else tuple(k)     # in the repository
    def lab(self, k):
        if self.kind == "feat": return self.X[k[0], k[1]]
        return self.y[k[0]] if self.kind != "part" else self.y[k[0], k[1]]
    def cost(self, k): return sum(self.cm[k[0]]) if self.kind == "multi" else self.cm[k[0]][0] if self.kind == "single" else self.cm[k[0]][k[1]]
    def truth(self):
        ks = [(i,) for i in range(self.N)] if self.whole else [(i, j) for i in range(self.N) for j in range(self.K)]
        return [dict(key=list(k), lab=V(self.lab(k)), cost=self.cost(k), exa=V(self.X[k[0]]) if self.inst else "-") for k in ks]

    def coll(self, ks):
        if self.kind == "single": return IndexCollection([self.ix(k) for k in ks])
        C = FeatureIndexCollection if self.kind == "feat" and r.random() < .5 else MultiLabelIndexCollection
        return C([self.ix(k) for k in ks], self.K)

    def oracle(self, f):
        if self.kind == "single":
            kw = dict(indexes=list(self.names)) if self.names != list(range(self.N)) or r.random() < .3 else {}
            if not (self.free and f == 1): kw["cost"] = [c[0] * self.u * f for c in self.cm]
            return Oracle(self.y if r.random() < .5 else self.y.tolist(), **kw)
        kw = {} if self.free and f == 1 else dict(cost=np.array(self.cm) * self.u * f)
        return OracleQueryFeatures(self.X, **kw) if self.kind == "feat" else OracleQueryMultiLabel(self.y, **kw)

    def build(self):
        self.box = None
        l, u = [self.ix(k) for k in self.l0], [self.ix(k) for k in self.u0]
        tr, te = [self.names[i] for i in self.train], [self.names[i] for i in self.test]
        if self.tb:
            kw = dict(instance_indexes=list(self.names)) if self.kind == "single" else {}
            self.box = ToolBox(y=self.y.copy(), X=self.X.copy(), query_type=dict(single="AllLabels", multi="AllLabels", part="PartLabels", feat="Features")[self.kind],
                               train_idx=[tr], test_idx=[te], label_idx=[l], unlabel_idx=[u], **kw)
            _, _, self.L, self.U = self.box.get_split(0)
            self.o = self.box.get_clean_oracle(**({} if self.free else dict(cost_mat=[c[0] * self.u for c in self.cm] if self.kind == "single" else np.array(self.cm) * self.u)))
            self.io = self.box.get_stateio(0, saving_path=self.dir, verbose=r.random() < .3)
            self.st = self.box.get_stopping_criterion(*self.criterion())
        else:
            self.L, self.U = self.coll(self.l0), self.coll(self.u0)
            self.o = self.oracle(1)
            self.io = StateIO(0, tr, te, self.L, self.U, saving_path=self.dir, verbose=False)
            self.st = StoppingCriteria(*self.criterion())
        self.ora = None
        if self.crowd:
            self.ora = Oracles(); self.ora.add_oracle("a", self.o); self.ora.add_oracle("b", self.oracle(2))
        self.repo = self.newrepo()

    def criterion(self):
        c = self.crit
        return (None, None) if c["kind"] == "none" else (c["kind"], c["num"] / c["den"] * (self.u if c["kind"] == "cost_limit" else 1))

    def newrepo(self):
        if self.box is not None: return self.box.get_repository(0, instance_flag=self.inst)
        one = (lambda v: v) if self.whole else (lambda v: np.array([v]))     # in the form in which the oracle answers
        kw = dict(labels=[one(self.lab(k)) for k in self.l0], indexes=[self.rk(k) for k in self.l0])
        if self.inst: kw["examples"] = [self.X[k[0]] for k in self.l0]
        return (MatrixRepository if self.mat else ElementRepository)(**kw)

    # ---- observers
    def rows(self):
        X, y, ind = self.repo.get_training_data()
        out = []
        for q in range(len(y)):
            k = ind[q]
            k = [self.names.index(plain(k))] if self.kind == "single" else [int(v) for v in np.ravel(k)]
            out.append(dict(key=k, lab=V(y[q]), exa=V(X[q]) if self.inst else "-"))
        return out

    def money(self, c):
        c = float(c) / self.u
        return int(c) if c == int(c) else -1

    def obs(self):
        def f():
            wk = self.io.get_workspace()
            self.st.update_information(self.io)
            n = [self.names.index(plain(i)) for i in wk[0]], [self.names.index(plain(i)) for i in wk[1]]
            sts = []
            for s in self.io:
                sel = s.get_value("select_index")
                sts.append(dict(sel=[self.key(x) for x in sel], lab=[V(z) for z in s.get_value("queried_label")], cost=self.money(tot(s.get_value("cost"))), perf=int(s.get_value("performance"))))
            return dict(ok=True, L=self.keys(self.L), U=self.keys(self.U), wL=self.keys(wk[2]), wU=self.keys(wk[3]), train=sorted(n[0]) == sorted(self.train) and n[1] == self.test,
                        n=len(self.io), cost=self.money(self.io.cost_inall), states=sts, rows=self.rows(), rcost=self.money(self.repo.cost_inall), rn=int(self.repo.num_of_queries),
                        lcost=self.money(self.ora.cost_inall) if self.crowd else -1, ln=len(self.ora.query_history) if self.crowd else -1, stop=bool(self.st.is_stop()))
        o = call(f)
        return o.v if o.ok else dict(ok=False, why=o.e)
    def rec(self, op, a, o, v=0):
        d = o.rec(); d.update(op=op, a=a, v=v, post=self.obs()); self.steps.append(d)

    # ---- the loop
    def unl(self):
        try: return self.keys(self.U)
        except Exception: return []
    def pick(self, b):
        X, y = self.X, self.y
        def f():
            if self.kind == "single": s = QueryInstanceRandom(X, y).select(self.L, self.U, batch_size=b)
            elif self.kind == "feat": s = QueryFeatureRandom(X, y).select(self.L, self.U, batch_size=b)
            else: s = QueryMultiLabelRandom(X, y).select(self.L, self.U, batch_size=b, select_type="ins" if self.kind == "multi" else "ins-lab")
            return [self.key(x) for x in s]
        o = call(f); self.rec("pick", dict(b=b), o, o.v if o.ok else [])
        return o.v if o.ok else []

    def query(self, sel, f=1):
        if not sel: return
        if not self.crowd: f = 1
        perf = r.randrange(100)
        xs = [self.ix(k) for k in sel]
        got = []
        def go():
            q = xs if self.kind != "single" or r.random() < .7 else np.array(xs)
            if self.crowd: lab, c = self.ora.query_from(q, "ab"[f - 1])
            else: lab, c = self.o.query_by_index(q)
            got.append((lab, c))
            one = len(xs) == 1 and self.kind == "single" and r.random() < .3
            kw = dict(labels=lab, indexes=[self.rk(k) for k in sel], cost=c)
            if self.inst: kw["examples"] = [self.X[k[0]] for k in sel]
            self.repo.update_query(**kw)
            self.L.update(xs); self.U.difference_update(xs)
            self.io.add_state(State(select_index=xs[0] if one else xs, performance=perf, queried_label=lab, cost=c))
        o = call(go)
        v = dict(lab=[V(z) for z in got[0][0]], cost=self.money(tot(got[0][1]))) if got else 0
        self.rec("query", dict(sel=[list(k) for k in sel], f=f, perf=perf), o, v)

    def back(self, k):
        def f():
            gone = [self.key(x) for s in list(self.io)[k:] for x in s.get_value("select_index")]
            g = self.io.recover_workspace(k)
            _, _, self.L, self.U = g
            for x in gone: self.repo.discard(index=self.rk(x))
        self.rec("back", k, call(f))
    def look(self, k):
        got = []
        def f():
            _, _, L, U = self.io.get_workspace(k); got.append(dict(L=self.keys(L), U=self.keys(U)))
            if len(U): x = list(U)[0]; U.discard(x); L.update([x])
        o = call(f); self.rec("look", k, o, got[0] if got else 0)
    path = property(lambda s: os.path.join(s.dir, "AL_round_0.pkl"))
    def save(self): self.rec("save", 0, call(lambda: self.io.save() and 0))
    def reopen(self):
        def f():
            self.io = StateIO.load(self.path)
            _, _, self.L, self.U = self.io.get_workspace()
            self.repo = self.newrepo()
            for s in self.io:
                sel = [self.key(x) for x in s.get_value("select_index")]
                kw = dict(labels=s.get_value("queried_label"), indexes=[self.rk(k) for k in sel], cost=s.get_value("cost"))
                if self.inst: kw["examples"] = [self.X[k[0]] for k in sel]
                self.repo.update_query(**kw)
            self.st.reset()
        self.rec("reopen", 0, call(f))
    def analyse(self):
        if not len(self.io): return
        ax = r.choice(["num_of_queries", "cost"])
        def f():
            an = ExperimentAnalyser(ax); an.add_method("m", [self.io]); d = an.get_extracted_data("m")[0]
            return [int(z) for z in d] if ax == "num_of_queries" else [[self.money(tot(np.ravel(np.asarray(z[0], dtype=float)))) , int(z[1])] for z in d]
        o = call(f); self.rec("analyse", ax, o, o.v if o.ok else [])
    def done(self, tag):
        w.trace(dict(T=self.truth(), L0=[list(k) for k in self.l0], U0=[list(k) for k in self.u0], c=self.crit, crowd=self.crowd), self.steps, tag)
        shutil.rmtree(self.dir, ignore_errors=True)

KINDS = ["single", "multi", "part", "feat"]
beh = read(sys.argv[1])
for n, b in enumerate(r.sample(beh, min(len(beh), 3000 if THOROUGH else 260))):
    L = Loop(KINDS[n % 4], 3, 1, b["c"])
    m = dict(enumerate(L.l0 + L.u0))
    for x in b["h"]:
        if x[0] == "query": L.query([m[k] for k in x[1]], x[2])
        elif x[0] == "back": L.back(x[1])
        else: getattr(L, x[0])()
    L.done("graph")
for i in range(2400 if THOROUGH else 260):
    k = r.choice(["none", "num_of_queries", "cost_limit", "percent_of_unlabel"])
    c = dict(kind=k, num=0, den=1)
    if k == "num_of_queries": c["num"] = r.randrange(1, 9)
    elif k == "cost_limit": c["num"] = r.randrange(1, 40)
    elif k == "percent_of_unlabel": c["den"] = r.choice([1, 2, 3, 4, 10]); c["num"] = r.randrange(0, c["den"] + 1)
    L = Loop(KINDS[i % 4], r.choice([5, 7, 10]), r.choice([1, 2, 3]), c)
    saved = False
    for _ in range(r.randrange(3, 14)):
        f = r.random()
        if f < .62:
            b = r.choice([1, 1, 2, 3])
            if r.random() < .5: L.query(L.pick(b), r.choice([1, 1, 2]))
            else:
                u = L.unl()
                if u: L.query(r.sample(u, min(b, len(u))), r.choice([1, 1, 2]))
        elif f < .7: L.look(r.randrange(0, len(L.io) + 1))
        elif f < .78 and len(L.io): L.back(r.randrange(0, len(L.io)))
        elif f < .86: L.save(); saved = True
        elif f < .92 and saved: L.reopen()
        else: L.analyse()
    L.done("random")
w.close(); shutil.rmtree(TMP, ignore_errors=True)
os._exit(0)
