import copy, os, shutil, sys, tempfile, threading
import numpy as np
from vlib import *
from alipy import ToolBox
from alipy.index import IndexCollection, MultiLabelIndexCollection
from alipy.experiment.state import State
from alipy.experiment.state_io import StateIO
from alipy.experiment.stopping_criteria import StoppingCriteria
from alipy.metrics import performance as perf
r = rng("c22")
np.random.seed(SEED * 104729 + 11)
w = Writer()
sys.stdout.flush(); real = sys.stdout; sys.stdout = open(os.devnull, "w")
PAIR = ("multi", "part", "feat")
QT = dict(single="AllLabels", multi="AllLabels", part="PartLabels", feat="Features")
S = lambda v: str(plain(v))
def V(v): return S(list(v)) if hasattr(v, "__len__") and not isinstance(v, str) else S(v)
def E(f):
    try: return S(f())
    except Exception as e: return type(e).__name__
TMP = tempfile.mkdtemp(prefix="c22_")

SEEN = [None]
def target(round, train_id, test_id, Ucollection, Lcollection, saver, examples, labels, global_parameters):
    SEEN[0](round, train_id, test_id, Ucollection, Lcollection, saver, examples, labels, global_parameters)

class Data(object):
    def __init__(self, kind, n, K=3):
        self.kind, self.n, self.hasx = kind, n, kind == "feat" or r.random() < .75
        self.nf = K if kind == "feat" else r.choice([2, 3])
        xs = [[r.randrange(9) / 2 for _ in range(self.nf)] for _ in range(n)]
        for i, x in enumerate(xs): x[0] = i + .5                      # examples are distinct
        self.X = np.array(xs)
        lt = r.choice(["01", "pm", "multi", "str", "float"]) if kind == "single" else "01" if kind == "feat" else r.choice(["01", "pm"])
        self.lt = lt
        pool = {"01": [0, 1], "pm": [-1, 1], "multi": [0, 1, 2], "str": ["a", "b"], "float": [.5, 1.25, 2.75, 3.5]}[lt]
        if kind in ("single", "feat"):
            ys = [pool[i % len(pool)] for i in range(n)]; r.shuffle(ys)
            self.K = K if kind == "feat" else 1
        else:
            ys = [[r.choice(pool) for _ in range(K)] for _ in range(n)]
            for j in range(K):
                for i, v in enumerate(pool): ys[(j + i) % n][j] = v
            self.K = K
        self.ys = ys
        self.names = list(range(n))
        self.own = kind == "single" and r.random() < .4
        if self.own:
            self.names = r.sample(range(3 * n), n)
            if r.random() < .3: self.names = ["img%d" % k for k in self.names]

    def enc(self):
        cells = self.X if self.kind == "feat" else self.ys if self.kind in PAIR else []
        return dict(kind=self.kind, names=[S(i) for i in self.names], y=[V(y) for y in self.ys], K=self.K, qt=QT[self.kind],
                    x=[V(x) for x in self.X] if self.hasx else ["-"] * self.n, cells=[[S(c) for c in row] for row in cells])

    def args(self):
        a = dict(y=np.array(self.ys) if r.random() < .6 else copy.deepcopy(self.ys), query_type=QT[self.kind])
        if self.kind == "single" and r.random() < .25: a["y"] = r.choice([np.array(self.ys)[:, None], [[v] for v in self.ys], np.array(self.ys)[None, :], [list(self.ys)]])
        if self.hasx: a["X"] = self.X.copy() if r.random() < .7 else self.X.tolist()
        if self.own: a["instance_indexes"] = list(self.names) if r.random() < .5 else np.array(self.names)
        return a

    def side(self, c):
        if isinstance(c, IndexCollection): c = c.index
        if self.kind not in PAIR: return sorted(S(i) for i in c)
        out = set()
        for t in c:
            t = t if isinstance(t, (tuple, list)) else (t,)
            js = range(self.K) if len(t) == 1 else t[1] if isinstance(t[1], (list, tuple)) else [t[1]]
            for j in js: out.add((S(t[0]), int(j) + 1))
        return [list(t) for t in sorted(out)]

    def fold(self, f): return dict(tr=[S(i) for i in f[0]], te=[S(i) for i in f[1]], L=self.side(f[2]), U=self.side(f[3]))
    def folds(self, s): return [self.fold([s[q][k] for q in range(4)]) for k in range(len(s[0]))]

    def given(self):
        """a split of the user's own"""
        out = ([], [], [], [])
        for _ in range(r.choice([1, 2, 3])):
            nm = list(self.names); r.shuffle(nm)
            c = max(3, int(self.n * r.choice([.5, .7]))); l = r.randrange(1, c)
            tr, te, la, un = nm[:c], nm[c:], nm[:l], nm[l:c]
            if self.kind in PAIR:
                la, un = [(i,) for i in la], [(i,) for i in un]
                if r.random() < .6:
                    i = un.pop()[0]; j = r.randrange(self.K)
                    la.append((i, j)); un += [(i, k) for k in range(self.K) if k != j]
            elif r.random() < .4: tr, te, la, un = [np.array(z) for z in (tr, te, la, un)]
            for z, v in zip(out, (tr, te, la, un)): z.append(v)
        return out

class Run(object):
    def __init__(self, data, paths=2):
        self.D = data; self.dir = tempfile.mkdtemp(dir=TMP); self.hs = []; self.steps = []; self.muts = []; self.paths = []
        for p in range(paths):
            d = os.path.join(self.dir, "d%d" % p); os.mkdir(d)
            self.paths.append((d, os.path.join(d, "al_settings.pkl")) if r.random() < .5 else (os.path.join(d, "t.pkl"),) * 2)

    def look(self, h, d):
        D = self.D[d - 1]
        try: s = D.folds(h.get_split())
        except Exception: s = []
        nm = [(i,) for i in D.names] if D.kind in PAIR else list(D.names)
        return dict(split=s, y=[V(v) for v in h.get_clean_oracle().query_by_index(nm)[0]], qt=h.query_type)

    def obs(self):
        def f():
            files = []
            for p, z in enumerate(self.paths):
                if not os.path.exists(z[1]): files.append(dict(have=False, split=[], y=[])); continue
                h = ToolBox.load(z[1]); files.append(dict(self.look(h, self.fd[p]), have=True))
            return dict(ok=True, hs=[self.look(h, d) for h, d in self.hs], files=files)
        o = call(f)
        return o.v if o.ok else dict(ok=False, why=o.e)

    fd = None
    def rec(self, op, a, o, v=0):
        d = o.rec(); d.update(op=op, a=a, v=v, post=self.obs()); self.steps.append(d)

    def guarded(self, op, a, f):
        """f runs the code and encodes its result"""
        o = call(f); self.rec(op, a, o, o.v if o.ok else 0)

    def create(self, d, p=0, given=None):
        D = self.D[d - 1]; a = D.args()
        if self.fd is None: self.fd = [0] * len(self.paths)
        if given: a.update(dict(zip(("train_idx", "test_idx", "label_idx", "unlabel_idx"), given)))
        if p: a["saving_path"] = os.path.relpath(self.paths[p - 1][0]) if r.random() < .3 else self.paths[p - 1][0]
        enc = D.folds(copy.deepcopy(given)) if given else []
        o = call(lambda: ToolBox(**a))
        if p and o.ok and not self.fd[p - 1]: self.fd[p - 1] = d
        if o.ok: self.hs.append((o.v, self.fd[p - 1] if p else d))
        if given: self.muts += [x for z in given for x in z] + list(given)
        if "instance_indexes" in a: self.muts.append(a["instance_indexes"])
        self.rec("create", dict(d=d, path=p, given=enc), o)

    def split(self, k, count=None):
        """the arguments which have a default are left out now and then (10 folds, 30% of the rows for testing, all classes)"""
        h, d = self.hs[k]; D = self.D[d - 1]
        cover = D.n >= 8 and D.lt != "float" and r.random() < .6
        kw = dict(test_ratio=r.choice([.25, .3]) if cover else r.choice([.2, .3, .5]), initial_label_rate=.7 if cover else r.choice([.3, .5, .6]),
                  split_count=count or r.choice([1, 2, 3]), all_class=cover)
        if cover and D.kind == "feat": kw.update(initial_label_rate={8: .5, 12: .4}[D.n] if D.K == 3 else {8: .3, 12: .2}[D.n], test_ratio=.3)
        a = dict(h=k + 1, count=kw["split_count"], test=round(100 * kw["test_ratio"]), rate=round(100 * kw["initial_label_rate"]), all=cover)
        if kw["test_ratio"] == .3 and r.random() < .7: del kw["test_ratio"]
        if cover and r.random() < .6: del kw["all_class"]
        if count is None and r.random() < .06: del kw["split_count"]; a["count"] = 10
        res = []
        def f():
            res.append(h.split_AL(**kw)); return D.folds(res[0])
        o = call(f)
        if not o.ok and os.environ.get("DBG"):
            import traceback
            try: h.split_AL(**kw)
            except Exception: sys.stderr.write(str(kw)+traceback.format_exc())
        if o.ok: self.muts += [x for z in res[0] for x in z] + [z for z in res[0]]
        self.rec("split", a, o, o.v if o.ok else 0)

    def save(self, k): self.guarded("save", dict(h=k + 1), lambda: self.hs[k][0].save() and 0)
    def load(self, p):
        if not os.path.exists(self.paths[p - 1][1]): return
        o = call(lambda: ToolBox.load(self.paths[p - 1][1]))
        if o.ok: self.hs.append((o.v, self.fd[p - 1]))
        self.rec("load", dict(path=p), o)

    def graph_file(self):
        pass

    def isplit(self, k):
        try: return len(self.hs[k][0].get_split()[0])
        except Exception: return 0

    def use(self, k):
        h, d = self.hs[k]; D = self.D[d - 1]; n = self.isplit(k)
        if not n:
            f = r.choice([lambda: h.get_split(), lambda: h.get_split(0), lambda: h.get_stateio(0), lambda: h.get_repository(0), lambda: h.get_ace_threading()])
            self.rec("bad", "unsplit", call(f)); return
        rd = r.randrange(n); a = dict(h=k + 1, round=rd)
        op = r.choice(["get", "get", "stateio", "stateio", "repo", "repo", "repo", "oracle", "oracle", "strategy", "bad", "same", "mutate", "mutate"] + ["ace"] * (D.hasx and D.kind != "x"))
        if op == "get":
            res = []
            def f(): res.extend(h.get_split(rd)); return D.fold(res)
            self.guarded("get", a, f); self.muts += res
        elif op == "stateio":
            res = []
            def f():
                kw = dict(saving_path=self.dir) if r.random() < .6 else {}
                s = h.get_stateio(rd, verbose=False, **kw); wk = s.get_workspace(); res.extend(wk)
                s0 = s.get_workspace(0)
                u = r.choice(list(wk[3].index)) if len(wk[3].index) else None
                v = dict(fold=D.fold(wk), round=s.round, init=D.fold(s0))
                if u is not None:
                    s.add_state(State(select_index=[u], performance=.5)); w1 = s.get_workspace()
                    if u in w1[3].index: v["round"] = -1
                return v
            self.guarded("stateio", a, f); self.muts += res
        elif op == "repo":
            a["inst"] = D.hasx and r.random() < .6
            res = []
            def f():
                rp = h.get_repository(rd, **(dict(instance_flag=a["inst"]) if a["inst"] or r.random() < .5 else {})); kind.append(type(rp).__name__); X, y, ind = rp.get_training_data(); res.extend([X, y])
                out = []
                for q in range(len(y)):
                    i = ind[q]
                    pair = D.kind in ("part", "feat")
                    lab = V(y[q]) if not pair else V(np.ravel(y[q])[0]) if np.size(y[q]) == 1 else "?"
                    e = dict(i=S(i[0] if pair else i), j=int(i[1]) + 1 if pair else 0, lab=lab, exa=V(X[q]) if a["inst"] else "-")
                    if rp.cost_inall != 0 or rp.num_of_queries != 0: e["lab"] = "?"
                    out.append(e)
                return out
            kind = []
            o = call(f); self.rec("repo", a, o, dict(rows=o.v, kind=kind[0]) if o.ok else 0); self.muts += res
        elif op == "oracle":
            costs = [[r.randrange(1, 6) for _ in range(D.K)] for _ in range(D.n)]
            wc = r.random() < .6
            if not wc: costs = [[1] * D.K for _ in range(D.n)]
            a["cost"] = costs
            q = []
            for _ in range(r.choice([1, 2, 3])):
                q.append(dict(i=r.choice(D.names), j=r.randrange(D.K + 1) if D.kind in PAIR else 0))
            byx = D.hasx and D.kind != "feat" and r.random() < .4
            if byx:
                for z in q: z["j"] = 0
            a["q"] = [dict(i=S(z["i"]), j=z["j"]) for z in q]
            def f():
                kw = {}
                if wc: kw["cost_mat"] = np.array(costs) if D.kind in PAIR else [c[0] for c in costs]
                o = h.get_clean_oracle(query_by_example=byx, **kw)
                if byx:
                    xs = [D.X[D.names.index(z["i"])] for z in q]
                    la, co = o.query_by_example([(list(x),) for x in xs] if D.kind in PAIR else xs)
                else:
                    la, co = o.query_by_index([(z["i"],) if z["j"] == 0 else (z["i"], z["j"] - 1) for z in q] if D.kind in PAIR else [z["i"] for z in q])
                fl = lambda c: [plain(t) for t in c] if hasattr(c, "__len__") else [plain(c)]
                lv = [V(np.ravel(x)[0]) if z["j"] and hasattr(x, "__len__") else V(x) for x, z in zip(la, q)]
                return dict(lab=lv, cost=[fl(c) for c in co])
            self.guarded("oracle", a, f)
        elif op == "strategy":
            if D.kind != "single" or not D.hasx: return
            nm = r.choice(["QueryInstanceRandom", "QueryInstanceRandom", "QueryInstanceUncertainty"]) if not D.own and D.lt != "float" else "QueryInstanceRandom"
            def f():
                st = h.get_query_strategy(nm); _, _, L, U = h.get_split(rd)
                if nm == "QueryInstanceUncertainty":
                    m = h.get_default_model(); m.fit(D.X, np.array(D.ys))
                    return [S(i) for i in st.select(L, U, model=m, batch_size=1)]
                return [S(i) for i in st.select(L, U, batch_size=1)]
            if len(h.get_split(rd)[3].index): self.guarded("strategy", a, f)
        elif op == "bad":
            what = r.choice(["round", "neg", "metric", "strategy", "stop", "qt", "nox", "ragged", "lens", "names", "path", "loadpath", "cost", "cost"] + (["ace"] if not D.hasx else []))
            dd = Data("single", 6)
            costs = [[1] * D.K if D.kind in PAIR else 1 for _ in range(D.n)]
            ar = dict(y=dd.ys, X=dd.X.copy())
            fn = dict(round=lambda: r.choice([h.get_split, h.get_stateio, h.get_repository])(n), neg=lambda: h.get_split(-1),
                      metric=lambda: h.calc_performance_metric([0, 1], [0, 1], "no_such_metric"), strategy=lambda: h.get_query_strategy("QueryNothing"),
                      stop=lambda: h.get_stopping_criterion("never", 3), qt=lambda: ToolBox(query_type="Some", **ar),
                      nox=lambda: ToolBox(y=dd.ys, query_type="Features"),
                      ragged=lambda: ToolBox(train_idx=[[0, 1]], test_idx=[[2, 3]], label_idx=[[0]], unlabel_idx=[[1], [2]], **ar),
                      lens=lambda: ToolBox(y=dd.ys, X=dd.X[:-1]), names=lambda: ToolBox(instance_indexes=[1, 2], **ar),
                      cost=lambda: h.get_clean_oracle(cost_mat=r.choice([costs[:-1], costs + [costs[0]], costs[:1]])),
                      path=lambda: ToolBox(saving_path=3, **ar), loadpath=lambda: ToolBox.load(5), ace=lambda: h.get_ace_threading())[what]
            self.rec("bad", what, call(fn))
        elif op == "same": self.same(k)
        elif op == "mutate": self.mutate()
        elif op == "ace":
            if self.nace > 2: return
            self.nace += 1
            got = []; there = []; lock = threading.Lock(); out = tempfile.mkdtemp(dir=self.dir)
            def seen(round, train_id, test_id, Ucollection, Lcollection, saver, examples, labels, global_parameters):
                with lock: got.append((round, D.fold((train_id, test_id, Lcollection, Ucollection)), [V(x) for x in examples], [V(y) for y in labels]))
                if len(Ucollection.index): saver.add_state(State(select_index=[list(Ucollection.index)[0]], performance=.5))
                if isinstance(train_id, list): train_id.append(99)
            SEEN[0] = seen
            def f():
                t = h.get_ace_threading(target_function=target, max_thread=r.choice([None, 1, 2]), refresh_interval=.01, saving_path=out)
                t.start_all_threads(); there.append(len(os.listdir(out)) > 0)
                got.sort(key=lambda z: z[0])
                return [dict(fold=g[1], x=g[2], y=g[3]) for g in got] if [g[0] for g in got] == list(range(len(got))) else []
            o = call(f); self.rec("ace", dict(h=k + 1), o, dict(folds=o.v, there=there[0]) if o.ok else 0)

    nace = 0
    def same(self, k):
        h, d = self.hs[k]; D = self.D[d - 1]
        what = r.choice(["metric", "metric", "stop", "state", "index", "mlindex", "analyser"])
        def f():
            if what == "metric":
                m = r.choice(["accuracy_score", "hamming_loss", "roc_auc_score", "roc_auc_score", "coverage_error", "label_ranking_loss", "f1_score"])
                n = 6
                if m in ("coverage_error", "label_ranking_loss"):
                    y = np.array([[1, 0, 0], [0, 1, 1], [1, 0, 1]]); p = np.array([[r.randrange(9) / 8 for _ in range(3)] for _ in range(3)])
                    return E(lambda: h.calc_performance_metric(y, p, m)), E(lambda: getattr(perf, m)(y_true=y, y_score=p))
                y = [0, 1, 1, 0, 1, 0]; r.shuffle(y)
                if m == "roc_auc_score":
                    s = [r.randrange(99) / 100 for _ in range(n)]; p = s if r.random() < .4 else np.array([[1 - v, v] for v in s])
                    return E(lambda: h.calc_performance_metric(np.array(y), np.array(p), m)), E(lambda: perf.roc_auc_score(y_true=np.array(y), y_score=np.array(s)))
                p = [r.randrange(2) for _ in range(n)]
                kw = dict(normalize=False) if m == "accuracy_score" and r.random() < .5 else {}
                yy, pp = (np.array(y).reshape(3, 2), np.array(p).reshape(3, 2)) if m == "hamming_loss" else (np.array(y), np.array(p))
                return E(lambda: h.calc_performance_metric(yy, pp, m, **kw)), E(lambda: getattr(perf, m)(y_true=yy, y_pred=pp, **kw))
            if what == "stop":
                c = r.choice([(None, None), ("num_of_queries", 2), ("cost_limit", 3), ("percent_of_unlabel", .5)])
                U = list(range(8)); s = StateIO(0, list(range(10)), [], [8, 9], U, verbose=False, saving_path=None)
                a, b = h.get_stopping_criterion(*c), StoppingCriteria(*c)
                va, vb = [], []
                for q in range(8):
                    va.append(a.is_stop()); vb.append(b.is_stop())
                    s.add_state(State(select_index=[q], performance=.5, cost=[1])); a.update_information(s); b.update_information(s)
                va.append(a.is_stop()); vb.append(b.is_stop())
                return S(va), S(vb)
            if what == "state":
                z = [r.randrange(9), r.randrange(9), r.randrange(3)]
                t = h.State([z[0]], z[1], queried_label=[z[2]], cost=[z[1]])
                return S([t.get_value("select_index"), t.get_value("performance"), t.get_value("queried_label"), t.get_value("cost")]), S([[z[0]], z[1], [z[2]], [z[1]]])
            if what == "index":
                z = r.sample(range(20), 4)
                return S(list(h.IndexCollection(list(z)).index)), S(list(IndexCollection(list(z)).index))
            if what == "analyser":
                ax = r.choice(["num_of_queries", "cost"])
                from alipy.experiment.experiment_analyser import ExperimentAnalyser
                return type(h.get_experiment_analyser(ax)).__name__, type(ExperimentAnalyser(ax)).__name__
            nr, K = (D.n, D.K) if D.kind in ("multi", "part") else (7, 4)
            def all_of(c, want):            # a whole row can be added: the collection knows the labels there are
                row = nr + r.randrange(3)
                c.update([(row,)])
                return S(sorted(c.index)), S(sorted(want + [(row, t) for t in range(K)]))
            kw = {} if D.kind in ("multi", "part") and r.random() < .7 else dict(label_mat_shape=(nr, K))
            if r.random() < .4:
                z = [(i, r.randrange(K)) for i in r.sample(range(nr), 3)]
                return all_of(h.MultiLabelIndexCollection(z, **kw), z)
            z = r.sample(range(nr * K), 4); f = r.random()
            if f < .4: kw["order"] = "C"
            elif f < .7: kw["order"] = "F"
            want = [(v // K, v % K) if f < .4 else (v % nr, v // nr) for v in z]
            return all_of(h.MultiLabelIndexCollection(np.array(z) if r.random() < .5 else z, **kw), want)
        o = call(f)
        if not o.ok and os.environ.get("DBG"):
            import traceback
            try: f()
            except Exception: sys.stderr.write(traceback.format_exc())
        self.rec("same", dict(what=what), o, dict(got=o.v[0], want=o.v[1]) if o.ok else 0)

    def mutate(self):
        def f():
            for x in self.muts:
                if isinstance(x, IndexCollection):
                    if len(x.index): x.discard(list(x.index)[0])
                elif isinstance(x, list):
                    if x: x.reverse(); x.append(x[0]); x.pop(0)
                elif isinstance(x, np.ndarray) and x.flags.writeable and x.dtype.kind in "iuf": x += 7
                elif isinstance(x, np.ndarray) and x.flags.writeable and len(x): x[:] = x[0]
        o = call(f); self.muts = []
        self.rec("mutate", 0, o)

    def done(self, tag):
        w.trace(dict(data=[D.enc() for D in self.D], paths=len(self.paths)), self.steps, tag=tag)
        shutil.rmtree(self.dir, ignore_errors=True)

beh = read(sys.argv[1])
top = max(len(b) for b in beh)
for b in r.sample(beh, min(len(beh), 1200 if THOROUGH else 160)):
    kind = r.choice(["single", "single", "multi", "part", "feat"])
    run = Run([Data(kind, 6), Data(kind, 6)])
    for x in b:
        if x[0] == "create": run.create(x[1], x[2])
        elif x[0] in ("split", "save"):
            if x[1] <= len(run.hs): getattr(run, x[0])(x[1] - 1)
        else: run.load(x[1])
    run.done("graph")
for i in range(1500 if THOROUGH else 260):
    kind = ["single", "multi", "part", "feat", "single"][i % 5]
    run = Run([Data(kind, r.choice([6, 8, 12]), r.choice([2, 3]) if kind == "feat" else 3) for _ in range(2)], paths=1)
    for _ in range(r.randrange(6, 16)):
        f = r.random()
        if not run.hs or (f < .12 and len(run.hs) < 4):
            d = r.choice([1, 2])
            run.create(d, r.choice([0, 0, 1]), run.D[d - 1].given() if r.random() < .4 else None)
        elif f < .3: run.split(r.randrange(len(run.hs)))
        elif f < .35: run.save(r.randrange(len(run.hs)))
        elif f < .4 and len(run.hs) < 4: run.load(1)
        else: run.use(r.randrange(len(run.hs)))
        if not run.hs: break
    run.done("random")
w.close(); shutil.rmtree(TMP, ignore_errors=True)
real.flush(); os._exit(0)
