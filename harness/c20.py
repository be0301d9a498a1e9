"""C20: AlExperiment with a model and a strategy the specification can compute: sequentially, in threads under enumerated schedules, killed and recovered."""
import sys, os, threading, time, random, copy, json, pickle, shutil, signal
from vlib import *
import vlib
behs = read(sys.argv[1])
NS = 6
shard = fork_shards(NS)
os.mkdir("shard%d" % shard); os.chdir("shard%d" % shard)
r = random.Random("%d-c20-%d" % (SEED, shard))
np.random.seed(SEED * 100 + shard)
w = Writer(vlib.OUT)
sys.stdout = open(os.devnull, "w")
import warnings
warnings.simplefilter("ignore")
threading.excepthook = lambda *a: None
from sklearn.base import BaseEstimator, ClassifierMixin
from alipy.experiment import AlExperiment
from alipy.experiment.state_io import StateIO
from alipy.index import IndexCollection
from alipy.utils.multi_thread import aceThreading

G = {}            # the configuration, set before the run
EV = []           # events of the current run (in memory, or through a file descriptor in a child)
FD = [None]
LK = threading.RLock()
def log(**k):
    with LK:
        if FD[0] is None: EV.append(k)
        else: os.write(FD[0], (json.dumps(plain(k)) + "\n").encode())

# ---- the schedule of fit / measure steps: a list of fold numbers (0: the process dies)
class Gate(object):
    def __init__(self): self.s, self.cv, self.on = [], threading.Condition(), False
    def set(self, s): self.s, self.on = list(s), True
    def off(self): self.on = False
    def enter(self, f):
        if not self.on: return
        t0 = time.time()
        with self.cv:
            while self.on and self.s and self.s[0] != f:
                if self.s[0] == 0: os._exit(9)
                self.cv.wait(.02)
                if time.time() - t0 > .5: self.on = False
    def leave(self, f):
        if not self.on: return
        with self.cv:
            if self.s and self.s[0] == f: self.s.pop(0)
            if self.s and self.s[0] == 0: os._exit(9)
            self.cv.notify_all()
GATE = Gate()

class Box(object): pass
class Sum(BaseEstimator, ClassifierMixin):
    """predicts from the sum of what it was fitted on, which it keeps in an object of its own; seeds numpy as it goes"""
    def __init__(self): self.box = Box()
    def fold(self, ids): return G["block"].get(int(ids[0])) if len(ids) else None
    def fit(self, X, y):
        ids = [int(a) for a in np.asarray(X)[:, 0]]
        f = self.fold(ids)
        GATE.enter(f)
        if G["log"]: log(op="fit", rows=ids, labs=[int(a) for a in y])
        self.classes_ = np.arange(max(2, G["K"]))
        self.box.m = sum((i + 1) * (int(l) + 1) for i, l in zip(ids, y))
        if G["slow"]: time.sleep(random.random() * G["slow"])
        GATE.leave(f)
        return self
    def predict(self, X):
        ids = [int(a) for a in np.asarray(X)[:, 0]]
        f = self.fold(ids)
        GATE.enter(f)
        v = np.array([(self.box.m * (i + 1) + i) % G["K"] for i in ids])
        GATE.leave(f)
        if G.get("seed") is not None: np.random.seed(G["seed"])
        return v
    def predict_proba(self, X):
        out = []
        for a in np.asarray(X)[:, 0]:
            p = 50 + (self.box.m * (int(a) + 1)) % 50
            q = (self.box.m * (int(a) + 3)) % (101 - p) if G["K"] > 2 else 100 - p
            out.append([p / 100, q / 100, (100 - p - q) / 100][:max(2, G["K"])] + [0] * (G["K"] - 3))
        return np.array(out)

class Strat(object):
    """selects by a rank which depends on the labeled set"""
    def __init__(self, X, y, **kw): self.ok = len(X) == G["N"] and len(y) == G["N"] and kw == G["kw"]
    def select(self, label_index, unlabel_index, batch_size=1, **kw):
        L, U = [int(a) for a in label_index], [int(a) for a in unlabel_index]
        log(op="select", L=L, U=U, b=batch_size, kw=self.ok and kw == G["kw"])
        s = sum(L)
        U = sorted(U, key=lambda i: (G["a"] * i + s) % 13 * 1000 + i)[:batch_size]
        return np.array(U) if G["arr"] else U

# the folds may be interrupted anywhere, also between looking at a history and deciding to stop
from alipy.experiment import StoppingCriteria
look = StoppingCriteria.update_information
def slow_look(self, *a, **k):
    v = look(self, *a, **k)
    if G.get("slow"): time.sleep(random.random() * G["slow"])
    if MEET[0]:                       # the folds look at their histories together
        try: MEET[0].wait(.4)
        except threading.BrokenBarrierError: MEET[0] = None
    return v
MEET = [None]
StoppingCriteria.update_information = slow_look
def frac(p, tot):
    try: p = float(p)
    except Exception: return -9
    n = round(p * tot)
    return n if abs(n / tot - p) < 1e-9 else -9
def ints(x): return [int(v) for v in x]
def fold_result(s, tot):
    ws = s.get_workspace()
    return dict(round=int(s.round), train=ints(s.train_idx), test=ints(s.test_idx), L0=ints(s.init_L), U0=ints(s.init_U), ini=frac(s.initial_point, tot),
                q=[dict(sel=ints(x.get_value("select_index")), perf=frac(x.get_value("performance"), tot)) for x in s], L=ints(ws[2]), U=ints(ws[3]))
CR_NONE = dict(kind="none", num=0, den=1)
def config(folds, K, b, c, y, tl=None, metric=None, wt=False):
    nt = len(folds[0]["test"])
    metric = metric or r.choice(["accuracy_score", "accuracy_score", "hamming_loss", "zero_one_loss"])
    wt = wt or (metric == "accuracy_score" and r.random() < .3)
    g = dict(K=K, b=b, c=c, a=r.randrange(1, 12), y=y, w=[r.randrange(1, 4) if wt else 1 for _ in range(nt)], metric=metric)
    G.clear()
    G.update(K=K, a=g["a"], N=len(y), kw=r.choice([{}, {}, dict(zeta=3)]), arr=r.random() < .5, slow=0, log=True, block={})
    return g, wt
def value(c):
    if c["kind"] == "none": return None
    if c["kind"] in ("num_of_queries",): return c["num"]
    return c["num"] / c["den"]
def make(g, wt, folds, how="set", **strategy):
    n = len(g["y"])
    X = np.array([[i, i * i % 7] for i in range(n)], dtype=float)
    y = np.array(g["y"])
    kw = {}
    form = lambda x: np.array(x) if r.random() < .4 else list(x)
    parts = [[form(f[k]) for f in folds] for k in ("train", "test", "L0", "U0")]
    if how == "ctor": kw = dict(zip(("train_idx", "test_idx", "label_idx", "unlabel_idx"), parts))
    crit = g["c"]["kind"]
    mk = dict(model=Sum(), stopping_criteria=None if crit == "none" else crit, stopping_value=value(g["c"]))
    if g["b"] > 1 or r.random() < .5: mk["batch_size"] = g["b"]
    late = wt or r.random() < .6
    if g["metric"] != "accuracy_score" and not late: mk["performance_metric"] = g["metric"]
    al = AlExperiment(X, y, **mk, **kw)
    if how == "set": al.set_data_split(*parts)
    if strategy: al.set_query_strategy(**strategy)
    else: al.set_query_strategy(Strat, **G["kw"])
    if late: al.set_performance_metric(g["metric"], **({} if not wt else dict(sample_weight=g["w"])))
    return al
def rfolds(nf, lo=2, disjoint=False, emptyU=.05):
    out, base = [], 0
    for _ in range(nf):
        nt, nl, nu = NTEST[0], r.randrange(1, 4), 0 if r.random() < emptyU else r.randrange(1, 6)
        if disjoint: nl, nu = min(nl, 2), min(nu, 4)
        ids = list(range(base, base + nt + nl + nu)) if disjoint else r.sample(range(24), nt + nl + nu)
        r.shuffle(ids)
        out.append(dict(test=ids[:nt], train=ids[nt:], L0=ids[nt:nt + nl], U0=ids[nt + nl:]))
        if disjoint: base += nt + nl + nu
    return out
NTEST = [2]
def rcrit(nu):
    k = r.choice(["none", "num_of_queries", "num_of_queries", "percent_of_unlabel", "cost_limit", "time_limit"])
    if k == "none": return dict(kind=k, num=0, den=1)
    if k == "num_of_queries": return dict(kind=k, num=r.randrange(0, 5), den=1)
    if k == "percent_of_unlabel": d = r.choice([1, 2, 3, 4]); return dict(kind=k, num=r.randrange(0, d + 1), den=d)
    if k == "cost_limit": return dict(kind=k, num=r.randrange(0, 3), den=1)
    return dict(kind=k, num=r.choice([0, 100000]), den=1)
def emit(g, folds, steps, tag, det=True):
    w.trace(dict(g=g, folds=folds, det=det), steps, tag)

SAVES, LIMIT, disj_, FORCE = [False], [0], [False], [0]
def run(al, mode, tot, path):
    def f():
        SAVES[0], LIMIT[0] = True, 0
        if mode == "thread":
            kw = dict(saving_path=path)
            if r.random() < (1 if FORCE[0] else .4): kw["max_thread"] = LIMIT[0] = FORCE[0] or r.randrange(1, 4)
            if r.random() < .4: kw["refresh_interval"] = .01
            al.start_query(multi_thread=True, **kw)
        elif mode == "default": al.start_query(saving_path=path)
        else:
            kw = {}
            if r.random() < .5: kw = dict(saving_path=path, verbose=r.random() < .5)
            SAVES[0] = bool(kw)
            al.start_query(multi_thread=False, **kw)
        res = al.get_experiment_result()
        out = [fold_result(s, tot) for s in res]
        for s in res:
            while len(s): s.pop()          # what is handed out is a copy
        return out, [fold_result(s, tot) for s in al.get_experiment_result()]
    return call(f, _timeout=60)
def results(o, kind): return [dict(o.rec(), op="result", kind=kind, folds=v) for v in (o.v if o.ok else ([],))]
def saved(path, tot, n):
    out = []
    for i in range(n):
        p = os.path.join(path, "AL_round_%d.pkl" % i)
        if not os.path.exists(p): return dict(op="result", k="err", kind="det", e="not saved", folds=[])
        o = call(lambda: fold_result(StateIO.load(p), tot))
        if not o.ok: return dict(o.rec(), op="result", kind="det", folds=[])
        out.append(o.v)
    return dict(op="result", k="ok", kind="det", folds=out)

def one(mode, tag, kind="det", lim=0, meet=False, **strategy):
    del EV[:]
    disj = disj_[0] = bool(lim) or r.random() < .4
    FORCE[0] = lim
    NTEST[0] = r.randrange(1, 3 if disj else 6)
    folds = rfolds(r.randrange(1, 4 if disj else 5) if not lim else 3, disjoint=disj)
    while meet and (len(folds) != 2 or len(set(len(f["U0"]) for f in folds)) == 1): folds = rfolds(2, disjoint=disj)
    K = r.randrange(2, 4)
    y = [r.randrange(K) for _ in range(24)]
    for k in range(K): y[k] = k
    g, wt = config(folds, K, r.choice([1, 1, 2, 3]), rcrit(5) if not lim and not meet else CR_NONE, y)
    MEET[0] = threading.Barrier(2) if meet else None
    if mode != "seq": G["slow"] = r.choice([0, .002, .01] if not disj else [.01, .02])
    if kind != "det": G["log"] = False
    path = "run"; shutil.rmtree(path, ignore_errors=True); os.makedirs(path)
    tot = sum(g["w"])
    a = call(lambda: make(g, wt, folds, r.choice(["set", "ctor"]), **strategy))
    if not a.ok: emit(g, folds, [dict(a.rec(), op="result", kind=kind, folds=[])], tag, kind == "det"); return
    o = run(a.v, mode, tot, path); MEET[0] = None
    steps = [dict(op="start", limit=LIMIT[0] if disj else 0)] + list(EV) if kind == "det" else []
    steps += results(o, kind)
    if kind == "det" and o.ok:
        if SAVES[0] and all(len(f["q"]) for f in o.v[0]):
            steps.append(saved(path if mode == "seq" else os.path.join(path, "AL_result"), tot, len(folds)))
        if r.random() < .3:
            del EV[:]
            shutil.rmtree(path, ignore_errors=True); os.makedirs(path)
            o = run(a.v, mode if r.random() < .5 else "seq", tot, path)
            steps += [dict(op="start", limit=LIMIT[0] if disj else 0)] + list(EV) + results(o, kind)
    shutil.rmtree(path, ignore_errors=True)
    emit(g, folds, steps, tag, kind == "det")
Q = 4 if THOROUGH else 1
for t in range(8 * Q):
    one("seq", "sequential")
    one(["thread", "thread", "default"][t % 3], "threads")
    if t % 8 in (2, 5): one("thread", "limited", lim=1 + t % 2)
    if t % 8 in (1, 6): one("thread", "together", meet=True)
for t in range(5 * Q):
    one(r.choice(["seq", "thread"]), "uncertainty", "unc", strategy="QueryInstanceUncertainty", measure="least_confident")
    one(r.choice(["seq", "thread"]), "random", "any", strategy=r.choice(["QueryInstanceRandom", "QueryRandom"]))
# the predefined strategies as configured: what they select is what the strategy itself, so configured, selects there
from alipy.query_strategy import query_labels as QL
def itself(name, X, y, train, p):
    if name == "QueryInstanceGraphDensity": return QL.QueryInstanceGraphDensity(X, y, train, **p)
    if name == "QueryInstanceQUIRE": return QL.QueryInstanceQUIRE(X, y, train, **p)
    return getattr(QL, name)(X, y, **p)
def reference(name, X, y, folds, res, b, p):
    out = []
    for f, x in zip(folds, res):
        L, U = IndexCollection(list(f["L0"])), IndexCollection(list(f["U0"]))
        m, q, ref = Sum(), itself(name, X, y, f["train"], p), []
        for st_ in x["q"]:
            m.fit(X[L.index], y[L.index]); m.predict(X[f["test"]])
            kw = {} if name in ("QueryInstanceGraphDensity", "QueryInstanceQUIRE") else dict(model=m)
            ref.append(sorted(ints(q.select(L, U, batch_size=b, **kw))))
            L.update(st_["sel"]); U.difference_update(st_["sel"])
        out.append(ref)
    return out
B = [("QueryInstanceQBC", dict(disagreement="vote_entropy")), ("QueryInstanceQBC", dict(disagreement="KL_divergence")), ("QueryInstanceQBC", {}),
     ("QueryInstanceGraphDensity", {}), ("QueryInstanceGraphDensity", dict(metric="euclidean")), ("QueryInstanceGraphDensity", dict(metric="cosine")),
     ("QueryInstanceQUIRE", {}), ("QueryInstanceQUIRE", dict(lambda_=.1)), ("QueryInstanceQUIRE", dict(kernel="linear")), ("QueryInstanceQUIRE", dict(kernel="rbf", gamma=.01)),
     ("QueryExpectedErrorReduction", {}), ("QueryInstanceUncertainty", {}), ("QueryInstanceUncertainty", dict(measure="margin")),
     ("QueryInstanceUncertainty", dict(measure="entropy")), ("QueryInstanceUncertainty", dict(measure="least_confident"))]
for k, (name, par) in enumerate(B * (4 if THOROUGH else 1)):
    if k % NS != shard: continue
    del EV[:]
    NTEST[0] = 3
    folds = rfolds(2, emptyU=0)
    for f in folds:
        more = [i for i in range(24) if i not in f["test"] and i not in f["train"]][:8]
        f["U0"] += more; f["train"] += more
    K = 2 if "QUIRE" in name else 3
    y = [i % K for i in range(24)]
    for f in folds:                     # every class is labeled
        for c_ in range(K):
            if c_ not in [y[i] for i in f["L0"]]:
                i = [u for u in f["U0"] if y[u] == c_]
                if i: f["U0"].remove(i[0]); f["L0"].append(i[0])
    if any(len({y[i] for i in f["L0"]}) < K for f in folds): continue
    b = 1 if "QUIRE" in name else r.choice([1, 2])
    g, wt = config(folds, K, b, dict(kind="num_of_queries", num=3, den=1), y)
    G["log"], G["seed"] = False, 5
    a = call(lambda: make(g, wt, folds, "set", strategy=name, **par))
    o = run(a.v, "seq" if "QBC" in name else r.choice(["seq", "thread"]), sum(g["w"]), ".") if a.ok else a
    steps = results(o, "any")
    if o.ok:
        X = np.array([[i, i * i % 7] for i in range(24)], dtype=float)
        ref = call(lambda: reference(name, X, np.array(y), folds, o.v[0], b, par), _timeout=60)
        if ref.ok: steps.append(dict(op="itself", k="ok", sels=[[sorted(q["sel"]) for q in f["q"]] for f in o.v[0]], ref=ref.v))
    emit(g, folds, steps, "predefined_" + name, False)
# ---- splits made by the experiment itself
for t in range(2 * Q):
    del EV[:]
    folds = [dict(test=[0], train=[1], L0=[1], U0=[])]
    y = [i % 2 for i in range(24)]
    g, wt = config(folds, 2, r.choice([1, 2]), rcrit(5), y, metric="hamming_loss")
    al = AlExperiment(np.array([[i, 0] for i in range(24)], dtype=float), np.array(y), model=Sum(), stopping_criteria=None if g["c"]["kind"] == "none" else g["c"]["kind"],
                      stopping_value=value(g["c"]), batch_size=g["b"])
    nf = r.randrange(1, 4)
    s = call(lambda: al.split_AL(test_ratio=r.choice([.3, .5]), initial_label_rate=r.choice([.2, .4]), split_count=nf))
    if not s.ok: emit(g, [], [dict(s.rec(), op="split")], "own_split"); continue
    folds = [dict(train=ints(s.v[0][i]), test=ints(s.v[1][i]), L0=ints(s.v[2][i]), U0=ints(s.v[3][i])) for i in range(nf)]
    g["w"] = [1] * len(folds[0]["test"])
    al.set_query_strategy(Strat, **G["kw"]); al.set_performance_metric("hamming_loss")
    o = run(al, r.choice(["seq", "thread"]), len(folds[0]["test"]), ".")
    emit(g, folds, [dict(op="split", k="ok", e="")] + list(EV) + results(o, "det"), "own_split")
# ---- schedules of the folds' steps, and a crash between two of them
def child(al, path, fd, sched, recover, tot):
    FD[0] = fd
    signal.signal(signal.SIGALRM, signal.SIG_DFL); signal.alarm(30)
    try:
        if sched: GATE.set(sched)
        if recover:
            a = aceThreading.recover(os.path.join(path, "multi_thread_state.pkl"))
            a.start_all_threads()
            res = a.get_results()
        else:
            al.start_query(saving_path=path)
            res = al.get_experiment_result()
        GATE.off()
        log(op="result", k="ok", kind="det", folds=[fold_result(s, tot) for s in res])
    except BaseException as e:
        log(op="result", k="err", kind="det", e=repr(e)[:200], folds=[])
    os._exit(0)
sel = [x for x in behs]
r2 = random.Random("%d-c20-sched" % SEED); r2.shuffle(sel)
crashing = [x for x in sel if 0 in x["sched"]]; plain_ = [x for x in sel if 0 not in x["sched"]]
n1, n2 = (400, 900) if THOROUGH else (100, 120)
todo = [x for i, x in enumerate(plain_[:n1] + crashing[:n2]) if i % NS == shard]
for x in todo:
    nf, nu = x["nf"], x["nu"]
    folds = []
    for i in range(nf):
        b = 8 * i
        folds.append(dict(L0=[b, b + 1], U0=[b + 2 + n for n in range(nu)], test=[b + 6, b + 7]))
        folds[-1]["train"] = folds[-1]["L0"] + folds[-1]["U0"]
    K = r.randrange(2, 4)
    y = [r.randrange(K) for _ in range(24)]
    g, wt = config(folds, K, 1, dict(kind="none", num=0, den=1) if x["q"] == 0 else dict(kind="num_of_queries", num=x["q"], den=1), y)
    g["a"] = G["a"]; tot = sum(g["w"])
    G["block"] = {8 * i + k: i + 1 for i in range(nf) for k in range(8)}
    path = "sched"; shutil.rmtree(path, ignore_errors=True); os.makedirs(path)
    a = call(lambda: make(g, wt, folds, "set"))
    if not a.ok: emit(g, folds, [dict(a.rec(), op="result", kind="det", folds=[])], "schedule"); continue
    steps, todo2, rec = [], x["sched"], False
    for gen in range(3):
        fdn = "ev%d" % gen
        fd = os.open(fdn, os.O_WRONLY | os.O_APPEND | os.O_CREAT | os.O_TRUNC)
        pid = os.fork()
        if pid == 0: child(a.v, path, fd, todo2, rec, tot)
        os.close(fd)
        _, st = os.waitpid(pid, 0)
        ev = [json.loads(l) for l in open(fdn) if l.endswith("\n")]
        steps += ev
        if ev and ev[-1]["op"] == "result": break
        if not (os.WIFEXITED(st) and os.WEXITSTATUS(st) == 9):
            steps.append(dict(op="result", k="err", kind="det", e="no result", folds=[])); break
        steps.append(dict(op="crash"))
        rec = os.path.exists(os.path.join(path, "multi_thread_state.pkl"))
        todo2 = todo2[todo2.index(0) + 1:] if 0 in todo2 else []
        if not rec: shutil.rmtree(path, ignore_errors=True); os.makedirs(path)
    emit(g, folds, steps, "schedule" if 0 not in x["sched"] else "crash")
# ---- what is refused
X0, y0 = np.arange(20.).reshape(10, 2), np.array([0, 1] * 5)
def st(f): return dict(call(f).rec(), op="refused")
def no_split(): a = AlExperiment(X0, y0); a.set_query_strategy("QueryInstanceRandom"); a.start_query(multi_thread=False)
def unknown(): a = AlExperiment(X0, y0); a.set_query_strategy("NoSuchStrategy")
def metric(): a = AlExperiment(X0, y0); a.set_performance_metric("no_such_metric")
def metric2(): AlExperiment(X0, y0, performance_metric="no_such_metric")
def ragged(): a = AlExperiment(X0, y0); a.set_data_split([[0], [1]], [[2], [3]], [[0]], [[1]])
def ragged2(): AlExperiment(X0, y0, train_idx=[[0], [1]], test_idx=[[2]], label_idx=[[0]], unlabel_idx=[[1]])
def twice(): a = AlExperiment(X0, y0); a.set_query_strategy("QueryInstanceRandom"); a.set_query_strategy("QueryInstanceUncertainty")
def early(): a = AlExperiment(X0, y0); a.get_experiment_result()
emit({}, [], [st(f) for f in (no_split, unknown, metric, metric2, ragged, ragged2, twice, early)], "refused")
w.close(); sys.stdout.flush(); os._exit(0)
