"""C12: aceThreading under chosen schedules."""
import sys, os, threading, time, random, copy
from vlib import *
from alipy.index import IndexCollection, MultiLabelIndexCollection
from alipy.experiment import State
from alipy.utils.multi_thread import aceThreading
from alipy import ToolBox

NS = 4
behs = read(sys.argv[1])
shard = fork_shards(NS)
import vlib
os.mkdir("shard%d" % shard); os.chdir("shard%d" % shard)
r = rng("c12")
w = Writer(vlib.OUT)
threading.excepthook = lambda *a: None
sys.stdout.flush()
sys.stdout = open(os.devnull, "w")
WAIT = 12.0
stalls = [0]

def mkfolds(n, ml, K):
    folds = []
    for i in range(n):
        ids = list(range(10)); r.shuffle(ids)
        tr, te = ids[:7], ids[7:]
        if not ml:
            L, U = tr[:2], tr[2:]
        else:
            ps = [(a, b) for a in tr for b in range(K)]; r.shuffle(ps)
            L, U = ps[:4], ps[4:]
        folds.append(dict(train=tr, test=te, L=L, U=U))
    return folds

def col(x, ml, K):
    return MultiLabelIndexCollection(x, label_size=K) if ml else IndexCollection(x)

class Leave(Exception): pass

def one(n, m, order, tag, none_limit=False, unrelated=0, ml=False, shared=False, form="list", toolbox=False, late=False):
    K = 3
    folds = mkfolds(n, ml, K)
    if shared:
        for f in folds: f.update(L=folds[0]["L"], U=folds[0]["U"], train=folds[0]["train"], test=folds[0]["test"])
    X = np.arange(20.).reshape(10, 2)
    y = np.arange(10) % 2 if not ml else (np.arange(30).reshape(10, K) % 2)
    cv = lambda k, f: col(f[k], ml, K) if form == "col" else np.array(f[k]) if form == "array" and not ml else list(f[k])
    tr, te = [list(f["train"]) for f in folds], [list(f["test"]) for f in folds]
    if shared:
        l0, u0 = cv("L", folds[0]), cv("U", folds[0])
        Ls, Us = [l0] * n, [u0] * n
    else:
        Ls, Us = [cv("L", f) for f in folds], [cv("U", f) for f in folds]
    keep = copy.deepcopy((X, y, tr, te, [list(x) for x in Ls], [list(x) for x in Us]))
    gp = dict(a=1, b=[2]) if r.random() < .7 else None
    lock = threading.RLock()
    steps = []
    state = dict(begun=[], ended=[])
    cmds = [dict(sem=threading.Semaphore(0), q=[], ack=threading.Semaphore(0)) for _ in range(n)]

    def log(**k):
        with lock: steps.append(plain(k))

    def worker(round, train_id, test_id, Ucollection, Lcollection, saver, examples, labels, global_parameters):
        try:
            a = dict(round=round + 1, savround=saver.round + 1, train=list(train_id), test=list(test_id), U=list(Ucollection), L=list(Lcollection),
                     savtrain=list(saver.train_idx) if hasattr(saver, "train_idx") else list(saver.get_workspace()[0]),
                     savtest=list(saver.get_workspace()[1]), nsav=len(saver),
                     data=bool(np.array_equal(examples, keep[0]) and np.array_equal(labels, keep[1])), gp=bool(global_parameters == gp))
        except Exception as e:
            a = dict(round=-1, savround=-1, train=[], test=[], U=[], L=[], savtrain=[], savtest=[], nsav=0, data=False, gp=False, why=repr(e))
        me = int(round) if isinstance(round, (int, np.integer)) and 0 <= round < n else 0
        with lock:
            log(op="begin", i=round + 1, k="ok", a=a)
            first = me not in state["begun"]
            state["begun"].append(me)
        if not first:
            return
        while True:
            if not cmds[me]["sem"].acquire(timeout=40): break
            c = cmds[me]["q"].pop(0)
            if c == "step":
                U = list(Ucollection)
                sel = U[:1 + len(saver) % 2]
                o = call2(lambda: (Ucollection.difference_update(sel), Lcollection.update(sel), saver.add_state(State(select_index=sel, performance=.5))))
                log(op="step", i=me + 1, k=o, q=sel)
                cmds[me]["ack"].release()
            else:
                with lock:
                    log(op="leave", i=me + 1, k=c)
                    state["ended"].append(me)
                if c == "fail": raise Leave()
                return

    def call2(f):
        try: f(); return "ok"
        except Exception as e: return "err"

    def cmd(i, c):
        cmds[i]["q"].append(c); cmds[i]["sem"].release()
        if c == "step": cmds[i]["ack"].acquire(timeout=WAIT)

    def settle():
        t0 = time.time()
        while time.time() - t0 < WAIT:
            with lock: b, e = len(state["begun"]), len(state["ended"])
            if b - e >= min(m, n - e) or main.is_alive() is False: break
            time.sleep(.0005)
        else: stalls[0] += 1
        time.sleep(.004 if r.random() < .8 else .02)
        log(op="settle", k="ok")

    init = dict(n=n, m=m, folds=folds)
    kw = dict(max_thread=None if none_limit else m, refresh_interval=r.choice([0, .01, 1]), saving_path="ace%d" % w.n)
    def make():
        if toolbox:
            tb = ToolBox(X=X, y=y, train_idx=tr, test_idx=te, label_idx=Ls, unlabel_idx=Us, saving_path=None,
                         query_type="PartLabels" if ml else "AllLabels")
            return tb.get_ace_threading(target_function=None if late else worker, **kw)
        return aceThreading(X, y, tr, te, Ls, Us, None if late else worker, **kw)
    # StateIO and the threads object are pickled while running; the stand-in is a closure, so only keep a name for it
    o = call(make)
    box = {}
    def run():
        try:
            if late:
                o.v.set_target_function(worker)
            o.v.start_all_threads(global_parameters=gp)
            box["k"] = "ok"
        except BaseException as e:
            box["k"] = "err"; box["e"] = repr(e)
        with lock:
            def res():
                out = []
                for s in o.v.get_results():
                    ws = s.get_workspace(0)
                    out.append(dict(round=s.round + 1, q=[list(x.get_value("select_index")) for x in s], train=list(ws[0]), test=list(ws[1]), L=list(ws[2]), U=list(ws[3])))
                return out
            try:
                a = res()
                g = o.v.get_results()
                for s in g:
                    s.add_state(State(select_index=[0], performance=0)); s.round = 77
                again = plain(res()) == plain(a)
            except Exception as e:
                a, again = [], False
            steps.append(plain(dict(op="return", k=box["k"], e=box.get("e", ""), a=dict(results=a, again=again))))
    stop = threading.Event()
    others = [threading.Thread(target=stop.wait, daemon=True) for _ in range(unrelated)]
    for t in others: t.start()
    main = threading.Thread(target=run, daemon=True)
    main.start()
    settle()
    done = []
    for i, f in order:
        if stalls[0] > 3: break
        if i not in state["begun"]:      # the code started another waiting fold first: end one that is running
            with lock: act = [x for x in state["begun"] if x not in state["ended"]]
            if not act: break
            i = act[0]
        if i in done: continue
        with lock: act = [x for x in state["begun"] if x not in done]
        for j in act:
            for _ in range(r.choice([0, 1, 1, 2])): cmd(j, "step")
        done.append(i)
        cmd(i, "fail" if f else "end")
        t0 = time.time()
        while i not in state["ended"] and time.time() - t0 < WAIT: time.sleep(.0002)
        if len(done) < n: settle()
    for i in range(n):
        if i not in done: cmd(i, "end")
    main.join(WAIT)
    if main.is_alive():
        stalls[0] += 1
        log(op="noreturn", k="err")
    stop.set()
    now = (X, y, tr, te, [list(x) for x in Ls], [list(x) for x in Us])
    log(op="caller_data", k="ok", a=bool(plain(now) == plain(keep)))
    with lock:
        w.trace(init, list(steps), tag)

# the closure used as target function cannot be pickled: leave it out of the saved state (the rest is saved for real)
import pickle, io
_gs = aceThreading.__getstate__
def gs(self):
    st = _gs(self)
    return tuple("<function>" if callable(x) and not isinstance(x, type) else x for x in st) if isinstance(st, tuple) else {k: ("<function>" if callable(x) else x) for k, x in st.items()} if isinstance(st, dict) else st
aceThreading.__getstate__ = gs

scheds = [b for b in behs]
small = [b for b in scheds if b["n"] <= 3]
big = [b for b in scheds if b["n"] == 4]
r.shuffle(small); r.shuffle(big)
if not THOROUGH: small, big = small[:110], big[:70]
for b in (small + big)[shard::NS]:
    if stalls[0] > 3: break
    order = [(i - 1, f) for i, f in b["order"]]
    one(b["n"], b["m"], order, "schedule", unrelated=r.choice([0, 0, 1, 3]), ml=r.random() < .3, shared=r.random() < .25,
        form=r.choice(["list", "col", "array"]), none_limit=b["m"] == b["n"] and r.random() < .6, toolbox=r.random() < .2, late=r.random() < .2)
r.seed("%d-%d" % (SEED, shard))
for t in range(100 if THOROUGH else 10):
    if stalls[0] > 3: break
    n = r.randrange(5, 10)
    m = r.randrange(1, n + 3)
    order = [(i, int(r.random() < .2)) for i in range(n)]
    # end the folds in a random order among those running
    act, nxt, seq = [], 0, []
    while nxt < n or act:
        while nxt < n and len(act) < m: act.append(nxt); nxt += 1
        i = r.choice(act); act.remove(i); seq.append((i, order[i][1]))
    one(n, m, seq, "random", unrelated=r.choice([0, 0, 2, 6]), ml=r.random() < .3, shared=r.random() < .2, form=r.choice(["list", "col", "array"]))

# target functions with and without the agreed parameters
names = ["round", "train_id", "test_id", "Ucollection", "Lcollection", "saver", "examples", "labels", "global_parameters"]
def fn(args):
    d = {}
    exec("def f(%s):\n    CALLS.append(1)\n" % ", ".join(args), dict(CALLS=CALLS), d)
    return d["f"]
CALLS = []
def mk(f=None):
    return aceThreading(np.zeros((4, 1)), [0, 1, 0, 1], [[0, 1, 2]], [[3]], [[0]], [[1, 2]], f, saving_path="sig")
steps = []
for i in range(len(names)):
    a = names[:i] + names[i + 1:]
    steps.append(dict(op="badtarget", **call(lambda: mk(fn(a))).rec()))
    x = mk()
    steps.append(dict(op="badtarget", **call(lambda: x.set_target_function(fn(a))).rec()))
for k in range(6):
    a = list(names); r.shuffle(a)
    if k % 2: a.append("extra=1")
    steps.append(dict(op="goodtarget", **call(lambda: mk(fn(a))).rec()))
x = mk()
d = call(lambda: x.start_all_threads()).rec(); d.update(op="nottarget", a=len(CALLS)); steps.append(d)
if shard == 0: w.trace(dict(n=1, m=1, folds=[dict(train=[], test=[], L=[], U=[])]), steps, "signature")
w.close()
sys.stdout.flush()
os._exit(0)
