import copy, os, resource, signal, shutil, sys, tempfile, contextlib, io
import numpy as np
from vlib import *
from alipy.experiment import State
from alipy.experiment.state_io import StateIO
from alipy.index import IndexCollection, MultiLabelIndexCollection

MODE = sys.argv[1]     # c06 | c07
r = rng(MODE)
w = Writer()

def entry(x):
    """a recorded index -> its spelling"""
    if isinstance(x, (tuple, list, np.ndarray)):
        x = plain(x)
        if len(x) == 1: return ["all", x[0]]
        return ["many", x[0], x[1]] if isinstance(x[1], list) else ["one", x[0], x[1]]
    return plain(x)

def selof(o):
    q = call(lambda: [entry(x) for x in o.v.get_value("select_index")])
    return q.v if o.ok and q.ok else []

def costsum(s):
    return plain(np.sum(s.get_value("cost"))) if "cost" in s.keys() else 0

def keep(st):
    """everything else a state holds: labels, cost as given, extra elements"""
    return [[k, repr(plain(st[k]))] for k in sorted(st.keys()) if k not in ("select_index", "performance")]

class Run(object):
    def __init__(self, kind, N, K, folder=None):
        self.kind, self.N, self.K = kind, N, K
        train = list(range(N)); r.shuffle(train)
        self.test = [N, N + 1, N + 2]
        nl = r.randrange(1, max(2, N // 2))
        if kind == "single":
            L, U = train[:nl], train[nl:]
            self.el = lambda xs: [x for x in xs]
            self.L0, self.U0 = L, U
        else:
            L = [(i,) for i in train[:nl]]; U = [(i,) for i in train[nl:]]
            self.L0 = [[i, j] for i in train[:nl] for j in range(K)]
            self.U0 = [[i, j] for i in train[nl:] for j in range(K)]
            if r.random() < .5:     # partially labeled pairs
                pairs = [(i, j) for i in train for j in range(K)]; r.shuffle(pairs)
                if r.random() < .3:     # the unlabeled part knows fewer labels
                    pairs = sorted(pairs, key=lambda p: -p[1]); nl = K and max(nl, len(train) * (K - 1))
                L, U = pairs[:nl], pairs[nl:]
                self.L0, self.U0 = [list(p) for p in L], [list(p) for p in U]
        self.train = train
        f = r.random()
        if kind == "single":
            a = (IndexCollection(L), IndexCollection(U)) if f < .6 else (list(L), list(U)) if f < .8 else (np.array(L), np.array(U))
        else:
            a = (MultiLabelIndexCollection(L, label_size=K), MultiLabelIndexCollection(U, label_size=K))
            if f < .3 and all(len(x) == 2 for x in L + U):
                a = (list(L), list(U))
        self.objs = [list(train) if r.random() < .5 else np.array(train), list(self.test), a[0], a[1]]
        self.initial = r.choice([None, 0, 7])
        self.folder = folder
        self.round = r.randrange(5)
        kw = dict(initial_point=self.initial, verbose=bool(r.random() < .3), saving_path=folder)
        if folder and r.random() < .4:
            kw["saving_path"] = os.path.join(folder, "my.pkl")
        self.path = kw["saving_path"] if folder and kw["saving_path"].endswith(".pkl") else os.path.join(folder or ".", "AL_round_%d.pkl" % self.round)
        self.s = None
        self.steps = []
        before = copy.deepcopy(self.objs)
        o = call(lambda: StateIO(self.round, self.objs[0], self.objs[1], self.objs[2], self.objs[3], **kw))
        self.s = o.v
        self.handed = []
        self.rec("new", 0, o, self.same(before, self.objs))

    def init(self):
        return dict(kind=self.kind, K=0 if self.kind == "single" else self.K, L0=self.L0, U0=self.U0, train=self.train, test=self.test,
                    round=self.round, initial=plain(self.initial))

    def same(self, a, b):
        f = lambda z: plain(z.index) if hasattr(z, "index") and not isinstance(z, list) else plain(z)
        return [f(x) for x in a] == [f(x) for x in b]

    def ws(self, t):
        tr, te, L, U = t
        return dict(L=[plain(x) for x in L.index], U=[plain(x) for x in U.index], train=plain(list(tr)), test=plain(list(te)))

    def obs(self):
        def f():
            s = self.s
            n = len(s)
            sts = [s.get_state(i) for i in range(n)]
            d = dict(ok=True, n=n, nq=s.num_of_query(), cost=plain(s.cost_inall),
                     sels=[[entry(x) for x in st.get_value("select_index")] for st in sts],
                     costs=[costsum(st) for st in sts], perfs=[plain(st.get_value("performance")) for st in sts], keeps=[keep(st) for st in sts],
                     round=s.round, initial=plain(s.initial_point))
            d["queried"] = plain(copy.deepcopy(s).refresh_info()[0])
            m, sd = s.get_current_performance(); d["mean"], d["sd"] = round(float(m) * 100), round(float(sd) * 100)
            # what is printed
            hd, ln = [[c.strip() for c in x.strip().strip("|").split("|")] for x in str(s).splitlines()[:2]]
            row = dict(zip(hd, ln)); lab = row["initially labeled data"].replace("(", "").replace("%", "").split()
            pm = [round(float(x) * 100) for x in row["Performance:"].split("±")]
            d["shown"] = dict(round=row["round"] == str(s.round), n=int(row["number of queries"]), cost=plain(float(row["cost"])), L=int(lab[0]), pct=round(float(lab[1]) * 100), mean=pm[0], sd=pm[1])
            d["has"] = all(t in s for t in s) and State(select_index=[0], performance=1) not in s and all(repr(a) == repr(b) == repr(s[i]) for i, (a, b) in enumerate(zip(sts, s))) and (n == 0 or repr(s[-1]) == repr(sts[-1]))
            if type(d["cost"]) is not int: d["cost"] = -999999
            d.update(self.ws(s.get_workspace()))
            return d
        o = call(f)
        return o.v if o.ok else dict(ok=False, why=o.e)

    def rec(self, op, a, o, same=True, v=0):
        d = o.rec(); d.update(op=op, a=a, argsame=bool(same), v=v, post=self.obs())
        self.steps.append(d)

    def add(self, sel, cost, perf):
        """sel: list of spellings"""
        if self.s is None or not sel: return
        xs = []
        for e in sel:
            if self.kind == "single": xs.append(np.int64(e) if r.random() < .3 else e)
            elif e[0] == "all": xs.append((e[1],))
            elif e[0] == "one": xs.append((e[1], e[2]))
            else: xs.append((e[1], tuple(e[2])))
        f = r.random()
        arg = xs
        if len(xs) == 1 and f < .3: arg = xs[0]
        elif self.kind == "single" and f < .5: arg = np.array(sel)
        elif self.kind == "single" and f < .6 and len(set(sel)) == len(sel) and sorted(sel) == sel: arg = IndexCollection(sel)
        cs = None
        total = 0
        if cost is not None:
            if r.random() < .4: cs, total = cost, cost
            else:
                cs = [r.randrange(4) for _ in range(len(sel))]; total = sum(cs)
        if isinstance(cost, int) and MODE == "c06" and cs is not None and r.random() < .2: cs = np.array([total])
        lab = [r.randrange(2) for _ in sel]
        f = r.random()       # labels and costs of several labels each are vectors
        if f < .15: lab = [[r.randrange(2) for _ in range(3)] for _ in sel]
        elif f < .3: lab = [np.array([r.randrange(2) for _ in range(3)]) for _ in sel]
        if isinstance(cs, list) and r.random() < .4:
            cs = [[r.randrange(4) for _ in range(2)] for _ in sel]; total = int(np.sum(cs))
            if r.random() < .5: cs = [np.array(c) for c in cs]
        before = copy.deepcopy((plain(list(arg)) if isinstance(arg, (list, np.ndarray)) else arg, cs))
        ext = [r.randrange(9), [r.randrange(9)]]
        how = "dict" if r.random() < .2 and not isinstance(arg, IndexCollection) else "state"
        kept = dict(queried_label=lab)
        if cs is not None: kept["cost"] = cs
        if r.random() < .4: kept["extra"] = ext
        kept = sorted([k, repr(plain(v))] for k, v in kept.items())
        def mk():
            if how == "dict":
                d = dict(select_index=arg, queried_info=lab, performance=perf)
                if cs is not None: d["cost"] = cs
                if ["extra", repr(ext)] in kept: d["extra"] = ext
                self.s.add_state(d)
                self.handed.append(d)
            else:
                own = copy.deepcopy((arg, lab, cs, ext))
                st = State(select_index=own[0], performance=perf, queried_label=own[1], cost=own[2])
                if ["extra", repr(ext)] in kept:
                    if r.random() < .5: st.add_element("extra", own[3])
                    else: st.add_element("extra", 0); st["extra"] = own[3]
                f = r.random()
                if f < .3: st.add_element("junk", [1]); st.del_element("junk")
                elif f < .5: st.del_element(r.choice(["select_index", "performance", "nothing"] + ["cost"] * (cs is not None)))
                elif f < .6:
                    c_ = call(st.set_value, "nothing", 3)
                    if c_.ok: st.add_element("accepted_unknown_key", 1)
                if r.random() < .5:       # a state is a snapshot of what it was made from
                    for x in sum([[y for y in x if isinstance(y, (list, np.ndarray))] for x in own if isinstance(x, list)], []) + list(own):
                        if isinstance(x, list): x.append(5)
                        elif isinstance(x, np.ndarray): x += 1
                self.s.add_state(st)
                self.handed.append(st)
        with contextlib.redirect_stdout(io.StringIO()):
            o = call(mk)
        self.handed += [arg, cs, lab, ext, ext[1]] + [x for v in (cs, lab) if isinstance(v, list) for x in v if isinstance(x, (list, np.ndarray))]
        after = (plain(list(arg)) if isinstance(arg, (list, np.ndarray)) else arg, cs)
        self.rec("add", dict(sel=sel, cost=total, perf=perf, keep=kept), o, repr(before[1]) == repr(after[1]) and (plain(before[0]) == plain(after[0]) if not isinstance(arg, IndexCollection) else True))

    def step(self, op, a=0):
        s = self.s
        if s is None: return
        if op == "pop":
            o = call(s.pop, a); v = selof(o)
            self.rec(op, a, o, v=v)
        elif op == "pop_last":
            o = call(s.pop); v = selof(o)
            self.rec(op, 0, o, v=v)
        elif op in ("get", "recover"):
            f = s.get_workspace if op == "get" else s.recover_workspace
            o = call(f, a) if a != len(s) or r.random() < .5 else call(f)
            v = 0
            if o.ok:
                v = self.ws(o.v)
                self.handed += list(o.v)
            self.rec(op, a, o, v=v)
        elif op == "get_oob_state":
            o = call(s.get_state, len(s) + r.randrange(0, 3)); self.rec(op, 0, o)
        elif op == "mutate":
            # the caller changes everything it passed in or got out
            for i in range(len(s)):
                g = call(s.get_state, i)
                if g.ok:
                    self.handed.append(g.v)
            def ch():
                for x in self.handed + self.objs:
                    if isinstance(x, MultiLabelIndexCollection):
                        if len(x): x.pop()
                    elif isinstance(x, IndexCollection):
                        if len(x): x.pop()
                    elif isinstance(x, list):
                        x.append(x[0] if x else 0)
                        x.reverse()
                    elif isinstance(x, np.ndarray) and x.size: x += 1
                    elif isinstance(x, State):
                        x.set_value("performance", 999); x.set_value("select_index", [10 ** 6]); x.add_element("cost", 77)
                    elif isinstance(x, dict):
                        x["performance"] = 999; x["select_index"] = [10 ** 6]
            o = call(ch); self.handed = []
            self.rec(op, 0, o)
        elif op == "save":
            o = call(s.save); self.rec(op, 0, o)
        elif op == "load":
            o = call(StateIO.load, self.path)
            if o.ok: self.s = o.v
            self.rec(op, 0, o)
        elif op == "crash_saving":
            self.crash(a)

    # ---- a crash while saving: the saving process is a fork that dies at the chosen point
    def crash(self, a):
        mode, n = a
        if self.s is None: return True
        pid = os.fork()
        if pid == 0:
            try:
                signal.alarm(0)
                devnull = os.open(os.devnull, os.O_WRONLY); os.dup2(devnull, 1); os.dup2(devnull, 2)
                if mode == "bytes":
                    resource.setrlimit(resource.RLIMIT_FSIZE, (n, n))
                    signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
                    self.s.save()
                else:
                    cnt = [0]
                    def tr(frame, ev, arg):
                        if not frame.f_code.co_filename.endswith(os.path.join("experiment", "state_io.py")): return None
                        if ev == "line":
                            cnt[0] += 1
                            if cnt[0] == n: os._exit(9)
                        return tr
                    sys.settrace(tr)
                    self.s.save()
                    sys.settrace(None)
                    os._exit(0)
            except BaseException:
                os._exit(7)
            os._exit(0)
        _, st = os.waitpid(pid, 0)
        v = dict(there=os.path.exists(self.path), readable=False, q=[])
        if v["there"]:
            def ld():
                s = StateIO.load(self.path)
                sts = [s.get_state(i) for i in range(len(s))]
                return [dict(sel=[entry(x) for x in t.get_value("select_index")], cost=costsum(t), perf=plain(t.get_value("performance")), keep=keep(t)) for t in sts]
            q = call(ld)
            if q.ok: v.update(readable=True, q=q.v)
        o = Outcome("ok", None, "", [])
        self.rec("crash_saving", [mode, n], o, v=v)
        return os.WIFEXITED(st) and os.WEXITSTATUS(st) == 0

    def unl(self):
        """current unlabeled elements according to the driver's own bookkeeping is not kept: ask"""
        o = call(lambda: [plain(x) for x in self.s.get_workspace()[3].index])
        return o.v if o.ok else []

    def random_sel(self):
        u = self.unl()
        if not u: return None
        if self.kind == "single":
            return r.sample(u, min(len(u), r.randrange(1, 4)))
        u = sorted(u)
        out = []
        for _ in range(r.randrange(1, 3)):
            i = r.choice(u)[0]
            js = [p[1] for p in u if p[0] == i]
            f = r.random()
            e = ["all", i] if len(js) == self.K and f < .4 else ["one", i, r.choice(js)] if f < .8 else ["many", i, r.sample(js, r.randrange(1, len(js) + 1))]
            if e not in out: out.append(e)
        return out

if MODE == "c06":
    for h in read(sys.argv[2]):
        if any(x[0] in ("save", "load", "crash_saving") for x in h): continue
        run = Run("single", 3, 0)
        m = None
        # the model's universe {1,2,3} / {100}: same shape, own indexes
        names = {1: 1, 2: 2, 3: 3}
        run.train = [0, 1, 2, 3]; run.L0, run.U0 = [0], [1, 2, 3]
        run.steps = []
        run.objs = [[0, 1, 2, 3], list(run.test), IndexCollection([0]), IndexCollection([1, 2, 3])]
        o = call(lambda: StateIO(run.round, *run.objs, initial_point=run.initial, verbose=False)); run.s = o.v
        run.rec("new", 0, o)
        for x in h:
            if x[0] == "add": run.add(list(x[1]), x[2], r.randrange(9))
            elif x[0] == "pop_last": run.step("pop_last")
            else: run.step(x[0], x[1])
        w.trace(run.init(), run.steps, tag="graph")
    for i in range(1500 if THOROUGH else 150):
        run = Run("single" if i % 3 else "multi", r.choice([4, 7, 12]), r.choice([2, 3]))
        for _ in range(r.randrange(3, 14)):
            op = r.choice(["add"] * 5 + ["pop", "pop_last", "get", "get", "recover", "mutate", "get_oob_state"])
            n = call(lambda: len(run.s)).v or 0
            if op == "add":
                sel = run.random_sel()
                if sel: run.add(sel, r.choice([None, 0, 1, 5]), r.randrange(9))
            elif op == "pop": run.step(op, r.randrange(0, n + 1)) 
            elif op in ("get", "recover"): run.step(op, r.randrange(0, n + 2))
            else: run.step(op)
        w.trace(run.init(), run.steps, tag="random")
else:
    beh = [h for h in read(sys.argv[2]) if any(x[0] in ("save", "load", "crash_saving") for x in h)]
    beh = beh if THOROUGH else r.sample(beh, min(len(beh), 250))
    for h in beh:
        d = tempfile.mkdtemp(dir=".")
        run = Run("single", 3, 0, folder=d)
        run.train = [0, 1, 2, 3]; run.L0, run.U0 = [0], [1, 2, 3]
        run.steps = []
        o = call(lambda: StateIO(run.round, [0, 1, 2, 3], list(run.test), IndexCollection([0]), IndexCollection([1, 2, 3]), initial_point=run.initial, verbose=False, saving_path=run.path))
        run.s = o.v
        run.rec("new", 0, o)
        for x in h:
            if x[0] == "add": run.add(list(x[1]), x[2], r.randrange(9))
            elif x[0] == "crash_saving":
                run.crash(["bytes", r.choice([0, 1, 100, 600])])
                if os.path.exists(run.path): run.step("load")
                else: break          # nothing was ever saved: the behaviour starts over
            else: run.step(x[0], x[1] if len(x) > 1 else 0)
        w.trace(run.init(), run.steps, tag="graph")
        shutil.rmtree(d)
    for i in range(200 if THOROUGH else 40):
        d = tempfile.mkdtemp(dir=".")
        run = Run("single" if i % 3 else "multi", r.choice([4, 7, 12]), r.choice([2, 3]), folder=d)
        for _ in range(r.randrange(4, 12)):
            op = r.choice(["add"] * 4 + ["save", "save", "load", "mutate", "recover", "crash"])
            n = call(lambda: len(run.s)).v or 0
            if op == "add":
                sel = run.random_sel()
                if sel: run.add(sel, r.choice([None, 0, 1, 5]), r.randrange(9))
            elif op == "recover": run.step(op, r.randrange(0, n + 1))
            elif op == "load":
                if os.path.exists(run.path): run.step("load")
            elif op == "crash":
                run.crash(["bytes", r.choice([0, 1, 50, 400, 900, 1500, 10 ** 6])])
            else: run.step(op)
        w.trace(run.init(), run.steps, tag="random")
        shutil.rmtree(d)
    # every point of a save, with and without an earlier file
    for earlier in (False, True):
        d = tempfile.mkdtemp(dir=".")
        run = Run("single", 7, 0, folder=d)
        run.add(run.random_sel(), 1, 3)
        if earlier: run.step("save")
        run.add(run.random_sel(), 1, 4)
        for n in range(1, 60):
            if run.crash(["line", n]): break
            if not earlier and os.path.exists(run.path): os.unlink(run.path) if False else None
        for n in (0, 1, 2, 10, 64, 200, 512, 700, 900, 1000, 1100):
            run.crash(["bytes", n])
        w.trace(run.init(), run.steps, tag="crash_points")
        shutil.rmtree(d)
w.close()
