import sys, time, copy, pickle
CLOCK = [100.0]
_real = (time.perf_counter, time.time, time.monotonic, time.process_time)
for _n in ("perf_counter", "time", "monotonic", "process_time"):
    setattr(time, _n, lambda: CLOCK[0])
import numpy as np
from vlib import *
from alipy.experiment import State, StoppingCriteria
from alipy.experiment.state_io import StateIO
from alipy.index import IndexCollection, MultiLabelIndexCollection

r = rng("c08")
w = Writer()
SCALE = {"num_of_queries": 1, "cost_limit": 0.25, "time_limit": 1.0, "percent_of_unlabel": 1}

def limit(c):
    if c["kind"] == "none": return None
    v = c["num"] * SCALE[c["kind"]]
    if c["den"] != 1: v = c["num"] / c["den"] * SCALE[c["kind"]]
    f = r.random()
    if c["kind"] == "num_of_queries":
        return np.int64(v) if f < .2 else float(v) if f < .3 else int(v)
    if f < .2: return np.float64(v)
    if v == int(v) and f < .5: return int(v)
    return float(v)

class Run(object):
    def __init__(self, c, K, L0, U0):
        self.K = K
        self.c, self.steps = c, []
        self.L0, self.U0 = L0, U0
        CLOCK[0] = 100.0 + r.randrange(1000)
        self.fold()
        o = call(lambda: StoppingCriteria(None if c["kind"] == "none" else c["kind"], limit(c)))
        self.s = o.v
        self.rec("new", 0, o)

    def fold(self):
        mk = (lambda xs: IndexCollection([x for x in xs])) if self.K == 0 else (lambda xs: MultiLabelIndexCollection([tuple(x) for x in xs], label_size=self.K))
        self.io = StateIO(0, list(range(20)), [20], mk(self.L0), mk(self.U0), verbose=False)

    def rec(self, op, a, o):
        d = o.rec(); d.update(op=op, a=a, v=bool(o.v) if op == "check" and o.ok else False)
        self.steps.append(d)

    def check(self):
        o = call(lambda: self.s.is_stop()); self.rec("check", 0, o); return o

    def update(self): self.rec("update", 0, call(lambda: self.s.update_information(self.io)))

    def add(self, sel, cost):
        xs = sel if self.K == 0 else [tuple(x) for x in sel]
        cs = None if cost == 0 and r.random() < .5 else cost * .25
        if cs is not None and r.random() < .4: cs = [cost * .25 / 2] * 2 if len(sel) == 2 else [cost * .25]
        o = call(lambda: self.io.add_state(State(select_index=xs, performance=0, cost=cs)))
        self.rec("add", dict(sel=sel if self.K == 0 else [["one", i, j] for i, j in sel], cost=cost), o)

    def tick(self, t):
        CLOCK[0] += t; self.rec("tick", t, call(lambda: 0))

    def unl(self):
        return [plain(x) for x in self.io.get_workspace()[3].index]

    def done(self, tag):
        w.trace(dict(c=self.c, K=self.K, L0=self.L0, U0=self.U0), self.steps, tag=tag)

beh = read(sys.argv[1])
if not THOROUGH: beh = r.sample(beh, min(len(beh), 500))
for b in beh:
    run = Run(b["c"], 0, [0], list(range(1, b["u"] + 1)))
    run.update(); run.check()
    for n, k, t in b["h"]:
        u = sorted(run.unl())[:n]
        run.add(u, k); run.tick(t); run.update(); run.check()
    run.done("graph")

KINDS = ["none", "num_of_queries", "cost_limit", "percent_of_unlabel", "time_limit"]
for i in range(2500 if THOROUGH else 300):
    kind = KINDS[i % 5]
    K = 0 if r.random() < .7 else r.choice([2, 3])
    n = r.choice([0, 1, 2, 5, 9, 10]) if K == 0 else r.choice([1, 2, 4])
    c = dict(kind=kind, num=r.randrange(0, 7), den=1)
    if kind == "percent_of_unlabel":
        c["den"] = r.choice([1, 2, 3, 7, 10, 4]); c["num"] = r.randrange(-1 if r.random() < .2 else 0, c["den"] + (2 if r.random() < .2 else 1))
    if kind in ("cost_limit", "time_limit") and r.random() < .3: c["den"] = 2
    L0 = [0] if K == 0 else [[0, j] for j in range(K)]
    U0 = list(range(1, n + 1)) if K == 0 else [[a, j] for a in range(1, n + 1) for j in range(K)]
    run = Run(c, K, L0, U0)
    other = []
    for _ in range(r.randrange(4, 25)):
        op = r.choice(["add"] * 5 + ["update"] * 5 + ["check"] * 5 + ["tick"] * 3 + ["pop_last", "recover", "reset", "copy", "newfold", "other"])
        if op == "add":
            u = run.unl()
            if u: run.add(r.sample(u, min(len(u), r.choice([1, 1, 2, 3]))), r.randrange(3) * 2)
        elif op == "update": run.update()
        elif op == "check": run.check()
        elif op == "tick": run.tick(r.randrange(3))
        elif op == "pop_last":
            if len(run.io): run.rec(op, 0, call(lambda: run.io.pop(len(run.io) - 1)))
        elif op == "recover":
            k = r.randrange(len(run.io) + 1)
            run.rec(op, k, call(lambda: run.io.recover_workspace(k)))
        elif op == "reset": run.rec(op, 0, call(lambda: run.s.reset()))
        elif op == "copy":
            f = r.random()
            o = call(lambda: copy.deepcopy(run.s) if f < .6 else pickle.loads(pickle.dumps(run.s)))
            if o.ok: other.append(run.s); run.s = o.v
            run.rec(op, 0, o)
        elif op == "newfold":
            run.fold(); run.rec(op, 0, call(lambda: 0))
        elif other:         # the original is used elsewhere: nothing to see here
            def f():
                s = StateIO(0, [1, 2, 3], [4], IndexCollection([1]), IndexCollection([2, 3]), verbose=False)
                s.add_state(State([2, 3], 0, cost=99)); other[-1].update_information(s)
                if r.random() < .5: other[-1].reset()
            run.rec("other", 0, call(f))
    run.update(); run.check()
    run.done("random")
run = Run(dict(kind="none", num=0, den=1), 0, [0], [1])
for bad in ("queries", "cost", "", "num_of_query", "time"):
    run.rec("badkind", bad, call(lambda: StoppingCriteria(bad, 1)))
run.done("kinds")
w.close()
