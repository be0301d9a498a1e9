"""C21: the analysers and the container against the specification's extraction, curves, tables and tests."""
import sys, os, random, copy, re, pickle
from vlib import *
import vlib
behs = read(sys.argv[1])
NS = 6
shard = fork_shards(NS)
os.mkdir("shard%d" % shard); os.chdir("shard%d" % shard)
r = random.Random("%d-c21-%d" % (SEED, shard))
w = Writer(vlib.OUT)
sys.stdout = open(os.devnull, "w")
import warnings
warnings.simplefilter("ignore")
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
from alipy.experiment import ExperimentAnalyser, StateIO, State
from alipy.experiment.experiment_analyser import StateIOContainer

NF = [0]
CS = [1.]    # what one unit of cost is
def sio(f, perf=lambda p: p / 100.):
    n = sum(len(q["sel"]) for q in f["q"])
    kw = {} if f["ip"] == -1 else dict(initial_point=f["ip"] / 100.)
    s = StateIO(round=0, train_idx=list(range(n + 2)), test_idx=[n + 2], init_L=[n, n + 1], init_U=list(range(n)), verbose=False, **kw)
    for q in f["q"]:
        s.add_state(State(select_index=list(q["sel"]), performance=perf(q["perf"]), cost=price(q["rawcost"])))
    return s

def price(c): return [a * CS[0] for a in c] if isinstance(c, list) else c * CS[0] if CS[0] != 1 else c

def decorate(folds, bs=1, listcost=False):
    """abstract folds [ip, q: [perf, cost]] with selections and concrete costs"""
    out = []
    for f in folds:
        q, n = [], 0
        for k, s in enumerate(f["q"]):
            b = bs if isinstance(bs, int) else bs[k]
            c = s["cost"]
            if listcost and b > 1 and c > 1:
                raw = [1] * (b - 1) + [c - (b - 1)] if c > b - 1 else c
            elif listcost and b == 1: raw = [c]
            else: raw = c
            q.append(dict(perf=s["perf"], cost=c, bs=b, sel=list(range(n, n + b)), rawcost=raw)); n += b
        out.append(dict(ip=f["ip"], q=q))
    return out

def strip(folds):
    return [dict(ip=f["ip"], q=[dict(perf=q["perf"], cost=q["cost"], bs=q["bs"], sel=q["sel"]) for q in f["q"]]) for f in folds]

def num(v, scale):
    v = float(v) * scale
    return int(round(v)) if v == v and abs(v) < 1e9 else "bad"

def ints(x, scale): return [num(v, scale) for v in x]

def clean(l): return ["bad" not in l]

def results(folds, how, mode):
    ss = [sio(f) for f in folds]
    if how == "objects": return ss
    if how == "container": return StateIOContainer("m", ss)
    if how == "fold": 
        c = StateIOContainer("m", ss[:1])
        for s in ss[1:]: c.add_fold(s)
        return c
    if how == "files":
        ps = []
        for s in ss:
            NF[0] += 1
            p = os.path.abspath("f%d.pkl" % NF[0])
            with open(p, "wb") as fp: pickle.dump(s, fp)
            ps.append(p)
        c = StateIOContainer("m", ps)
        return c
    if how == "list":
        if mode == "num": return [[q["perf"] / 100. for q in f["q"]] for f in folds]
        return [[(price(q["cost"]), q["perf"] / 100.) for q in f["q"]] for f in folds]
    if how == "array":
        return np.array([[q["perf"] / 100. for q in f["q"]] for f in folds])

def add(an, name, folds, how, mode):
    try:
        res = results(folds, how, mode)
        o = call(an.add_method, name, res)
        if o.ok and how in ("container", "fold", "files", "objects") and len(folds[0]["q"]):   # later changes of the caller's objects are not seen
            for s in (res if how == "objects" else res):
                if how == "objects": s.add_state(State(select_index=[0], performance=.77, cost=9))
    except Exception as e:
        o = Outcome("err", None, type(e).__name__, [])
    return dict(op="add", name=name, kind="list" if how in ("list", "array") else "io", folds=strip(folds), k=o.k, e=o.e)

def data(an, name, mode):
    o = call(an.get_extracted_data, name)
    v = []
    if o.ok:
        try:
            for line in o.v:
                if mode == "num": v.append(ints(line, 100))
                else: v.append([[num(np.sum(t[0]) / CS[0], 1), num(t[1], 100)] for t in line])
        except Exception: v = "bad"
    return dict(op="data", name=name, k=o.k, e=o.e, lines=v if v == "bad" or repr(v).find("bad") < 0 else "none") if v != "bad" else dict(op="data", name=name, k="err", e="shape", lines=[])

def plot(an, mode, start=-1, shift=None, step=1, std=False, save=False):
    plt.close("all")
    kw = dict(show=False, std_area=std)
    if start != -1: kw["start_point"] = start / 100.
    cs = 1. if mode == "num" else CS[0]
    if shift is not None: kw["x_shift"] = shift * cs
    if mode == "num": kw["plot_interval"] = step
    elif step: kw["plot_interval"] = step * CS[0]
    d = None
    if save:
        NF[0] += 1; d = os.path.abspath("p%d" % NF[0]); os.mkdir(d)
    kw["saving_path"] = d
    title = r.choice([None, None, "curves", 7])
    if title is not None: kw["title"] = title
    if not std and r.random() < .5: del kw["std_area"]                   # what is not given is the default
    if mode == "num" and step == 1 and r.random() < .5: del kw["plot_interval"]
    back = os.getcwd()
    if save and r.random() < .5: os.chdir(d); del kw["saving_path"]
    o = call(an.plot_learning_curves, _timeout=60, **kw)
    os.chdir(back)
    e = dict(op="plot", k=o.k, e=o.e, start=start, given=shift is not None, shift=shift or 0, step=step, std=std, curves=[], shades=0, titled=False,
             warned="ValidityWarning" in o.w, asked=save, saved=bool(d and os.listdir(d)))
    if o.ok:
        try:
            ax = plt.gcf().axes[0]
            cols = list(ax.collections)
            e["shades"] = len(cols); e["titled"] = ax.get_title() == ("" if title is None else str(title))
            for n, l in enumerate(ax.lines):
                xs, ys = list(l.get_xdata()), list(l.get_ydata())
                sd = []
                if std:
                    vv = cols[n].get_paths()[0].vertices if len(cols[n].get_paths()) else []
                    for x in xs:
                        at = [v[1] for v in vv if abs(v[0] - x) < 1e-9]
                        sd.append(num((max(at) - min(at)) / 2, 1000) if at else -1)
                c = dict(label=str(l.get_label()), xs=ints([x / cs for x in xs], 100), ys=ints(ys, 1e5), sd=sd)
                if "bad" in c["xs"] or "bad" in c["ys"] or "bad" in sd: c = dict(label="bad", xs=[], ys=[], sd=[])
                e["curves"].append(c)
        except Exception as x:
            e["k"], e["e"] = "err", "figure " + type(x).__name__
    plt.close("all")
    return e

def table(an, mode, allio):
    o = call(an.__repr__)
    e = dict(op="table", k=o.k, e=o.e, rows=[])
    if o.ok:
        try:
            ls = [l for l in o.v.splitlines() if l.startswith("|")]
            head = [c.strip() for c in ls[0].strip("|").split("|")]
            for l in ls[1:]:
                c = dict(zip(head, [x.strip() for x in l.strip("|").split("|")]))
                m, s = re.match(r"([-\d.]+) . ([-\d.]+)$", c["performance"]).groups()
                row = dict(name=c["Methods"], mean=num(m, 1000), sd=num(s, 100), folds=int(c["number_of_different_split"]), queries=0, batch=0, budget=0)
                if mode == "num":
                    row["queries"] = int(c["number_of_queries"])
                    if allio: row["batch"] = int(c["batch_size"]) if c["batch_size"].isdigit() else (0 if c["batch_size"] == "Not_same_batch_size" else -1)
                else:
                    b = c["cost_budget"]
                    row["budget"] = 0 if b == "Not same budget" else num(float(re.search(r"[\d.]+", b).group(0)) / CS[0], 100)
                e["rows"].append(row)
        except Exception as x:
            e["k"], e["e"] = "err", "format " + type(x).__name__
    return e

KEYS = dict(performance="performance", cost="cost", select_index="select_index", pair=["cost", "performance"], back=["performance", "cost"])
def extract(folds, key, how):
    try:
        c = results(folds, how, "num")
        o = call(c.extract_matrix, KEYS[key]) if key != "performance" or r.random() < .5 else call(c.extract_matrix)
        v = []
        if o.ok:
            for line in o.v:
                if key == "performance": v.append(ints(line, 100))
                elif key == "cost": v.append([num(np.sum(x) / CS[0], 1) for x in line])
                elif key == "select_index": v.append([[int(a) for a in x] for x in line])
                elif key == "pair": v.append([[num(np.sum(a) / CS[0], 1), num(b, 100)] for a, b in line])
                else: v.append([[num(a, 100), num(np.sum(b) / CS[0], 1)] for a, b in line])
    except Exception as x:
        o, v = Outcome("err", None, type(x).__name__, []), []
    return dict(op="extract", keys=key, folds=strip(folds), k=o.k, e=o.e, lines=v)

def views(folds, how):
    """the container as a sequence of the histories it holds; a list of them is the caller's own"""
    sels = lambda ss: [[[int(a) for a in q.get_value("select_index")] for q in x] for x in ss]
    def f():
        c = results(folds, how, "num"); n = len(c)
        l = c.to_list(); d = dict(n=n, list=sels(l), iter=sels(c), item=sels([c[i] for i in range(n)]))
        for x in l: x.add_state(State(select_index=[0], performance=.77, cost=9))
        del l[:]
        d["after"] = sels(c)
        return d
    o = call(f)
    return dict(op="views", folds=strip(folds), k=o.k, e=o.e, v=o.v if o.ok else 0)

def newan(mode):
    return ExperimentAnalyser("num_of_queries" if mode == "num" else "cost")

def guarded(f, tag, mode):
    st = []
    CS[0] = r.choice([1., 1., 1., .5, .25, 4.])
    try: f(st)
    except Exception as x:
        st.append(dict(op="refused", what="harness %s" % type(x).__name__, k="ok"))
    w.trace(dict(mode=mode), st, tag)

# ---- specification behaviours: one method of two short folds
mine = [b for i, b in enumerate(behs) if i % NS == shard]
r.shuffle(mine)
for b in mine[:(400 if THOROUGH else 55)]:
    for mode in ("num", "cost"):
        if mode == "cost" and min(len(f["q"]) for f in b["folds"]) < 2 and b["start"] == -1 and b["folds"][0]["ip"] == -1: continue
        def run(st):
            an = newan(mode)
            fs = decorate(b["folds"])
            how = r.choice(["objects", "container", "fold", "files"])
            st.append(add(an, "m", fs, how, mode))
            st.append(plot(an, mode, start=b["start"], step=b["step"], std=r.random() < .5))
            st.append(table(an, mode, True))
        guarded(run, "mc-" + mode, mode)

# ---- random histories
def rfolds(nf, lens, ip, maxcost=5):
    return [dict(ip=r.choice([0, 100, r.randint(20, 90), r.randint(20, 90)]) if ip else -1, q=[dict(perf=r.choice([r.randint(0, 100), 50, 100]), cost=r.randint(1, maxcost)) for _ in range(n)])
            for n in (lens if isinstance(lens, list) else [lens] * nf)]

def method(mode, r, shape):
    nf, el, ip, bs, listy = shape
    lens = [el + r.choice([0, 0, 0, 1, 2]) for _ in range(nf)]
    lens[r.randrange(nf)] = el
    if listy == "list": ip = False
    return decorate(rfolds(nf, lens, ip), bs=bs, listcost=r.random() < .4), lens

for n in range(110 if THOROUGH else 26):
    for mode in ("num", "cost"):
        def run(st):
            an = newan(mode)
            base = (r.randint(1, 4), r.randint(2, 4), r.random() < .5, r.choice([1, 1, 2]))
            nm = r.randint(1, 3)
            withlist = r.random() < .4
            allio = True
            names = []
            for i in range(nm + (1 if r.random() < .25 else 0)):
                s = list(base)
                d = r.random()
                if d < .1: s[0] = r.randint(1, 4)
                elif d < .2: s[1] = r.randint(2, 4)
                elif d < .3: s[2] = not s[2]
                elif d < .4: s[3] = 3 - s[3]
                listy = "list" if withlist and r.random() < .6 else "io"
                fs, lens = method(mode, r, s + [listy])
                how = r.choice(["objects", "container", "fold", "files"]) if listy == "io" else ("array" if mode == "num" and len(set(lens)) == 1 and r.random() < .5 else "list")
                name = "m%d" % min(i, nm - 1) if r.random() < .8 else "other"
                st.append(add(an, name, fs, how, mode))
                if listy == "list": allio = False
                if name not in names: names.append(name)
            st.append(dict(op="names", k="ok", v=call(an.get_methods_names).v))
            for name in names: st.append(data(an, name, mode))
            if r.random() < .3:
                bad = r.choice([dict(a=1), "results", 3] + ([[[(1, .5), (2, .6)], [(1, .5), (2, .6)]]] if mode == "num" else [[[.5, .6], [.5, .7]]]))
                st.append(dict(op="refused", what="badadd", k=call(an.add_method, "bad", bad).k))
                st.append(dict(op="names", k="ok", v=call(an.get_methods_names).v))
            for _ in range(2):
                shift = r.choice([None, None, 0, 2, 5])
                if mode == "num":
                    st.append(plot(an, mode, start=r.choice([-1, -1, 0, 45]), shift=shift, step=r.choice([1, 1, 2, 3]), std=r.random() < .6, save=r.random() < .05))
                else:
                    st.append(plot(an, mode, start=r.choice([-1, -1, 0, 45]), shift=shift, step=r.choice([0, 1, 2]), std=r.random() < .6, save=r.random() < .05))
            st.append(table(an, mode, allio))
        guarded(run, "rnd-" + mode, mode)

# ---- batch sizes within and between folds
for n in range(20 if THOROUGH else 5):
    def run(st):
        an = newan("num")
        for i in range(2):
            el = r.randint(2, 4)
            fs = []
            for f in rfolds(2, el, False):
                bl = [r.choice([1, 2]) for _ in range(el)]
                if r.random() < .5: bl = [bl[0]] * el
                fs += decorate([f], bs=bl)
            st.append(add(an, "m%d" % i, fs, "objects", "num"))
        st.append(table(an, "num", True))
        st.append(plot(an, "num"))
    guarded(run, "batches", "num")

# ---- containers
for n in range(60 if THOROUGH else 15):
    def run(st):
        fs = decorate(rfolds(0, [r.randint(1, 4) for _ in range(r.randint(1, 4))], r.random() < .6), bs=r.choice([1, 2]), listcost=r.random() < .3)
        for key in KEYS:
            st.append(extract(fs, key, r.choice(["container", "fold", "files"])))
        st.append(views(fs, r.choice(["container", "fold", "files"])))
        c = results(fs, "container", "num")
        st.append(dict(op="refused", what="unknown key", k=call(c.extract_matrix, "nothing").k))
        st.append(dict(op="refused", what="unknown key", k=call(c.extract_matrix, ["cost", "nothing"]).k))
        st.append(dict(op="refused", what="wrong fold", k=call(c.add_fold, r.choice([3, None, [1, 2]])).k))
    guarded(run, "container", "num")

# ---- values which are not numbers
for n in range(12 if THOROUGH else 4):
    def run(st):
        an = newan("num")
        fs = decorate(rfolds(2, 3, False))
        bad = r.choice([float("nan"), float("inf")])
        k = r.randrange(2), r.randrange(3)
        ss = [sio(f) for f in fs]
        s = sio(fs[k[0]], perf=lambda p: bad)
        ss[k[0]] = s
        an.add_method("m", ss)
        plt.close("all")
        st.append(dict(op="refused", what="nan", k=call(an.plot_learning_curves, show=False, saving_path=None).k))
        plt.close("all")
    guarded(run, "nan", "num")

# ---- paired t-tests
for n in range(150 if THOROUGH else 40):
    def run(st):
        k = r.randint(2, 6)
        al = r.choice([10, 5] + ([1] if k > 2 else []))
        a = [r.randint(0, 60) for _ in range(k)]
        m = r.random()
        if m < .1: b = list(a)
        elif m < .2: b = [x - 8 for x in a]
        elif m < .6:
            d = r.randint(-12, 12); b = [max(0, min(60, x + d + r.randint(-4, 4))) for x in a]
        else: b = [r.randint(0, 60) for _ in range(k)]
        an = r.choice([newan("num"), newan("cost")])
        A, B = [float(x) for x in a], [float(x) for x in b]
        form = r.choice(["list", "array", "col"])
        if form == "array": A, B = np.array(A), np.array(B)
        elif form == "col": A, B = np.array(A).reshape(-1, 1), np.array(B).reshape(-1, 1)
        kw = {} if al == 5 and r.random() < .5 else dict(alpha=al / 100.)
        o, o2 = call(an.paired_ttest, A, B, **kw), call(an.paired_ttest, B, A, **kw)
        st.append(dict(op="ttest", a=a, b=b, alpha=al, k=o.k if o2.ok else o2.k, e=o.e, h=int(o.v) if o.ok else -1, h2=int(o2.v) if o2.ok else -1))
        st.append(dict(op="refused", what="lengths", k=call(an.paired_ttest, A, B[:-1]).k))
    guarded(run, "ttest", "num")

w.close()
sys.stdout.flush()
os._exit(0)
