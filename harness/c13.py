"""C13: threaded experiments killed at chosen points and recovered in a new process."""
import sys, os, threading, time, random, copy, json, pickle, shutil, signal
from vlib import *
import vlib
from alipy.index import IndexCollection, MultiLabelIndexCollection
from alipy.experiment import State
from alipy.experiment.state_io import StateIO
import alipy.experiment.state_io as sio
import alipy.utils.multi_thread as mt
from alipy.utils.multi_thread import aceThreading

NS = 6
shard = fork_shards(NS)
os.mkdir("shard%d" % shard); os.chdir("shard%d" % shard)
r = random.Random("%d-c13-%d" % (SEED, shard))
w = Writer(vlib.OUT)
K = 3
LIMIT = 40
CUR = {}          # the scenario (set before forking)
LOG = [None]
THREADS = {}
NEV = [0]
CRASH_EV = [None]
EVLOCK = threading.RLock()

def log(**k):
    with EVLOCK:
        os.write(LOG[0], (json.dumps(plain(k)) + "\n").encode())
        NEV[0] += 1
        if CRASH_EV[0] is not None and NEV[0] == CRASH_EV[0]:
            os._exit(9)

def pairs(x):
    return [list(p) if isinstance(p, tuple) else p for p in x]

def target(round, train_id, test_id, Ucollection, Lcollection, saver, examples, labels, global_parameters):
    c = CUR["c"]
    i = round
    THREADS[i + 1] = threading.current_thread()
    rr = random.Random("%s-%d" % (c["id"], i))
    ok = bool(saver.round == i and list(train_id) == c["train"][i] and list(test_id) == c["test"][i] and np.array_equal(examples, c["X"])
              and np.array_equal(labels, c["y"]) and global_parameters == c["gp"])
    log(op="begin", i=i + 1, n=len(saver), q=[pairs(s.get_value("select_index")) for s in saver], L=pairs(Lcollection), U=pairs(Ucollection), ok=ok)
    plan = c["plan"][i]
    k = len(saver)
    while k < len(plan):
        sel = [tuple(p) if isinstance(p, list) else p for p in plan[k]]
        Ucollection.difference_update(sel)
        Lcollection.update(sel)
        saver.add_state(State(select_index=sel, performance=.25 * k, cost=[1] * len(sel)))
        k += 1
        log(op="add", i=i + 1, kk=k)
        if k % c["every"] == 0 or (k == len(plan) and c["savelast"]):
            saver.save()
            log(op="saved", i=i + 1, kk=k)
        if rr.random() < c["slow"]: time.sleep(rr.random() * .01)
    log(op="leave", i=i + 1, kk=k)

_save = aceThreading.save
def msave(self):
    log(op="msave", dead=[i for i, t in list(THREADS.items()) if not t.is_alive()])
    r_ = _save(self)
    log(op="msaved")
    return r_

def arm(cr):
    """Prepare the way the process will die."""
    if cr is None: return
    kind, at = cr
    cnt = [0]
    lock = threading.RLock()
    if kind == "event":
        CRASH_EV[0] = at
    elif kind == "line":
        files = {mt.__file__, sio.__file__}
        seen = {}
        def tracer(frame, event, arg):
            if frame.f_code.co_filename not in files: return None
            if event == "line":
                key = (frame.f_code.co_filename, frame.f_lineno)
                with lock:
                    seen[key] = seen.get(key, 0) + 1
                    if seen[key] <= 3:
                        cnt[0] += 1
                        if cnt[0] == at: os._exit(9)
            return tracer
        threading.settrace(tracer)
        sys.settrace(tracer)
    elif kind in ("half", "dump"):
        real = pickle.dump
        def dump(obj, f, *a, **k):
            with lock:
                cnt[0] += 1
                if cnt[0] == at:
                    b = pickle.dumps(obj, *a, **k)
                    if kind == "half": f.write(b[:len(b) // 2])
                    f.flush(); os._exit(9)
            return real(obj, f, *a, **k)
        pickle.dump = dump
    elif kind in ("replace_before", "replace_after"):
        real = {n: getattr(os, n) for n in ("replace", "rename")}
        def mk(n):
            def f(*a, **k):
                with lock:
                    cnt[0] += 1
                    if cnt[0] == at:
                        if kind == "replace_after": real[n](*a, **k)
                        os._exit(9)
                return real[n](*a, **k)
            return f
        for n in real: setattr(os, n, mk(n))
    elif kind == "thread":
        real = threading.Thread.start
        def start(self):
            if self.name.isdigit():
                with lock:
                    cnt[0] += 1
                    if cnt[0] == at: os._exit(9)
            return real(self)
        threading.Thread.start = start
    elif kind == "time":
        def die():
            time.sleep(at); os._exit(9)
        threading.Thread(target=die, daemon=True, name="die").start()

def child(c, mode, cr, path, logp):
    LOG[0] = os.open(logp, os.O_WRONLY | os.O_APPEND | os.O_CREAT)
    sys.stdout = open(os.devnull, "w")
    threading.excepthook = lambda *a: None
    signal.signal(signal.SIGALRM, signal.SIG_DFL); signal.alarm(LIMIT + 5)
    try:
        aceThreading.save = msave
        arm(cr)
        if mode == "new":
            Ls, Us = [[tuple(p) if isinstance(p, list) else p for p in x] for x in c["L"]], [[tuple(p) if isinstance(p, list) else p for p in x] for x in c["U"]]
            if c["form"] == "col":
                mk = (lambda x: MultiLabelIndexCollection(x, label_size=K)) if c["ml"] else IndexCollection
                Ls, Us = [mk(x) for x in Ls], [mk(x) for x in Us]
            a = aceThreading(c["X"], c["y"], c["train"], c["test"], Ls, Us, target, max_thread=c["m"], refresh_interval=c["refresh"], saving_path=path)
            if c["presave"]: a.save()
            a.start_all_threads(global_parameters=c["gp"])
        else:
            a = aceThreading.recover(os.path.join(path, "multi_thread_state.pkl"))
            a.start_all_threads(**({} if c["regp"] else dict(global_parameters=c["gp"])))
        res = a.get_results()
        CRASH_EV[0] = None
        sys.settrace(None)
        log(op="return", results=[[pairs(s.get_value("select_index")) for s in x] for x in res], rounds=[x.round + 1 for x in res])
    except BaseException as e:
        sys.settrace(None)
        CRASH_EV[0] = None
        log(op="failed", e=repr(e)[:300])
    os._exit(0)

def scenario(n, m, Q, crashes, tag):
    ml = r.random() < .3
    c = dict(id="%d-%d-%d" % (SEED, shard, w.n), m=m, every=r.choice([1, 1, 1, 2]), savelast=r.random() < .7, slow=r.choice([0, .3, .8]),
             gp=r.choice([None, dict(a=1, b=[2])]), regp=r.random() < .5, refresh=r.choice([0, .05, 1]), presave=r.random() < .3, form=r.choice(["list", "col"]), ml=ml)
    if c["presave"]: c["regp"] = False      # killed before it is started, the parameters were never given
    c["train"], c["test"], c["L"], c["U"], c["plan"] = [], [], [], [], []
    for i in range(n):
        ids = list(range(12)); r.shuffle(ids)
        tr, te = ids[:9], ids[9:]
        pool = [[a, b] for a in tr for b in range(K)] if ml else list(tr)
        r.shuffle(pool)
        c["train"].append(tr); c["test"].append(te)
        c["L"].append(pool[:2]); c["U"].append(pool[2:])
        u = list(pool[2:]); plan = []
        for k in range(Q):
            b = 1 if k % 3 else 2
            plan.append(u[:b]); u = u[b:]
        c["plan"].append(plan)
    c["X"] = np.arange(24.).reshape(12, 2)
    c["y"] = np.arange(36).reshape(12, K) % 2 if ml else np.arange(12) % 2
    CUR["c"] = c
    d = "sc%d" % w.n
    logp = d + ".log"
    steps, mode, gen = [], "new", 0
    todo = list(crashes) + [None]
    while todo:
        cr = todo.pop(0)
        path = "%s_%d" % (d, gen)
        os.makedirs(path, exist_ok=True)
        pid = os.fork()
        if pid == 0:
            child(c, mode, cr, path, logp)
        t0, st = time.time(), None
        while True:
            p, st = os.waitpid(pid, os.WNOHANG)
            if p: break
            if time.time() - t0 > LIMIT:
                os.kill(pid, 9); os.waitpid(pid, 0); st = None
                break
            time.sleep(.002)
        ev = [json.loads(l) for l in open(logp) if l.endswith("\n")] if os.path.exists(logp) else []
        if os.path.exists(logp): os.unlink(logp)
        steps += ev
        if st is None:
            steps.append(dict(op="stall")); break
        if ev and ev[-1]["op"] == "failed": break
        if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 0 and not (ev and ev[-1]["op"] == "return"):
            steps.append(dict(op="failed", e="exit without result")); break
        if os.WIFSIGNALED(st):
            steps.append(dict(op="failed", e="signal")); break
        steps.append(dict(op="crash", how=str(cr)))
        if os.path.exists(os.path.join(path, "multi_thread_state.pkl")):
            mode = "recover"
        else:
            steps.append(dict(op="restart")); mode = "new"; gen += 1
    for g in range(gen + 1): shutil.rmtree("%s_%d" % (d, g), ignore_errors=True)
    w.trace(dict(n=n, m=m, Q=Q, L=c["L"], U=c["U"], plan=c["plan"]), steps, tag)
    return any(s["op"] == "stall" for s in steps)

def rcrash():
    k = r.random()
    if k < .45: return ("line", r.randrange(1, 320))
    if k < .65: return ("event", r.randrange(1, 40))
    if k < .75: return (r.choice(["half", "dump"]), r.randrange(1, 22))
    if k < .87: return (r.choice(["replace_before", "replace_after"]), r.randrange(1, 22))
    if k < .93: return ("thread", r.randrange(1, 6))
    return ("time", r.random() * .2)

N = 40 if not THOROUGH else 300
# the configuration explored exhaustively by MC_AceThreads first (3 folds, 2 slots, 2 queries), every kind of crash point in turn
stalls = 0
for t in range(N):
    if stalls >= 2: break
    if t < N // 2:
        crs = []
        if t % 2 == 0: crs = [("line", 4 + (t // 2 * NS + shard) * 3)]
        else: crs = [("event", 1 + (t // 2 * NS + shard) % 34)]
        if r.random() < .5: crs.append(rcrash())
        stalls += scenario(3, 2, 2, crs, "small")
    else:
        n = r.randrange(1, 6)
        stalls += scenario(n, r.randrange(1, n + 1), r.randrange(1, 5), [rcrash() for _ in range(r.choice([0, 1, 1, 2, 3]))], "random")
w.close()
sys.stdout.flush()
os._exit(0)
