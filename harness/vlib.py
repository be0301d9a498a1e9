"""Recording library shared by the harnesses (runs under the repository's interpreter)."""
import json, os, random, signal, sys, warnings
import numpy as np

SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
OUT = os.environ.get("VERIF_OUT")
THOROUGH = TIER == "thorough"


class CallTimeout(BaseException):
    pass


def _alarm(sig, frm):
    raise CallTimeout()


signal.signal(signal.SIGALRM, _alarm)


def plain(v):
    """Convert to values TLC can read: ints, strings, booleans, sequences, records."""
    if isinstance(v, (np.generic,)):
        v = v.item()
    if isinstance(v, np.ndarray):
        v = v.tolist()
    if isinstance(v, bool) or isinstance(v, str):
        return v
    if isinstance(v, int):
        return v
    if v is None:
        return "None"
    if isinstance(v, float):
        return int(v) if v == int(v) and abs(v) < 2 ** 31 else repr(v)
    if isinstance(v, dict):
        return {str(k): plain(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, (set, frozenset)):
        return sorted((plain(x) for x in v), key=repr)
    return "?" + type(v).__name__


def call(f, *a, **k):
    """Run f; outcome record [k |-> "ok"/"err", v |-> result, e |-> exception kind, w |-> warnings]."""
    tmo = k.pop("_timeout", 20)
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        signal.alarm(tmo)
        try:
            v = f(*a, **k)
            out = ("ok", v, "")
        except CallTimeout:
            out = ("err", None, "Timeout")
        except Exception as e:
            out = ("err", None, type(e).__name__)
        finally:
            signal.alarm(0)
    w = [x.category.__name__ for x in ws if x.category.__module__.startswith("alipy")]
    return Outcome(out[0], out[1], out[2], w)


class Outcome(object):
    def __init__(self, k, v, e, w):
        self.k, self.v, self.e, self.w = k, v, e, w

    @property
    def ok(self):
        return self.k == "ok"

    def rec(self, v=None):
        return dict(k=self.k, e=self.e, w=self.w, nw=len(self.w), **({} if v is None else {"v": plain(v)}))


class Writer(object):
    def __init__(self, path=None):
        self.f = open(path or OUT, "w")
        self.n = 0

    def trace(self, init, steps, tag="", id=None):
        self.n += 1
        self.f.write(json.dumps(dict(id=id or "t%d" % self.n, tag=tag, init=plain(init), steps=plain(steps))) + "\n")

    def close(self):
        self.f.close()


def read(path):
    return [json.loads(l) for l in open(path)]


def rng(salt=0):
    return random.Random("%d/%s" % (SEED, salt))


def fork_shards(k, timeout=500):
    """Run the rest of the harness in k forked processes (each writing its own file, all merged into OUT); returns the shard number."""
    global OUT
    pids = {}
    for s in range(k):
        sys.stdout.flush()
        p = os.fork()
        if p == 0:
            OUT = OUT + ".%d" % s
            return s
        pids[p] = s
    bad = 0
    while pids:
        p, st = os.wait()
        if p in pids:
            s = pids.pop(p)
            bad |= st
    with open(OUT, "w") as f:
        for s in range(k):
            for i, line in enumerate(open(OUT + ".%d" % s)):
                d = json.loads(line)
                d["id"] = "s%d_%s" % (s, d["id"])
                f.write(json.dumps(d) + "\n")
            os.unlink(OUT + ".%d" % s)
    sys.stdout.flush()
    os._exit(1 if bad else 0)


def asked(r, b, default=1):
    """the batch size as an argument, or left out when it is the default one"""
    return {} if b == default and r.random() < .3 else dict(batch_size=b)
