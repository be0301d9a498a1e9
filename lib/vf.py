"""Wrapper around TLC and the PyPy harnesses: runs the model-checking run(s), generates
behaviours, executes them on the code in /repo, validates the recorded traces with TLC,
writes the evidence file and prints the verdict."""
import json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
REPO = os.environ.get("VERIF_REPO", "/repo")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
PY = "/opt/pvenv/bin/python"


class Machinery(Exception):
    pass


class Unreadable(Exception):
    """The code under test handed a driver something outside its interface (the driver ended in a traceback)."""


# errors of a driver which can only come from what the code returned or raised: the drivers are deterministic
# for a seed and use public names only.  Anything else (imports, memory, files, timeouts, private names) stays
# an error of the check.
FOREIGN = re.compile(r"^(TypeError|IndexError|KeyError|ValueError|AssertionError|ZeroDivisionError|AttributeError|StopIteration|UnboundLocalError|NameError|RecursionError)\b(.*)")


def tlc(module, cfg, scratch, env=None, args=(), workers=4, timeout=600, heap="6g", ok_codes=(0,)):
    """Run TLC on spec/<module>.tla with spec/<cfg>; returns (stdout, stats)."""
    meta = tempfile.mkdtemp(prefix="tlc_", dir=scratch)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + meta, "-cp", JARS, "tlc2.TLC",
           "-metadir", meta, "-workers", str(workers), "-noGenerateSpecTE", "-config", cfg]
    cmd += list(args) + [module + ".tla"]
    t0 = time.time()
    outp = os.path.join(meta, "stdout.txt")
    with open(outp, "w") as fo:
        try:
            r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=fo, stderr=subprocess.STDOUT, timeout=timeout)
            rc = r.returncode
        except subprocess.TimeoutExpired:
            raise Machinery("TLC timed out on %s/%s" % (module, cfg))
    out = open(outp, errors="replace").read()
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    st = dict(generated=0, distinct=0, rc=rc, wall=round(time.time() - t0, 1))
    if m:
        st["generated"], st["distinct"] = (int(x.replace(",", "")) for x in m[-1])
    else:
        m = re.findall(r"The number of states generated: ([\d,]+)", out) or re.findall(r"Progress: ([\d,]+) states checked", out)
        if m:
            st["generated"] = st["distinct"] = int(m[-1].replace(",", ""))
    if rc not in ok_codes:
        keep = os.path.join(VERIF, "replays")
        os.makedirs(keep, exist_ok=True)
        shutil.copy(outp, os.path.join(keep, "tlc_%s.log" % module))
        raise Machinery("TLC exit %d on %s/%s:\n%s" % (rc, module, cfg, brief(out)))
    shutil.rmtree(meta, ignore_errors=True)
    return out, st


def brief(out):
    return "\n".join(x for x in out.splitlines() if not x.startswith(("Parsing", "Semantic proc", '"B@@', '"FAIL@@')))[-3000:]


def printed(out, prefix):
    """JSON payloads of PrintT("<prefix>@@" \\o ToJson(..)) lines."""
    res = []
    head = '"' + prefix + "@@"
    for line in out.splitlines():
        if line.startswith(head):
            s = line.strip()
            try:
                s = json.loads(s)
            except ValueError:
                s = s[1:-1].replace('\\"', '"').replace("\\\\", "\\")
            res.append(json.loads(s[len(prefix) + 2:]))
    return res


def harness(script, outfile, scratch, seed, tier, args=(), timeout=600, env=None):
    e = dict(os.environ)
    e.update(HOME="/root", LANG="C.UTF-8", LC_ALL="C.UTF-8", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
             PYTHONPATH=REPO + ":" + HARNESS, PYTHONPYCACHEPREFIX="/nonexistent/pycache", MPLBACKEND="Agg",
             OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1",
             VERIF_SEED=str(seed), VERIF_TIER=tier, VERIF_OUT=outfile)
    mpl = os.path.join(scratch, "mpl")
    os.makedirs(mpl, exist_ok=True)
    e["MPLCONFIGDIR"] = mpl
    e.update(env or {})
    work = tempfile.mkdtemp(prefix="w_", dir=scratch)
    p = subprocess.Popen([PY, os.path.join(HARNESS, script)] + list(args), cwd=work, env=e,
                         stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    try:
        o, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        raise Machinery("harness %s timed out" % script)
    finally:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
    shutil.rmtree(work, ignore_errors=True)
    if p.returncode != 0:
        text = o.decode(errors="replace")
        last = [x for x in text.splitlines() if x.strip()][-1:]
        m = p.returncode == 1 and "Traceback (most recent call last)" in text and last and FOREIGN.match(last[0])
        if m and not re.search(r"has no attribute '_", m.group(2)):
            raise Unreadable(text[-4000:])
        raise Machinery("harness %s exit %s:\n%s" % (script, p.returncode, o.decode(errors="replace")[-4000:]))
    return o.decode(errors="replace")


def known(pid):
    res = []
    f = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(f):
        for line in open(f):
            line = line.strip()
            if line:
                d = json.loads(line)
                if d["property"] == pid and d["status"] == "finding":
                    res.append(d)
    return res


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix="verif_%s_" % pid)
        os.chmod(self.scratch, 0o777)
        self.states = self.transitions = self.traces = self.steps = 0
        self.samples, self.fails, self.notes = [], [], {}
        self.traces_by_id = {}

    def mc(self, module, cfg=None, env=None, args=(), workers=4, timeout=700, emit=None):
        """Exhaustive model-checking run of the design; returns the emitted behaviours."""
        cfg = cfg or module + ".cfg"
        out, st = tlc(module, cfg, self.scratch, env=env, args=args, workers=workers, timeout=timeout)
        if st["distinct"] == 0:
            raise Machinery("no states explored by %s/%s" % (module, cfg))
        self.states += st["distinct"]
        self.transitions += st["generated"]
        self.notes.setdefault("model_runs", []).append(dict(module=module, cfg=cfg, states=st["distinct"], transitions=st["generated"], wall_s=st["wall"]))
        return printed(out, emit) if emit else None

    def path(self, name):
        return os.path.join(self.scratch, name)

    def dump(self, name, items):
        p = self.path(name)
        with open(p, "w") as f:
            for i in items:
                f.write(json.dumps(i) + "\n")
        return p

    def run(self, script, outname, args=(), timeout=600, env=None):
        p = self.path(outname)
        try:
            o = harness(script, p, self.scratch, self.seed, self.tier, args=args, timeout=timeout, env=env)
        except Unreadable as e:
            i = "driver " + script
            self.fails.append(dict(id=i, tag="driver", step=0, op=script, clauses=["result_outside_the_interface"]))
            self.traces_by_id[i] = dict(id=i, traceback=str(e))
            print(str(e)[-1500:])
            raise
        return p, o

    def validate(self, module, tracefile, cfg=None, timeout=600, workers=4, env=None):
        """TLC trace validation of an ndjson file of recorded behaviours."""
        cfg = cfg or module + ".cfg"
        n = pos = 0
        ids = set()
        ops = self.notes.setdefault("steps_per_action", {})
        with open(tracefile) as f:
            for line in f:
                d = json.loads(line)
                n += 1
                pos += len(d["steps"]) + 1
                if d["id"] in ids:
                    raise Machinery("duplicate trace id %s" % d["id"])
                ids.add(d["id"])
                self.traces_by_id[d["id"]] = d
                for st in d["steps"]:
                    ops[st["op"]] = ops.get(st["op"], 0) + 1
                if len(self.samples) < 3 and d["steps"]:
                    s = json.dumps(d)
                    self.samples.append(json.loads(s) if len(s) < 3000 else s[:3000])
        if n == 0:
            raise Machinery("no traces recorded")
        e = {"TRACE_FILE": tracefile}
        e.update(env or {})
        out, st = tlc(module, cfg, self.scratch, env=e, args=["-deadlock"], timeout=timeout, workers=workers, ok_codes=(0, 75, 150, 255))
        if st["rc"] != 0:
            # a recorded value of a shape the specification has no meaning for (TLC cannot evaluate the step)
            if not re.search(r"Attempted to|was not in the domain|unexpected exception|not enumerable|evaluating", out) or "Parsing or semantic" in out:
                raise Machinery("TLC exit %d on %s:\n%s" % (st["rc"], module, brief(out)))
            m = re.findall(r"/\\ xT = (\d+)", out)
            ml = re.findall(r"/\\ xL = (\d+)", out)
            if not m:
                raise Machinery("TLC exit %d on %s:\n%s" % (st["rc"], module, brief(out)))
            tr = list(self.traces_by_id.values())[int(m[-1]) - 1]
            k = int(ml[-1]) if ml else 1
            op = tr["steps"][min(k, len(tr["steps"])) - 1]["op"]
            self.fails.append(dict(id=tr["id"], tag=tr["tag"], step=k, op=op, clauses=["value_outside_the_specification"]))
            self.notes["tlc_evaluation_error"] = out[-1500:]
        elif st["distinct"] != pos:
            raise Machinery("trace validation of %s consumed %d of %d positions" % (module, st["distinct"], pos))
        self.traces += n
        self.steps += pos - n
        self.notes.setdefault("trace_runs", []).append(dict(module=module, traces=n, positions=pos, wall_s=st["wall"]))
        seen = set()
        for fl in printed(out, "FAIL"):
            k = (fl["id"], fl["step"])
            if k not in seen:
                seen.add(k)
                self.fails.append(fl)
        return st

    def finish(self, level="model_checking"):
        kf = known(self.pid)
        viol, hit = [], {}
        for fl in sorted(self.fails, key=lambda f: (str(f["id"]), f["step"])):
            rest = set(fl["clauses"])
            for k in kf:
                if k["tag"] == fl["tag"] and (k.get("op") in (None, fl["op"])):
                    m = rest & set(k["clauses"])
                    if m:
                        hit[k["tag"] + str(k.get("op"))] = k
                        rest -= m
            if rest:
                fl = dict(fl, clauses=sorted(rest))
                viol.append(fl)
        for k in hit.values():
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=level,
                  wall_s=round(time.time() - self.t0, 2),
                  coverage=dict(states=self.states, transitions=self.transitions,
                                traces_validated_against_impl=self.traces,
                                trace_steps=self.steps, rejected_steps=len(viol),
                                samples=self.samples or ["none"], **self.notes))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if not os.environ.get("VERIF_KEEP"): shutil.rmtree(self.scratch, ignore_errors=True)
        if viol:
            rd = os.path.join(VERIF, "replays")
            os.makedirs(rd, exist_ok=True)
            rp = os.path.join(rd, "%s.json" % self.pid)
            out = []
            for fl in viol[:20]:
                tr = self.traces_by_id.get(fl["id"])
                out.append(dict(rejected=fl, trace=tr))
            with open(rp, "w") as f:
                json.dump(dict(property=self.pid, seed=self.seed, tier=self.tier, total=len(viol), violations=out), f, indent=1)
            for fl in viol[:10]:
                print("  rejected: trace %s step %s %s: %s" % (fl["id"], fl["step"], fl["op"], ", ".join(fl["clauses"])))
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            return 1
        rp = os.path.join(VERIF, "replays", "%s.json" % self.pid)
        if os.path.exists(rp):
            os.unlink(rp)
        print("OK property=%s states=%d traces=%d steps=%d wall=%.1fs" % (self.pid, self.states, self.traces, self.steps, time.time() - self.t0))
        return 0
