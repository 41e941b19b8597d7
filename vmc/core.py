"""Runner shared by all checks.

A check module (vmc/checks/pNN.py) enumerates a bounded space completely.  It
defines

  LEVEL        evidence level
  BOUNDS       dict tier -> text describing what is enumerated
  ASSUMPTIONS  list of text
  shards(tier) list of picklable descriptors that partition the space
  run(shard, rec)   explores one shard on the real code, reporting to `rec`
  replay(case) re-runs one recorded case, returns None or a failure text

The space is enumerated; nothing is sampled, VERIF_SEED does not select cases.
"""
import atexit, os, shutil, sys, tempfile, io, json, time, signal, hashlib, importlib, traceback, collections
import warnings
warnings.simplefilter("ignore")

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VMC_REPO", "/repo")
EVID = os.environ.get("VMC_EVID") or os.path.join(ROOT, "evidence")
REPLAYS = os.environ.get("VMC_REPLAYS") or os.path.join(ROOT, "replays")
FINDINGS = os.path.join(ROOT, "known_findings.txt")
JOBS = int(os.environ.get("VMC_JOBS", "8"))
MAX_FAILS = 12          # stop exploring after this many failing cases
DEADLINE = {"quick": 800, "thorough": 6 * 3600}


class Hang(BaseException):
    """Raised inside the code under test when a case used too much CPU."""


def _on_prof(signum, frame):
    raise Hang()


class cpu_limit:
    """CPU-time limit for one case (load independent)."""
    def __init__(self, seconds):
        self.seconds = seconds

    def __enter__(self):
        signal.signal(signal.SIGPROF, _on_prof)
        # repeats, in case a bare except swallows the first one
        signal.setitimer(signal.ITIMER_PROF, self.seconds, 0.5)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_PROF, 0)
        return False


def where(e):
    tb = traceback.extract_tb(e.__traceback__)
    for fr in reversed(tb):
        if "/verypy/" in fr.filename:
            return "%s in %s" % (os.path.basename(fr.filename), fr.name)
    fr = tb[-1]
    return "%s in %s" % (os.path.basename(fr.filename), fr.name)


def guarded(f, limit=20.0):
    """Run f; return (value, None) or (None, description of the failure)."""
    try:
        with cpu_limit(limit):
            return f(), None
    except Hang:
        return None, "did not finish within %.0f s of CPU time" % limit
    except Exception as e:
        return None, "raised %s: %s (%s)" % (type(e).__name__, str(e)[:200], where(e))


def h64(x):
    return hashlib.blake2b(repr(x).encode(), digest_size=8).digest()


class Recorder:
    def __init__(self):
        self.seen = set()
        self.states = 0
        self.transitions = 0
        self.validated = 0
        self.outcomes = collections.Counter()
        self.samples = []
        self.fails = []

    def state(self, key):
        """Count a distinct state (instance, configuration, solution...)."""
        k = h64(key)
        if k in self.seen:
            return False
        self.seen.add(k)
        self.states += 1
        return True

    def step(self, n=1):
        """Count executions of the real code."""
        self.transitions += n

    def valid(self, n=1):
        """Count observed results compared with the reference."""
        self.validated += n

    def outcome(self, name):
        self.outcomes[name] += 1

    def sample(self, s):
        if len(self.samples) < 2:
            self.samples.append(s)

    def fail(self, case, what):
        """case: JSON-able description sufficient for replay(case)."""
        self.fails.append((case, what))
        if len(self.fails) >= MAX_FAILS:
            raise StopShard()


class StopShard(BaseException):
    pass


def jsonable(x):
    import numpy as np
    if isinstance(x, np.ndarray):
        return {"__nd__": x.tolist(), "dtype": str(x.dtype)}
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)


def unjson(x):
    import numpy as np
    if isinstance(x, dict):
        if "__nd__" in x:
            return np.array(x["__nd__"], dtype=x["dtype"])
        return {k: unjson(v) for k, v in x.items()}
    if isinstance(x, list):
        return [unjson(v) for v in x]
    return x


_mod = None


def _init(modname, tier):
    global _mod
    null = os.open(os.devnull, os.O_WRONLY)     # stderr objects bound at import
    os.dup2(null, 1); os.dup2(null, 2)
    sys.stdout = io.StringIO()
    sys.stderr = io.StringIO()
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    _mod = importlib.import_module(modname)
    if hasattr(_mod, "init"):
        _mod.init(tier)


def _work(shard):
    rec = Recorder()
    t = time.time()
    try:
        _mod.run(shard, rec)
    except StopShard:
        pass
    except BaseException as e:       # an error of the check itself
        return ("error", "shard %r: %s" % (shard, traceback.format_exc()))
    finally:
        sys.stdout.seek(0); sys.stdout.truncate()
        sys.stderr.seek(0); sys.stderr.truncate()
    return ("ok", shard, rec.states, rec.transitions, rec.validated,
            dict(rec.outcomes), rec.samples, jsonable(rec.fails), time.time() - t)


def load_findings(pid):
    known = {}
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            line = line.strip()
            if line.startswith("finding:"):
                f = line[len("finding:"):].strip()
                parts = f.split(" ", 2)
                prop = parts[0].split("=", 1)[1]
                key = parts[1].split("=", 1)[1]
                if prop == pid:
                    known[key] = parts[2] if len(parts) > 2 else ""
    return known


def case_key(case):
    return hashlib.blake2b(json.dumps(case, sort_keys=True).encode(), digest_size=8).hexdigest()


_scratch = None


def make_scratch():
    """A directory for files the checks need; removed when the run ends."""
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="vmc-")
        pid = os.getpid()
        atexit.register(lambda: os.getpid() == pid and shutil.rmtree(_scratch, True))
    return _scratch


def scratch_file(name):
    """A file name of this process in the scratch directory."""
    return os.path.join(make_scratch(), "%d-%s" % (os.getpid(), name))


def main(pid, tier, only=None):
    import multiprocessing as mp
    modname = "vmc.checks.%s" % pid.lower()
    sys.path.insert(0, ROOT)
    mod = importlib.import_module(modname)
    t0 = time.time()
    shards = list(mod.shards(tier))
    seed = int(os.environ.get("VERIF_SEED", "1"))
    ctx = mp.get_context("fork")
    tot = Recorder()
    fails, errors, slow = [], [], []
    capped = False
    scratch = make_scratch()
    pool = ctx.Pool(JOBS, _init, (modname, tier))
    it = pool.imap_unordered(_work, shards, chunksize=1)
    done = 0
    try:
        while True:
            left = DEADLINE[tier] - (time.time() - t0)
            try:
                r = it.next(timeout=max(left, 1))
            except StopIteration:
                break
            except mp.TimeoutError:
                errors.append("deadline of %d s reached with %d of %d shards done" %
                              (DEADLINE[tier], done, len(shards)))
                break
            if r[0] == "error":
                errors.append(r[1]); break
            _, sh, st, tr, va, oc, sa, fl, dt = r
            done += 1
            tot.states += st; tot.transitions += tr; tot.validated += va
            tot.outcomes.update(oc)
            if len(tot.samples) < 4:
                tot.samples += sa
            fails += fl
            slow.append((dt, repr(sh)[:60]))
            if len(fails) >= MAX_FAILS:
                capped = True
                break
    finally:
        pool.terminate(); pool.join()
        shutil.rmtree(scratch, True)
    known = load_findings(pid)
    new = []
    shown = set()
    for case, what in fails:
        k = case_key(case)
        if k in known:
            if k not in shown:
                print("KNOWN-FINDING: property=%s %s (%s)" % (pid, known[k], what))
                shown.add(k)
        else:
            new.append((k, case, what))
    wall = time.time() - t0
    cov = {"states": tot.states, "transitions": tot.transitions,
           "traces_validated_against_impl": tot.validated,
           "samples": jsonable(tot.samples[:4]) or ["(none)"],
           "distinct_outcomes": len(tot.outcomes),
           "outcomes": dict(tot.outcomes.most_common(60)),
           "shards": len(shards), "shards_done": done,
           "bounds": mod.BOUNDS.get(tier, mod.BOUNDS["quick"]),
           "exhaustive": (not capped and not errors)}
    if mod.LEVEL in ("fault_enumeration", "exploration"):
        cov["evaluations"] = tot.transitions
        cov["distinct_nontrivial"] = tot.states
        cov["rule"] = mod.RULE
    os.makedirs(EVID, exist_ok=True)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": mod.LEVEL,
          "coverage": cov, "assumptions": mod.ASSUMPTIONS,
          "wall_s": round(wall, 2), "violations": len(new)}
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if os.environ.get("VMC_PROFILE"):
        slow.sort(reverse=True)
        for s in slow[:8]:
            print("shard %.1fs %s" % s)
        print(dict(tot.outcomes.most_common(60)))
    print("%s %s: states=%d transitions=%d validated=%d outcomes=%d shards=%d/%d wall=%.1fs" % (
        pid, tier, tot.states, tot.transitions, tot.validated,
        len(tot.outcomes), done, len(shards), wall))
    for e in errors:
        print("ERROR:", e)
    if new:
        os.makedirs(REPLAYS, exist_ok=True)
        for k, case, what in new[:MAX_FAILS]:
            path = os.path.join(REPLAYS, "%s-%s.json" % (pid, k))
            with open(path, "w") as f:
                json.dump({"property": pid, "case": case, "what": what}, f)
            print("VIOLATION property=%s replay=%s" % (pid, path))
            print("   ", what[:600])
        return 1
    return 2 if errors else 0


def replay(path):
    """Re-run one recorded case without the explorer."""
    o = json.load(open(path))
    sys.path.insert(0, ROOT)
    mod = importlib.import_module("vmc.checks.%s" % o["property"].lower())
    if hasattr(mod, "init"):
        mod.init("quick")
    what = mod.replay(unjson(o["case"]))
    print("recorded:", o["what"])
    print("replayed:", what)
    return 1 if what else 0
