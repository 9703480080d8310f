"""Common machinery of the runtime monitors.

A check module (checks/cNN.py) declares

    ID, LEVEL, RULE, GROUPS = [Group(name, func, quick, thorough), ...]

``func(c, rng)`` drives the real code once (one *case*), on a workload drawn
from ``rng`` (and ``c.np``), while monitors/oracles look at what the code did.
  c.require(cond, sig, msg)    oracle; a False condition is a violation
  c.event(kind, n)             count something a monitor really observed
  c.key(obj)                   identity of the case (distinctness)
  c.trivial()                  the case had nothing to get wrong
  c.sample(obj)                written-out case for the evidence file
Each case has its own seed, hence every violation is replayable on its own:
    run.py ID --replay FILE
"""

import os
import sys
import json
import time
import random
import shutil
import signal
import hashlib
import tempfile
import traceback
import multiprocessing
from collections import Counter

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
EVIDENCE = os.path.join(VERIF, "evidence")


class Violation(Exception):
    def __init__(self, sig, msg):
        super().__init__(sig, msg)
        self.sig = sig
        self.msg = msg


class Discard(Exception):
    """The generated case is outside the scope of the property."""


class CaseTimeout(BaseException):
    pass


class Group:
    def __init__(self, name, func, quick, thorough=None, minimum=None, timeout=60, exclusive=False):
        self.name = name
        self.func = func
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 20
        self.minimum = minimum
        self.timeout = timeout
        # exclusive: not sharded, all cases in the first worker
        self.exclusive = exclusive

    def ncases(self, tier):
        return self.thorough if tier == "thorough" else self.quick


def short(obj, n=400):
    s = obj if isinstance(obj, str) else repr(obj)
    return s if len(s) <= n else s[: n - 3] + "..."


class Ctx:
    def __init__(self, check, group, seed, index, tier, scratch):
        self.check = check
        self.group = group
        self.seed = seed
        self.index = index
        self.tier = tier
        self._scratch = scratch
        self._dir = None
        self.events = Counter()
        self.samples = []
        self.nontrivial = True
        self._keys = []
        self.known = []
        self._np = None
        self.seedstr = "{}:{}:{}:{}".format(check, group, seed, index)

    @property
    def rng(self):
        return random.Random(self.seedstr)

    @property
    def np(self):
        if self._np is None:
            import numpy

            h = int(hashlib.sha256(self.seedstr.encode()).hexdigest()[:8], 16)
            self._np = numpy.random.RandomState(h)
        return self._np

    @property
    def dir(self):
        """Scratch directory of this case"""
        if self._dir is None:
            self._dir = tempfile.mkdtemp(prefix="case", dir=self._scratch)
        return self._dir

    def cleanup(self):
        if self._dir is not None:
            shutil.rmtree(self._dir, ignore_errors=True)
            self._dir = None

    def require(self, cond, sig, msg=""):
        self.events["oracle_decisions"] += 1
        if not cond:
            if callable(msg):
                msg = msg()
            raise Violation(sig, str(msg))

    def event(self, kind, n=1):
        self.events[kind] += int(n)

    def key(self, *obj):
        self._keys.append(repr(obj))

    def trivial(self):
        self.nontrivial = False

    def sample(self, obj):
        if len(self.samples) < 2:
            self.samples.append(short(obj, 600))

    def digest(self):
        s = "|".join(self._keys) if self._keys else self.seedstr
        return hashlib.sha1((self.group + s).encode("utf8", "replace")).hexdigest()[:16]


# ------------------------------------------------------------------ containment
def contain(scratch):
    """Destructive file-system calls outside the scratch directory are refused
    (audit hook: cannot be removed by the code under test)."""
    root = os.path.realpath(scratch)
    ok = (root + os.sep, "/dev/null", "/dev/shm/")

    def inside(path, follow):
        if isinstance(path, int) or path is None:
            return True
        try:
            path = os.fsdecode(path)
        except TypeError:
            return True
        path = os.path.abspath(path)
        if follow:
            path = os.path.realpath(path)
        else:
            path = os.path.join(
                os.path.realpath(os.path.dirname(path)), os.path.basename(path)
            )
        return path == root or path.startswith(ok)

    one = {"os.remove", "os.rmdir", "os.mkdir", "os.truncate", "os.chmod", "os.chown",
           "shutil.rmtree", "os.utime"}
    two = {"os.rename", "os.link", "os.symlink"}
    pid0 = [None]

    def hook(event, args):
        if event == "open":
            path, mode, flags = args
            if isinstance(path, int) or path is None:
                return
            if isinstance(flags, int) and flags & (
                os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND
            ):
                if not inside(path, True):
                    raise PermissionError("contained: open {!r}".format(path))
        elif event in one:
            if len(args) > 1 and event in ("os.remove", "os.rmdir", "os.mkdir"):
                if isinstance(args[-1], int) and args[-1] >= 0:
                    return  # dir_fd (from within a checked rmtree)
            if not inside(args[0], event in ("os.truncate", "os.chmod", "os.chown")):
                raise PermissionError("contained: {} {!r}".format(event, args[0]))
        elif event in two:
            if event == "os.symlink":
                paths = [args[1]]
            elif event == "os.link":
                paths = [args[1]]
            else:
                paths = args[:2]
            for p in paths:
                if not inside(p, False):
                    raise PermissionError("contained: {} {!r}".format(event, p))
        elif event in ("shutil.move", "shutil.copytree", "shutil.copyfile"):
            if not inside(args[1], False):
                raise PermissionError("contained: {} {!r}".format(event, args[1]))

    sys.addaudithook(hook)


# ------------------------------------------------------------------ known findings
def known_findings(check):
    """{signature: description} from known_findings.txt ("fixed:" lines suppress nothing)"""
    out = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if not os.path.isfile(path):
        return out
    with open(path) as f:
        for line in f:
            line = line.strip()
            if not line.startswith("finding:"):
                continue
            fields = line[len("finding:"):].strip().split(None, 2)
            d = dict(x.split("=", 1) for x in fields[:2])
            if d["property"] == check:
                out[d["sig"]] = fields[2] if len(fields) > 2 else ""
    return out


# ------------------------------------------------------------------ execution
def _alarm(signum, frame):
    raise CaseTimeout()


def run_case(check, group, seed, index, tier, scratch, known):
    c = Ctx(check, group.name, seed, index, tier, scratch)
    status, sig, msg = "ok", None, None
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(int(group.timeout))
    try:
        try:
            group.func(c, c.rng)
        finally:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, old)
    except Discard:
        status = "discard"
    except Violation as e:
        status, sig, msg = "violation", e.sig, e.msg
    except CaseTimeout:
        status, sig, msg = "timeout", "timeout", "case exceeded {} s".format(group.timeout)
    except (KeyboardInterrupt, SystemExit) as e:
        status, sig, msg = "violation", "exit", repr(e)
    except MemoryError:
        status, sig, msg = "error", "memory", traceback.format_exc()
    except Exception as e:
        # The code under test raised where the property promises a result
        tb = traceback.extract_tb(e.__traceback__)
        sig = "raised:" + type(e).__name__
        msg = "".join(traceback.format_exception(type(e), e, e.__traceback__)[-6:])
        status = "violation"
        where = [f for f in tb if "spectrocrunch" in f.filename]
        if not where:
            msg = "(not inside the code under test)\n" + msg
    finally:
        try:
            c.cleanup()
        except Exception:
            pass
    if status == "violation" and sig in known:
        status = "known"
    return c, status, sig, msg


def _worker(args):
    mod, check, seed, tier, w, nw, deadline, scratch, known, env = args
    os.environ["TMPDIR"] = scratch
    tempfile.tempdir = None
    os.environ["MPLCONFIGDIR"] = os.path.join(scratch, "mpl")
    os.chdir(scratch)
    contain(scratch)
    res = {
        "evaluations": 0, "discard": 0, "events": Counter(), "groups": Counter(),
        "digests": set(), "samples": [], "violations": [], "known": [], "timeouts": [],
        "errors": [], "cut": Counter(), "maxcase": 0.0,
    }
    sampled = Counter()
    known_set = set(known)
    groups = mod.GROUPS
    # proportional progress over the groups, so that a deadline cuts evenly
    todo = []
    for gi, g in enumerate(groups):
        n = g.ncases(tier)
        if n <= 0:
            continue
        for i in range(n):
            owner = 0 if g.exclusive else (i + gi) % nw
            if owner == w:
                todo.append(((i + 0.5) / n, gi, i))
    todo.sort()
    for _, gi, i in todo:
        g = groups[gi]
        if time.time() > deadline:
            res["cut"][g.name] += 1
            continue
        t0 = time.time()
        c, status, sig, msg = run_case(check, g, seed, i, tier, scratch, known_set)
        res["maxcase"] = max(res["maxcase"], time.time() - t0)
        if status == "discard":
            res["discard"] += 1
            continue
        res["evaluations"] += 1
        res["groups"][g.name] += 1
        res["events"].update(c.events)
        if c.nontrivial:
            res["digests"].add(c.digest())
        if c.samples and sampled[g.name] < 1 and w < 3:
            sampled[g.name] += 1
            res["samples"].append({"group": g.name, "case": i, "sample": c.samples})
        if status == "violation":
            res["violations"].append((g.name, i, sig, msg))
            if len(res["violations"]) >= 3 and not os.environ.get("VERIF_SURVEY"):
                break
        elif status == "known":
            res["known"].append((g.name, i, sig, msg))
        elif status == "timeout":
            res["timeouts"].append((g.name, i, sig, msg))
            if len(res["timeouts"]) >= 3:
                break
        elif status == "error":
            res["errors"].append((g.name, i, sig, msg))
    return res


def _entry(conn, args):
    try:
        sys.stdin.close()
    except Exception:
        pass
    try:
        conn.send(("ok", _worker(args)))
    except BaseException:
        conn.send(("err", traceback.format_exc()))
    finally:
        conn.close()
        os._exit(0)


def _alone_entry(conn, check, g, seed, i, tier, scratch, known):
    try:
        contain(scratch)
        os.chdir(scratch)
        os.environ["TMPDIR"] = scratch
        tempfile.tempdir = None
        _, status, sig, msg = run_case(check, g, seed, i, tier, scratch, set(known))
        conn.send((status, sig, msg))
    finally:
        os._exit(0)


def _alone(ctx, check, g, seed, i, tier, scratch, known):
    a, b = ctx.Pipe(False)
    p = ctx.Process(target=_alone_entry, args=(b, check, g, seed, i, tier, scratch, known))
    p.start()
    b.close()
    ret = "timeout", "timeout", "no answer within {} s".format(g.timeout)
    try:
        if a.poll(g.timeout + 30):
            ret = a.recv()
    except (EOFError, OSError):
        pass
    if p.is_alive():
        p.kill()
    p.join()
    return ret


def scratch_root():
    base = os.environ.get("VERIF_SCRATCH") or tempfile.gettempdir()
    return tempfile.mkdtemp(prefix="verif_", dir=base)


def run_check(mod, tier, seed, replay=None, only=None):
    t0 = time.time()
    check = mod.ID
    known = known_findings(check)
    scratch = scratch_root()
    os.makedirs(EVIDENCE, exist_ok=True)
    try:
        return _run_check(mod, tier, seed, replay, only, t0, check, known, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _run_check(mod, tier, seed, replay, only, t0, check, known, scratch):
    if replay:
        with open(replay) as f:
            r = json.load(f)
        g = next(g for g in mod.GROUPS if g.name == r["group"])
        contain(scratch)
        os.chdir(scratch)
        os.environ["TMPDIR"] = scratch
        tempfile.tempdir = None
        c, status, sig, msg = run_case(check, g, r["seed"], r["case"], r["tier"], scratch, set())
        print("replay {}: {} {}".format(check, status, sig or ""))
        if msg:
            print(msg)
        if status in ("violation", "timeout"):
            print("VIOLATION property={} replay={}".format(check, replay))
            return 1
        return 0 if status == "ok" else 2

    if only:
        mod.GROUPS = [g for g in mod.GROUPS if g.name in only]
    budget = getattr(mod, "BUDGET", {}).get(tier, 240 if tier == "quick" else 780)
    deadline = t0 + budget
    nw = min(getattr(mod, "WORKERS", 8), max(os.cpu_count() or 1, 1))
    ctx = multiprocessing.get_context("fork")
    procs = []
    for w in range(nw):
        sub = os.path.join(scratch, "w{}".format(w))
        os.mkdir(sub)
        a, b = ctx.Pipe(False)
        p = ctx.Process(target=_entry, args=(b, (mod, check, seed, tier, w, nw, deadline, sub, known, None)))
        p.start()
        b.close()
        procs.append((w, p, a))
    tot = {
        "evaluations": 0, "discard": 0, "events": Counter(), "groups": Counter(),
        "digests": set(), "samples": [], "violations": [], "known": [], "timeouts": [],
        "errors": [], "cut": Counter(), "maxcase": 0.0,
    }
    broken = []
    for w, p, a in procs:
        msg = None
        try:
            if a.poll(max(deadline - time.time(), 0) + 90):
                msg = a.recv()
        except (EOFError, OSError):
            msg = None
        if msg is None or msg[0] != "ok":
            broken.append((w, "no answer" if msg is None else msg[1]))
            if p.is_alive():
                p.kill()
            p.join()
            if msg is None:
                broken[-1] = (w, "no answer, exit code {}".format(p.exitcode))
            continue
        p.join(10)
        if p.is_alive():
            p.kill()
        r = msg[1]
        for k in ("evaluations", "discard"):
            tot[k] += r[k]
        for k in ("events", "groups", "cut"):
            tot[k].update(r[k])
        tot["digests"] |= r["digests"]
        for k in ("samples", "violations", "known", "timeouts", "errors"):
            tot[k] += r[k]
        tot["maxcase"] = max(tot["maxcase"], r["maxcase"])

    # A crash of the interpreter (segfault etc.) is a violation of whatever was running
    wall = time.time() - t0
    samples, seen = [], set()
    for s in sorted(tot["samples"], key=lambda s: (s["group"], s["case"])):
        if s["group"] in seen:
            continue
        seen.add(s["group"])
        samples.append(s)
    coverage = {
        "evaluations": tot["evaluations"],
        "distinct_nontrivial": len(tot["digests"]),
        "rule": mod.RULE,
        "samples": samples[:12] or ["none"],
        "cases_per_group": dict(sorted(tot["groups"].items())),
        "observed_events": dict(sorted(tot["events"].items())),
        "discarded": tot["discard"],
        "cut_by_time": dict(tot["cut"]),
        "workers": nw,
    }
    ev = {
        "property": check,
        "tier": tier,
        "seed": seed,
        "level": mod.LEVEL,
        "coverage": coverage,
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(wall, 2),
        "violations": len(tot["violations"]),
    }
    if not only:
        with open(os.path.join(EVIDENCE, check + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")

    print("{}: {} cases ({} distinct non-trivial, {} discarded) in {:.1f} s; events: {}".format(
        check, tot["evaluations"], len(tot["digests"]), tot["discard"], wall,
        ", ".join("{}={}".format(k, v) for k, v in sorted(tot["events"].items()))))
    if os.environ.get("VERIF_VERBOSE"):
        print("groups:", dict(tot["groups"]), "maxcase %.1f" % tot["maxcase"], "cut", dict(tot["cut"]))
    for sig in sorted({k[2] for k in tot["known"]}):
        print("KNOWN-FINDING: property={} {} {}".format(check, sig, known[sig]))
    code = 0
    rdir = os.path.join(EVIDENCE, "replay")
    viol = tot["violations"]
    # A case which hangs three times in a row/under no load is decided by re-running it alone
    for name, i, sig, msg in tot["timeouts"][:1]:
        g = next(g for g in mod.GROUPS if g.name == name)
        g2 = Group(g.name, g.func, g.quick, timeout=min(max(3 * g.timeout, 60), 240))
        status, sig, msg = _alone(ctx, check, g2, seed, i, tier, scratch, known)
        if status in ("timeout", "violation"):
            viol.append((name, i, sig, msg))
    if os.environ.get("VERIF_SURVEY"):
        cnt = Counter((v[0], v[2]) for v in viol)
        first = {}
        for v in viol:
            k = (v[0], v[2], v[3][-120:] if v[2].startswith("raised") else "")
            first.setdefault(k, v)
        for k, v in cnt.most_common():
            print("SURVEY", k, v)
        viol = list(first.values())
    for name, i, sig, msg in viol[:8]:
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "{}_{}_{}.json".format(check, name, i))
        with open(path, "w") as f:
            json.dump({"property": check, "group": name, "case": i, "seed": seed,
                       "tier": tier, "signature": sig, "message": msg}, f, indent=1)
        print("--- {} case {} [{}]\n{}".format(name, i, sig, short(msg, 3000)))
        print("VIOLATION property={} replay={}".format(check, path))
        code = 1
    if code:
        return code
    for w, msg in broken:
        print("ERROR worker {}: {}".format(w, short(msg, 2000)))
        code = 3
    for e in tot["errors"]:
        print("ERROR", short(e, 2000))
        code = 3
    for g in mod.GROUPS:
        n = g.ncases(tier)
        need = g.minimum if g.minimum is not None else max(n // 10, 1)
        need = min(need, n)
        if tot["groups"][g.name] < need:
            print("INCONCLUSIVE group {}: {} of {} cases executed".format(g.name, tot["groups"][g.name], n))
            code = 3
    for kind, n in getattr(mod, "MIN_EVENTS", {}).items():
        if not only and tot["events"][kind] < n:
            print("INCONCLUSIVE monitor event {}: {} < {}".format(kind, tot["events"][kind], n))
            code = 3
    return code
