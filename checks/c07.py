"""Tear-down happens exactly once and the signal handlers are restored, whatever ends the context."""
import os
import sys
import signal
from lib.vp import Group, Discard
from spectrocrunch.utils.signalhandling import HandleTermination, signalname
from spectrocrunch.utils import signalhandling

ID = "C07"
LEVEL = "exploration"
RULE = (
    "random programs of nested termination contexts (0-3 levels, several in sequence) whose set-up or tear-down may "
    "raise, swallow or let through exceptions, with real SIGINT/SIGTERM/SIGHUP sent to the process at statement "
    "boundaries or at a random traced line of the body, for several kinds of original handlers; the log of set-ups, "
    "tear-downs and handler calls is compared with a reference interpreter; non-trivial: something was interrupted"
)

SIGS = [signal.SIGINT, signal.SIGTERM, signal.SIGHUP]


class Err(Exception):
    pass


class BaseErr(Exception):
    pass


def program(rng, depth=0):
    """list of actions"""
    out = []
    for _ in range(rng.randint(1, 3)):
        r = rng.random()
        if r < 0.45 and depth < 3:
            out.append(
                (
                    "with",
                    {
                        "id": rng.randrange(10**6),
                        "setup": rng.choice(["ok", "ok", "ok", "none", "raise"]),
                        "teardown": rng.choice(["ok", "ok", "swallow", "swallow", "none", "raise"]),
                        "resend": rng.random() < 0.7,
                        "early": rng.random() < 0.4,
                    },
                    program(rng, depth + 1),
                )
            )
            if rng.random() < 0.15:
                # the same context again
                out.append(out[-1])
        elif r < 0.52:
            out.append(("install", rng.choice(SIGS), rng.choice(["record", "raise", "ignore"])))
        elif r < 0.7:
            out.append(("signal", rng.choice(SIGS)))
        elif r < 0.8:
            out.append(("raise",))
        elif r < 0.9:
            out.append(("try", program(rng, depth + 1)))
        else:
            out.append(("nop",))
    return out


def count(prog, what):
    n = 0
    for a in prog:
        if a[0] == what:
            n += 1
        for x in a[1:]:
            if isinstance(x, list):
                n += count(x, what)
    return n


def contexts(prog, log, out=None):
    """contexts that are created before the program starts"""
    if out is None:
        out = {}
    for a in prog:
        if a[0] == "try":
            contexts(a[1], log, out)
        elif a[0] == "with":
            if a[1]["early"] and a[1]["id"] not in out:
                out[a[1]["id"]] = create(a[1], log)
            contexts(a[2], log, out)
    return out


def create(d, log):
    def setup(d=d):
        log.append(("setup", d["id"]))
        if d["setup"] == "raise":
            raise Err("setup")

    def teardown(tp, v, tb, d=d):
        log.append(("teardown", d["id"], None if tp is None else tp.__name__, None if v is None else str(v)))
        if d["teardown"] == "raise":
            raise Err("teardown")
        return d["teardown"] == "swallow"

    return HandleTermination(
        setup=None if d["setup"] == "none" else setup,
        teardown=None if d["teardown"] == "none" else teardown,
        resend=d["resend"],
    )


def run_real(prog, log, early):
    for a in prog:
        if a[0] == "signal":
            log.append(("sent", a[1]))
            os.kill(os.getpid(), a[1])
        elif a[0] == "install":
            signal.signal(a[1], install(a[2], log))
        elif a[0] == "raise":
            raise Err("body")
        elif a[0] == "try":
            try:
                run_real(a[1], log, early)
            except Exception as e:
                log.append(("caught", type(e).__name__, str(e)))
        elif a[0] == "with":
            d = a[1]
            with early.get(d["id"]) or create(d, log):
                log.append(("enter", d["id"]))
                run_real(a[2], log, early)
                log.append(("leave", d["id"]))


class Sim:
    """Reference interpreter"""

    def __init__(self, base, log):
        self.handlers = dict(base)
        self.log = log

    def deliver(self, sig, handler):
        if isinstance(handler, tuple):  # original handler
            kind = handler[0]
            if kind in ("record", "raise"):
                self.log.append(("base", sig))
            if kind == "raise":
                raise BaseErr(str(int(sig)))
        elif handler is not None:
            ctx = handler
            self.cleanup(ctx, "RuntimeError", "Signal {} received.".format(sig.name))
            if ctx["d"]["resend"]:
                self.deliver(sig, ctx["old"][sig])

    def cleanup(self, ctx, tp, v):
        ret = False
        if ctx["open"]:
            d = ctx["d"]
            try:
                if d["teardown"] != "none":
                    self.log.append(("teardown", d["id"], tp, v))
                    if d["teardown"] == "raise":
                        raise Err("teardown")
                    ret = d["teardown"] == "swallow"
            finally:
                self.handlers = dict(ctx["old"])
                ctx["open"] = False
        return ret

    def run(self, prog):
        for a in prog:
            if a[0] == "signal":
                self.log.append(("sent", a[1]))
                self.deliver(a[1], self.handlers[a[1]])
            elif a[0] == "install":
                self.handlers[a[1]] = (a[2],)
            elif a[0] == "raise":
                raise Err("body")
            elif a[0] == "try":
                try:
                    self.run(a[1])
                except Exception as e:
                    self.log.append(("caught", type(e).__name__, str(e)))
            elif a[0] == "with":
                d = a[1]
                ctx = {"d": d, "old": dict(self.handlers), "open": True}
                self.handlers = {s: ctx for s in SIGS}
                if d["setup"] != "none":
                    self.log.append(("setup", d["id"]))
                    if d["setup"] == "raise":
                        self.handlers = ctx["old"]
                        raise Err("setup")
                exc = None
                try:
                    self.log.append(("enter", d["id"]))
                    self.run(a[2])
                    self.log.append(("leave", d["id"]))
                except Exception as e:
                    exc = e
                if exc is None:
                    self.cleanup(ctx, None, None)
                elif not self.cleanup(ctx, type(exc).__name__, str(exc)):
                    raise exc


def installs(prog, sig):
    return any(
        (a[0] == "install" and a[1] == sig)
        or (a[0] == "try" and installs(a[1], sig))
        or (a[0] == "with" and installs(a[2], sig))
        for a in prog
    )


def install(kind, log):
    if kind == "record":
        return lambda s, f: log.append(("base", s))
    if kind == "raise":

        def handler(s, f):
            log.append(("base", s))
            raise BaseErr(str(int(s)))

        return handler
    if kind == "ignore":
        return signal.SIG_IGN
    raise ValueError(kind)


def nested(c, rng):
    prog = program(rng)
    kinds = {s: rng.choice(["record", "record", "raise", "ignore"]) for s in SIGS}
    expected = []
    sim = Sim({s: (k,) for s, k in kinds.items()}, expected)
    try:
        sim.run(prog)
        eres = None
    except Exception as e:
        eres = (type(e).__name__, str(e))
    log = []
    saved = {s: signal.getsignal(s) for s in SIGS}
    mine = {s: install(k, log) for s, k in kinds.items()}
    try:
        for s, h in mine.items():
            signal.signal(s, h)
        try:
            run_real(prog, log, contexts(prog, log))
            res = None
        except Exception as e:
            res = (type(e).__name__, str(e))
        after = {s: signal.getsignal(s) for s in SIGS}
    finally:
        for s, h in saved.items():
            signal.signal(s, h)
    info = lambda: (prog, kinds, "expected", expected, eres, "got", log, res)
    for ident in {x[1] for x in log if x[0] == "setup"}:
        n = sum(1 for x in log if x[0] == "teardown" and x[1] == ident)
        m = sum(1 for x in log if x[0] == "setup" and x[1] == ident)
        c.require(n <= m, "nested:teardown_twice", info)
    c.require(log == expected, "nested:history", info)
    c.require(res == eres, "nested:outcome", info)
    # handlers the program itself did not replace
    kept = [s for s in SIGS if not installs(prog, s)]
    c.require(all(after[s] == mine[s] for s in kept), "nested:handlers_not_restored", info)
    nsig = sum(1 for x in log if x[0] == "sent")
    c.event("signals", nsig)
    c.event("teardowns", sum(1 for x in log if x[0] == "teardown"))
    c.event("contexts", sum(1 for x in log if x[0] == "enter"))
    if not count(prog, "with") or not (nsig or count(prog, "raise")):
        c.trivial()
    c.key(repr([(a[0], str(a[1:])) for a in prog]), repr(kinds))


def anywhere(c, rng):
    """The signal arrives at an arbitrary line inside the context (set-up has finished, tear-down not started)"""
    sig = rng.choice(SIGS)
    log = []
    resend = rng.random() < 0.7
    swallow = rng.random() < 0.5
    fail = rng.random() < 0.3
    at = rng.randint(1, 25)
    state = {"n": 0, "sent": False}

    def tracer(frame, event, arg):
        if frame.f_code is not body.__code__:
            return None
        return local

    def local(frame, event, arg):
        if event == "line":
            state["n"] += 1
            if state["n"] == at and not state["sent"]:
                state["sent"] = True
                os.kill(os.getpid(), sig)
        return local

    def body(n):
        total = 0
        for i in range(n):
            total += i
            if i == 7 and fail:
                raise Err("body")
        return total

    saved = {s: signal.getsignal(s) for s in SIGS}
    mine = {s: install("record", log) for s in SIGS}
    exc = None
    result = None
    try:
        for s, h in mine.items():
            signal.signal(s, h)
        old = sys.gettrace()
        try:
            with HandleTermination(
                setup=lambda: log.append(("setup",)),
                teardown=lambda a, b, tb: log.append(("teardown", a and a.__name__)) or swallow,
                resend=resend,
            ):
                sys.settrace(tracer)
                try:
                    result = body(10)
                finally:
                    sys.settrace(old)
        except Err as e:
            exc = e
        after = {s: signal.getsignal(s) for s in SIGS}
    finally:
        for s, h in saved.items():
            signal.signal(s, h)
    info = lambda: (sig, at, resend, swallow, fail, state, log, exc)
    td = [x for x in log if x[0] == "teardown"]
    c.require(len(td) == 1, "anywhere:teardown_once", info)
    c.require(td[0][1] == ("RuntimeError" if state["sent"] else "Err" if fail else None), "anywhere:reason", info)
    base = [x for x in log if x[0] == "base"]
    c.require(base == ([("base", sig)] if state["sent"] and resend else []), "anywhere:resend", info)
    c.require(after == mine, "anywhere:handlers", info)
    if fail:
        c.require((exc is None) == (swallow and not state["sent"]), "anywhere:exception", info)
    else:
        c.require(exc is None and result == 45, "anywhere:result", info)
    c.require(log[0] == ("setup",), "anywhere:setup_first", info)
    c.event("signals", int(state["sent"]))
    if not state["sent"]:
        c.trivial()
    c.key(int(sig), at, resend, swallow, fail)


def process(c, rng):
    """In a process with the default handlers: the signal is turned into a tear-down, the process can clean up"""
    sig = rng.choice(SIGS)
    marker = os.path.join(c.dir, "teardown")
    end = os.path.join(c.dir, "end")
    sync_r, sync_w = os.pipe()
    go_r, go_w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 9
        try:
            signal.signal(signal.SIGINT, signal.default_int_handler)
            signal.signal(signal.SIGTERM, signal.SIG_DFL)
            signal.signal(signal.SIGHUP, signal.SIG_DFL)
            signal.alarm(30)

            def td(a, b, tb):
                with open(marker, "a") as f:
                    f.write(a.__name__ if a else "None")
                return 0

            try:
                with HandleTermination(teardown=td):
                    os.write(sync_w, b"x")
                    os.read(go_r, 1)
                    with open(end, "w") as f:
                        f.write("x")
                code = 0
            except KeyboardInterrupt:
                code = 5
        finally:
            os._exit(code)
    os.read(sync_r, 1)
    os.kill(pid, sig)
    # wait for the tear-down before the process can go on
    import time

    t0 = time.time()
    while not os.path.exists(marker) and time.time() - t0 < 20:
        time.sleep(0.002)
    time.sleep(0.02)
    os.write(go_w, b"x")
    code = os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
    for fd in (sync_r, sync_w, go_r, go_w):
        os.close(fd)
    with open(marker) as f:
        txt = f.read()
    c.require(txt == "RuntimeError", "process:teardown", lambda: (sig, code, txt))
    if sig == signal.SIGINT:
        c.require(code == 5, "process:interrupt_resent", lambda: code)
    else:
        c.require(code == 0 and os.path.exists(end), "process:continues", lambda: (sig, code))
    c.event("processes")
    c.key(int(sig), c.seedstr)


def names(c, rng):
    for s in SIGS:
        c.require(signalname(s) == s.name, "names:signalname", lambda: signalname(s))
    hs = signalhandling.allhandlers()
    c.require(set(SIGS) <= set(hs), "names:all", lambda: hs)
    c.require(set(signalhandling.termination_handlers()) == set(SIGS), "names:termination", "")
    sub = rng.sample(SIGS, rng.randint(1, 3))
    f = lambda a, b: None
    old = signalhandling.replace_handlers(f, {s: signal.getsignal(s) for s in sub})
    try:
        c.require(set(old) == set(sub), "names:replaced", lambda: old)
        c.require(all(signal.getsignal(s) is f for s in sub), "names:installed", "")
    finally:
        signalhandling.restore_handlers(old)
    c.require(all(signal.getsignal(s) is hs[s] for s in SIGS), "names:restored", "")
    c.key(repr(sorted(sub)))


GROUPS = [
    Group("nested", nested, 40000, 400000),
    Group("anywhere", anywhere, 400, 6000),
    Group("process", process, 24, 300),
    Group("names", names, 10, 100),
]
MIN_EVENTS = {"signals": 1000, "teardowns": 1000, "processes": 20}
