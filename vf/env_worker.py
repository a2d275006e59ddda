"""Reads and writes messages in a process that is not like the others (driven by C30): job file -> result file."""
import json
import os
import sys

with open(sys.argv[1], encoding="utf-8") as f:
    JOB = json.load(f)
HERE, REPO = JOB["here"], JOB["repo"]
RES = dict(problems=[], digests=[], events={}, done=False)


def finish():
    RES["done"] = True
    with open(JOB["result"], "w", encoding="utf-8") as f:
        json.dump(RES, f)


def event(k, n=1):
    RES["events"][k] = RES["events"].get(k, 0) + n


def work():
    import decimal
    import hashlib
    import random
    from vf import core, obj
    from vf.c_system import Op, instances, statediff, process_state
    from vf.base import tmpdir
    state = process_state()

    def batch(seed, n, digests):
        rng = random.Random(seed)
        ios = instances()
        with tmpdir() as d:
            for i in range(n):
                op = Op(rng, kinds=JOB.get("kinds"))
                op.g = dict(maxlist=2, fill=rng.choice([0.0, 0.3, 0.9]))
                op.prepare()
                op.node_json = None
                with decimal.localcontext() as c:
                    if JOB.get("hook") == "small-decimal":
                        # (the generator calculates with numbers, the library does not)
                        c.prec, c.rounding, c.Emin, c.Emax = 3, decimal.ROUND_UP, -9, 9
                        for t in (decimal.Inexact, decimal.Rounded, decimal.Overflow, decimal.Subnormal):
                            c.traps[t] = True
                    op.run(ios, d, i)
                event("operations")
                event("failed" if op.err is not None else "succeeded")
                bad = op.judge()
                if bad:
                    RES["problems"].append("operation %d of %s (%s %s): %s" % (i, seed, op.kind, op.t, "; ".join(map(str, bad[:3]))[:600]))
                    if len(RES["problems"]) > 3:
                        return
                if digests is not None:
                    x = op.res if isinstance(op.res, str) else repr(obj.snapshot(op.res)) if op.res is not None else "%s: %s" % (
                        type(op.err).__name__, op.kind)
                    digests.append(hashlib.blake2b(x.encode("utf-8", "surrogatepass"), digest_size=8).hexdigest())
    batch(JOB["common"], JOB["n"], RES["digests"])
    batch(JOB["seed"], JOB["n"], None)
    RES["problems"] += statediff(state, process_state())


def hook(name, fn):
    import threading
    if name == "thread":
        err = []

        def go():
            try:
                fn()
            except BaseException as e:
                err.append(e)
        t = threading.Thread(target=go)
        t.start()
        t.join()
        if err:
            raise err[0]
    elif name == "smallstack":
        threading.stack_size(512 * 1024)
        hook("thread", fn)
    elif name == "nogc":
        import gc
        gc.disable()
        fn()
    elif name == "gc":
        import gc
        gc.set_threshold(5, 1, 1)
        fn()
    elif name == "fork":
        fn()
        RES["digests"].clear()
        pid = os.fork()
        if pid == 0:
            try:
                fn()
            except BaseException as e:
                RES["problems"].append("in the child: %r" % e)
            finish()
            os._exit(0)
        os.waitpid(pid, 0)
        with open(JOB["result"], encoding="utf-8") as f:
            RES.update(json.load(f))
    elif name == "asyncio":
        import asyncio

        async def go():
            fn()
        asyncio.run(go(), debug=False)
    elif name == "trace":
        def tracer(frame, event_, arg):
            return tracer if "ccsds_ndm" in frame.f_code.co_filename and "models" not in frame.f_code.co_filename else None
        sys.settrace(tracer)
        try:
            fn()
        finally:
            sys.settrace(None)
    elif name == "profile":
        import cProfile
        p = cProfile.Profile()
        p.runcall(fn)
    elif name == "tracemalloc":
        import tracemalloc
        tracemalloc.start(5)
        fn()
    elif name == "context":
        import contextvars
        contextvars.copy_context().run(fn)
    elif name == "nodir":
        d = os.path.join(JOB["tmp"], "gone")
        os.mkdir(d)
        os.chdir(d)
        os.rmdir(d)
        # the harness asks for the directory, the library must not
        os.getcwd = lambda: d
        fn()
    elif name == "nostreams":
        sys.stdin = sys.stdout = sys.stderr = None
        fn()
    elif name == "closedstreams":
        import io
        class Closed(io.TextIOBase):
            def write(self, s):
                raise ValueError("written to a standard stream: %r" % s)
            read = readline = write
        sys.stdin = sys.stdout = sys.stderr = Closed()
        for fd in (0, 1, 2):
            os.close(fd)
            os.open("/dev/null", os.O_RDONLY)
        fn()
    elif name == "terminal":
        import io

        class Terminal(io.TextIOBase):
            encoding = "utf-8"

            def isatty(self):
                return True

            def writable(self):
                return True

            def fileno(self):
                raise io.UnsupportedOperation("fileno")

            def write(self, s):
                RES["problems"].append("printed on a terminal: %r" % s[:100])
                return len(s)
        real = sys.stdin, sys.stdout, sys.stderr
        sys.stdin = sys.stdout = sys.stderr = Terminal()
        try:
            fn()
        finally:
            sys.stdin, sys.stdout, sys.stderr = real
    elif name == "real terminal":
        import pty
        import select
        main_, end = pty.openpty()
        for fd in (0, 1, 2):
            os.dup2(end, fd)
        fn()
        for f in (sys.stdout, sys.stderr):
            f.flush()
        if select.select([main_], [], [], 0)[0]:
            RES["problems"].append("printed on a terminal: %r" % os.read(main_, 200))
    elif name == "all variables":
        # every variable that the library asks for is set
        class Set(dict):
            def asked(self):
                f = sys._getframe(2)
                while f is not None and f.f_code.co_filename == os.__file__:
                    f = f.f_back
                if f is not None and f.f_code.co_filename.startswith(os.path.join(REPO, "ccsds_ndm")):
                    event("variables_asked_for")
                    return True

            def __contains__(self, k):
                return True if self.asked() else k in real

            def __getitem__(self, k):
                return "1" if self.asked() else real[k]

            def get(self, k, default=None):
                return "1" if self.asked() else real.get(k, default)

        real = os.environ
        os.environ = Set(real)
        try:
            fn()
        finally:
            os.environ = real
    elif name == "recursion":
        sys.setrecursionlimit(400)
        fn()
    elif name == "logging":
        import logging
        logging.basicConfig(level=1, handlers=[logging.FileHandler(os.path.join(JOB["tmp"], "log"), encoding="utf-8")], force=True)
        fn()
    elif name == "exec":
        ns = {"fn": fn}
        exec("fn()", ns)
    elif name == "signals":
        import signal
        signal.signal(signal.SIGALRM, lambda *a: event("signals"))
        signal.setitimer(signal.ITIMER_REAL, 0.002, 0.002)
        fn()
        signal.setitimer(signal.ITIMER_REAL, 0)
    elif name == "one cpu":
        os.sched_setaffinity(0, [min(os.sched_getaffinity(0))])
        fn()
    elif name == "few handles":
        import resource
        resource.setrlimit(resource.RLIMIT_NOFILE, (16, 16))
        fn()
    elif name == "exit":
        import atexit
        import vf.c_system

        def last():
            try:
                fn()
            except BaseException as e:
                RES["problems"].append("at exit: %r" % e)
            finish()
        atexit.register(last)
        return True
    elif name == "strict-decimal":
        import decimal
        decimal.getcontext().traps[decimal.FloatOperation] = True
        fn()
    else:
        fn()


def main():
    sys.path[:0] = [REPO]
    before = dict(filters=None)
    import decimal
    import locale
    import logging
    import random
    import signal
    import threading
    import warnings
    # what the import of the library (not of its dependencies) does to the process
    for m in JOB.get("deps", []):
        __import__(m)
    random.seed(1)

    def state():
        c = decimal.getcontext()
        return dict(context=(c.prec, c.rounding, c.Emin, c.Emax), locale=locale.setlocale(locale.LC_ALL), filters=len(warnings.filters),
                    env=dict(os.environ), handlers=len(logging.getLogger().handlers), level=logging.getLogger().level,
                    threads=threading.active_count(), signals=[signal.getsignal(s) for s in (2, 13, 14, 15)], random=random.getstate(),
                    path=list(sys.path), recursion=sys.getrecursionlimit(), streams=(id(sys.stdout), id(sys.stderr)), umask=mask(),
                    trace=(sys.gettrace(), sys.getprofile()), hook=id(sys.excepthook), digits=sys.get_int_max_str_digits(),
                    fds=sorted(os.listdir("/proc/self/fd"))[:-1] and len(os.listdir("/proc/self/fd")))

    def mask():
        m = os.umask(0)
        os.umask(m)
        return m
    before = state()
    for m in JOB.get("order", []):
        __import__(m)
    after = state()
    event("imports_watched")
    for k in before:
        if before[k] != after[k]:
            RES["problems"].append("importing %s changed the %s of the process: %s, %s" % (JOB.get("order"), k, str(before[k])[:100], str(after[k])[:100]))
    sys.path.insert(0, HERE)
    if JOB.get("clock") is not None:
        import time
        if abs(time.time() - JOB["clock"]) < 3600:
            event("clocks_shifted")
    if not hook(JOB.get("hook"), work):
        finish()


main()
