"""Checks under injected faults: interruptions at any library line, failures of the file system,
resources that must be given back."""
import gc
import json
import os
import pickle
import random
import resource
import signal
import sys
import threading
import tracemalloc
import warnings
import weakref

from . import kvn, obj, work, xmlio
from .base import Broken, Check, F, Node, TYPES, api, kvn_io, kvn_text_diff, lib, observe, tmpdir, xml_diff, xml_io
from .c_formats import snapdiff, textdiff
from .c_system import Op, PathLike, instances, mutables, ndm_xml, process_state, statediff
from .core import HERE, LIBDIR, cold
from .gen import Gen

NOBODY = 65534


# ---------------------------------------------------------------------------------------
class Stopped(Exception):
    """an error that no code can expect"""


class Interrupter:
    """Counts library lines; raises `exc` in front of the n-th one, once."""

    def __init__(self, at, exc):
        self.at, self.exc = at, exc
        self.n, self.where = 0, None
        self.first = {}         # line -> when it ran first

    def __enter__(self):
        m = sys.monitoring
        m.use_tool_id(4, "vf-interrupt")
        m.register_callback(4, m.events.LINE, self._line)
        m.set_events(4, m.events.LINE)
        m.restart_events()
        return self

    def _line(self, code, line):
        f = code.co_filename
        if not f.startswith(LIBDIR) or f.startswith(HERE):
            return sys.monitoring.DISABLE
        self.n += 1
        if self.at < 0:
            self.first.setdefault((f, line), self.n)
        if self.n == self.at:
            self.where = (f[len(LIBDIR):], line)
            raise self.exc("injected")

    def __exit__(self, *a):
        m = sys.monitoring
        m.set_events(4, 0)
        m.register_callback(4, m.events.LINE, None)
        m.free_tool_id(4)


class C26(Check):
    ID = "C26"
    TECH = "fault injection: an exception raised at any executed library line; later operations judged by their own models"
    RULE = ("an operation (read or write, string or file, either format, any type) is run once to count its library lines, then "
            "again on shared objects with KeyboardInterrupt, MemoryError or an unknown error raised in front of a chosen line "
            "(small operations: every line; others: a spread of lines), also as the first operation of a program; the interruption must arrive, the tree, the "
            "state of the process and earlier results must be as before, a file as before or a beginning of the new text, and the next operations "
            "right; non-trivial = an exception was "
            "injected; distinct by (operation, line)")
    need = {"comparisons": 2000, "interruptions": 500}
    KINDS = ["rx", "rk", "wx", "wk", "px", "pk", "fwx", "fwk", "rc"]

    def plan(self, tier):
        s, c = self.seed, []
        for t in TYPES:
            for k in self.KINDS:
                for i in range(self.scale(tier, 3, 30)):
                    c.append(dict(k=k, t=t, s="%s/int/%s/%s/%d" % (s, t, k, i), points=self.scale(tier, 10, 40)))
            # in a program that did nothing before
            for k in ("rx", "rk", "wx", "wk"):
                for i in range(self.scale(tier, 1, 8)):
                    c.append(dict(k=k, t=t, s="%s/cold/%s/%s/%d" % (s, t, k, i), cold=True, points=self.scale(tier, 8, 40)))
        return c

    def operation(self, case, rng, node, d, ios, own):
        """(call, judge, tree or None, destination or None)"""
        k, t = case["k"], node.cls
        io, X, K = ios["NdmIo"], ios["NdmXmlIo"], ios["NdmKvnIo"]
        kv = k.endswith("k")
        r = K if kv else X
        if k in ("rx", "rk", "rc", "px", "pk"):
            text = kvn.render(kvn.events(node), kvn.Style(rng)) if kv else \
                ndm_xml(self.kids, rng) if k == "rc" else xmlio.dumps(node, xmlio.Style(rng))
            judge = lambda o: (obj.diff_kvn if kv else obj.diff)(node, o)
            if k in ("px", "pk"):
                p = os.path.join(d, "in")
                with open(p, "wb") as f:
                    f.write(text.encode("utf-8"))
                return lambda: (r if own else io).from_path(p), judge, None, None
            return lambda: (r if own else io).from_string(text), judge, None, None
        o = obj.to_obj(node)
        fm = F().KVN if kv else F().XML
        dif = kvn_text_diff if kv else xml_diff
        if k in ("wx", "wk"):
            return (lambda: r.to_string(o) if own else io.to_string(o, fm)), lambda x: dif(node, x), o, None
        p = os.path.join(d, "out")

        def call():
            return r.to_file(o, p) if own else io.to_file(o, fm, p)

        def judge(x):
            with open(p, encoding="utf-8", newline="") as f:
                return dif(node, f.read())
        return call, judge, o, p

    def run_cold(self, case, mon):
        rng = random.Random(case["s"])
        node = Gen(rng, kvn=True, maxlist=1, fill=rng.choice([0.2, 0.6]), longtext=0).message(case["t"])
        ios = instances()
        at, exc = case["at"], {"K": KeyboardInterrupt, "M": MemoryError, "S": Stopped}[case["exc"]]
        with tmpdir() as d:
            call, judge, tree, _ = self.operation(case, rng, node, d, ios, case["own"])
            res = err = None
            with Interrupter(at, exc) as it:
                try:
                    res = call()
                except Exception as e:
                    err = e
                except KeyboardInterrupt as e:
                    err = e
            if at < 0:
                mon.ev("library_lines", it.n)
                for n in it.first.values():
                    mon.cov("_first", n)
                mon.diff("%s of %s, the first operation" % (case["k"], case["t"]), judge(res) if err is None else ["raised %r" % err])
                return
            if it.where is None:
                mon.ev("not_reached")
                return
            mon.ev("interruptions")
            mon.cov("interrupted_lines", it.where)
            mon.cov("injected", exc.__name__)
            what = "%s of %s, the first operation, interrupted at %s:%d (%s)" % ((case["k"], case["t"]) + it.where + (exc.__name__,))
            if err is None:
                mon.diff(what, ["the interruption was swallowed"] if exc is KeyboardInterrupt else judge(res))
            elif exc is KeyboardInterrupt and not isinstance(err, KeyboardInterrupt):
                mon.diff(what, ["it arrived as %s: %s" % (type(err).__name__, str(err)[:100])])
            mon.diff("the same again after " + what, judge(lib("the same again after " + what, call)))
            for k in ("rx", "rk", "wx", "wk", "rk"):
                op = Op(random.Random(rng.random()), kinds=[k])
                op.t = case["t"] if k != "rk" or rng.random() < 0.7 else rng.choice(TYPES)
                op.prepare().run(ios if rng.random() < 0.5 else instances(), d, "next")
                mon.diff("%s of %s after %s" % (op.kind, op.t, what), op.judge())
                if mon.problems:
                    return

    def from_cold(self, case, mon):
        rng = random.Random(case["s"] + "/points")
        own = rng.random() < 0.5
        got = cold(self, dict(case, at=-1, own=own, exc="S"), mon)
        n, first = got.events["library_lines"], sorted(mon.cover.pop("_first", ()))
        p = case["points"]
        points = set(rng.sample(first, min(len(first), p)))
        points |= {k + 1 for k in rng.sample(first, min(len(first), p // 2)) if k < n}
        points |= {rng.randint(1, max(1, n)) for _ in range(p // 2)}
        for at in sorted(points):
            if mon.problems:
                return
            mon.input("%s %s %d" % (case["s"], case["k"], at), 5)
            cold(self, dict(case, at=at, own=own, exc=rng.choice("KKMS")), mon)

    def run(self, case, mon):
        if case.get("cold"):
            return self.from_cold(case, mon)
        rng = random.Random(case["s"])
        g = Gen(rng, kvn=True, maxlist=rng.choice([1, 1, 2]), fill=rng.choice([0.0, 0.2, 0.6]), longtext=0)
        if case["k"] == "rc":
            self.kids = [g.message(rng.choice(TYPES)) for _ in range(2)]
            node = Node("Ndm")
            for m in self.kids:
                node.v.setdefault(m.cls.lower(), []).append(m)
        else:
            node = g.message(case["t"])
        own = rng.random() < 0.6
        with tmpdir() as d:
            call, judge, _, dest = self.operation(case, rng, node, d, instances(), own)
            mon.diff("%s of %s" % (case["k"], node.cls), judge(lib(case["k"], call)))
            if mon.problems:
                return
            full = b""
            if dest:
                with open(dest, "rb") as f:
                    full = f.read()
            with Interrupter(-1, Stopped) as it:
                call()
            n = it.n
            mon.ev("library_lines", n)
            points = list(range(1, n + 1))
            if n > case["points"]:
                points = sorted({1, n, *rng.sample(points, case["points"])})
            ios = instances()
            mutate = rng.random() < 0.5
            earlier, call0 = None, None
            for at in points:
                if not mutate:
                    ios = instances()
                st = rng.getstate()
                call, judge, tree, dest = self.operation(case, rng, node, d, ios, own)
                old = None
                if dest:
                    old = rng.choice([None, b"what was there before\n"])
                    if old is None:
                        if os.path.exists(dest):
                            os.unlink(dest)
                    else:
                        with open(dest, "wb") as f:
                            f.write(old)
                snap = None if tree is None else obj.snapshot(tree)
                state = process_state()
                exc = rng.choice([KeyboardInterrupt, KeyboardInterrupt, MemoryError, Stopped])
                res = err = None
                with Interrupter(at, exc) as it:
                    try:
                        res = call()
                    except Exception as e:
                        err = e
                    except KeyboardInterrupt as e:
                        err = e
                if it.where is None:
                    mon.ev("not_reached")
                    continue
                mon.ev("interruptions")
                mon.cov("interrupted_lines", it.where)
                mon.cov("injected", exc.__name__)
                mon.input("%s %s %d" % (case["s"], case["k"], at), 5)
                what = "%s of %s interrupted at %s:%d (%s)" % ((case["k"], node.cls) + it.where + (exc.__name__,))
                if err is None:
                    if exc is KeyboardInterrupt:
                        mon.diff(what, ["the interruption was swallowed"])
                    else:
                        mon.ev("recovered")
                        mon.diff(what + " but returned", judge(res))
                elif exc is KeyboardInterrupt and not isinstance(err, KeyboardInterrupt):
                    mon.diff(what, ["it arrived as %s: %s" % (type(err).__name__, str(err)[:100])])
                if tree is not None:
                    mon.diff("the tree after " + what, snapdiff(snap, obj.snapshot(tree)))
                mon.diff(what, statediff(state, process_state()))
                if dest and err is not None:
                    now = None
                    if os.path.exists(dest):
                        with open(dest, "rb") as f:
                            now = f.read()
                    if now != old:
                        mon.ev("partly_written")
                        mon.diff("the file after " + what, [] if now is not None and full.startswith(now) else
                                 ["it was lost" if now is None else "it holds %r" % now[:80]])
                if mon.problems:
                    return
                # whatever comes next is right
                op = Op(random.Random(rng.random()), kinds=["rx", "rk", "wx", "wk"])
                if rng.random() < 0.7:
                    op.t = case["t"]
                op.prepare().run(ios, d, "next")
                mon.diff("%s of %s after %s" % (op.kind, op.t, what), op.judge())
                mon.diff("the same again after " + what, judge(lib("the same again after " + what, call)))
                if earlier is not None:
                    mon.diff("an earlier result after " + what, snapdiff(earlier, obj.snapshot(call0)))
                elif op.res is not None and not isinstance(op.res, str):
                    call0, earlier = op.res, obj.snapshot(op.res)
                if mon.problems:
                    return


# ---------------------------------------------------------------------------------------
def child(fn, user=False, limits=(), deaf=()):
    """run fn in a forked process, perhaps as an unprivileged user or with limits.
    ("ok", value) | ("raised", [class names], text) | ("no user",) | ("died", status)"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        out = ("died", "no answer")
        try:
            os.close(r)
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(60)
            for s in deaf:
                signal.signal(s, signal.SIG_IGN)
            ok = True
            if user:
                try:
                    os.setgroups([])
                    os.setresgid(NOBODY, NOBODY, NOBODY)
                    os.setresuid(NOBODY, NOBODY, NOBODY)
                except OSError:
                    ok = False
            if not ok:
                out = ("no user",)
            else:
                for l, v in limits:
                    resource.setrlimit(l, (v, v))
                try:
                    v = fn()
                    out = ("ok", v if v is None or isinstance(v, (str, bytes, list)) else repr(v)[:200])
                except BaseException as e:
                    out = ("raised", [c.__name__ for c in type(e).__mro__], str(e)[:200])
            data = pickle.dumps(out)
            while data:
                data = data[os.write(w, data):]
        finally:
            os._exit(0)
    os.close(w)
    data = b""
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        data += b
    os.close(r)
    _, st = os.waitpid(pid, 0)
    return pickle.loads(data) if data else ("died", st)


class C27(Check):
    ID = "C27"
    TECH = "fault injection at the file system: full devices, size and handle limits, permissions, broken paths and texts, pipes and links"
    RULE = ("files of every type and format are read and written through every entry point on paths that fail (missing, a directory, below a "
            "file, link loop, not permitted, unreadable device, bytes that are no UTF-8; full device, size limit at any byte, no file "
            "handles, read-only) and on pipes and links that work: failures must raise, existing files stay, what works gives the whole "
            "message; destructive cases run in a child process as an unprivileged user; distinct by case")
    need = {"comparisons": 600, "failures": 300, "pipes": 40}

    def plan(self, tier):
        s, c = self.seed, []
        for t in TYPES:
            for fmt in ("XML", "KVN"):
                for k in ("reading", "bytes", "writing", "limited", "pipe", "links"):
                    for i in range(self.scale(tier, 2 if k != "bytes" else 12, 30)):
                        c.append(dict(k=k, t=t, fmt=fmt, s="%s/%s/%s/%s/%d" % (s, k, t, fmt, i)))
        return c

    def run(self, case, mon):
        node, rng = work.make(dict(case, g=dict(maxlist=2, fill=0.5, longtext=0)), True)
        observe(mon, node)
        kv = case["fmt"] == "KVN"
        text = kvn.render(kvn.events(node), kvn.Style(rng)) if kv else xmlio.dumps(node, xmlio.Style(rng))
        mon.input(case["k"] + text, 5)
        own = (kvn_io() if kv else xml_io())()
        io = api().NdmIo()
        fm = getattr(F(), case["fmt"])
        tree = obj.to_obj(node)
        readers = [("NdmIo", io.from_path), (type(own).__name__, own.from_path)]
        writers = [("NdmIo", lambda p: io.to_file(tree, fm, p)), (type(own).__name__, lambda p: own.to_file(tree, p))]
        judge = (lambda o: obj.diff_kvn(node, o)) if kv else (lambda o: obj.diff(node, o))
        out = (lambda b: kvn_text_diff(node, b.decode("utf-8"))) if kv else (lambda b: xml_diff(node, b.decode("utf-8")))
        with tmpdir() as d:
            os.chmod(d, 0o755)
            getattr(self, case["k"])(mon, rng, d, text, readers, writers, judge, out, io, own)

    def path(self, p, rng):
        import pathlib
        return rng.choice([str, pathlib.Path, PathLike])(p)

    def fails(self, mon, what, res, kinds=("OSError",)):
        mon.ev("failures")
        if res[0] == "no user":
            mon.ev("no_user")
            return
        ok = res[0] == "raised" and any(k in res[1] for k in kinds)
        mon.diff(what, [] if ok else [("was accepted and returned %s" % (res[1],)) if res[0] == "ok" else
                                      "raised %s: %s" % (res[1][0], res[2]) if res[0] == "raised" else "%s" % (res,)])

    def here(self, fn):
        try:
            v = fn()
        except Exception as e:
            return "raised", [c.__name__ for c in type(e).__mro__], str(e)[:200]
        return "ok", repr(v)[:200]

    def reading(self, mon, rng, d, text, readers, writers, judge, out, io, own):
        good = os.path.join(d, "good.xml")
        with open(good, "wb") as f:
            f.write(text.encode("utf-8"))
        os.mkdir(os.path.join(d, "dir"))
        os.symlink(os.path.join(d, "loop"), os.path.join(d, "loop"))
        os.symlink(os.path.join(d, "nowhere"), os.path.join(d, "dangling"))
        for name, rd in readers:
            for p in ("missing.xml", "dir", "good.xml/x", "loop", "dangling", "no/such/dir/f.kvn", "good.xml ", "good"):
                self.fails(mon, "%s reading %s" % (name, p), self.here(lambda: rd(self.path(os.path.join(d, p), rng))))
            # a device that opens but cannot be read, and files that are not permitted
            self.fails(mon, "%s reading a device that fails" % name, self.here(lambda: rd(self.path("/proc/self/mem", rng))))
            os.chmod(good, 0o000)
            self.fails(mon, "%s reading a forbidden file" % name, child(lambda: rd(self.path(good, rng)), user=True))
            os.chmod(good, 0o644)
            # no handle left
            self.fails(mon, "%s reading without file handles" % name,
                       child(lambda: rd(self.path(good, rng)), limits=[(resource.RLIMIT_NOFILE, 0)]))
            # none of this matters later
            mon.diff("%s reading a good file after that" % name, judge(lib("reading", rd, self.path(good, rng))))

    def bytes(self, mon, rng, d, text, readers, writers, judge, out, io, own):
        """bytes that are no UTF-8: in a text of the message, a comment, the end, the white space"""
        data = text.encode("utf-8")
        bad = rng.choice([b"\xff", b"\xc3", b"\xe2\x82", b"\xf0\x9f\x98", b"\xc0\xaf", b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"\x80", b"\xe9", b"\xa0"])
        spot = rng.choice(["inside", "inside", "inside", "end", "start"])
        if spot == "inside":
            # behind an ASCII letter, where it cannot become something else
            at = rng.choice([i + 1 for i in range(len(data) - 1) if chr(data[i]).isalpha() and data[i] < 128 and data[i + 1] < 128])
            damaged = data[:at] + bad + data[at:]
        elif spot == "end":
            damaged = data + bad
        else:
            damaged = bad + data
        try:
            damaged.decode("utf-8-sig")
            return
        except UnicodeDecodeError:
            pass
        mon.cov("bad_bytes", (bad, spot))
        p = os.path.join(d, "f")
        with open(p, "wb") as f:
            f.write(damaged)
        for name, rd in readers:
            self.fails(mon, "%s reading a file with the bytes %r (%s)" % (name, bad, spot), self.here(lambda: rd(self.path(p, rng))), ("ValueError",))
        for name, o in (("NdmIo", io), (type(own).__name__, own)):
            if not hasattr(o, "from_bytes"):
                continue
            self.fails(mon, "%s reading the bytes %r (%s)" % (name, bad, spot), self.here(lambda: o.from_bytes(damaged)), ("ValueError",))

    def writing(self, mon, rng, d, text, readers, writers, judge, out, io, own):
        os.mkdir(os.path.join(d, "dir"))
        with open(os.path.join(d, "file"), "wb") as f:
            f.write(b"old")
        os.symlink(os.path.join(d, "loop"), os.path.join(d, "loop"))
        os.symlink("/dev/full", os.path.join(d, "full"))
        ro = os.path.join(d, "ro")
        os.mkdir(ro)
        with open(os.path.join(ro, "file"), "wb") as f:
            f.write(b"old")
        os.chmod(ro, 0o555)
        os.chmod(os.path.join(ro, "file"), 0o444)
        # write-protected files in a directory anybody may write, of root and of the writer
        pub = os.path.join(d, "pub")
        os.mkdir(pub)
        os.chmod(pub, 0o777)
        for f in ("root", "own"):
            f = os.path.join(pub, f)
            with open(f, "wb") as g:
                g.write(b"old")
            os.chmod(f, 0o444)
        if os.geteuid() == 0:
            os.chown(os.path.join(pub, "own"), NOBODY, NOBODY)
        before = self.tree(d)
        for name, wr in writers:
            for p in ("dir", "missing/f.xml", "file/f.xml", "loop", "a/b/c/d"):
                self.fails(mon, "%s writing %s" % (name, p), self.here(lambda: wr(self.path(os.path.join(d, p), rng))))
            for p in ("full", "ro/file", "ro/new", "new", "pub/root", "pub/own"):
                self.fails(mon, "%s writing %s" % (name, {"full": "a full device"}.get(p, "forbidden " + p)),
                           child(lambda: wr(self.path(os.path.join(d, p), rng)), user=True))
            self.fails(mon, "%s writing without file handles" % name,
                       child(lambda: wr(self.path(os.path.join(d, "file"), rng)), limits=[(resource.RLIMIT_NOFILE, 0)]))
            mon.diff("files after the failures of %s" % name, [] if self.tree(d) == before else
                     ["%s became %s" % (before, self.tree(d))])
            p = os.path.join(d, "good")
            lib("writing", wr, self.path(p, rng))
            with open(p, "rb") as f:
                mon.diff("%s writing a good file after that" % name, out(f.read()))
            os.unlink(p)

    def tree(self, d):
        r = {}
        for b, ds, fs in os.walk(d):
            for f in fs + ds:
                p = os.path.join(b, f)
                s = os.lstat(p)
                r[p[len(d):]] = (os.readlink(p) if os.path.islink(p) else None if os.path.isdir(p) else open(p, "rb").read(),
                                 oct(s.st_mode), s.st_uid)
        return r

    def limited(self, mon, rng, d, text, readers, writers, judge, out, io, own):
        """no room after some bytes: the call must say so"""
        w = os.path.join(d, "w")
        os.mkdir(w)
        os.chmod(w, 0o777)
        for name, wr in writers:
            p = os.path.join(d, "size")
            lib("writing", wr, p)
            n = os.path.getsize(p)
            for lim in (0, 1, n - 1, rng.randrange(n), rng.randrange(n), n):
                q = os.path.join(w, "%s%d" % (name, lim))
                old = rng.random() < 0.5
                if old:
                    with open(q, "wb") as f:
                        f.write(b"x" * rng.choice([3, 2 * n]))
                    os.chmod(q, 0o666)
                r = child(lambda: wr(self.path(q, rng)), limits=[(resource.RLIMIT_FSIZE, lim)], deaf=[signal.SIGXFSZ])
                mon.ev("size_limits")
                if lim < n:
                    self.fails(mon, "%s writing %d bytes where %d have room" % (name, n, lim), r)
                else:
                    mon.diff("%s writing %d bytes where they have room" % (name, n), [] if r[0] == "ok" else ["%s" % (r,)])
                    with open(q, "rb") as f:
                        mon.diff("%s writing %d bytes where they have room" % (name, n), out(f.read()))

    def pipe(self, mon, rng, d, text, readers, writers, judge, out, io, own):
        """a message that arrives in parts, and one that is taken away in parts"""
        data = text.encode("utf-8")
        for name, rd in readers:
            r, w = os.pipe()
            parts = sorted(rng.sample(range(len(data)), min(len(data), rng.choice([1, 3, 20]))))

            def feed():
                with os.fdopen(w, "wb", buffering=0) as f:
                    for a, b in zip([0] + parts, parts + [len(data)]):
                        f.write(data[a:b])
                        if rng.random() < 0.3:
                            threading.Event().wait(0.001)
            t = threading.Thread(target=feed, daemon=True)
            t.start()
            try:
                mon.ev("pipes")
                mon.diff("%s reading a pipe" % name, judge(lib("reading a pipe", rd, self.path("/proc/self/fd/%d" % r, rng))))
            finally:
                os.close(r)
                t.join(20)
        for name, wr in writers:
            p = os.path.join(d, name)
            os.mkfifo(p)
            got = []

            def take():
                with open(p, "rb", buffering=0) as f:
                    while True:
                        b = f.read(rng.choice([1, 7, 100, 5000]))
                        if not b:
                            break
                        got.append(b)
            t = threading.Thread(target=take, daemon=True)
            t.start()
            try:
                lib("writing into a pipe", wr, self.path(p, rng))
            finally:
                # end the reader, should nobody have opened the other end
                try:
                    os.close(os.open(p, os.O_WRONLY | os.O_NONBLOCK))
                except OSError:
                    pass
                t.join(20)
            mon.ev("pipes")
            mon.diff("%s writing into a pipe" % name, out(b"".join(got)))

    def links(self, mon, rng, d, text, readers, writers, judge, out, io, own):
        data = text.encode("utf-8")
        os.mkdir(os.path.join(d, "sub"))
        real = os.path.join(d, "sub", "real")
        for name, rd in readers:
            with open(real, "wb") as f:
                f.write(data)
            for l, to in (("abs", real), ("rel", "sub/real"), ("two", "rel")):
                l = os.path.join(d, l)
                if not os.path.islink(l):
                    os.symlink(to, l)
                mon.ev("links")
                mon.diff("%s reading through a link" % name, judge(lib("reading", rd, self.path(l, rng))))
        hard = os.path.join(d, "hard")
        for name, wr in writers:
            for l in ("abs", "rel", "two", "hard"):
                with open(real, "wb") as f:
                    f.write(b"old " * rng.choice([1, 5000]))
                os.chmod(real, 0o640)
                if os.path.exists(hard):
                    os.unlink(hard)
                os.link(real, hard)
                l = os.path.join(d, l)
                lib("writing", wr, self.path(l, rng))
                mon.ev("links")
                if l != hard:
                    mon.diff("%s writing through a link" % name, [] if os.path.islink(l) else ["the link was replaced"])
                for p in (real, hard):
                    with open(p, "rb") as f:
                        mon.diff("%s writing through a link" % name, out(f.read()))
                mon.diff("%s writing through a link" % name, [] if os.stat(real).st_mode & 0o777 == 0o640 else ["permissions of the file were changed"])


# ---------------------------------------------------------------------------------------
def handles():
    """the handles that are open (without that of the listing itself)"""
    return {f for f in os.listdir("/proc/self/fd") if os.path.lexists("/proc/self/fd/" + f)}


def links_of(fds):
    r = {}
    for f in fds:
        try:
            r[f] = os.readlink("/proc/self/fd/" + f)
        except OSError:
            pass
    return r


class C28(Check):
    ID = "C28"
    TECH = "resource monitor: file handles, threads, children, live objects and memory watched over calls and long runs"
    RULE = ("(handles) open handles, threads and child processes before and after every kind of call, successful or failing, while its "
            "result or exception is still held; (release) weak references to every node of a tree that was read or written: all dead when "
            "the caller lets go; (growth) memory after runs of different messages on one object: no lasting growth from run to run; (peak) "
            "highest memory for n, 2n, 4n items: about linear; non-trivial = something was measured; distinct by case")
    need = {"comparisons": 800, "handle_counts": 400, "released_nodes": 2000, "memory_runs": 10}

    def plan(self, tier):
        s, c = self.seed, []
        for i in range(self.scale(tier, 60, 1000)):
            c.append(dict(k="held", s="%s/held/%d" % (s, i)))
        for t in TYPES:
            for i in range(self.scale(tier, 12, 100)):
                c.append(dict(k="release", t=t, s="%s/rel/%s/%d" % (s, t, i), g=dict(maxlist=2, fill=[0.3, 0.9][i % 2])))
            for fmt in ("rk", "rx", "wk", "wx"):
                for own in (False, True):
                    c.append(dict(k="growth", t=t, fmt=fmt, own=own, s="%s/gro/%s/%s/%s" % (s, t, fmt, own), n=self.scale(tier, 12, 60)))
        for t, p in (("Oem", "OemData.state_vector"), ("Tdm", "TdmData.observation"), ("Aem", "AemData.attitude_state"), ("Cdm", None),
                     ("Opm", "OpmData.maneuver_parameters"), ("Omm", "UserDefinedType.user_defined"), ("Oem", "OemBody.segment")):
            for fmt in ("rk", "rx", "wk", "wx"):
                c.append(dict(k="peak", t=t, p=p, fmt=fmt, s="%s/peak/%s/%s/%s" % (s, t, p, fmt), n=self.scale(tier, 40, 150)))
        return c

    def run(self, case, mon):
        getattr(self, case["k"])(case, mon)

    def held(self, case, mon):
        rng = random.Random(case["s"])
        ios = instances()
        with tmpdir() as d:
            for i in range(12):
                kind = rng.choice(["rx", "rk", "px", "pk", "pk", "px", "fx", "fk", "fw", "wx", "wk", "rc", "to", "to", "to!", "missing", "bad", "dir", "half"])
                op = Op(rng, kinds=[kind] if len(kind) == 2 else ["wx"]).prepare()
                own = rng.random() < 0.5
                fm = rng.choice(["XML", "KVN"])
                r = ios["Ndm" + fm[0] + fm[1:].lower() + "Io"] if own else ios["NdmIo"]
                p = os.path.join(d, "f%d" % i)
                if kind in ("bad", "half"):
                    with open(p, "wb") as f:
                        f.write(b"CCSDS_OPM_VERS = 2.0\nCOMMENT \xff\n" * 10 if kind == "bad" else b"<opm><header>")
                if kind == "to!":
                    p = os.path.join(d, "no", "such", "directory")
                if kind == "dir":
                    p = d
                gc.collect()
                before, threads = handles(), threading.active_count()
                res = err = None
                if len(kind) == 2 and kind != "to":
                    op.run(ios, d, "x%d" % i)
                    res, err = op.res, op.err
                else:
                    try:
                        if kind in ("to", "to!"):
                            res = r.to_file(op.obj, p) if own else r.to_file(op.obj, getattr(F(), fm), p)
                        else:
                            res = r.from_path(p)
                    except Exception as e:
                        err = e
                mon.ev("handle_counts")
                mon.cov("calls", (kind, own, type(err).__name__))
                more = handles() - before
                more = {k: v for k, v in links_of(more).items() if not v.startswith("/proc/")}
                what = "%s (%s)" % (kind, "raised %s" % type(err).__name__ if err is not None else "returned")
                mon.diff("open handles after " + what, ["%s" % v for v in more.values()])
                mon.diff("threads after " + what, [] if threading.active_count() == threads else ["there are more"])
                try:
                    kid = os.waitpid(-1, os.WNOHANG)
                except ChildProcessError:
                    kid = None
                mon.diff("children after " + what, [] if kid is None else ["there is one"])
        mon.input(case["s"], 5)

    def release(self, case, mon):
        node, rng = work.make(case, True)
        observe(mon, node)
        mon.input(json.dumps(node.to_json()), 5)
        ios = instances()
        texts = {"XML": xmlio.dumps(node), "KVN": kvn.render(kvn.events(node))}
        for fmt in ("XML", "KVN"):
            own = ios["NdmXmlIo" if fmt == "XML" else "NdmKvnIo"]
            fm = getattr(F(), fmt)
            for name, make, use in (
                    ("read through NdmIo", lambda: ios["NdmIo"].from_string(texts[fmt]), None),
                    ("read through its own class", lambda: own.from_string(texts[fmt]), None),
                    ("written through NdmIo", lambda: obj.to_obj(node), lambda o: ios["NdmIo"].to_string(o, fm)),
                    ("written through its own class", lambda: obj.to_obj(node), lambda o: own.to_string(o)),
                    ("that could not be written", lambda: self.spoil(obj.to_obj(node)), lambda o: ios["NdmIo"].to_string(o, fm))):
                o = lib(name, make)
                if use is not None:
                    try:
                        use(o)
                    except Exception:
                        mon.ev("failed_writes")
                refs = [(type(x).__name__, weakref.ref(x)) for x in mutables(o).values() if hasattr(x, "__dataclass_fields__")]
                x = None
                o = None
                gc.collect()
                alive = sorted({n for n, r in refs if r() is not None})
                mon.ev("released_nodes", len(refs))
                mon.diff("nodes of a %s tree %s (%s) when dropped" % (node.cls, name, fmt), ["still held: %s" % ", ".join(alive)] if alive else [])

    def spoil(self, o):
        o.body = 5
        return o

    def texts(self, case, rng, n):
        out = []
        for i in range(n):
            g = Gen(rng, kvn=True, fill=0.6, maxlist=2, longtext=0)
            node = g.message(case["t"])
            if case["fmt"] == "rk":
                out.append(kvn.render(kvn.events(node)))
            elif case["fmt"] == "rx":
                out.append(xmlio.dumps(node))
            else:
                out.append(node)
        return out

    def growth(self, case, mon):
        rng = random.Random(case["s"])
        ios = instances()
        own, fmt = case["own"], case["fmt"]
        x = fmt[1] == "x"
        io = ios[("NdmXmlIo" if x else "NdmKvnIo") if own else "NdmIo"]
        fm = F().XML if x else F().KVN
        d = []
        for phase in range(4):
            d = self.phase(case, rng, mon, io, own, fm)
            mon.ev("memory_phases")
            if not d:
                # what grew in an earlier phase was built once
                break
        mon.ev("memory_runs")
        mon.cov("growth", (case["t"], fmt, own))
        mon.input(case["s"], 5)
        mon.diff("%s of %s, memory after runs of %d messages" % (fmt, case["t"], case["n"]), d)

    def phase(self, case, rng, mon, io, own, fm):
        """memory after each of six runs of new messages; differences when it keeps growing"""
        runs = [self.texts(case, rng, case["n"]) for _ in range(6)]
        vols = [sum(len(m) if isinstance(m, str) else len(json.dumps(m.to_json())) for m in r) for r in runs]
        runs = [[m if isinstance(m, str) else obj.to_obj(m) for m in r] for r in runs]
        for r in runs:
            for m in r:
                for x in mutables(m).values():
                    getattr(x, "__dict__", None)    # made on demand, and then part of the tree
        levels = []
        tracemalloc.start()
        try:
            for r in runs:
                self.one_run(case, r, mon, io, own, fm)
                # what the object keeps of its last message is always the same
                self.one_run(case, runs[0][:1], mon, io, own, fm)
                gc.collect()
                levels.append(tracemalloc.get_traced_memory()[0])
        finally:
            tracemalloc.stop()
        mon.ev("bytes_processed", sum(vols))
        late = [b - a for a, b in zip(levels[2:], levels[3:])]
        vol = sum(vols[3:]) / 3
        if os.environ.get("VF_SHOW"):
            print("LATE", sum(late), case["t"], case["fmt"], own, vols, levels, late, file=sys.stderr)
        if sum(late) / 3 < vol / 20 + 500:
            return []
        return ["%s bytes more after each of the last runs, which processed %d bytes each" % (late, vol)]

    def one_run(self, case, msgs, mon, io, own, fm):
        for m in msgs:
            try:
                if isinstance(m, str):
                    io.from_string(m)
                    try:
                        io.from_string(m[:len(m) // 2] + ">")
                    except Exception:
                        pass
                elif own:
                    io.to_string(m)
                else:
                    io.to_string(m, fm)
            except Exception as e:
                raise Broken("%s raised %s: %s" % (case["fmt"], type(e).__name__, str(e)[:200]))
            mon.ev("operations")

    def peak(self, case, mon):
        res = []
        for mul in (1, 2, 4):
            n = case["n"] * mul
            rng = random.Random(case["s"])
            if case["p"] is None:
                node = Gen(rng, fill=0.3, pcom=0.0, maxlist=1, longtext=0).message(case["t"])
                node["header"]["comment"] = ["line %d" % i for i in range(n)]
            else:
                chain = next(c for p, f, c in work.paths(case["t"]) if p == case["p"])
                g = Gen(rng, fill=0.2, pcom=0.0, maxlist=1, sizes={case["p"]: n}, longtext=0, force={x: True for x in chain + [case["p"]]})
                g.obs_fields, g.att_types = ["range"], ["QUATERNION"]
                node = g.message(case["t"])
            fm = F().XML if case["fmt"][1] == "x" else F().KVN
            if case["fmt"][0] == "r":
                text = xmlio.dumps(node) if fm is F().XML else kvn.render(kvn.events(node))
                fn = lambda: api().NdmIo().from_string(text)
            else:
                o = obj.to_obj(node)
                fn = lambda: api().NdmIo().to_string(o, fm)
            lib(case["fmt"], fn)
            gc.collect()
            tracemalloc.start()
            try:
                lib(case["fmt"], fn)
                res.append(tracemalloc.get_traced_memory()[1])
            finally:
                tracemalloc.stop()
        mon.ev("memory_runs")
        mon.ev("peaks", 3)
        mon.cov("peaks", (case["t"], case["p"], case["fmt"]))
        mon.input(case["s"], 5)
        a, b, c = res
        if os.environ.get("VF_SHOW"):
            print(case["t"], case["p"], case["fmt"], res, file=sys.stderr)
        mon.diff("%s of %s: highest memory for n, 2n and 4n %s" % (case["fmt"], case["t"], case["p"] or "comments"),
                 [] if c < 7 * a + 100000 else ["%s grows faster than the input" % res])


CHECKS = [C26, C27, C28]
