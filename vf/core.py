"""Runner: plans cases, drives them in worker processes under monitors, judges, records.

A check is a module-like object with
  ID, LEVEL, TECH, RULE, plan(tier) -> [case, ...], run(case, mon), need {event: minimum}
A case is a JSON value; run() reports to the monitor.  Verdicts are three-valued:
  held on what was observed (exit 0), violated (exit 1), inconclusive (exit 3).
"""
import collections
import concurrent.futures as cf
import concurrent.futures.process
import hashlib
import json
import multiprocessing as mp
import os
import pickle
import re
import resource
import signal
import struct
import subprocess
import sys
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
EVID = os.path.join(HERE, "evidence")
REPLAY = os.path.join(EVID, "replay")
LIBDIR = os.path.join(REPO, "ccsds_ndm") + os.sep
CASE_WATCHDOG = 90          # seconds; normal cases take well under one
CPU_LIMIT = 30              # seconds of processor time in one C23 call; normal calls take well under one
STEP_LIMIT = 30_000_000     # library lines in one case; normal cases take < 1e6
MAX_VIOLATIONS = 5
AFTER_FIRST = 20            # seconds the run goes on after its first violation


class Broken(Exception):
    """The library did something the property forbids."""


class Watchdog(BaseException):
    pass


class StepLimit(BaseException):
    pass


class CpuLimit(BaseException):
    pass


class Cpu:
    """Processor time of this process (not wall time): raises CpuLimit beyond a budget that is
    hundreds of times what the largest normal case needs.  Catches work hidden inside C functions."""

    def __init__(self, seconds=CPU_LIMIT):
        self.s = seconds

    def _alarm(self, *a):
        raise CpuLimit("no result after %d s of processor time" % self.s)

    def __enter__(self):
        self.old = signal.signal(signal.SIGVTALRM, self._alarm)
        signal.setitimer(signal.ITIMER_VIRTUAL, self.s)
        return self

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, self.old)


def lib(what, fn, *a, **k):
    """Run a library operation that must succeed."""
    try:
        return fn(*a, **k)
    except Exception as e:
        raise Broken("%s raised %s: %s" % (what, type(e).__name__, str(e)[:300])) from e


class Mon:
    """Per-case monitor: events seen, states covered, problems found."""

    def __init__(self):
        self.events = collections.Counter()
        self.cover = collections.defaultdict(set)
        self.problems = []
        self.sample = None
        self.key = None
        self.nontrivial = False

    def ev(self, name, n=1):
        self.events[name] += n

    def cov(self, space, item):
        self.cover[space].add(item)

    def fail(self, msg):
        self.problems.append(str(msg)[:2000])

    def diff(self, what, d):
        """record a comparison result (list of differences)."""
        self.ev("comparisons")
        if d:
            self.fail("%s: %s" % (what, "; ".join(d[:4])))

    def input(self, text, size=2):
        """register the case's input for distinctness and samples."""
        if not isinstance(text, bytes):
            text = text.encode("utf-8", "surrogatepass")
        self.key = hashlib.blake2b(text + (self.key or b""), digest_size=12).digest()
        if self.sample is None:
            self.sample = text[:600].decode("utf-8", "replace")
        self.nontrivial = self.nontrivial or size >= 2


# ---- instrumentation: which library lines did the workload reach? -------------
_seen_lines = set()
_TOOL = 3


def _on_line(code, line):
    f = code.co_filename
    if f.startswith(LIBDIR):
        _seen_lines.add((f[len(LIBDIR):], line))
    return sys.monitoring.DISABLE


def coverage_on():
    m = sys.monitoring
    try:
        m.use_tool_id(_TOOL, "vf-coverage")
    except ValueError:
        return
    m.register_callback(_TOOL, m.events.LINE, _on_line)
    m.set_events(_TOOL, m.events.LINE)


class Steps:
    """Counts executed library lines (logical time); raises StepLimit beyond a budget."""

    def __init__(self, limit=None, prefix=LIBDIR, tool=4):
        self.n, self.limit, self.prefix, self.tool = 0, limit, prefix, tool
        self.base = limit

    def __enter__(self):
        m = sys.monitoring
        m.use_tool_id(self.tool, "vf-steps")
        m.register_callback(self.tool, m.events.LINE, self._line)
        m.set_events(self.tool, m.events.LINE)
        m.restart_events()
        return self

    def _line(self, code, line):
        if not code.co_filename.startswith(self.prefix) or code.co_filename.startswith(HERE):
            return sys.monitoring.DISABLE
        self.n += 1
        if self.limit and self.n > self.limit:
            # raised again only much later, should somebody swallow it
            self.limit = self.n + self.base
            raise StepLimit("no result after %d library lines" % (self.n - 1))

    def __exit__(self, *a):
        m = sys.monitoring
        m.set_events(self.tool, 0)
        m.register_callback(self.tool, m.events.LINE, None)
        m.free_tool_id(self.tool)


def library_lines():
    """(file, line) of executable lines of the library (models and tests excluded)."""
    res = set()
    for d, sub, files in os.walk(LIBDIR):
        sub[:] = [s for s in sub if s not in ("tests", "models", "__pycache__")]
        for f in files:
            if f.endswith(".py"):
                p = os.path.join(d, f)
                with open(p, encoding="utf-8") as h:
                    todo = [compile(h.read(), p, "exec", dont_inherit=True)]
                while todo:
                    c = todo.pop()
                    if c.co_name != "<module>":
                        res.update((p[len(LIBDIR):], ln) for _, _, ln in c.co_lines() if ln)
                    todo.extend(x for x in c.co_consts if hasattr(x, "co_code"))
    return res


def known_findings(pid):
    """the committed findings of a property: [{id, input, reads, text}]"""
    out = []
    with open(os.path.join(HERE, "known-findings.txt"), encoding="utf-8") as f:
        for line in f:
            m = re.match(r'finding: property=(\w+) id=(\w+) input="([^"]*)" reads="([^"]*)" (.*)', line.strip())
            if m and m.group(1) == pid:
                out.append(dict(id=m.group(2), input=m.group(3), reads=m.group(4), text=m.group(5)))
    return out


# ---- one case ---------------------------------------------------------------
def _alarm(*a):
    raise Watchdog()


def guarded(mon, fn, case):
    """run a case; what the library forbids itself or what cannot be interpreted is a problem found"""
    try:
        fn(case, mon)
    except Broken as e:
        mon.fail(e)
    except Exception as e:
        # The harness interprets what the library returned; on code where the
        # property holds this is total, so a crash here is a malformed result.
        tb = traceback.extract_tb(e.__traceback__)
        where = " < ".join("%s:%d" % (os.path.basename(t.filename), t.lineno) for t in tb[-4:])
        mon.fail("result could not be interpreted: %s: %s (%s)" % (type(e).__name__, str(e)[:200], where))


# ---- cases in a process where the library has done nothing yet ------------------------------
_zygote = None


def _exactly(f, n):
    data = b""
    while len(data) < n:
        b = f.read(n - len(data))
        if not b:
            raise Watchdog()
        data += b
    return data


def cold(check, case, mon):
    """run check.run_cold(case) in a new process, and take over what its monitor saw"""
    global _zygote
    if _zygote is None or _zygote[0] != os.getpid() or _zygote[1].poll() is not None:
        p = subprocess.Popen([sys.executable, "-B", "-W", "ignore", os.path.join(HERE, "vf", "zygote.py")],
                             stdin=subprocess.PIPE, stdout=subprocess.PIPE)
        _zygote = (os.getpid(), p)
    p = _zygote[1]
    try:
        p.stdin.write(json.dumps([check.ID, case]).encode() + b"\n")
        p.stdin.flush()
        st, n = struct.unpack("<ii", _exactly(p.stdout, 8))
        data = _exactly(p.stdout, n)
    except (Watchdog, OSError):
        p.kill()
        p.wait()
        _zygote = None
        raise Watchdog()
    if not data:
        if os.WIFSIGNALED(st) and os.WTERMSIG(st) == signal.SIGALRM:
            raise Watchdog()    # too slow is no verdict
        raise Broken("the process died (status %d)" % st)
    got, lines = pickle.loads(data)
    mon.ev("cold_processes")
    mon.events.update(got.events)
    for k, s in got.cover.items():
        mon.cover[k] |= s
    mon.problems += got.problems
    _seen_lines.update(lines)
    mon.sample = mon.sample or got.sample
    if got.key is not None:
        mon.key = hashlib.blake2b(got.key + (mon.key or b""), digest_size=12).digest()
    mon.nontrivial = mon.nontrivial or got.nontrivial
    return got


def run_case(check, case, watchdog=CASE_WATCHDOG):
    mon = Mon()
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, watchdog)
    verdict = "ok"
    try:
        try:
            guarded(mon, check.run, case)
        except Watchdog:
            verdict = "watchdog"
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
    except Watchdog:
        verdict = "watchdog"
    if verdict == "watchdog":
        # wall clock is no verdict: decide again on logical steps
        mon = Mon()
        signal.setitimer(signal.ITIMER_REAL, 4 * watchdog)
        try:
            with Steps(STEP_LIMIT, tool=5):
                check.run(case, mon)
            verdict = "ok"
        except StepLimit as e:
            mon.fail(e)
        except Watchdog:
            verdict = "inconclusive"
        except Broken as e:
            mon.fail(e)
        except Exception as e:
            mon.fail("result could not be interpreted: %r" % e)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
    return mon, ("violated" if mon.problems else "inconclusive" if verdict != "ok" else "ok")


def _init_worker():
    warnings.simplefilter("ignore")
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    coverage_on()


_check = None
_bad_count = mp.get_context("fork").Value("i", 0)
_bad_since = mp.get_context("fork").Value("d", 0.0)


def _enough():
    """Enough violations seen, by whichever worker: the rest of the plan adds nothing."""
    n = _bad_count.value
    return n >= MAX_VIOLATIONS or (n and time.monotonic() - _bad_since.value > AFTER_FIRST)


def _work(chunk):
    res = dict(n=0, events=collections.Counter(), cover=collections.defaultdict(set), keys=set(),
               trivial=0, bad=[], incon=[], samples=[], lines=None, kinds=collections.Counter())
    for case in chunk:
        if _enough():
            break
        mon, v = run_case(_check, case)
        res["n"] += 1
        res["kinds"][str(case.get("k", "case"))] += 1
        res["events"].update(mon.events)
        for k, s in mon.cover.items():
            res["cover"][k] |= s
        if mon.key is not None and mon.nontrivial:
            res["keys"].add(mon.key)
        else:
            res["trivial"] += 1
        if len(res["samples"]) < 1 and mon.sample:
            res["samples"].append(dict(case=case, input=mon.sample, events=dict(mon.events)))
        if v == "violated":
            res["bad"].append((case, mon.problems))
            with _bad_count.get_lock():
                _bad_count.value += 1
                if _bad_count.value == 1:
                    _bad_since.value = time.monotonic()
        elif v == "inconclusive":
            res["incon"].append(case)
    res["lines"] = set(_seen_lines)
    return res


def run_check(check, tier=None, seed=None, jobs=None):
    global _check
    tier = tier or TIER
    seed = SEED if seed is None else seed
    jobs = jobs or int(os.environ.get("VF_JOBS", "0")) or os.cpu_count() or 4
    t0 = time.time()
    _check = check
    check.seed = seed
    if hasattr(check, "setup"):
        check.setup(tier)
    cases = check.plan(tier)
    import random
    random.Random("order/%s" % seed).shuffle(cases)
    size = max(1, min(40, len(cases) // (jobs * 6) or 1))
    chunks = [cases[i:i + size] for i in range(0, len(cases), size)]
    tot = dict(n=0, events=collections.Counter(), cover=collections.defaultdict(set), keys=set(), trivial=0,
               bad=[], incon=[], samples=[], lines=set(), kinds=collections.Counter())
    died = None
    _bad_count.value = 0
    pool = cf.ProcessPoolExecutor(jobs, mp_context=mp.get_context("fork"), initializer=_init_worker)
    try:
        for fut in cf.as_completed([pool.submit(_work, c) for c in chunks]):
            r = fut.result()
            tot["n"] += r["n"]
            for k in ("events", "kinds"):
                tot[k].update(r[k])
            for k, s in r["cover"].items():
                tot["cover"][k] |= s
            tot["keys"] |= r["keys"]
            tot["trivial"] += r["trivial"]
            tot["bad"] += r["bad"]
            tot["incon"] += r["incon"]
            tot["lines"] |= r["lines"]
            if len(tot["samples"]) < 3:
                tot["samples"] += r["samples"]
            if tot["bad"] and _enough():
                break
    except cf.process.BrokenProcessPool as e:
        died = "a worker process died: %s" % e
    procs = list((pool._processes or {}).values())
    pool.shutdown(wait=not tot["bad"], cancel_futures=True)
    if tot["bad"]:
        for p in procs:     # our own workers: a violation is decided, the rest need not finish
            p.kill()
    # known findings are re-observed by fixed probes
    found = []
    for kf in getattr(check, "findings", lambda: [])():
        found.append(kf)
    # violations
    os.makedirs(REPLAY, exist_ok=True)
    tot["bad"].sort(key=lambda b: json.dumps(b[0], sort_keys=True, default=str))
    paths = []
    for i, (case, problems) in enumerate(tot["bad"][:MAX_VIOLATIONS]):
        p = os.path.join(REPLAY, "%s-%d.json" % (check.ID, i))
        with open(p, "w") as f:
            json.dump(dict(property=check.ID, case=case, seed=seed, problems=problems,
                           rerun="/verif/check %s --replay %s" % (check.ID, p)), f, indent=1, default=str)
        paths.append((p, problems))
    missing = ["%s: %d < %d" % (k, tot["events"][k], v) for k, v in getattr(check, "need", {}).items()
               if tot["events"][k] < v]
    allx = library_lines()
    cov = dict(
        evaluations=tot["n"],
        distinct_nontrivial=len(tot["keys"]),
        rule=check.RULE,
        samples=tot["samples"][:3],
        cases_by_kind=dict(sorted(tot["kinds"].items())),
        monitor_events=dict(sorted(tot["events"].items())),
        states_seen={k: len(s) for k, s in sorted(tot["cover"].items())},
        library_lines_reached=len(tot["lines"] & allx),
        library_lines_total=len(allx),
        inconclusive_cases=len(tot["incon"]),
    )
    small = {k: sorted(map(str, s)) for k, s in tot["cover"].items() if len(s) <= 40}
    if small:
        cov["states_listed"] = small
    if hasattr(check, "extra"):
        cov.update(check.extra(tot))
    ev = dict(property=check.ID, tier=tier, seed=seed, level=check.LEVEL, coverage=cov,
              assumptions=check.ASSUME, wall_s=round(time.time() - t0, 2), violations=len(tot["bad"]))
    os.makedirs(EVID, exist_ok=True)
    tmp = os.path.join(EVID, ".%s.tmp" % check.ID)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(tmp, os.path.join(EVID, check.ID + ".json"))

    for line in found:
        print("KNOWN-FINDING: property=%s %s" % (check.ID, line))
    if paths:
        for p, problems in paths:
            for x in problems[:3]:
                print("  " + x[:400].replace("\n", "\\n"))
            print("VIOLATION property=%s replay=%s" % (check.ID, p))
        return 1
    if tot["incon"] or missing or died:
        print("INCONCLUSIVE property=%s hung=%d unmet=%s %s" % (check.ID, len(tot["incon"]), missing, died or ""))
        return 3
    print("HELD property=%s executions=%d distinct=%d comparisons=%d lines=%d/%d wall=%.1fs" % (
        check.ID, tot["n"], len(tot["keys"]), tot["events"]["comparisons"],
        cov["library_lines_reached"], len(allx), ev["wall_s"]))
    return 0


def replay(check, path):
    with open(path) as f:
        d = json.load(f)
    check.seed = d["seed"]
    if hasattr(check, "setup"):
        check.setup(TIER)
    warnings.simplefilter("ignore")
    mon, v = run_case(check, d["case"])
    for p in mon.problems:
        print("  " + p)
    print("replay of %s: %s" % (d["case"], v))
    return 1 if v == "violated" else 0
