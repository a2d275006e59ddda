"""Checks of the surroundings: the same operations in processes of every kind."""
import json
import os
import random
import subprocess
import sys

from .base import Check, tmpdir
from .core import HERE, REPO, Watchdog

DEPS = ["lxml.etree", "xsdata.formats.dataclass.parsers", "xsdata.formats.dataclass.serializers", "xsdata.formats.dataclass.parsers.config",
        "xsdata.models.datatype", "xml.etree.ElementTree", "xml.parsers.expat", "pathlib", "decimal", "enum", "dataclasses", "json", "re", "copy"]
MODULES = ["ccsds_ndm.ndm_io", "ccsds_ndm.ndm_xml_io", "ccsds_ndm.ndm_kvn_io", "ccsds_ndm.models.ndmxml2"]

# notices of deprecation come from the dependencies, whose versions are not the library's business
QUIET = ["-W", "ignore::DeprecationWarning", "-W", "ignore::PendingDeprecationWarning"]
FLAGS = {
    "plain": [], "optimised": ["-O"], "no docstrings": ["-OO"], "bytes strict": ["-bb"], "warnings are errors": ["-W", "error", *QUIET],
    "warnings always": ["-W", "always", *QUIET], "development mode": ["-X", "dev", *QUIET], "utf8 mode": ["-X", "utf8=1"], "no utf8 mode": ["-X", "utf8=0"],
    "isolated": ["-I"], "no site": ["-s", "-E"], "encoding warnings": ["-X", "warn_default_encoding", "-W", "error::EncodingWarning"],
    "few integer digits": ["-X", "int_max_str_digits=640"], "unlimited integer digits": ["-X", "int_max_str_digits=0"], "unbuffered": ["-u"],
    "safe path": ["-P"], "no ranges": ["-X", "no_debug_ranges"], "no frozen modules": ["-X", "frozen_modules=off"],
}
ENVS = {
    "plain": {}, "empty": None, "C": dict(LC_ALL="C", LANG="C"), "turkish": dict(LANG="tr_TR.UTF-8", LC_ALL="tr_TR.UTF-8"),
    "ascii streams": dict(PYTHONIOENCODING="ascii:strict"), "tz": dict(TZ="America/St_Johns"), "tz2": dict(TZ="Pacific/Kiritimati"),
    "no home": dict(HOME="/nonexistent", TMPDIR="/nonexistent", USER=""), "terminal": dict(COLUMNS="10", LINES="3", TERM="dumb", NO_COLOR="1"),
    "debug": dict(DEBUG="1", XSDATA_DEBUG="1", CCSDS_DEBUG="1", LOGLEVEL="DEBUG", VERBOSE="1"), "proxies": dict(http_proxy="http://127.0.0.1:9", XML_CATALOG_FILES="/nonexistent"),
    "malloc": dict(PYTHONMALLOC="debug"), "date": dict(SOURCE_DATE_EPOCH="0"),
}
HOOKS = [None, "thread", "smallstack", "nogc", "gc", "fork", "asyncio", "trace", "profile", "tracemalloc", "context", "nodir", "nostreams",
         "closedstreams", "recursion", "logging", "exec", "strict-decimal",
         "small-decimal", "signals", "one cpu", "few handles", "exit", "terminal", "real terminal", "all variables"]
# dates on which the operations take place (seconds since 1970)
CLOCKS = [0, 86399, 951782399, 1078012800, 2147483646, 4294967297, 4102444799, 7258118400, 9000000000]
SHIM = r"""
#define _GNU_SOURCE
#include <stdlib.h>
#include <time.h>
#include <unistd.h>
#include <sys/time.h>
#include <sys/syscall.h>
static long long shift(void)
{
    static long long s; static int known;
    if (!known) {
        struct timespec t; char *e = getenv("VF_CLOCK");
        syscall(SYS_clock_gettime, CLOCK_REALTIME, &t);
        s = e ? atoll(e) - t.tv_sec : 0; known = 1;
    }
    return s;
}
int clock_gettime(clockid_t c, struct timespec *t)
{
    int r = syscall(SYS_clock_gettime, c, t);
    if (r == 0 && (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE)) t->tv_sec += shift();
    return r;
}
int gettimeofday(struct timeval *restrict v, void *restrict z)
{
    struct timespec t; clock_gettime(CLOCK_REALTIME, &t);
    v->tv_sec = t.tv_sec; v->tv_usec = t.tv_nsec / 1000; return 0;
}
time_t time(time_t *p)
{
    struct timespec t; clock_gettime(CLOCK_REALTIME, &t);
    if (p) *p = t.tv_sec;
    return t.tv_sec;
}
"""


class C30(Check):
    ID = "C30"
    TECH = "runtime differential oracle over processes of every kind; every result also judged by its own model"
    RULE = ("the same reads, writes and refused operations in new processes that differ in hash seed, interpreter options (-O, -OO, -bb, -W error, "
            "-X dev, ...), environment, order of imports and circumstances (threads, small stacks, forked children, tracing, no or frequent "
            "collection, no standard streams, a terminal, any environment variable set, no directory, small decimal contexts, interval signals, at exit, at other dates): every result is judged by the model, and the results of one and the same batch are "
            "equal in all of them, to the byte; nothing is printed; importing changes nothing; distinct by process and batch")
    need = {"processes": 60, "operations": 1500, "failed": 100, "imports_watched": 60, "clocks_shifted": 4}

    def plan(self, tier):
        s, c = self.seed, []
        reps = self.scale(tier, 1, 8)
        rng = random.Random("%s/env" % s)
        order = lambda: rng.sample(MODULES, rng.choice([1, 2, 4]))

        def add(name, **k):
            c.append(dict(dict(k="process", name=name, flags="plain", env="plain", hook=None, hash=rng.randrange(1, 10 ** 6), order=order(),
                               s="%s/env/%d" % (s, len(c))), **k))
        for r in range(reps):
            for f in FLAGS:
                add("flags " + f, flags=f)
            for e in ENVS:
                add("environment " + e, env=e)
            for h in HOOKS:
                add("hook %s" % h, hook=h)
            for i in range(12):
                add("hash seed")
            for m in MODULES:
                add("import " + m, order=[m])
            for t in CLOCKS:
                add("date", clock=t, env=rng.choice(["plain", "plain", "tz", "tz2"]))
            for i in range(8):
                add("mixture", flags=rng.choice(list(FLAGS)), env=rng.choice(list(ENVS)), hook=rng.choice(HOOKS))
        return c

    def setup(self, tier):
        """what the common batch gives in this, the usual kind of process"""
        self.ref = None
        n = 14
        self.n = n
        try:
            with tmpdir() as d:
                self.ref = self.process(dict(flags="plain", env="plain", hook=None, hash=0, order=MODULES, s="%s/env/ref" % self.seed), d, n)
        except Watchdog:
            pass

    def process(self, case, d, n):
        job = dict(here=HERE, repo=REPO, result=os.path.join(d, "result"), common="%s/common" % self.seed, seed=case["s"], n=n,
                   order=case["order"], deps=DEPS, hook=case["hook"], tmp=d, clock=case.get("clock"))
        p = os.path.join(d, "job")
        with open(p, "w") as f:
            json.dump(job, f)
        extra = ENVS[case["env"]]
        env = {} if extra is None else {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
        env.update(PYTHONHASHSEED=str(case["hash"]), PYTHONDONTWRITEBYTECODE="1", VF_REPO=REPO)
        env.setdefault("PATH", os.environ.get("PATH", ""))
        if extra is None:
            env.pop("PATH")
        env.update(extra or {})
        # each process may only read and write below its own directory
        env["VF_TMP"] = d
        if case.get("clock") is not None:
            so = os.path.join(d, "clock.so")
            with open(so[:-2] + "c", "w") as f:
                f.write(SHIM)
            cc = subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-o", so, so[:-2] + "c"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            if cc.returncode == 0:
                env.update(LD_PRELOAD=so, VF_CLOCK=str(case["clock"]))
        try:
            r = subprocess.run([sys.executable, "-B"] + FLAGS[case["flags"]] + [os.path.join(HERE, "vf", "env_worker.py"), p], env=env,
                               stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=80)
        except subprocess.TimeoutExpired:
            raise Watchdog()
        try:
            with open(job["result"], encoding="utf-8") as f:
                res = json.load(f)
        except (OSError, ValueError):
            res = dict(problems=["no result (status %d)" % r.returncode], digests=[], events={}, done=False)
        out = (r.stdout + r.stderr).decode("utf-8", "replace")
        if not res["done"]:
            res["problems"].append("the process failed: %s" % out[-600:])
        elif out.strip():
            res["problems"].append("something was printed: %s" % out[:300])
        return res

    def run(self, case, mon):
        if self.ref is None:
            raise Watchdog()
        with tmpdir() as d:
            r = self.process(case, d, self.n)
        for k, v in r["events"].items():
            mon.ev(k, v)
        mon.ev("processes")
        mon.cov("process_kinds", case["name"])
        mon.cov("hash_seeds", case["hash"])
        mon.cov("import_orders", tuple(case["order"]))
        mon.input(json.dumps(case, sort_keys=True), 5)
        mon.diff("process (%s)" % case["name"], r["problems"])
        ref = self.ref["problems"]
        mon.diff("the usual process", ref)
        if not r["problems"] and not ref:
            a, b = r["digests"], self.ref["digests"]
            mon.diff("results of the common batch (%s, hash seed %d)" % (case["name"], case["hash"]), [] if a == b else [
                "operation %d differs from the usual process" % next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))])
            mon.ev("digests", len(a))


CHECKS = [C30]
