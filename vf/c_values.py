"""Checks of single values and of trees as values: unreadable values, equality, copies."""
import copy
import decimal
import json
import os
import pickle
import random
import subprocess
import sys
import warnings

from . import kvn, obj, work, xmlio
from .base import (Check, Node, TYPES, api, count_leaves, fields, kvn_text_diff, lib, observe, read, tmpdir, write_kvn, write_xml, xml_diff)
from .c_formats import snapdiff, textdiff
from .c_system import mutables
from .core import REPO
from .gen import Gen
from .schema import ENUMS

STRUCTURAL = {"attitude_type", "quaternion_type", "euler_rot_seq", "angle", "rate"}


def sites(node, path=()):
    """(owner node, field, index or None, path) of every typed leaf."""
    for f in fields(node.cls):
        v = node.get(f["py"])
        if "fixed" in f or v is None:
            continue
        lst = f.get("list")
        for k, i in enumerate(v if lst else [v]):
            p = path + ((f["py"], k if lst else None),)
            if f["base"] == "class":
                yield from sites(i, p)
            elif f["py"] != "comment":
                yield node, f, k if lst else None, p


def follow(o, path):
    for py, k in path:
        o = getattr(o, py)
        if k is not None:
            o = o[k]
    return o


def put(o, path, value):
    own = follow(o, path[:-1])
    py, k = path[-1]
    if k is None:
        setattr(own, py, value)
    else:
        getattr(own, py)[k] = value


def lists(node):
    """(node, field) of every list in use."""
    for f in fields(node.cls):
        v = node.get(f["py"])
        if "fixed" in f or v is None:
            continue
        if f.get("list") and v:
            yield node, f
        if f["base"] == "class":
            for i in v if f.get("list") else [v]:
                yield from lists(i)


def share(node, memo):
    """the tree of a message, with one object (or list) for all parts that are equal"""
    key = (node.cls, json.dumps(node.to_json(), sort_keys=True))
    memo.setdefault("places", 0)
    if key in memo:
        memo["places"] += 1
        return memo[key]
    o = obj.to_obj(Node(node.cls))
    for f in fields(node.cls):
        v = node.get(f["py"])
        if v is None or "fixed" in f or (v == "" and f["py"] == "value"):
            continue
        items = [share(i, memo) if f["base"] == "class" else obj.conv(f, i) for i in (v if f.get("list") else [v])]
        if f.get("list"):
            k = (f["ref"] if f["base"] == "class" else f["base"], json.dumps([i.to_json() if isinstance(i, Node) else i for i in v], sort_keys=True))
            if k in memo:
                memo["places"] += 1
            setattr(o, f["py"], memo.setdefault(k, items))
        else:
            setattr(o, f["py"], items[0])
    memo[key] = o
    return o


class C24(Check):
    ID = "C24"
    TECH = "runtime oracle: one unreadable value planted in a generated message, both formats and directions"
    RULE = ("one leaf (number, integer, code or unit; every position of every type, and random ones) of a generated message is "
            "replaced by a text that is not of its type; reading must raise, or keep the text in its place, warn and leave all "
            "other values as they are; writing the tree must raise or show the text; non-trivial = the value was unreadable; "
            "distinct by text")
    need = {"comparisons": 500}
    NUM = ["abc", "1.2.3", "12abc", "--1", "1,5", "0x10", "N/A", "1e", "\u00bd", "+-2", "1.0E+-3", "3.1.", "-", ".", "e5", "1d3", "?", "unknown",
           "12:30", "5%", "1/3", "1.5D3", "1D+3", "2.5D-03", "\u22125", "1.5f", "~5", "<5", "1.5E 3", "'5'", "\"5\"", "5,", "5;", "(5)", "1 000",
           "1e5.5", "TRUE", "1'000", "1.0L", "1+3", "1^3", "10**3", "1.5x10^3", "#5", "$5", "5.0+", "5-"]
    INT = NUM[:8] + ["1.5", "1e3", "7.0.1"]
    CODE = ["NOPE", "kmm", "S/C", "1x", "KM^2", "unknown", "deg!", "\u00b0", "x_y", "***"]

    def plan(self, tier):
        s, c = self.seed, []
        for t in TYPES:
            for p, f, chain in work.paths(t):
                if f["base"] in ("decimal", "int", "enum"):
                    for i in range(self.scale(tier, 1, 6)):
                        c.append(dict(k="site", t=t, s="%s/site/%s/%s/%d" % (s, t, p, i), p=p,
                                      g=dict(fill=0.3, units=1.0, maxlist=2, longtext=0, force={x: True for x in chain + [p]})))
        for i in range(self.scale(tier, 1500, 20000)):
            c.append(dict(k="random", t=TYPES[i % 8], s="%s/rnd/%s/%d" % (s, TYPES[i % 8], i),
                          g=dict(fill=[0.2, 0.6, 1.0][i % 3], units=0.8, maxlist=3, longtext=0)))
        for i in range(self.scale(tier, 8, 64)):
            c.append(dict(k="process", t=TYPES[i % 8], s="%s/prc/%s/%d" % (s, TYPES[i % 8], i), g=dict(fill=0.6, units=0.8, maxlist=1, longtext=0)))
        return c

    def process(self, text, what, mon):
        """what a user sees who runs a program of his own: an error, or a warning"""
        with tmpdir() as d:
            p = os.path.join(d, "message")
            with open(p, "w", encoding="utf-8") as h:
                h.write(text)
            env = {k: v for k, v in os.environ.items() if k != "PYTHONWARNINGS"}
            r = subprocess.run([sys.executable, "-B", "-c", "import sys; sys.path.insert(0, sys.argv[2])\n"
                                "from ccsds_ndm.ndm_io import NdmIo\nNdmIo().from_path(sys.argv[1])\nprint('was read')", p, REPO],
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=d)
        said = b"Warning" in r.stderr
        mon.ev("processes")
        mon.diff(what, [] if r.returncode or said else ["a program reading it is given neither an error nor a warning"])

    def run(self, case, mon):
        node, rng = work.make(case, True)
        cand = [x for x in sites(node) if x[1]["base"] in ("decimal", "int", "enum")]
        if case["k"] == "site":
            own = [x for x in cand if x[0].cls + "." + x[1]["py"] == case["p"]]
            cand = own or cand
        if not cand:
            return
        n, f, k, path = rng.choice(cand)
        bad = rng.choice({"decimal": self.NUM, "int": self.INT, "enum": self.CODE}[f["base"]])
        if f["base"] == "enum" and rng.random() < 0.5:
            # nearly one of its codes
            v = rng.choice(sorted(ENUMS[f["ref"]]))
            bad = rng.choice([v.lower(), v.upper(), v.swapcase(), v.title(), v + "s", v + "x", v[:-1], v.replace("/", " / "), v.replace("**", "^"),
                              v.replace("_", " "), v.replace("/", " per "), v.replace("**", ""), v + v, v + "0", "x" + v]).strip() or bad
            mon.ev("nearly_codes")
        if f["base"] == "enum" and bad in ENUMS[f["ref"]]:
            return
        good = n[f["py"]] if k is None else n[f["py"]][k]
        bnode = node.copy()
        bn = bnode
        for py, i in path[:-1]:
            bn = bn[py] if i is None else bn[py][i]
        if k is None:
            bn[f["py"]] = bad
        else:
            bn[f["py"]][k] = bad
        mon.cov("unreadable_positions", n.cls + "." + f["py"])
        mon.cov("unreadable_texts", bad)
        unit = n.get("units") if f["py"] == "value" else None
        texts = [("XML", xmlio.dumps(bnode))]
        structural = f["py"] in STRUCTURAL
        if not structural:
            texts.append(("KVN", kvn.render(kvn.events(bnode))))
        for fmt, text in texts:
            mon.input(text, 2)
            if case["k"] == "process":
                self.process(text, "%s with %r as %s.%s" % (fmt, bad, n.cls, f["py"]), mon)
                continue
            with warnings.catch_warnings(record=True) as log:
                warnings.simplefilter("always")
                try:
                    o = api().NdmIo().from_string(text)
                except Exception:
                    o = None
            what = "%s with %r as %s.%s" % (fmt, bad, n.cls, f["py"])
            if o is None:
                mon.ev("refused")
                mon.diff(what, [])
                continue
            mon.ev("kept")
            mon.ev("warnings_seen", 1 if log else 0)
            try:
                got = follow(o, path)
            except (AttributeError, IndexError, TypeError) as e:
                mon.diff(what, ["the place of the value is gone (%s)" % e])
                continue
            ok = type(got) is str and got.strip() == bad
            if not ok and fmt == "KVN" and unit is not None and type(got) is str and "[" in got:
                # not taken for a number with unit, all of it is the text
                a, _, b = got.partition("[")
                ok = a.strip() == bad and b.strip().rstrip("]").strip() == unit
                if ok and getattr(follow(o, path[:-1]), "units") is None:
                    put(o, path[:-1] + (("units", None),), obj.conv(next(g for g in fields(n.cls) if g["py"] == "units"), unit))
            mon.diff(what, [] if ok else ["was read as %r" % (got,)])
            mon.diff(what, [] if log else ["was read without a warning"])
            if not ok:
                continue
            put(o, path, obj.conv(f, good))
            mon.diff("the rest of " + what, (obj.diff if fmt == "XML" else obj.diff_kvn)(node, o))
            if fmt == "KVN":
                continue
            put(o, path, bad)
            for out in ("XML",) if structural else ("XML", "KVN"):
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    try:
                        t = api().NdmIo().to_string(o, getattr(api().NDMFileFormats, out))
                    except Exception:
                        mon.ev("writing_refused")
                        continue
                mon.ev("writing_kept")
                mon.diff("%s output of a tree with %r as %s.%s" % (out, bad, n.cls, f["py"]),
                         (xml_diff if out == "XML" else kvn_text_diff)(bnode, t))


class C25(Check):
    ID = "C25"
    TECH = "runtime oracle: equality, copies and pickles of trees against the values they were built from"
    RULE = ("trees built from generated messages or read from them: equal to a tree of the same values, different as soon as one "
            "value, list item or place differs (every leaf of small messages, a sample of large ones); deep copies and pickles "
            "equal, independent and with the same outputs; trees in which equal parts are one object written as trees of copies; new objects empty; non-trivial = at least 5 values; distinct by message")
    need = {"comparisons": 2000, "leaf_changes": 2000, "quantities_by_position": 200, "shared_places": 500}

    def plan(self, tier):
        s = self.seed
        c = list(work.rand(s, TYPES, self.scale(tier, 400, 6000), maxlist=2))
        for t in TYPES:
            for p, f, chain in work.paths(t):
                if f["base"] != "class":
                    c.append(dict(k="field", t=t, s="%s/field/%s/%s" % (s, t, p), p=p,
                                  g=dict(fill=0.0, pcom=0.0, maxlist=1, longtext=0, force={x: True for x in chain + [p]})))
        c += list(work.observations(s)) + list(work.attitude(s, 1, fill=0.0))[:40]
        c += [dict(k="combined", s="%s/comb/%d" % (s, i)) for i in range(self.scale(tier, 30, 300))]
        c += list(work.rand(s, TYPES, self.scale(tier, 240, 4000), tag="shared", maxlist=3))
        return c

    def run(self, case, mon):
        if case["k"] == "shared":
            return self.shared(case, mon)
        if case["k"] == "combined":
            rng = random.Random(case["s"])
            node = Gen(rng, maxlist=1).combined(rng.choice([2, 3]))
        else:
            node, rng = work.make(case, True)
        observe(mon, node)
        mon.input(json.dumps(node.to_json()), count_leaves(node) - 3)
        a, b = obj.to_obj(node), obj.to_obj(node)
        if rng.random() < 0.5 and node.cls != "Ndm":
            b = read(xmlio.dumps(node))
        mon.diff("trees of the same values", self.eq(a, b, True))
        leaves = list(sites(node))
        if case["k"] == "field":
            mine = [x for x in leaves if x[0].cls + "." + x[1]["py"] == case["p"]]
            leaves = mine + rng.sample(leaves, min(3, len(leaves)))
        elif len(leaves) > 25:
            leaves = rng.sample(leaves, 25)
        for n, f, k, path in leaves:
            old = follow(b, path)
            if old is None:
                continue    # an empty user-defined value
            new = self.other(f, old, rng)
            for x in [new] + ([None] if k is None else []):
                if x is old:
                    continue
                put(b, path, x)
                mon.ev("leaf_changes")
                mon.diff("trees that differ in %s.%s (%r, %r)" % (n.cls, f["py"], old, x), self.eq(a, b, False))
            put(b, path, old)
            mon.cov("leaf_positions", n.cls + "." + f["py"])
        mon.diff("trees of the same values again", self.eq(a, b, True))
        for lst in [m for m in mutables(b).values() if isinstance(m, list)][:40]:
            lst.append(lst[-1] if lst else "x")
            mon.diff("trees that differ in the length of a list", self.eq(a, b, False))
            lst.pop()
        # copies
        snap = obj.snapshot(a)
        fmts = ["XML"] if node.cls == "Ndm" else ["XML", "KVN"]
        outs = [(write_xml if x == "XML" else write_kvn)(a) for x in fmts]
        for how, fn in (("deep copy", copy.deepcopy), ("pickle", lambda x: pickle.loads(pickle.dumps(x)))):
            c = lib(how, fn, a)
            mon.diff(how, snapdiff(snap, obj.snapshot(c)) + self.eq(a, c, True))
            both = set(mutables(a)) & set(mutables(c))
            mon.diff(how, ["shares a %s with the original" % type(mutables(a)[both.pop()]).__name__] if both else [])
            for x, t in zip(fmts, outs):
                u = (write_xml if x == "XML" else write_kvn)(c)
                mon.diff("%s output of a %s" % (x, how), [] if t == u else [textdiff(t, u)])
        # new objects
        for cls in {n.cls for n, *_ in leaves} | {node.cls}:
            x, y = getattr(obj.models(), cls, None), None
            if x is None:
                continue
            if [f["py"] for f in fields(cls)] == ["value", "units"]:
                for n, f, k, path in leaves:
                    if n.cls == cls and f["py"] == "value":
                        # as the documentation shows it: LengthType(Decimal(800), LengthUnits.M)
                        q = follow(a, path[:-1])
                        mon.ev("quantities_by_position")
                        mon.diff("%s(value, unit)" % cls, self.eq(x(q.value, q.units), q, True) + self.eq(x(q.value), x(value=q.value), True))
            x, y = x(), x()
            mon.diff("new %s objects" % cls, self.eq(x, y, True))
            both = set(mutables(x)) & set(mutables(y))
            mon.diff("new %s objects" % cls, ["share a %s" % type(mutables(x)[both.pop()]).__name__] if both else [])
            d = []
            for f in fields(cls):
                v = getattr(x, f["py"])
                want = f["fixed"] if "fixed" in f else [] if f.get("list") else None
                if v != want and not (f["py"] == "value" and v == ""):
                    d.append("%s is %r" % (f["py"], v))
            mon.diff("new %s object" % cls, d)

    def shared(self, case, mon):
        """the same object in several places is written as if each place had its own copy"""
        node, rng = work.make(case, True)
        for n, f in [x for x in lists(node)]:
            v = n[f["py"]]
            if f.get("max_occurs") or rng.random() < 0.5:
                continue
            i = v[rng.randrange(len(v))]
            n[f["py"]] = v + [i] if rng.random() < 0.5 else [i] + v
        observe(mon, node)
        mon.input(json.dumps(node.to_json()), count_leaves(node) - 3)
        memo = {}
        o = share(node, memo)
        mon.ev("shared_places", memo["places"])
        snap = obj.snapshot(o)
        mon.diff("tree with shared parts", self.eq(o, obj.to_obj(node), True))
        for i in range(2):
            mon.diff("XML output of a tree with shared parts", xml_diff(node, write_xml(o)))
            mon.diff("KVN output of a tree with shared parts", kvn_text_diff(node, write_kvn(o)))
        mon.diff("tree with shared parts after writing", snapdiff(snap, obj.snapshot(o)))
        for how, fn in (("deep copy", copy.deepcopy), ("pickle", lambda x: pickle.loads(pickle.dumps(x)))):
            c = lib(how, fn, o)
            mon.diff(how + " of a tree with shared parts", self.eq(o, c, True))
            mon.diff("XML output of a %s of a tree with shared parts" % how, xml_diff(node, write_xml(c)))

    def eq(self, a, b, want):
        r = [a == b, b == a, not (a != b), not (b != a)]
        return [] if r == [want] * 4 else ["compare as %s, must be %s" % (r, want)]

    def other(self, f, old, rng):
        if f["base"] == "enum":
            vs = [v for v in ENUMS[f["ref"]] if v != old.value]
            return obj.conv(f, rng.choice(vs)) if vs else None
        if f["base"] == "decimal":
            # compared exactly, however little they differ
            with decimal.localcontext(decimal.Context(prec=500, Emax=99999, Emin=-99999)):
                return old + decimal.Decimal(10) ** (old.as_tuple().exponent - 1)
        if f["base"] == "int":
            return old + 1
        return rng.choice([old + "x", "x" + old, old.swapcase() if old.swapcase() != old else old + " "])


CHECKS = [C24, C25]
