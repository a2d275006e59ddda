"""Checks of damaged and incomplete messages: nothing is lost in silence."""
import collections
import warnings
from decimal import Decimal

from . import kvn, obj, work
from .base import Check, TYPES, api, F, fields, write_kvn
from .c_values import follow, put, sites
from .gen import Gen
from .core import Cpu, CpuLimit
from .schema import CLASSES, is_valued

# keywords of some type that may stand anywhere in a damaged text
STRAY = ["X", "EPOCH", "Z_DOT", "MASS", "MAN_DV_1", "MAN_DURATION", "CX_X", "OBJECT_NAME", "TIME_SYSTEM", "ORIGINATOR", "CREATION_DATE",
         "START_TIME", "STOP_TIME", "REF_FRAME", "ATTITUDE_TYPE", "QUATERNION_TYPE", "EULER_ROT_SEQ", "RANGE", "PARTICIPANT_1", "TCA",
         "OBJECT", "RELATIVE_SPEED", "MEAN_MOTION", "BSTAR", "Q1", "QC", "MESSAGE_ID", "COV_REF_FRAME", "I11", "COLLISION_PROBABILITY",
         "SEMI_MAJOR_AXIS", "DRAG_AREA", "PATH", "MODE", "OBJECT_ID", "REENTRY_ALTITUDE", "EPOCH_TLE", "USER_DEFINED_ZZ", "INTERPOLATION"]
TABLE = {"StateVectorAccType", "OemCovarianceMatrixType", "AttitudeStateType", "TrackingDataObservationType"}


def norm(s):
    """one value, numbers by their value"""
    s = str(s).strip()
    try:
        d = Decimal(s)
        return d if d.is_finite() else s
    except Exception:
        return s


def items(evs):
    """every value that a text holds"""
    c = collections.Counter()
    for e in evs:
        if e[0] == "#":
            c[norm(e[1])] += 1
        elif e[0] == "data":
            for t in e[1]:
                c[norm(t)] += 1
        elif e[0] == "kv":
            for t in e[2] if isinstance(e[2], tuple) else (e[2],):
                c[norm(t)] += 1
            if e[3] is not None:
                c[norm(e[3])] += 1
    c.pop("", None)
    return c


def leaves(o, c=None):
    """every value that a tree holds"""
    c = collections.Counter() if c is None else c
    if o is None:
        return c
    if isinstance(o, list):
        for i in o:
            leaves(i, c)
    elif hasattr(o, "__dataclass_fields__"):
        for k in o.__dataclass_fields__:
            leaves(getattr(o, k), c)
    else:
        c[norm(getattr(o, "value", o))] += 1
    return c


def squeeze(s):
    return "".join(s.split())


def told(log):
    return [w for w in log if not issubclass(w.category, (DeprecationWarning, PendingDeprecationWarning))]


class C31(Check):
    ID = "C31"
    TECH = "fault injection into KVN texts and object trees; accounting oracle: every value is in the result, or its loss is reported"
    RULE = ("(text) the lines of a generated KVN message of any type are damaged: a line unknown, foreign, repeated, moved, exchanged, left "
            "out or cut, a column too few or too many, a block repeated, a comment between data; what is read without error or warning "
            "must hold every value of the text; wrong columns must be refused, the undamaged text gives no warning; (tree) a "
            "component of a data line, the value of a quantity or any other value is missing in a tree that is written as KVN: "
            "refused, or what is read back is the tree or reported; a data line with the values of two: refused, or all are written; non-trivial = damage was done; distinct by text")
    need = {"comparisons": 1500, "silent_readings": 100, "errors": 300, "warned": 300, "columns_refused": 50, "trees_refused": 250,
            "undamaged": 100}

    def plan(self, tier):
        s, c = self.seed, []
        kinds = sorted(DAMAGES)
        for i in range(self.scale(tier, 6000, 60000)):
            k = kinds[i % len(kinds)]
            types = ["Oem", "Aem", "Tdm"] if k in ("columns", "rows") else TYPES
            t = types[(i // len(kinds)) % len(types)]
            c.append(dict(k="text", d=k, t=t, s="%s/%s/%s/%d" % (s, k, t, i), more=(i // 7) % 4 == 3,
                          g=dict(fill=[0.2, 0.5, 0.9][i % 3], units=0.5, maxlist=3, longtext=0)))
        for i in range(self.scale(tier, 240, 3000)):
            c.append(dict(k="plain", t=TYPES[i % 8], s="%s/plain/%d" % (s, i), g=dict(fill=[0.2, 0.6, 1.0][i % 3], maxlist=3)))
        for t in TYPES:
            for p, f, chain in work.paths(t):
                if f["base"] != "class" and f["py"] not in ("units", "comment"):
                    c.append(dict(k="tree", t=t, s="%s/tree/%s/%s" % (s, t, p), p=p,
                                  g=dict(fill=0.3, units=0.5, maxlist=2, longtext=0, force={x: True for x in chain + [p]})))
        for i in range(self.scale(tier, 120, 1500)):
            c.append(dict(k="several", t=["Tdm", "Aem", "Tdm"][i % 3], s="%s/several/%d" % (s, i), g=dict(fill=0.3, units=0.5, maxlist=3, longtext=0)))
        c += [dict(x, k="tree", p=None) for x in work.attitude(s, self.scale(tier, 1, 6))]
        for i in range(self.scale(tier, 400, 6000)):
            c.append(dict(k="tree", t=(TYPES + ["Oem", "Oem"])[i % 10], s="%s/rtree/%d" % (s, i), p=None,
                          g=dict(fill=[0.3, 1.0][i % 2], units=0.5, maxlist=2, longtext=0)))
        return c

    def run(self, case, mon):
        node, rng = work.make(case, True)
        if case["k"] == "tree":
            return self.tree(case, mon, node, rng)
        if case["k"] == "several":
            return self.several(case, mon, node, rng)
        evs = kvn.events(node)
        must = None
        if case["k"] == "text":
            done = []
            for k in [case["d"]] + ([rng.choice([x for x in sorted(DAMAGES) if x not in ("columns", "rows", "cut")])]
                                    if case["more"] and case["d"] not in ("columns", "rows") else []):
                evs, w = DAMAGES[k](list(evs), rng)
                if w:
                    done.append("%s: %s" % (k, w))
                    mon.cov("damages", (case["t"], k))
                    if k in ("columns", "rows"):
                        must = k
            if not done:
                return
            what = "%s with %s" % (case["t"], "; ".join(done))
        else:
            what = "an undamaged %s" % case["t"]
        st = kvn.Style(rng) if rng.random() < 0.3 else kvn.Style()
        text = kvn.render(evs, st)
        want = items(evs)
        if case["k"] == "text" and case["d"] == "cut":
            text, want, what = cut(evs, rng, case["t"])
        mon.input(text, 3)
        o, log, e = self.reading(text)
        if case["k"] == "plain":
            mon.ev("undamaged")
            mon.diff(what, ["is refused: %r" % e] if e else ["causes the warning %s" % w.message for w in told(log)][:1])
            if e:
                return
        elif e is not None:
            mon.ev("errors")
            mon.ev("columns_refused", must is not None)
            return mon.diff(what, [])
        elif must:
            return mon.diff(what, ["is read, its data lines have a wrong number of values"])
        elif told(log):
            mon.ev("warned")
            return mon.diff(what, [])
        mon.ev("silent_readings")
        there = leaves(o)
        lost = want - there
        if lost:
            # what looks like a number with unit may be the text of a text field
            for e in evs:
                if e[0] == "kv" and e[3] is not None:
                    for x in there:
                        if type(x) is str and squeeze(x) == squeeze("%s[%s]" % (e[2], e[3])):
                            lost -= items([e])
                            break
        mon.diff(what, ["read without error or warning, but %s of the text is not in the tree" %
                        ", ".join(repr(str(x)) for x in list(lost)[:4])] if lost else [])

    def reading(self, text):
        with warnings.catch_warnings(record=True) as log:
            warnings.simplefilter("always")
            try:
                with Cpu():
                    return api().NdmIo().from_string(text), log, None
            except CpuLimit:
                raise
            except Exception as e:
                return None, log, e

    def several(self, case, mon, node, rng):
        """one data line that should hold the values of two"""
        lines = lambda o: [x for seg in o.body.segment for x in (seg.data.observation if case["t"] == "Tdm" else seg.data.attitude_state)]
        o = obj.to_obj(node)
        other = obj.to_obj(work.make(dict(case, s=case["s"] + "/other"), True)[0])
        a, b = rng.choice(lines(o)), rng.choice(lines(other))
        new = [k for k, v in vars(b).items() if v is not None and k != "epoch" and getattr(a, k) is None]
        if not new:
            return
        setattr(a, new[0], getattr(b, new[0]))
        what = "%s with another value (%s) in a data line" % (case["t"], new[0])
        mon.input(case["s"] + what, 3)
        try:
            text = api().NdmIo().to_string(o, F().KVN)
        except Exception:
            mon.ev("trees_refused")
            return mon.diff(what, [])
        back, log, e = self.reading(text)
        if e is not None or told(log):
            mon.ev("trees_reported")
            return mon.diff(what, [])
        # (on several lines, the epoch is there more than once)
        lost = leaves(lines(o)) - leaves(lines(back))
        mon.diff(what, ["%s is not in the KVN text" % list(lost)[:3]] if lost else [])

    def tree(self, case, mon, node, rng):
        cand = [x for x in sites(node) if x[1]["base"] != "class" and x[1]["py"] not in ("comment", "units")]
        own = [x for x in cand if x[0].cls + "." + x[1]["py"] == case["p"]] if case["p"] else []
        tab = [x for x in cand if inside_table(node, x[3])]
        pick = own or (tab if tab and rng.random() < 0.8 else cand)
        if not pick:
            return
        n, f, k, path = rng.choice(pick)
        o = obj.to_obj(node)
        table = inside_table(node, path)
        if table and f["py"] in ("angle", "rate"):
            return      # a data line says it by its order only
        must = table is not None and f["py"] != "cov_ref_frame"
        what = "%s without %s.%s" % (case["t"], n.cls, f["py"])
        if f["py"] == "value" and is_valued(n.cls) and n.cls != "UserDefinedParameterType":
            must = True
            if table and rng.random() < 0.7:
                path = path[:-1]        # the whole component
                what += " (whole component)"
        elif n.cls == "UserDefinedParameterType" or f.get("list"):
            return
        if f["py"] in ("man_epoch_ignition", "man_epoch_start", "object"):
            return      # these begin the next one of several blocks
        mon.input(case["s"] + what, 3)
        none = None
        if table and must and f["base"] == "str" and rng.random() < 0.5:
            none = rng.choice(["", " ", "2020-01-01 00:00:00", "\t", "a b c", "2020-01-01T00:00:00.5\n", "\u00a0", "1 2"])
            if none.split() and len(none.split()) == 1:
                none = ""
            what += " but %r" % none
        put(o, path, none)
        mon.cov("missing_positions", n.cls + "." + f["py"])
        try:
            text = api().NdmIo().to_string(o, F().KVN)
        except Exception:
            mon.ev("trees_refused")
            return mon.diff(what, [])
        if must:
            return mon.diff(what, ["is written as KVN: %r" % text[-200:]])
        back, log, e = self.reading(text)
        if e is not None or told(log):
            mon.ev("trees_reported")
            return mon.diff(what, [])
        mon.ev("trees_written")
        put(o, path, None)
        mon.diff("%s, written as KVN and read back" % what, obj.diff_kvn(prune(obj.from_obj(o)), obj.to_obj(prune(obj.from_obj(back)))))


def prune(node):
    """without the parts that hold nothing"""
    for f in fields(node.cls):
        v = node.get(f["py"])
        if v is None or f["base"] != "class":
            continue
        kept = [i for i in (prune(i) for i in (v if f.get("list") else [v])) if any(x not in (None, []) for x in i.v.values())]
        node[f["py"]] = kept if f.get("list") else kept[0] if kept else None
    return node


def inside_table(node, path):
    """is the place inside a data line?"""
    n = node
    for py, k in path[:-1]:
        n = n[py] if k is None else n[py][k]
        if n.cls in TABLE:
            return n
    return None


def spot(evs, rng, lo=1):
    return rng.randint(lo, len(evs))


def d_unknown(evs, rng):
    i = spot(evs, rng)
    e = ("kv", rng.choice(["FOO", "ZZ_TOP", "X_DDDOT", "OBJECTNAME", "Epoch", "USER_DEF", "COMENT", "META", "CCSDS_FOO"]), rng.choice(["ZQ1", "77123.5", "2020-01-01T00:00:00.777", ]), rng.choice([None, None, "km"]))
    if e[3] and not kvn._isnum(e[2]):
        e = e[:3] + (None,)
    evs.insert(i, e)
    return evs, "%s at line %d" % (e[1], i)


def d_garbage(evs, rng):
    i = spot(evs, rng)
    n = rng.choice([1, 1, 2, 3, 5, 6, 8, 9])
    evs.insert(i, ("data", tuple(rng.choice(["ZQ%d" % j, "88%d.25" % j]) for j in range(n))))
    return evs, "%d loose words at line %d" % (n, i)


def d_repeat(evs, rng):
    c = [i for i, e in enumerate(evs) if e[0] == "kv" and i]
    if not c:
        return evs, None
    i = rng.choice(c)
    e = evs[i]
    if rng.random() < 0.7:
        v = rng.choice(["ZQ7", "99123.75"])
        e = ("kv", e[1], (e[2][0], "99123.75") if isinstance(e[2], tuple) else v, e[3] if v != "ZQ7" else None)
    j = rng.choice([i, i + 1, spot(evs, rng)])
    evs.insert(j, e)
    return evs, "%s again at line %d" % (e[1], j)


def d_move(evs, rng):
    i = spot(evs, rng) - 1
    if i == 0:
        return evs, None
    e = evs.pop(i)
    j = rng.choice([i + 1, i - 1, i + 2, spot(evs, rng)])
    j = max(1, min(len(evs), j))
    evs.insert(j, e)
    return evs, "%r moved from line %d to %d" % (e[:2], i, j) if i != j else None


def d_leave(evs, rng):
    if len(evs) < 3:
        return evs, None
    c = [i for i, e in enumerate(evs) if i and (e[0] == "mark" or rng.random() < 0.4)] or [1]
    i = rng.choice(c)
    e = evs.pop(i)
    return evs, "%r left out" % (e[:2],)


def d_stray(evs, rng):
    i = spot(evs, rng)
    k = rng.choice(STRAY)
    v = rng.choice(["ZQ9", "66123.5"])
    evs.insert(i, ("kv", k, v, rng.choice([None, "km"]) if v != "ZQ9" else None))
    return evs, "%s = %s at line %d" % (k, v, i)


def d_comment(evs, rng):
    i = spot(evs, rng)
    evs.insert(i, ("#", rng.choice(["ZQ5 remark", "ZQ6 = x", "44123.5"])))
    return evs, "a comment at line %d" % i


def d_block(evs, rng):
    i = spot(evs, rng) - 1
    n = rng.choice([1, 2, 3, 5, 8, 20])
    if i == 0:
        return evs, None
    b = evs[i:i + n]
    j = rng.choice([i, i + len(b), len(evs)])
    return evs[:j] + b + evs[j:], "lines %d to %d again at %d" % (i, i + len(b), j)


def d_swap(evs, rng):
    if len(evs) < 5:
        return evs, None
    i, j, k = sorted(rng.sample(range(1, len(evs) + 1), 3))
    return evs[:i] + evs[j:k] + evs[i:j] + evs[k:], "lines %d.. and %d.. exchanged" % (i, j)


def d_mark(evs, rng):
    i = spot(evs, rng)
    m = rng.choice(sorted(kvn.MARKS))
    evs.insert(i, ("mark", m))
    return evs, "%s at line %d" % (m, i)


def d_remark(evs, rng):
    c = [i for i, e in enumerate(evs) if i and e[0] in ("data", "mark", "kv") and (e[0] != "kv" or e[3] is None)]
    if not c:
        return evs, None
    t = _tabular(evs)
    i = rng.choice(t if t and rng.random() < 0.6 else c)
    e = evs[i]
    m = rng.choice(["#", "!", ";", "//", "%", "--", "&", "*", ":"])
    w = rng.choice([(m, "ZQ8"), (m, "ZQ8", "77.5"), (m + "ZQ8",), ("(ZQ8)",), ("[ZQ8]",), ("[zq8]",), ("[n/zq8]",), ('"ZQ8"',), (m, "\u00a0", "ZQ8")])
    if e[0] == "data":
        evs[i] = ("data", e[1] + w)
    elif e[0] == "mark":
        evs[i] = ("data", (e[1],) + w)
        w = (e[1],) + w
    elif isinstance(e[2], tuple):
        evs[i] = ("kv", e[1], " ".join(e[2] + w), None)
    else:
        evs[i] = ("kv", e[1], " ".join((e[2],) + w), None)
    return evs, "%s behind line %d" % (" ".join(w), i)


def d_hidden(evs, rng):
    """a line behind a sign that other formats have for remarks"""
    if len(evs) < 3:
        return evs, None
    i = rng.randrange(1, len(evs))
    m = rng.choice(["#", "!", ";", "//", "%", "--", "*", "/*", "<!--", "'", "&", "# ", "! ", "// ", "; ", "% ", "REM ", "\\", "C ", "$"])
    e = evs[i]
    if rng.random() < 0.4:
        e = rng.choice([("kv", "OBJECT_NAME", "ZQ9", None), ("data", ("ZQ9",)), ("kv", "X", "77.25", "km"), ("data", ("2020-01-01T00:00:00.25", "77.25"))])
        evs.insert(i, None)
    if e[0] == "data":
        evs[i] = ("data", tuple((m + " ".join(e[1])).split()))
    elif e[0] == "kv":
        evs[i] = (e[0], m + e[1]) + tuple(e[2:])
    else:
        evs[i] = ("data", tuple((m + e[1]).split()))
    return evs, "%s before line %d" % (m, i)


def d_again(evs, rng):
    """the file holds something behind its end"""
    if rng.random() < 0.5:
        return evs + evs, "the whole message twice"
    other = kvn.events(Gen(rng, kvn=True, maxlist=1, fill=0.3, longtext=0).message(rng.choice(TYPES)))
    return (evs + other, "another message (%s) behind it" % other[0][1]) if rng.random() < 0.8 else (other[:1] + evs, "two version lines")


def d_empty(evs, rng):
    """values without keywords, keywords without values"""
    i = spot(evs, rng)
    t = rng.choice(["= ZQ2", "=ZQ2", "[ZQ2]", "ZQ2 =", "X", "EPOCH", "COMMENTS ZQ2", "OBJECT_NAME ZQ2", "EPOCH: 2020-01-01T00:00:00.5", "X Y = ZQ2",
                    "META_START ZQ2", "DATA_STOP = ZQ2", "USER_DEFINED", "USER_DEFINED = ZQ2", "\ufeffX = 12.75"])
    k, eq, v = t.partition("=")
    evs.insert(i, ("kv", k.strip(), v.strip(), None) if eq else ("data", tuple(t.split())))
    return evs, "%r at line %d" % (t, i)


def _tabular(evs):
    return [i for i, e in enumerate(evs) if e[0] == "data" or (e[0] == "kv" and isinstance(e[2], tuple))]


def d_columns(evs, rng):
    c = _tabular(evs)
    if not c:
        return evs, None
    i = rng.choice(c + c[-1:])
    e = evs[i]
    t = list(e[1] if e[0] == "data" else e[2])
    n = rng.choice([-1, -1, 1, 1, 2, -2, 4])
    if n < 0:
        if len(t) + n < 1:
            return evs, None
        for _ in range(-n):
            t.pop(rng.choice([len(t) - 1, rng.randrange(len(t))]))
    else:
        for j in range(n):
            t.insert(rng.choice([len(t), rng.randint(1, len(t))]), "55%d.5" % j)
    if e[0] == "data":
        evs[i] = ("data", tuple(t))
    else:
        evs[i] = ("kv", e[1], " ".join(t), None)
    return evs, "%+d columns in data line %d" % (n, i)


def d_rows(evs, rng):
    # rows of a covariance matrix
    c = [i for i, e in enumerate(evs) if e[0] == "data" and i and evs[i - 1][0] == "data" and len(evs[i - 1][1]) + 1 == len(e[1]) and len(e[1]) < 7]
    if not c:
        return evs, None
    i = rng.choice(c)
    if rng.random() < 0.6:
        e = evs.pop(i)
        return evs, "a covariance row of %d left out" % len(e[1])
    evs.insert(i, evs[i])
    return evs, "a covariance row of %d twice" % len(evs[i][1])


DAMAGES = {k[2:]: v for k, v in list(globals().items()) if k.startswith("d_") and callable(v)}
DAMAGES["cut"] = lambda evs, rng: (evs, "an end cut off")


def cut(evs, rng, t):
    """the text ends somewhere in a line; what the values of that line are is clear from the tokens that are left"""
    k = rng.randrange(1, len(evs))
    line = kvn.render(evs[k:k + 1])
    line = line[:rng.randrange(1, len(line))].strip()
    e = evs[k]
    rest = []
    if e[0] == "data":
        rest = [("data", tuple(line.split()))]
    elif e[0] == "#" and line.startswith("COMMENT ") and line[8:].strip()[:1] not in ("", "="):
        rest = [("#", line[8:].strip())]
    elif e[0] == "kv" and "=" in line:
        v = line.split("=", 1)[1].strip()
        if "[" not in v and not isinstance(e[2], tuple):
            rest = [("kv", e[1], v, None)]
        elif isinstance(e[2], tuple):
            rest = [("data", tuple(v.split()))]
    return kvn.render(evs[:k]) + line, items(evs[:k] + rest), "%s cut in %r" % (t, line)


CHECKS = [C31]
