"""Checks of the file formats: what is read is what is in the text, and vice versa."""
import re
import random
from decimal import Decimal

from . import kvn, obj, work, xmlio
from .base import (Broken, Check, COMBI_ORDER, ENUMS, Node, TYPES, CLASSES, F, api, count_leaves, fields, kvn_text_diff,
                   lib, observe, read, write_kvn, write_xml, xml_diff)
from .core import known_findings
from .work import KEYWORD_TYPES, TABLE_TYPES


def flat(x, path="", out=None):
    """(path, field, value) of every leaf of a Node or of an object tree, in schema order."""
    out = [] if out is None else out
    node = isinstance(x, Node)
    cls = x.cls if node else type(x).__name__
    for f in fields(cls):
        v = x.get(f["py"]) if node else getattr(x, f["py"])
        if v is None or "fixed" in f:
            continue
        for i, e in enumerate(v if f.get("list") else [v]):
            p = "%s/%s%s" % (path, f["py"], "[%d]" % i if f.get("list") else "")
            if f["base"] == "class":
                flat(e, p, out)
            else:
                out.append((p, f, e))
    return out


def proj_diff(node, o, keep, exact=True):
    """compare the leaves selected by keep(path, field) of a Node and an object tree."""
    a = [(p, f, v) for p, f, v in flat(node) if keep(p, f)]
    b = {p: v for p, f, v in flat(o) if keep(p, f)}
    out = []
    for p, f, v in a:
        if p not in b:
            out.append("%s: %r is missing" % (p, v))
            continue
        d = obj.leaf_diff(f, v, b.pop(p))
        if d:
            out.append("%s: %s" % (p, d))
    out += ["%s: unexpected %r" % i for i in list(b.items())[:3]]
    return out[:6], len(a)


def node_proj_diff(node, got, keep):
    a = [(p, f, v) for p, f, v in flat(node) if keep(p, f)]
    b = {p: v for p, f, v in flat(got) if keep(p, f)}
    out = []
    for p, f, v in a:
        if p not in b:
            out.append("%s: %r is missing" % (p, v))
        else:
            g = b.pop(p)
            if not obj.same_value(f, v, g):
                out.append("%s: expected %r, got %r" % (p, v, g))
    out += ["%s: unexpected %r" % i for i in list(b.items())[:3]]
    return out[:6], len(a)


def load_xml(text):
    try:
        return xmlio.loads(text)[0]
    except Exception as e:
        raise Broken("XML output cannot be read: %s: %s" % (type(e).__name__, e))


class C01(Check):
    ID = "C01"
    kvn = False
    TECH = "runtime oracle: independent XML writer and object-tree comparison over generated messages"
    RULE = ("a message is generated from the schema table (each optional element alone / missing, every enumeration "
            "value, list lengths, random), rendered as XML by an independent writer in a random layout, read through "
            "NdmIo and compared leaf by leaf; non-trivial = at least 5 values; distinct by text")

    def plan(self, tier):
        s = self.seed
        c = list(work.presence(s, TYPES)) + list(work.enums(s, TYPES))
        c += list(work.sizes(s, TYPES, self.scale(tier, [2, 9, 65], [2, 3, 7, 9, 10, 11, 16, 33, 64, 65, 100, 101, 129, 256, 257, 500, 1000])))
        c += list(work.rand(s, TYPES, self.scale(tier, 6000, 60000)))
        c += list(work.rand(s, TYPES, self.scale(tier, 200, 2000), "large", maxlist=25, fill=0.3))
        c += list(work.attitude(s, 1))
        return c

    def run(self, case, mon):
        node, rng = self.node(case, mon)
        st = xmlio.Style(rng)
        st.ent = rng.random() < 0.1
        text = xmlio.dumps(node, st)
        mon.input(text, count_leaves(node) - 3)
        mon.diff("%s read from XML" % node.cls, obj.diff(node, read(text, "reading XML")))


class C02(Check):
    ID = "C02"
    kvn = False
    TECH = "runtime oracle: independent XML parse and schema-order check of the written text"
    RULE = ("an object tree is built from a generated message, written as XML and parsed with the standard library; "
            "element names, order, repetition, attributes and values are compared with the schema table; "
            "non-trivial = at least 5 values; distinct by message")

    def plan(self, tier):
        s = self.seed
        c = list(work.presence(s, TYPES)) + list(work.enums(s, TYPES))
        c += list(work.sizes(s, TYPES, self.scale(tier, [2, 9, 65], [2, 3, 7, 9, 10, 11, 16, 33, 64, 65, 100, 101, 129, 256, 257, 500, 1000])))
        c += list(work.rand(s, TYPES, self.scale(tier, 7000, 60000)))
        c += list(work.attitude(s, 1))
        return c

    def run(self, case, mon):
        node, rng = self.node(case, mon)
        o = obj.to_obj(node)
        kw, want = {}, {}
        x = rng.random()
        if x < 0.2:
            kw["no_namespace_schema_location"] = want["noNamespaceSchemaLocation"] = \
                "http://example.org/%d/ndmxml-master.xsd" % rng.randint(0, 999)
        if 0.1 < x < 0.3:
            kw["schema_location"] = want["schemaLocation"] = "urn:x%d a.xsd" % rng.randint(0, 999)
        text = write_xml(o, **kw)
        mon.input(text, count_leaves(node) - 3)
        mon.diff("%s written as XML" % node.cls, xml_diff(node, text))
        try:
            at = xmlio.loads(text)[1]
        except Exception:
            at = {}
        got = {k.split("}")[1]: v for k, v in at.items()}
        mon.diff("schema locations", [] if got == want else ["root attributes %s, requested %s" % (got, want)])
        try:
            text.encode("utf-8")
        except UnicodeEncodeError as e:
            mon.fail("text is not encodable: %s" % e)


class KvnRead(Check):
    def cases(self, tier, types, n, big):
        s = self.seed
        c = list(work.presence(s, types)) + list(work.enums(s, types))
        c += list(work.sizes(s, types, self.scale(tier, [2, 9, 65], [2, 3, 7, 9, 10, 11, 16, 33, 64, 65, 100, 101, 129, 256, 257])))
        c += list(work.pairs(s, types, self.scale(tier, 60, 600)))
        c += list(work.rand(s, types, self.scale(tier, n, n * 8)))
        c += list(work.rand(s, types, self.scale(tier, big, big * 10), "large", maxlist=15, fill=0.4))
        return c

    def run(self, case, mon):
        node, rng = self.node(case, mon)
        style = kvn.Style(rng) if rng.random() < 0.4 else None
        text = kvn.render(kvn.events(node), style)
        mon.input(text, count_leaves(node) - 3)
        o = read(text, "reading %s KVN" % node.cls)
        mon.diff("%s read from KVN" % node.cls, obj.diff(node, o, comments=False))


class C03(KvnRead):
    ID = "C03"
    TECH = "runtime oracle: independent KVN writer and object-tree comparison over generated messages"
    RULE = ("OPM/OMM/APM/CDM/RDM messages (each optional keyword alone / missing, every enumeration value, random "
            "subsets) rendered as KVN by an independent writer, read through NdmIo, compared leaf by leaf; "
            "non-trivial = at least 5 values; distinct by text")

    def plan(self, tier):
        c = self.cases(tier, KEYWORD_TYPES, 6000, 200)
        c += [dict(k="bracket", line=x) for x in sorted({k["input"] for k in known_findings(self.ID)} | {
            "OBJECT_NAME = t42 [a]", "OBJECT_NAME = ISS [ZARYA]", "ORIGINATOR = [7]", "OBJECT_NAME = 42 [", "OBJECT_NAME = 42 ]",
            "OBJECT_NAME = 42 [a]", "ORIGINATOR = 7 [b c]", "OBJECT_NAME = 7[b]", "CENTER_NAME = nan  [km] [s]", "REF_FRAME = 1 []",
            "ORIGINATOR = 1_0 [km]", "ORIGINATOR = = [1]", "ORIGINATOR = a [b] [c]", "OBJECT_NAME = 4 2 [a]", "COMMENT 42 [a]", "CENTER_NAME = x [km]", "REF_FRAME = e [1]"})]
        return c

    TEMPLATE = ("CCSDS_OPM_VERS = 2.0\nCOMMENT c\nCREATION_DATE = 2020-01-01T00:00:00\nORIGINATOR = o\nOBJECT_NAME = n\nOBJECT_ID = i\n"
                "CENTER_NAME = EARTH\nREF_FRAME = GCRF\nTIME_SYSTEM = UTC\nEPOCH = 2020-01-01T00:00:00\nX = 1\nY = 2\nZ = 3\n"
                "X_DOT = 4\nY_DOT = 5\nZ_DOT = 6\n")

    def probe(self, line):
        """(expected, got) of one text value of a fixed message."""
        kw = "COMMENT" if line.startswith("COMMENT") else line.split("=")[0].strip()
        want = line[7:].strip() if kw == "COMMENT" else line.split("=", 1)[1].strip()
        text = "".join(line + "\n" if x.startswith(kw) else x + "\n" for x in self.TEMPLATE.splitlines())
        o = read(text, "reading %r" % line)
        md = o.body.segment.metadata
        got = {"OBJECT_NAME": md.object_name, "ORIGINATOR": o.header.originator, "COMMENT": (o.header.comment or [None])[0],
               "CENTER_NAME": md.center_name, "REF_FRAME": md.ref_frame}[kw]
        return want, got, text

    def run(self, case, mon):
        if case["k"] != "bracket":
            return super().run(case, mon)
        want, got, text = self.probe(case["line"])
        mon.input(text, 2)
        known = [k for k in known_findings(self.ID) if k["input"] == case["line"]]
        if known and got == known[0]["reads"]:
            return mon.ev("known_findings")
        mon.diff("text value of %r" % case["line"], [] if got == want else ["was read as %r" % got])

    def findings(self):
        out = []
        for k in known_findings(self.ID):
            try:
                if self.probe(k["input"])[1] == k["reads"]:
                    out.append("%s %s is read as %r (%s)" % (k["id"], k["input"], k["reads"], k["text"]))
            except Broken:
                pass
        return out


class C04(KvnRead):
    ID = "C04"
    TECH = C03.TECH
    RULE = ("OEM/TDM/AEM messages with several segments (each optional keyword alone / missing, every enumeration "
            "value, every observation and attitude kind, list lengths) rendered as KVN by an independent writer, read "
            "through NdmIo, compared leaf by leaf; non-trivial = at least 5 values; distinct by text")

    def plan(self, tier):
        c = self.cases(tier, TABLE_TYPES, 4500, 200)
        c += list(work.observations(self.seed))
        c += list(work.attitude(self.seed, self.scale(tier, 1, 8)))
        return c


class C05(Check):
    ID = "C05"
    TECH = "runtime oracle: independent column model of AEM attitude lines, read and write direction"
    RULE = ("every ATTITUDE_TYPE x QUATERNION_TYPE x EULER_ROT_SEQ combination, alone and mixed over segments, all "
            "components distinct; lines rendered/parsed by an independent column model; a segment that lacks one of these keywords must be "
            "refused, whatever the other segments have; non-trivial = at least one attitude line; distinct by text")
    need = {"comparisons": 50, "missing_conventions": 200}

    def plan(self, tier):
        s = self.seed
        c = list(work.attitude(s, self.scale(tier, 6, 60)))
        c += list(work.rand(s, ["Aem"], self.scale(tier, 1500, 12000), "mixed", maxlist=6, fill=0.3))
        c += list(work.sizes(s, ["Aem"], self.scale(tier, [33, 129], [33, 64, 65, 100, 129, 257])))
        return c

    def run(self, case, mon):
        node, rng = self.node(case, mon)
        states = 0
        for seg in node["body"]["segment"]:
            md = seg["metadata"]
            mon.cov("attitude_configurations", (md["attitude_type"].upper(), md.get("quaternion_type"), md.get("euler_rot_seq")))
            states += len(seg["data"]["attitude_state"])
            if rng.random() < 0.6:
                distinct(seg, rng)
        mon.ev("attitude_lines", states)
        ev = kvn.events(node)
        text = kvn.render(ev)
        mon.input(text, states + 1)
        keep = lambda p, f: "/attitude_state[" in p
        d, n = proj_diff(node, read(text, "reading AEM KVN"), keep)
        mon.diff("attitude read from KVN", d)
        mon.ev("components", n)
        out = write_kvn(obj.to_obj(node), "writing AEM KVN")
        want = [e for e in ev if e[0] == "data"]
        got = [e for e in kvn.tokenize(out) if e[0] == "data"]
        mon.diff("attitude written to KVN", kvn.event_diff(want, got))
        if rng.random() < 0.4:
            self.missing(node, ev, rng, mon)

    def missing(self, node, ev, rng, mon):
        """a convention that one segment does not give is not that of another segment"""
        segs = node["body"]["segment"]
        k = rng.randrange(len(segs))
        md = segs[k]["metadata"]
        at = md["attitude_type"].upper()
        keys = ["ATTITUDE_TYPE"] + ["QUATERNION_TYPE"] * at.startswith("QUATERNION") + ["EULER_ROT_SEQ"] * (at.startswith("EULER") or at.endswith("RATE"))
        key = rng.choice(keys)
        starts = [i for i, e in enumerate(ev) if e == ("mark", "META_START")] + [len(ev)]
        cut = [e for i, e in enumerate(ev) if not (starts[k] <= i < starts[k + 1] and e[0] == "kv" and e[1] == key)]
        if len(cut) != len(ev) - 1:
            return
        mon.ev("missing_conventions")
        try:
            api().NdmIo().from_string(kvn.render(cut))
        except Exception:
            pass
        else:
            mon.diff("KVN without %s in segment %d of %d" % (key, k + 1, len(segs)), ["was read"])
        if key == "QUATERNION_TYPE" and segs[k]["data"]["attitude_state"]:
            o = obj.to_obj(node)
            o.body.segment[k].metadata.quaternion_type = None
            try:
                api().NdmIo().to_string(o, F().KVN)
            except Exception:
                pass
            else:
                mon.diff("tree without quaternion_type in segment %d of %d" % (k + 1, len(segs)), ["was written to KVN"])


def distinct(seg, rng):
    """make all numbers of one attitude line different from each other."""
    for st in seg["data"]["attitude_state"]:
        used = set()

        def walk(n):
            for f in fields(n.cls):
                v = n.get(f["py"])
                if isinstance(v, Node):
                    walk(v)
                elif f["base"] == "decimal" and v is not None:
                    while Decimal(n[f["py"]]) in used:
                        n[f["py"]] = "0.%06d" % rng.randint(1, 999999)
                    used.add(Decimal(n[f["py"]]))
        walk(st)


class C06(Check):
    ID = "C06"
    TECH = "runtime oracle: independent KVN tokenizer checks the written text line by line"
    RULE = ("an object tree is built from a generated message of any type, written as KVN and tokenized; the sequence "
            "of keyword, comment, delimiter and data lines is compared with an independent event model; "
            "non-trivial = at least 5 values; distinct by text")

    def plan(self, tier):
        s = self.seed
        c = list(work.presence(s, TYPES)) + list(work.enums(s, TYPES))
        c += list(work.sizes(s, TYPES, self.scale(tier, [2, 9, 65], [2, 3, 7, 9, 10, 11, 16, 33, 64, 65, 100, 101, 129, 256, 257])))
        c += list(work.pairs(s, TYPES, self.scale(tier, 30, 300)))
        c += list(work.rand(s, TYPES, self.scale(tier, 8000, 60000)))
        c += list(work.attitude(s, self.scale(tier, 1, 8))) + list(work.observations(s))
        return c

    def run(self, case, mon):
        node, rng = self.node(case, mon)
        wide = node
        if rng.random() < 0.15:
            # texts of several lines (as XML allows them) come on one line
            wide = node.copy()
            mon.ev("line_breaks", spread(wide, rng))
        text = write_kvn(obj.to_obj(wide), "writing %s KVN" % node.cls)
        mon.input(text, count_leaves(node) - 3)
        d = kvn_text_diff(node, text)
        mon.ev("lines", text.count("\n") + 1)
        mon.diff("%s written as KVN" % node.cls, d)


def spread(n, rng):
    """replace single blanks inside texts by line breaks; how many."""
    k = 0
    for f in fields(n.cls):
        v = n.get(f["py"])
        if v is None or "fixed" in f:
            continue
        if f["base"] == "class":
            k += sum(spread(e, rng) for e in (v if f.get("list") else [v]))
        elif f["base"] == "str" and "pattern" not in f and (n.cls, f["py"]) != ("UserDefinedParameterType", "parameter"):
            out = []
            for t in v if f.get("list") else [v]:
                if rng.random() < 0.4 and t.strip(" "):
                    w = t.split(" ")
                    t = w[0]
                    for x in w[1:]:
                        t += (rng.choice(["\n", "\r\n", "\n\n", "\r"]) if x and t[-1:] not in (" ", "\n", "\r", "") and rng.random() < 0.5 else " ") + x
                    k += t.count("\n") + t.count("\r")
                    if rng.random() < 0.2:
                        t = rng.choice(["\n", ""]) + t + rng.choice(["\n", "\r\n", ""])
                out.append(t)
            n[f["py"]] = out if f.get("list") else out[0]
        elif f["base"] == "str" and "pattern" in f and not f.get("list") and rng.random() < 0.15:
            # an epoch on a line of its own
            n[f["py"]] = rng.choice(["\n", "\n   ", "\r\n"]) + v + rng.choice(["", "\n", "\n  "])
            k += 1
    return k


class C07(Check):
    ID = "C07"
    TECH = "runtime oracle: round trips through both formats compared with the original object tree"
    RULE = ("an object tree is written and read back through XML, KVN and both in turn; the results are compared with "
            "the original (comments by sequence in KVN) and a second output with the first; non-trivial = at least 5 "
            "values; distinct by message")

    def plan(self, tier):
        s = self.seed
        c = list(work.rand(s, TYPES, self.scale(tier, 2400, 24000)))
        c += list(work.presence(s, TYPES)) if tier == "thorough" else list(work.pairs(s, TYPES, 40))
        c += list(work.attitude(s, 1)) + list(work.observations(s))
        c += list(work.enums(s, TYPES))
        c += list(work.sizes(s, TYPES, self.scale(tier, [33], [9, 33, 65, 129])))
        return c

    def run(self, case, mon):
        node, rng = self.node(case, mon)
        o = obj.to_obj(node)
        base = obj.snapshot(o)
        x1 = write_xml(o)
        mon.input(x1, count_leaves(node) - 3)
        o2 = read(x1, "reading back XML output")
        mon.diff("XML round trip", [] if (o2 == o) is True and obj.diff(node, o2) == [] else
                 obj.diff(node, o2) or ["objects compare unequal"])
        x2 = write_xml(o2, "writing XML again")
        mon.diff("second XML output", [] if x1 == x2 else ["texts differ: %s" % textdiff(x1, x2)])
        k1 = write_kvn(o)
        o3 = read(k1, "reading back KVN output")
        mon.diff("KVN round trip", obj.diff_kvn(node, o3))
        k2 = write_kvn(o3, "writing KVN again")
        mon.diff("second KVN output", kvn_text_diff(node, k2))
        k3 = write_kvn(o2, "writing KVN of an XML message")
        mon.diff("XML to KVN", kvn_text_diff(node, k3))
        x3 = write_xml(o3, "writing XML of a KVN message")
        d = []
        got = load_xml(x3)
        d = xmlio.diff_nodes(node, got, comments=False)
        mon.diff("KVN to XML", d)
        o4 = read(x3, "reading XML of a KVN message")
        mon.diff("KVN to XML to object", obj.diff_kvn(node, o4))


def textdiff(a, b):
    for i, (x, y) in enumerate(zip(a.splitlines(), b.splitlines())):
        if x != y:
            return "line %d %r / %r" % (i + 1, x[:120], y[:120])
    return "lengths %d / %d" % (len(a), len(b))


class C08(Check):
    ID = "C08"
    TECH = "runtime oracle: comment sequence and position, both formats and directions"
    RULE = ("messages of every type with comments forced at every place the format allows, 0..n lines, comment texts "
            "that look like other lines; read and written in both formats; the comments with the number of values in "
            "front of each are compared; non-trivial = at least 2 comments; distinct by text")

    def plan(self, tier):
        s = self.seed
        c = list(work.rand(s, TYPES, self.scale(tier, 2000, 16000), "dense", pcom=0.9))
        c += list(work.rand(s, TYPES, self.scale(tier, 1200, 8000), "sparse", pcom=0.25))
        # exactly one commented place at a time, in lean and in full messages
        for t in TYPES:
            for p, f, chain in work.paths(t):
                if f["py"] != "comment":
                    continue
                for i, fill in enumerate([0.0, 0.5, 1.0]):
                    c.append(dict(k="place", t=t, s="%s/place/%s/%s/%d" % (s, t, p, i), p=p,
                                  g=dict(fill=fill, pcom=0.0, force={**{x: True for x in chain}, p: True})))
        for t in TYPES:
            for n in self.scale(tier, [40, 257, 1025], [40, 100, 101, 129, 200, 257, 1025, 5001]):
                c.append(dict(k="many", t=t, s="%s/many/%s/%d" % (s, t, n), n=n, g=dict(fill=0.3, pcom=0.5)))
        return c

    def run(self, case, mon):
        kv = random.Random(case["s"] + "f").random() < 0.75
        node, rng = work.make(case, kv)
        observe(mon, node)
        if "n" in case:
            many_comments(node, case["n"])
        want = obj.comment_places(node, True)
        mon.ev("comments", len(want))
        for f in flat(node):
            if f[1]["py"] == "comment":
                mon.cov("comment_places", node.cls + strip_index(f[0]))
        xt = xmlio.dumps(node, xmlio.Style(rng))
        mon.input(xt, len(want))
        o = read(xt, "reading XML")
        keep = lambda p, f: f["py"] == "comment"
        mon.diff("comments read from XML", proj_diff(node, o, keep)[0])
        x = write_xml(obj.to_obj(node))
        mon.diff("comments written to XML", node_proj_diff(node, load_xml(x), keep)[0])
        if not kv:
            return
        o = read(kvn.render(kvn.events(node), kvn.Style(rng)), "reading KVN")
        got = obj.comment_places(o, False)
        mon.diff("comments read from KVN", cdiff(want, got))
        toks = kvn.tokenize(write_kvn(obj.to_obj(node)))
        mon.diff("comments written to KVN", kvn_comment_diff(kvn.events(node), toks))


def kvn_comment_diff(want, raw):
    a, b, n = [], [], 0
    for e in want:
        if e[0] == "#":
            a.append((n, e[1]))
        elif e[0] != "mark":
            n += 1
    n = 0
    for e in raw:
        if e[0] == "#":
            t = e[1]
            b.append((n, t[1:].strip(" \t") if t.startswith("=") else t))
        elif e[0] != "mark":
            n += 1
    return cdiff(a, b)


def strip_index(p):
    out, skip = [], False
    for ch in p:
        if ch == "[":
            skip = True
        elif ch == "]":
            skip = False
        elif not skip:
            out.append(ch)
    return "".join(out)


def cdiff(a, b):
    for i in range(max(len(a), len(b))):
        x = a[i] if i < len(a) else None
        y = b[i] if i < len(b) else None
        if x != y:
            return ["comment #%d: expected %s, got %s (number = values in front of it)" % (i, x, y)]
    return []


def many_comments(node, n):
    k = 0

    def walk(x):
        nonlocal k
        if x.get("comment"):
            x["comment"] = ["c%d line %d" % (k, i) for i in range(n)]
            k += 1
        for v in x.v.values():
            for e in v if isinstance(v, list) else [v]:
                if isinstance(e, Node):
                    walk(e)
    walk(node)


class C09(Check):
    ID = "C09"
    TECH = "runtime oracle: exact comparison of every number and epoch, both formats and directions"
    RULE = ("every number of a generated message is replaced by a lexically hostile one within its bounds (up to 40 "
            "digits, exponents, signs, leading/trailing zeros, near-halves), half of the epochs by hostile ones (other words, leap seconds, midnights, "
            "limits of years, up to 40 digits); read and written in both formats and "
            "compared exactly; non-trivial = at least 5 numbers; distinct by text")

    def plan(self, tier):
        s = self.seed
        c = list(work.rand(s, TYPES, self.scale(tier, 3000, 24000), fill=0.9, maxlist=3))
        c += list(work.rand(s, TYPES, self.scale(tier, 600, 8000), "lean", fill=0.2, maxlist=2))
        c += list(work.attitude(s, 1)) + list(work.observations(s))
        return c

    def run(self, case, mon):
        kv = random.Random(case["s"] + "f").random() < 0.75
        node, rng = work.make(case, kv)
        nasty_numbers(node, rng, mon)
        observe(mon, node)
        keep = lambda p, f: f["base"] in ("decimal", "int") or is_epoch(f)
        xt = xmlio.dumps(node, xmlio.Style(rng))
        d, n = proj_diff(node, read(xt, "reading XML"), keep)
        mon.ev("numbers", n)
        mon.input(xt, n - 3)
        mon.diff("numbers read from XML", d)
        o = obj.to_obj(node)
        mon.diff("numbers written to XML", node_proj_diff(node, load_xml(write_xml(o)), keep)[0])
        if kv:
            ev = kvn.events(node)
            d, n = proj_diff(node, read(kvn.render(ev), "reading KVN"), keep)
            mon.diff("numbers read from KVN", d)
            k = write_kvn(o)
            # numbers of the text, found through the independent line model
            want = [e for e in ev if e[0] in ("data", "kv")]
            got = [e for e in kvn.tokenize(k) if e[0] in ("data", "kv")]
            mon.diff("numbers written to KVN", number_lines(node, want, got))


EPOCH = re.compile(r"[+-]?\d{4,}-[\d-]+T\d\d:\d\d:[\d.]+\S*$")


def is_epoch(f):
    return f["base"] == "str" and f.get("pattern", "").startswith("\\-?\\d")


def nasty_epoch(rng):
    if rng.random() < 0.03:
        # the library takes any word as an epoch, and has to keep it
        return rng.choice(["T0+120", "Type1", "aemType", "2020Type", "2020/01/01-00:00:00", "L-5min", "12:00:00", "UNKNOWN", "2451545.0TDB", "Jan/1/2020", "0x7E4", "nan", "None"])
    y = "%04d" % rng.choice([1, 999, 1582, 1899, 1900, 1957, 1969, 1970, 1999, 2000, 2001, 2016, 2038, 2100, 9999, rng.randint(1950, 2050)])
    d = rng.choice(["-%03d" % rng.choice([1, 60, 365, 366, rng.randint(1, 365)]), "-02-29", "-02-28", "-12-31", "-01-01", "-%02d-%02d" % (rng.randint(1, 12), rng.randint(1, 28))])
    t = "T" + rng.choice(["00:00:00", "23:59:59", "23:59:60", "24:00:00", "12:00:00", "00:00:01", "%02d:%02d:%02d" % (rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59))])
    fr = rng.choice(["", "", ".0", ".000", ".999999", ".9999999999999", ".5", ".10", ".1234567", ".000000001",
                     "." + "".join(rng.choice("0123456789") for _ in range(rng.randint(1, 40)))])
    return y + d + t + fr + rng.choice(["", "", "", "Z"])


def number_lines(node, want, got):
    """compare only the numeric parts of corresponding lines."""
    if len(want) != len(got):
        return ["%d value lines instead of %d" % (len(got), len(want))]
    for w, g in zip(want, got):
        if w[0] != g[0]:
            return ["expected %r, got %r" % (w, g)]
        if w[0] == "data":
            a, b = w[1], g[1]
        elif isinstance(w[2], tuple):
            a, b = w[2], tuple(g[2].split())
        else:
            t = g[2][:g[2].index("[")] if w[3] is not None and "[" in g[2] else g[2]
            a, b = (w[2],), (t.strip(),)
        for x, y in zip(a, b):
            if x != y and kvn._isnum(x) and not kvn._num(x, y):
                return ["expected number %s, got %s in %r" % (x, y, g)]
            if EPOCH.match(x) and x != y:
                return ["expected epoch %s, got %s in %r" % (x, y, g)]
        if len(a) != len(b):
            return ["expected %r, got %r" % (a, b)]
    return []


def nasty(rng, f, neg_ok=True):
    digs = lambda n: "".join(rng.choice("0123456789") for _ in range(n))
    k = rng.randrange(13)
    s = ""
    if k == 0:
        s = digs(rng.randint(1, 3)) + "." + digs(rng.randint(15, 40))
    elif k == 1:
        s = rng.choice(["0.1", "0.2", "0.30000000000000004", "2.675", "1.005", "0.49999999999999999", "0.5"])
    elif k == 2:
        s = "%d.%sE%s%02d" % (rng.randint(1, 9), digs(rng.randint(1, 25)), rng.choice("+-"), rng.randint(0, 25))
    elif k == 3:
        s = "0." + "0" * rng.randint(1, 20) + digs(5) + "1"
    elif k == 4:
        s = digs(rng.randint(17, 30)) + "." + digs(3)
    elif k == 5:
        s = rng.choice(["0", "0.0", "-0", "0.000", "00.00", "0E5", "1.000", "1.10", "100", "1E2", "-1.50"])
    elif k == 6:
        s = "%d.%s" % (rng.randint(0, 9), "9" * rng.randint(8, 30))
    elif k == 7:
        s = "%d.%s5" % (rng.randint(0, 9), digs(rng.choice([3, 6, 8, 12, 15])))
    elif k == 8:
        s = "+" + digs(2) + "." + digs(4)
    elif k == 9:
        s = "." + digs(6)
    elif k == 10:
        s = "%d%se-%d" % (rng.randint(1, 9), rng.choice(["", ".0", ".25"]), rng.randint(1, 30))
    elif k == 11:
        # beyond binary floating point
        s = "%d.%s%s%s%d" % (rng.randint(1, 9), digs(rng.randint(1, 20)), rng.choice("eE"), rng.choice(["-", "+", ""]), rng.choice([309, 324, 400, 5000, 40000]))
    else:
        s = "0.%s" % digs(rng.randint(1, 18))
    if neg_ok and s[0] not in "+-" and rng.random() < 0.35:
        s = "-" + s
    return s


def in_bounds(s, f):
    d = Decimal(s)
    return not (("min_inclusive" in f and d < Decimal(f["min_inclusive"])) or
                ("min_exclusive" in f and d <= Decimal(f["min_exclusive"])) or
                ("max_inclusive" in f and d > Decimal(f["max_inclusive"])) or
                ("max_exclusive" in f and d >= Decimal(f["max_exclusive"])))


def nasty_numbers(node, rng, mon):
    for f in fields(node.cls):
        v = node.get(f["py"])
        if v is None or "fixed" in f:
            continue
        for i in v if isinstance(v, list) else [v]:
            if isinstance(i, Node):
                nasty_numbers(i, rng, mon)
        if f["base"] == "decimal" and not isinstance(v, list):
            for _ in range(20):
                s = nasty(rng, f)
                if in_bounds(s, f):
                    node[f["py"]] = s
                    mon.cov("digits", len(Decimal(s).as_tuple().digits))
                    mon.cov("numeric_positions", node.cls + "." + f["py"])
                    break
        elif is_epoch(f) and not isinstance(v, list) and rng.random() < 0.5:
            node[f["py"]] = nasty_epoch(rng)
            mon.cov("epoch_positions", node.cls + "." + f["py"])


class C10(Check):
    ID = "C10"
    TECH = "runtime oracle: (value, unit) pairs, both formats and directions"
    RULE = ("messages of every type with units given always, never or at random and every unit of every quantity; "
            "(value, unit) pairs compared after reading and writing in both formats; non-trivial = at least 3 "
            "quantities; distinct by text")

    def plan(self, tier):
        s = self.seed
        c = [x for x in work.enums(s, TYPES) if x["p"].endswith(".units")]
        for u in (0.0, 0.5, 1.0):
            c += list(work.rand(s, TYPES, self.scale(tier, 1200, 8000), "units%s" % u, units=u, maxlist=2))
            c += list(work.rand(s, TYPES, self.scale(tier, 160, 800), "full%s" % u, units=u, maxlist=2, fill=1.0))
        return c

    def run(self, case, mon):
        kv = random.Random(case["s"] + "f").random() < 0.75
        node, rng = work.make(case, kv)
        observe(mon, node)
        qs = [q for q in quantities(node)]
        for _, f, u in qs:
            mon.cov("units", u)
        mon.ev("quantities", len(qs))
        xt = xmlio.dumps(node, xmlio.Style(rng))
        mon.input(xt, len(qs) - 1)
        want = [(p, u) for p, f, u in qs]
        o = read(xt, "reading XML")
        mon.diff("units read from XML", udiff(want, oquant(o)))
        o2 = obj.to_obj(node)
        n2 = load_xml(write_xml(o2))
        mon.diff("units written to XML", udiff(want, [(p, u) for p, f, u in quantities(n2)]))
        if kv:
            ev = kvn.events(node)
            o = read(kvn.render(ev, kvn.Style(rng)), "reading KVN")
            mon.diff("units read from KVN", udiff(want, oquant(o)))
            got = [e for e in kvn.tokenize(write_kvn(o2)) if e[0] == "kv"]
            kvs = [e for e in ev if e[0] == "kv"]
            mon.diff("units written to KVN", ulines(kvs, got))


def quantities(n, path=""):
    """(path, field, unit or None) of every quantity that may carry a unit."""
    for f in fields(n.cls):
        v = n.get(f["py"])
        if v is None or f["base"] != "class":
            continue
        for i, e in enumerate(v if f.get("list") else [v]):
            p = "%s/%s%s" % (path, f["py"], "[%d]" % i if f.get("list") else "")
            if "units" in CLASSES[e.cls]["by_py"]:
                yield p, f, e.get("units")
            else:
                yield from quantities(e, p)


def oquant(o, path=""):
    out = []
    for f in fields(type(o).__name__):
        v = getattr(o, f["py"])
        if v is None or f["base"] != "class":
            continue
        for i, e in enumerate(v if f.get("list") else [v]):
            p = "%s/%s%s" % (path, f["py"], "[%d]" % i if f.get("list") else "")
            if "units" in CLASSES[type(e).__name__]["by_py"]:
                u = e.units
                out.append((p, getattr(u, "value", u)))
            else:
                out += oquant(e, p)
    return out


def udiff(want, got):
    g = dict(got)
    out = []
    for p, u in want:
        if p not in g:
            out.append("%s: quantity is missing" % p)
        elif g[p] != u:
            out.append("%s: expected unit %s, got %s" % (p, u, g[p]))
    return out[:4]


def ulines(want, got):
    if len(want) != len(got):
        return ["%d keyword lines instead of %d" % (len(got), len(want))]
    for w, g in zip(want, got):
        if isinstance(w[2], tuple):
            continue
        if w[3] is not None and not g[2].endswith("[" + w[3] + "]"):
            return ["expected unit [%s] in %r" % (w[3], g)]
        if w[3] is None and kvn._isnum(w[2]) and "[" in g[2]:
            return ["unexpected unit in %r" % (g,)]
    return []


class C11(Check):
    ID = "C11"
    TECH = "runtime oracle: user-defined (name, value) lists, both formats and directions"
    RULE = ("OPM/OMM/RDM (every type with a user-defined block) with 0..200 parameters, names that resemble other keywords "
            "or the prefix, arbitrary text values; lists compared after reading and writing in both formats; "
            "non-trivial = at least 2 parameters; distinct by text")
    NAMES = ["X", "EPOCH", "OBJECT_NAME", "USER", "USER_DEFINED", "USER_DEFINED_X", "DEFINED", "MASS", "A", "1", "COMMENT",
             "CCSDS_OPM_VERS", "META_START", "VERY_LONG_PARAMETER_NAME_OF_A_USER_0123456789", "EARTH_MODEL", "X-Y", "X.Y",
             "MAN_EPOCH_IGNITION", "MASS_2", "CX_X", "TLE", "_X", "X_", "__", "A__B", "1_", "USER_DEFINED_", "A B", "THE LONG NAME", "#X", "A[B]", "[KM]", "X%", "(X)", "A:B", "A/B", "\u00c4\u0416", "A  B",
             "2020-01-01T00:00:00 1 2 3"]

    def plan(self, tier):
        s, c = self.seed, []
        types = [t for t in TYPES if any(f["base"] == "class" and f["ref"] == "UserDefinedType" for _, f, _ in work.paths(t))]
        self.types = types
        for t in types:
            ch = [(p, chain) for p, f, chain in work.paths(t) if f["base"] == "class" and f["ref"] == "UserDefinedType"][0]
            force = {x: True for x in ch[1] + [ch[0]]}
            for i in range(self.scale(tier, 700, 6000)):
                n = [1, 2, 3, 5, 8, 13][i % 6] if i % 50 else [40, 101, 200, 257, 1001, 1025][(i // 50) % 6]
                c.append(dict(k="params", t=t, s="%s/ud/%s/%d" % (s, t, i), n=n,
                              g=dict(force=force, fill=[0.0, 0.3, 0.8][i % 3], pcom=0.1, maxlist=1)))
            for i in range(self.scale(tier, 40, 400)):
                c.append(dict(k="none", t=t, s="%s/ud0/%s/%d" % (s, t, i), n=0,
                              g=dict(force={ch[0]: False}, fill=0.5)))
        return c

    def run(self, case, mon):
        node, rng = work.make(case, True)
        r = random.Random(case["s"] + "n")
        ud = find(node, "UserDefinedType")
        if ud is not None:
            names = set()
            lst = []
            for i in range(case["n"]):
                nm = r.choice(self.NAMES) if r.random() < 0.5 else "%s_%d" % (r.choice(self.NAMES), i)
                if nm in names and r.random() < 0.8:
                    nm = "%s_%d" % (nm, i)
                names.add(nm)
                lst.append(Node("UserDefinedParameterType", value=utext(r, node, rng), parameter=nm))
            ud["user_defined"] = lst
        observe(mon, node)
        want = [(i["parameter"], i["value"]) for i in (ud["user_defined"] if ud else [])]
        mon.ev("parameters", len(want))
        ev = kvn.events(node)
        kt = kvn.render(ev, kvn.Style(rng))
        mon.input(kt, len(want))
        mon.diff("user parameters read from KVN", ldiff(want, oud(read(kt, "reading KVN"))))
        o = obj.to_obj(node)
        got = [(e[1][len("USER_DEFINED_"):], e[2]) for e in kvn.tokenize(write_kvn(o))
               if e[0] == "kv" and e[1].startswith("USER_DEFINED_")]
        mon.diff("user parameters written to KVN", ldiff(want, got))
        mon.diff("user parameters read from XML", ldiff(want, oud(read(xmlio.dumps(node, xmlio.Style(rng)), "reading XML"))))
        n2 = load_xml(write_xml(o))
        u2 = find(n2, "UserDefinedType")
        got = [(i["parameter"], i["value"]) for i in (u2["user_defined"] if u2 else [])]
        mon.diff("user parameters written to XML", ldiff(want, got))


def utext(r, node, rng):
    from .gen import Gen
    return r.choice([lambda: Gen(r).text(5), lambda: "%d" % r.randint(0, 10**12), lambda: "1.5 [km]", lambda: "[x] y",
                     lambda: "a = b", lambda: "007", lambda: "1.10", lambda: "None", lambda: "USER_DEFINED_X = 1",
                     lambda: "x" * r.randint(1, 300), lambda: "2.0 [kg/m**3] more", lambda: "3 [a"])()


def find(n, cls):
    if n.cls == cls:
        return n
    for v in n.v.values():
        for e in v if isinstance(v, list) else [v]:
            if isinstance(e, Node):
                x = find(e, cls)
                if x is not None:
                    return x
    return None


def ofind(o, cls):
    if type(o).__name__ == cls:
        return o
    if not hasattr(o, "__dataclass_fields__"):
        return None
    for v in vars(o).values():
        for e in v if isinstance(v, list) else [v]:
            x = ofind(e, cls)
            if x is not None:
                return x
    return None


def oud(o):
    u = ofind(o, "UserDefinedType")
    return [(i.parameter, "" if i.value is None else i.value) for i in u.user_defined] if u is not None else []


def ldiff(want, got):
    if want == got:
        return []
    for i in range(max(len(want), len(got))):
        w = want[i] if i < len(want) else None
        g = got[i] if i < len(got) else None
        if w != g:
            return ["item %d: expected %r, got %r (%d and %d items)" % (i, w, g, len(want), len(got))]


class C12(Check):
    ID = "C12"
    TECH = "runtime metamorphic oracle: delete one optional item, compare the two readings"
    RULE = ("from a generated message one optional element or block is removed; both texts are read (XML and KVN) and "
            "both trees written; everything outside the removed item must be identical, and the item must be there before it is removed; non-trivial = an item was "
            "removed; distinct by (message, item)")
    SKIP = {"MeanElementsType.semi_major_axis", "MeanElementsType.mean_motion", "KeplerianElementsType.true_anomaly",
            "KeplerianElementsType.mean_anomaly", "AemMetadata.euler_rot_seq", "AemMetadata.quaternion_type",
            "EulerElementsThreeType.euler_frame_a", "StateVectorAccType.x_ddot", "StateVectorAccType.y_ddot",
            "StateVectorAccType.z_ddot"}
    SKIPCLS = {"QuaternionEphemerisType", "QuaternionDerivativeType", "QuaternionEulerRateType", "EulerAngleType",
               "EulerAngleRateType", "SpinType", "SpinNutationType", "QuaternionType", "QuaternionRateType",
               "RotationAngleType", "RotationRateType", "AttitudeStateType", "TrackingDataObservationType"}

    def plan(self, tier):
        s = self.seed
        c = list(work.rand(s, TYPES, self.scale(tier, 800, 12000), fill=0.7))
        c += list(work.rand(s, TYPES, self.scale(tier, 400, 6000), "mid", fill=0.35, maxlist=4))
        c += list(work.rand(s, TYPES, self.scale(tier, 400, 4000), "full", fill=1.0, maxlist=2))
        return c

    def removable(self, n, path=""):
        fs = fields(n.cls)
        left = sum(1 for f in fs if f["py"] != "comment" and n.get(f["py"]) not in (None, []))
        if any(f["kind"] == "text" for f in fs):
            left = 2 if "units" in CLASSES[n.cls]["by_py"] else 0
        for f in fs:
            v = n.get(f["py"])
            if v is None or v == [] or "fixed" in f:
                continue
            p = "%s/%s" % (path, f["py"])
            key = n.cls + "." + f["py"]
            if not f.get("list") and not f.get("required") and f["kind"] != "text" and key not in self.SKIP and n.cls not in self.SKIPCLS \
                    and left >= 2:
                yield n, f, p
            if f["base"] == "class":
                for i, e in enumerate(v if f.get("list") else [v]):
                    yield from self.removable(e, p + ("[%d]" % i if f.get("list") else ""))

    def run(self, case, mon):
        node, rng = work.make(case, True)
        strip_comments(node)
        observe(mon, node)
        cand = list(self.removable(node))
        if not cand:
            return
        rng.shuffle(cand)
        full_k = read(kvn.render(kvn.events(node)), "reading KVN")
        full_x = read(xmlio.dumps(node), "reading XML")
        o = obj.to_obj(node)
        fk, fx = write_kvn(o), write_xml(o)
        for parent, f, p in cand[:3]:
            saved = parent.v.pop(f["py"])
            mon.cov("removed", parent.cls + "." + f["py"])
            mon.ev("removals")
            ev = kvn.events(node)
            kt = kvn.render(ev)
            mon.input(kt + p, 5)
            mon.diff("KVN reading without %s" % p, self.cmp(full_k, read(kt, "reading KVN without %s" % p), p))
            mon.diff("XML reading without %s" % p, self.cmp(full_x, read(xmlio.dumps(node), "reading XML without %s" % p), p))
            o = obj.to_obj(node)
            fk_without = write_kvn(o)
            mon.diff("KVN output without %s" % p, subseq(kvn.tokenize(fk_without), kvn.tokenize(fk), f["py"] == "units"))
            mon.diff("XML output without %s" % p, xcmp(load_xml(fx), load_xml(write_xml(o)), p))
            parent.v[f["py"]] = saved
            # and it was there
            want = under(node, p)
            for what, got in (("read from KVN", full_k), ("read from XML", full_x), ("written to XML", load_xml(fx))):
                got = under(got, p)
                d = ldiff([q for q, f_, v in want], [q for q, f_, v in got])
                mon.diff("%s %s" % (p, what), ["is not there as a whole: %s" % d] if d else [])
            if f["py"] != "units":
                n = len(kvn.events(node)) - len(ev), len(kvn.tokenize(fk)) - len(kvn.tokenize(fk_without))
                mon.diff("%s written to KVN" % p, [] if n[0] == n[1] else ["adds %d lines, expected %d" % (n[1], n[0])])

    def cmp(self, a, b, p):
        under = lambda q: q == p or q.startswith(p + "/")
        fa = [(q, repr(v)) for q, f, v in flat(a) if not under(q)]
        fb = [(q, repr(v)) for q, f, v in flat(b)]
        return ldiff(fa, fb) or []


def under(x, p):
    # (an empty user-defined value is no value in the model)
    return [i for i in flat(x) if (i[0] == p or i[0].startswith(p + "/")) and not (i[2] == "" and "/user_defined[" in i[0])]


def xcmp(a, b, p):
    under = lambda q: q == p or q.startswith(p + "/")
    return ldiff([(q, v) for q, f, v in flat(a) if not under(q)], [(q, v) for q, f, v in flat(b)]) or []


def subseq(short, long, units=False):
    """every line of the shorter output occurs in the longer one, in order (a line may lose its unit)."""
    i = 0
    for e in short:
        while i < len(long) and long[i] != e and not (
                units and e[0] == long[i][0] == "kv" and e[1] == long[i][1]
                and long[i][2].startswith(e[2]) and long[i][2][len(e[2]):].strip().startswith("[")):
            i += 1
        if i == len(long):
            return ["line %r is not (at this place) in the output with the item" % (e,)]
        i += 1
    return []


def strip_comments(n):
    n.v.pop("comment", None)
    for v in n.v.values():
        for e in v if isinstance(v, list) else [v]:
            if isinstance(e, Node):
                strip_comments(e)


class C13(Check):
    ID = "C13"
    TECH = "runtime oracle: conservation and order of uniquely numbered items over large messages"
    RULE = ("OEM/TDM/AEM with up to hundreds of segments or lines, OPM/OMM/... with many repeated blocks, every repeated "
            "item carrying a unique number; items in = items out, in order and in their segment, both formats and "
            "directions; non-trivial = at least 10 items; distinct by text")

    def plan(self, tier):
        s, c = self.seed, []
        q = tier == "quick"
        segs = [1, 2, 3, 5, 10, 11, 17, 33, 64, 101, 129, 257, 501, 1001, 1025] + ([] if q else [128, 200, 256, 300, 512, 513, 2049])
        rows = [1, 2, 7, 10, 31, 64, 99, 100, 101, 128, 129, 200, 256, 257, 501, 513, 1001, 1025] + ([] if q else [400, 511, 512, 1000, 2500])
        for t, cls in (("Oem", "OemBody"), ("Tdm", "TdmBody"), ("Aem", "AemBody")):
            for n in segs:
                for rep in range(1 if q else 4):
                    c.append(dict(k="segments", t=t, s="%s/seg/%s/%d/%d" % (s, t, n, rep), n=n, rows=[1, 2, 3]))
            for n in [2049, 4097, 5001, 10001] if t != "Aem" else [2049]:
                c.append(dict(k="rows", t=t, s="%s/rows/%s/%d" % (s, t, n), n=1, rows=[n], lean=1))
            for n in rows:
                for rep in range(1 if q or n > 1000 else 4):
                    c.append(dict(k="rows", t=t, s="%s/rows/%s/%d/%d" % (s, t, n, rep), n=[1, 2, 3][rep % 3], rows=[n]))
            for i in range(40 if q else 600):
                c.append(dict(k="uneven", t=t, s="%s/uneven/%s/%d" % (s, t, i), n=[2, 3, 4, 6][i % 4], rows=[1, 2, 3, 5, 9, 20]))
        for t in ("Opm", "Cdm", "Rdm", "Omm", "Apm"):
            for p, f, chain in work.paths(t):
                if f.get("list") and not f.get("max_occurs") and f["py"] != "comment" and f["base"] == "class":
                    for n in [1, 2, 3, 5, 10, 20, 50, 99, 100, 101, 129, 257, 501, 1001, 1025] + ([] if q else [128, 256, 300, 2049, 5001]):
                        c.append(dict(k="blocks", t=t, s="%s/blk/%s/%s/%d" % (s, t, p, n),
                                      g=dict(sizes={p: n}, fill=0.4, maxlist=1, force={x: True for x in chain + [p]})))
        return c

    def build(self, case):
        if case["k"] == "blocks":
            return work.make(case, True)
        rng = random.Random(case["s"])
        from .gen import Gen
        g = Gen(rng, kvn=True, fill=0.0 if case.get("lean") else rng.choice([0.0, 0.3, 0.7]), pcom=0.1)
        t = case["t"]
        data = {"Oem": "OemData.state_vector", "Tdm": "TdmData.observation", "Aem": "AemData.attitude_state"}[t]
        body = t + "Body.segment"
        node = None
        if t == "Tdm" and rng.random() < 0.5:
            g.obs_fields = ["range", "receive_freq", "pressure", "angle_1", "doppler_instantaneous"]
        g.sizes = {body: 1, data: 1}
        node = g.message(t)
        segcls = [f for f in fields(node["body"].cls) if f["py"] == "segment"][0]["ref"]
        seglist = []
        for i in range(case["n"]):
            g.sizes = {data: rng.choice(case["rows"]), "OemData.covariance_matrix": rng.choice([0, 0, 1, 2, 4])}
            f = [f for f in fields(node["body"].cls) if f["py"] == "segment"][0]
            seglist.append(g.item(f, None))
        node["body"]["segment"] = seglist
        number_items(node)
        return node, rng

    def run(self, case, mon):
        node, rng = self.build(case)
        observe(mon, node)
        n = items(node)
        mon.ev("items", n)
        ev = kvn.events(node)
        kt = kvn.render(ev)
        mon.input(kt, n // 5)
        strip = lambda d: d
        mon.diff("items read from KVN", obj.diff(node, read(kt, "reading KVN"), comments=False))
        o = obj.to_obj(node)
        nc = [e for e in ev if e[0] != "#"]
        mon.diff("items written to KVN", kvn.event_diff(nc, [e for e in kvn.tokenize(write_kvn(o)) if e[0] != "#"]))
        mon.diff("items read from XML", obj.diff(node, read(xmlio.dumps(node), "reading XML"), comments=False))
        mon.diff("items written to XML", xmlio.diff_nodes(node, load_xml(write_xml(o)), comments=False))


def items(n):
    k = 0
    for f in fields(n.cls):
        v = n.get(f["py"])
        if isinstance(v, list) and f["base"] == "class":
            k += len(v)
        for e in v if isinstance(v, list) else [v]:
            if isinstance(e, Node):
                k += items(e)
    return k


def number_items(node):
    """give every tabular line a unique value so that loss, repetition and reordering show."""
    k = 0
    for seg in node["body"]["segment"]:
        d = seg["data"]
        for sv in d.get("state_vector") or []:
            k += 1
            sv["x"]["value"] = str(k)
        for cm in d.get("covariance_matrix") or []:
            k += 1
            cm[fields(cm.cls)[3]["py"]]["value"] = "%d.5" % k
        for ob in d.get("observation") or []:
            k += 1
            for f in fields(ob.cls):
                v = ob.get(f["py"])
                if f["py"] == "epoch" or v is None:
                    continue
                if isinstance(v, Node):
                    vf = CLASSES[v.cls]["by_py"]["value"]
                    if in_bounds(str(k), vf):
                        v["value"] = str(k)
                elif f["base"] == "decimal" and in_bounds(str(k), f):
                    ob[f["py"]] = str(k)


class C14(Check):
    ID = "C14"
    TECH = "runtime metamorphic oracle: the same KVN message in different layouts"
    RULE = ("one message rendered plainly and in 4 random layouts (line ends, blank lines, indentation, spaces around "
            "'=', column padding, unit spacing, trailing blanks, missing final newline); the readings must be equal; "
            "non-trivial = texts differ; distinct by layout text")

    def plan(self, tier):
        s = self.seed
        c = list(work.rand(s, TYPES, self.scale(tier, 1000, 16000)))
        c += list(work.rand(s, TYPES, self.scale(tier, 200, 3000), "full", fill=1.0, maxlist=2))
        c += list(work.attitude(s, 1)) + list(work.observations(s))
        for t in TYPES:
            for dim in DIMS:
                for i in range(self.scale(tier, 3, 30)):
                    c.append(dict(k="one-dim", t=t, s="%s/dim/%s/%s/%d" % (s, t, dim, i), dim=dim, g=dict(fill=0.6)))
        return c

    def run(self, case, mon):
        node, rng = work.make(case, True)
        observe(mon, node)
        ev = kvn.events(node)
        plain = kvn.render(ev)
        ref = obj.snapshot(read(plain, "reading the plain layout"))
        styles = []
        if "dim" in case:
            for v in DIMS[case["dim"]]:
                st = kvn.Style(rng)
                for k, x in NEUTRAL.items():
                    setattr(st, k, x)
                setattr(st, case["dim"], v)
                mon.cov("layout", (case["dim"], repr(v)))
                styles.append(st)
        else:
            for _ in range(4):
                styles.append(kvn.Style(rng))
        for st in styles:
            text = kvn.render(ev, st)
            if text == plain:
                continue
            mon.ev("layouts")
            mon.input(text, 5)
            d = snapdiff(ref, obj.snapshot(read(text, "reading layout %s" % vars(st))))
            mon.diff("layout nl=%r eq=%r blank=%r lead=%r trail=%r unitsp=%r" % (st.nl, st.eq, st.blank, st.lead, st.trail, st.unitsp), d)


DIMS = {
    "nl": ["\r\n", "\r"],
    "pad": [0, 5, 25, 40, 60],
    "eq": ["=", "  =  ", "\t=\t", " =", "= ", "          =          "],
    "blank": [0.3, 0.9],
    "comment_eq": [True],
    "unitsp": ["", " ", "      ", "\t"],
    "datasep": [" ", "     ", "\t", "\t\t  "],
    "lead": [" ", "    ", "\t"],
    "trail": [" ", "     ", "\t"],
    "final": [False],
    "unitin": [" ", "   "],
    "mixed": [True],
}
NEUTRAL = dict(unitin="", mixed=False, nl="\n", pad=20, eq=" = ", blank=0, comment_eq=False, unitsp=" ", datasep="  ", lead="", trail="", final=True)


def snapdiff(a, b, path=""):
    if a == b:
        return []
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) == 2 and a[0] == b[0] \
            and isinstance(a[1], tuple) and isinstance(b[1], tuple):
        if len(a[1]) != len(b[1]):
            return ["%s: %d and %d items" % (path or "/", len(a[1]), len(b[1]))]
        for i, (x, y) in enumerate(zip(a[1], b[1])):
            if x != y:
                if isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], str) and isinstance(y, tuple) and x[0] == y[0] \
                        and a[0] != "list":
                    return snapdiff(x[1], y[1], path + "/" + x[0])
                return snapdiff(x, y, "%s[%d]" % (path, i))
    return ["%s: %r and %r" % (path or "/", a, b)]


CHECKS = [C01, C02, C03, C04, C05, C06, C07, C08, C09, C10, C11, C12, C13, C14]
