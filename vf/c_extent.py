"""Checks of extents: no length of a text, number, line, blank or file is a limit."""
import os
import pathlib
import random

from . import kvn, obj, work, xmlio
from .base import (Check, TYPES, api, fields, F, kvn_io, kvn_text_diff, lib, observe, read, tmpdir, write_kvn, write_xml, xml_diff, xml_io)
from .c_values import follow, sites
from .core import Broken, Cpu, CpuLimit
from .gen import Gen

EDGES = [2 ** k for k in range(6, 14)]
SHORT = sorted({n + d for n in EDGES for d in (-1, 0, 1)} | {73, 81, 100, 101, 133, 200, 255, 999, 1000, 1001, 2000, 5000, 9999, 10001})
LONG = [16384, 16385, 20001, 32767, 32768, 32769, 50001, 65535, 65536, 65537, 100001, 131073]
HUGE = [262145, 524289, 1048577]

ASCII = ["ab", "c=d", "[km]", "x-ray", "T", "12", "0.5", "COMMENT", "EPOCH", "A,B;C", "(d)", "%s", "\\n", "#", "~"]
WIDE = ["é", "ü∆", "€€", "日本語", "𝛼𝛽", "😀", "é", "Ωß", "ж"]


def long_text(n, r, name=False):
    """a text of exactly n characters without white space at its ends; every part differs from its neighbours"""
    wide = r.choice([0, 0.3, 1])
    sep = "" if name or r.random() < 0.3 else " "
    out, k, size = [], r.randrange(1000), 0
    while size < n:
        k += 1
        w = "P%X" % k if name else ("%d" % k + r.choice(WIDE if r.random() < wide else ASCII))
        out.append(w)
        size += len(w) + len(sep)
    s = ("X" + sep.join(out))[:n]
    return s if s == s.strip() else s[:-1] + "z" if s[:-1] == s[:-1].lstrip() and s[-1] == " " else "z" * n


def replace(node, spot, v):
    own, f, k, p = spot
    if k is None:
        own[f["py"]] = v
    else:
        own[f["py"]][k] = v


def texts(node, path=()):
    """every place of a free text, comments included: (owner, field, index, path)"""
    for f in fields(node.cls):
        v = node.get(f["py"])
        if "fixed" in f or v is None:
            continue
        lst = f.get("list")
        for k, i in enumerate(v if lst else [v]):
            p = path + ((f["py"], k if lst else None),)
            if f["base"] == "class":
                yield from texts(i, p)
            elif f["base"] == "str" and "pattern" not in f:
                yield node, f, k if lst else None, p


class C29(Check):
    ID = "C29"
    TECH = "runtime oracle: messages with one very long part, both formats and directions, and large files through every entry point"
    RULE = ("one part of a generated message (every text position and comments, user-defined names and values, integers, decimals, white "
            "space of every kind, XML comments, whole files) is given a length around the usual boundaries (64 .. 1 MiB, one of 11 MB); reading and "
            "writing must keep it whole, files of many sizes full of multi-byte characters and CR LF are the same through every entry "
            "point; distinct by text")
    need = {"comparisons": 2000, "long_texts": 500, "blanks": 150, "files": 24}

    def plan(self, tier):
        s, c = self.seed, []
        q = tier == "quick"
        rng = random.Random("%s/extent" % s)

        def lengths(k):
            r = []
            for i in range(k):
                x = rng.random()
                r.append(rng.choice(SHORT) if x < 0.86 else rng.choice(LONG) if x < (0.985 if q else 0.96) else rng.choice(HUGE))
            return r
        for t in TYPES:
            for p, f, chain in work.paths(t):
                if f["base"] != "str" or "pattern" in f:
                    continue
                for j, n in enumerate(lengths(2 if q else 14)):
                    c.append(dict(k="text", t=t, p=p, n=n, s="%s/xt/%s/%s/%d" % (s, t, p, j),
                                  g=dict(fill=0.2, maxlist=2, longtext=0, units=0.8, force={x: True for x in chain + [p]})))
            # every boundary at a place of its own
            for n in SHORT + LONG + HUGE[:1 if q else 3]:
                c.append(dict(k="text", t=t, p=None, n=n, s="%s/xa/%s/%d" % (s, t, n), g=dict(fill=0.5, maxlist=2, longtext=0)))
            for j, n in enumerate([41, 64, 65, 100, 101, 128, 129, 255, 257, 500, 1001, 2049, 4001] * (1 if q else 4)):
                c.append(dict(k="number", t=t, n=n, s="%s/xn/%s/%d/%d" % (s, t, n, j), g=dict(fill=0.9, maxlist=2, longtext=0)))
            for fmt, kinds in (("XML", self.XMLBLANKS), ("KVN", self.KVNBLANKS)):
                for b in kinds:
                    ns = [rng.choice(SHORT), rng.choice([250001, 300001])] + ([] if q else [rng.choice(SHORT + LONG) for _ in range(4)])
                    for n in ns:
                        c.append(dict(k="blank", t=t, fmt=fmt, b=b, n=n, s="%s/xb/%s/%s/%s/%d" % (s, t, fmt, b, n),
                                      g=dict(fill=0.4, maxlist=2, longtext=0, units=0.8)))
        for j, n in enumerate([1000, 4096, 8192, 8193, 65536, 65537, 100001, 131072, 200000, 262144, 500000, 1048576] * (1 if q else 4)
                              + ([2100000] if q else [2100000, 5000000, 9000000])):
            for fmt in ("XML", "KVN"):
                c.append(dict(k="file", t=TYPES[(j + (fmt == "XML")) % len(TYPES)], fmt=fmt, n=n, s="%s/xf/%s/%d/%d" % (s, fmt, n, j),
                              g=dict(fill=0.3, maxlist=2, longtext=0)))
        for t in (["Opm"] if q else TYPES):
            c.append(dict(k="eleven", t=t, s="%s/x11/%s" % (s, t), g=dict(fill=0.2, maxlist=1, longtext=0)))
        return c

    def run(self, case, mon):
        node, rng = work.make(case, True)
        observe(mon, node)
        try:
            with Cpu(20):
                getattr(self, case["k"])(case, mon, node, rng)
        except CpuLimit as e:
            raise Broken("%s of %d: %s" % (case["k"], case.get("n", 0), e))

    def both(self, mon, node, what):
        xt, kt = xmlio.dumps(node), kvn.render(kvn.events(node))
        mon.input(kt, 5)
        mon.diff("%s read from XML" % what, short(obj.diff(node, read(xt, "reading %s from XML" % what))))
        mon.diff("%s read from KVN" % what, short(obj.diff_kvn(node, read(kt, "reading %s from KVN" % what))))
        o = obj.to_obj(node)
        mon.diff("%s written to XML" % what, short(xml_diff(node, write_xml(o, "writing %s to XML" % what))))
        mon.diff("%s written to KVN" % what, short(kvn_text_diff(node, write_kvn(o, "writing %s to KVN" % what))))

    def text(self, case, mon, node, rng):
        spots = list(texts(node))
        if case["p"]:
            cls, py = case["p"].split(".")
            mine = [x for x in spots if x[0].cls == cls and x[1]["py"] == py]
            spots = mine or spots
        if not spots:
            return
        sp = rng.choice(spots)
        name = sp[1]["py"] == "parameter"
        replace(node, sp, long_text(case["n"], rng, name))
        mon.ev("long_texts")
        mon.cov("long_positions", sp[0].cls + "." + sp[1]["py"])
        mon.cov("lengths", case["n"])
        self.both(mon, node, "a text of %d characters (%s)" % (case["n"], sp[1]["py"]))

    def number(self, case, mon, node, rng):
        n = case["n"]
        digs = lambda k: "".join(rng.choice("0123456789") for _ in range(k))
        spots = [x for x in sites(node) if x[1]["base"] in ("decimal", "int")]
        for own, f, k, p in rng.sample(spots, min(len(spots), 6)):
            old = own[f["py"]] if k is None else own[f["py"]][k]
            if f["base"] == "int":
                if "max_inclusive" in f:
                    continue
                v = rng.choice(["", "-"]) + str(rng.randint(1, 9)) + digs(n - 1)
            else:
                v = old
                if "e" in v.lower():
                    v = "0.5" if "min_inclusive" not in f or f["min_inclusive"] in ("0", "0.0", "-90", "-180", "-100.0", "-360.0") else None
                if v is None:
                    continue
                if "." not in v:
                    v += "."
                # more digits towards zero stay within the bounds of most; the rest is left alone
                v = v + digs(n)
            from .c_formats import in_bounds
            if f["base"] == "decimal" and not in_bounds(v, f):
                continue
            replace(node, (own, f, k, p), v)
            mon.ev("long_numbers")
            mon.cov("digits", n)
        self.both(mon, node, "numbers of %d digits" % n)

    XMLBLANKS = ["decl", "prolog", "between", "start", "end", "number", "comment", "pi", "epilog", "attr", "prologcomment"]
    KVNBLANKS = ["top", "lines", "lead", "trail", "eq1", "eq2", "columns", "unit", "bottom", "crlf"]

    def blank(self, case, mon, node, rng):
        n = case["n"]
        ws = rng.choice([" ", " ", "\t", "\n", "\r\n", " \n"]) if case["fmt"] == "XML" else " "
        pad = (ws * n)[:n]
        b = case["b"]
        if case["fmt"] == "XML":
            t = xmlio.dumps(node)
            lines = t.split("\n")
            i = rng.randrange(2, len(lines) - 2)
            s = lines[i]
            if b == "decl":
                t = t.replace('?>', pad + '?>', 1) if rng.random() < 0.5 else t.replace('"1.0" ', '"1.0" ' + pad, 1) if rng.random() < 0.5 else \
                    '<?xml version="1.0"%s?>%s' % (pad, t[t.index("?>") + 2:])
            elif b == "prolog":
                t = t.replace("?>", "?>" + pad, 1)
            elif b == "prologcomment":
                t = t.replace("?>", "?><!--%s-->" % (rng.choice(["x", "<a>", "€ ", "y - ", "encoding="]) * n)[:n].rstrip("-").rstrip("<"), 1)
            elif b == "epilog":
                t += pad
            elif b in ("comment", "pi", "between"):
                x = {"comment": "<!--%s-->" % (rng.choice(["x", "<a>", "é "]) * n)[:n], "pi": "<?p %s?>" % ("ab " * n)[:n], "between": pad}[b]
                t = "\n".join(lines[:i] + [x] + lines[i:]) if self.elementwise(s, lines[i - 1]) else "\n".join(lines[:2] + [x] + lines[2:])
            elif b == "attr":
                t = t.replace(' id="', '%s id%s=%s"' % ((pad,) + rng.choice([("", ""), (pad, ""), ("", pad)])), 1)
            elif b == "start":
                t = "\n".join(lines[:2] + ["<header%s>" % pad if lines[2].strip() == "<header>" else lines[2]] + lines[3:])
                if pad not in t:
                    return
            elif b == "end":
                t = t.replace("</header>", "</header%s>" % pad, 1)
            elif b == "number":
                import re
                m = [x for x in re.finditer(r"<(\w+)[^<>]*>([-+.\dEe]+)</\1>", t) if x.group(1) in self.numeric()]
                if not m:
                    return
                x = rng.choice(m)
                t = t[:x.start(2)] + (pad if rng.random() < 0.7 else "") + x.group(2) + pad + t[x.end(2):]
            judge = lambda o: obj.diff(node, o)
        else:
            ev = kvn.events(node)
            t = kvn.render(ev)
            lines = t.split("\n")
            i = rng.randrange(1, len(lines) - 1)
            empty = rng.choice(["\n", "\n", " \n", "\r\n", "\t\r\n"])
            if b == "top":
                # in front of the first line is nothing but the start of the file
                i = 1
            if b == "bottom":
                i = len(lines)
            if b in ("top", "lines", "bottom"):
                t = "\n".join(lines[:i]) + "\n" + (empty * n)[:n - n % len(empty)] + "\n".join(lines[i:])
            elif b == "crlf":
                t = "\r\n".join(x + "\r\n" * (n // len(lines)) for x in lines)
            else:
                eq = [k for k, e in enumerate(ev) if e[0] == "kv" and k]
                data = [k for k, e in enumerate(ev) if e[0] == "data"]
                unit = [k for k, e in enumerate(ev) if e[0] == "kv" and e[3] is not None]
                k = rng.choice({"columns": data, "unit": unit, "eq1": eq, "eq2": eq}.get(b, range(1, len(ev))) or [0])
                if k == 0:
                    return
                x = lines[k]
                if b == "lead":
                    x = pad + x
                elif b == "trail":
                    x = x + pad
                elif b == "eq1":
                    x = x.replace("=", pad + "=", 1)
                elif b == "eq2":
                    x = x.replace("=", "=" + pad, 1)
                elif b == "columns":
                    x = x.replace("  ", pad, 1)
                elif b == "unit":
                    x = x[:x.rindex("[")] + pad + x[x.rindex("["):]
                t = "\n".join(lines[:k] + [x] + lines[k + 1:])
            judge = lambda o: obj.diff_kvn(node, o)
        mon.ev("blanks")
        mon.cov("blank_kinds", (case["fmt"], b))
        mon.input(t, 5)
        mon.diff("%s with %d blanks (%s)" % (case["fmt"], n, b), short(judge(read(t, "reading %s with %d blanks (%s)" % (case["fmt"], n, b)))))

    _num = None

    def numeric(self):
        if self._num is None:
            from .schema import CLASSES
            C29._num = {f["xml"] for c in CLASSES for f in fields(c) if f["base"] in ("decimal", "int")} | {
                f["xml"] for c in CLASSES for f in fields(c) if f["base"] == "class" and any(
                    g["kind"] == "text" and g["base"] in ("decimal", "int") for g in fields(f["ref"]))}
            C29._num -= {f["xml"] for c in CLASSES for f in fields(c) if f["base"] == "str"}
        return self._num

    def elementwise(self, a, b):
        """between these two lines is no text of an element (which may have several lines)"""
        return a.lstrip().startswith("<") and b.rstrip().endswith(">")

    def file(self, case, mon, node, rng):
        n, fmt = case["n"], case["fmt"]
        kv = fmt == "KVN"
        head = node["header"]
        head["comment"] = []
        nl = rng.choice(["\n", "\r\n", "\r\n"])
        size = 0
        while size < n:
            k = rng.choice([1, 2, 3, 30, 500, 5000])
            c = long_text(rng.randint(1, k), rng) if rng.random() < 0.5 else "".join(rng.choice(WIDE) for _ in range(k))
            head["comment"].append(c)
            size += len(c.encode()) + (8 if kv else 27) + len(nl)
        st = (kvn if kv else xmlio).Style()
        st.nl = nl
        t = kvn.render(kvn.events(node), st) if kv else xmlio.dumps(node, st)
        data = b"\xef\xbb\xbf" * (rng.random() < 0.3) + t.encode("utf-8")
        mon.ev("files")
        mon.cov("file_sizes", (fmt, len(data) // 4096))
        mon.input(t, 5)
        own = (kvn_io() if kv else xml_io())
        io = api().NdmIo
        fm = getattr(F(), fmt)
        judge = (lambda o: obj.diff_kvn(node, o)) if kv else (lambda o: obj.diff(node, o))
        tree = obj.to_obj(node)
        with tmpdir() as d:
            p = os.path.join(d, "in")
            with open(p, "wb") as f:
                f.write(data)
            ways = {"NdmIo.from_bytes": lambda: io().from_bytes(data), "NdmIo.from_path": lambda: io().from_path(p),
                    "NdmIo.from_string": lambda: io().from_string(t),
                    own.__name__ + ".from_path": lambda: own().from_path(pathlib.Path(p)), own.__name__ + ".from_string": lambda: own().from_string(t)}
            if not kv:
                ways[own.__name__ + ".from_bytes"] = lambda: own().from_bytes(data)
            for w, fn in ways.items():
                mon.diff("%s of %d bytes (%s)" % (w, len(data), fmt), short(judge(lib(w, fn))))
            ref = lib("to_string", io().to_string, tree, fm)
            mon.diff("a text of %d characters (%s)" % (len(ref), fmt), short(kvn_text_diff(node, ref) if kv else xml_diff(node, ref)))
            for w, fn in (("NdmIo.to_file", lambda q: io().to_file(tree, fm, q)), (own.__name__ + ".to_file", lambda q: own().to_file(tree, q))):
                q = os.path.join(d, "out")
                lib(w, fn, q)
                with open(q, "rb") as f:
                    got = f.read()
                mon.diff("%s of %d characters (%s)" % (w, len(ref), fmt), [] if got == ref.encode("utf-8") else ["%d bytes instead of %d, or others" % (len(got), len(ref.encode("utf-8")))])

    def eleven(self, case, mon, node, rng):
        """beyond the limits XML parsers have by default (10 MB of text, of comment)"""
        node["header"]["originator"] = "VFMARK"
        t = xmlio.dumps(node)
        big = ("x%07d " % rng.randrange(10 ** 6)) * 1200000
        big = "b" + big[:-1] + "e"
        node["header"]["originator"] = big
        mon.input(t, 5)
        mon.ev("long_texts")
        mon.diff("a text of 11 MB read from XML", short(obj.diff(node, read(t.replace("VFMARK", big), "reading 11 MB of text"))))
        if case["t"] == "Opm":
            mon.diff("a text of 11 MB read from KVN", short(obj.diff_kvn(node, read(kvn.render(kvn.events(node)), "reading 11 MB of text from KVN"))))
        node["header"]["originator"] = "VFMARK"
        mon.diff("a comment of 11 MB read from XML", short(obj.diff(node, read(t.replace("?>", "?><!--%s-->" % big, 1), "reading 11 MB of comment"))))
        mon.diff("11 MB of blanks read from XML", short(obj.diff(node, read(t.replace("<header>", "<header>" + " " * 11000000, 1), "reading 11 MB of blanks"))))


def short(d):
    return [x if len(x) < 400 else x[:250] + " ... " + x[-120:] for x in d]


CHECKS = [C29]
