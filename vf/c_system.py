"""Checks of the library as a system: detection, entry points, combined files, histories,
threads, purity, side effects, bounded work."""
import copy
import decimal
import gc
import json
import locale
import logging
import os
import pathlib
import random
import re
import socket
import subprocess
import sys
import threading
import time
import traceback
import warnings

from . import kvn, obj, work, xmlio
from .base import (Broken, Check, COMBI_ORDER, F, HERE, Node, TYPES, api, count_leaves, fields, kvn_io, kvn_text_diff, lib,
                   observe, read, tmpdir, write_kvn, write_xml, xml_diff, xml_io)
from .c_formats import load_xml, snapdiff, textdiff
from .core import Cpu, CpuLimit, Steps, StepLimit, cold
from .gen import Gen


class PathLike:
    def __init__(self, p):
        self.p = p

    def __fspath__(self):
        return self.p


def raises(mon, what, exc, fn, *a, **k):
    """the operation must raise `exc` (an exception class or tuple)."""
    mon.ev("refusals")
    try:
        r = fn(*a, **k)
    except exc:
        mon.diff(what, [])
        return True
    except Exception as e:
        mon.diff(what, ["raised %s (%s) instead of %s" % (type(e).__name__, str(e)[:120], exc)])
        return True
    mon.diff(what, ["was accepted and returned %s" % (repr(r)[:160])])
    return False


# ---------------------------------------------------------------------------------------
class C15(Check):
    ID = "C15"
    TECH = "runtime oracle: result class and refusal of generated and foreign inputs"
    RULE = ("messages of every type in XML and KVN behind every kind of leading/trailing decoration, with contents that "
            "mimic other formats and types, through strings, bytes and misleadingly named files: the class must be that "
            "of the message; JSON, foreign and unidentifiable inputs and outputs must raise; distinct by text")
    need = {"comparisons": 300, "detections": 200, "refusals": 100}

    PRE_X = ["", "\n", "  \n\t", "\r\n\r\n", "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n", "<!-- CCSDS_OPM_VERS = 2.0 -->\n",
             "<?xml version='1.0'?><!-- <omm> [1] -->", "<?xml-stylesheet href='a.xsl'?>\n"]
    PRE_K = ["", "\n", "  \n\t", "\r\n\r\n", "\n\n\n\n", "\r\r"]
    POST = ["", "\n", "\n\n  \n", "\r\n", " "]

    def plan(self, tier):
        s, c = self.seed, []
        for t in TYPES:
            for i in range(len(self.PRE_X)):
                for j in range(len(self.POST)):
                    c.append(dict(k="xml", t=t, s="%s/dx/%s/%d/%d" % (s, t, i, j), pre=i, post=j, g=dict(maxlist=1)))
            for i in range(len(self.PRE_K)):
                for j in range(len(self.POST)):
                    c.append(dict(k="kvn", t=t, s="%s/dk/%s/%d/%d" % (s, t, i, j), pre=i, post=j, g=dict(maxlist=1)))
            for i in range(self.scale(tier, 100, 800)):
                c.append(dict(k="mimic", t=t, s="%s/mi/%s/%d" % (s, t, i), g=dict(maxlist=1, fill=0.2)))
            for i in range(self.scale(tier, 10, 100)):
                c.append(dict(k="files", t=t, s="%s/fi/%s/%d" % (s, t, i), g=dict(maxlist=1, fill=0.2)))
        for i in range(self.scale(tier, 400, 4000)):
            c.append(dict(k="foreign", s="%s/fo/%d" % (s, i)))
        for t in TYPES + ["Ndm"]:
            for i in range(self.scale(tier, 3, 20)):
                c.append(dict(k="json-out", t=t, s="%s/jo/%s/%d" % (s, t, i), g=dict(maxlist=1, fill=0.2)))
        return c

    def judge(self, mon, what, t, o):
        mon.ev("detections")
        mon.cov("detected", (t, what.split()[0]))
        n = type(o).__name__
        d = [] if n == t else ["a %s was read as %s" % (t, n)]
        want = "CCSDS_%s_VERS" % t.upper()
        if not d and getattr(o, "id", None) != want:
            d = ["id is %r, expected %r" % (getattr(o, "id", None), want)]
        mon.diff(what, d)

    def run(self, case, mon):
        k = case["k"]
        io = api().NdmIo()
        if k == "foreign":
            return self.foreign(case, mon, io)
        if k == "json-out":
            rng = random.Random(case["s"])
            node = Gen(rng, maxlist=1).combined(2) if case["t"] == "Ndm" else work.make(case, True)[0]
            o = obj.to_obj(node)
            mon.input(case["s"], 3)
            raises(mon, "JSON output of %s" % case["t"], NotImplementedError, io.to_string, o, F().JSON)
            with tmpdir() as d:
                p = os.path.join(d, "o.json")
                raises(mon, "JSON file of %s" % case["t"], NotImplementedError, io.to_file, o, F().JSON, p)
                mon.diff("JSON file", ["a file was written"] if os.listdir(d) else [])
                for x in ("XML", "kvn", None, 1, "", F, io):
                    # not a format: no silent nothing
                    raises(mon, "output as %.20r" % (x,), Exception, io.to_string, o, x)
                    raises(mon, "file as %.20r" % (x,), Exception, io.to_file, o, x, p)
                mon.diff("file of no format", ["a file was written"] if os.listdir(d) else [])
            return
        node, rng = work.make(case, True)
        if k == "mimic":
            mimic(node, rng, case["t"])
        observe(mon, node)
        if k == "xml":
            st = xmlio.Style()
            st.decl = None
            body = xmlio.dumps(node, st)
            pre = self.PRE_X[case["pre"]]
            text = pre + body.strip() + self.POST[case["post"]]
            mon.cov("decorations", (pre, self.POST[case["post"]]))
        elif k == "kvn":
            text = self.PRE_K[case["pre"]] + kvn.render(kvn.events(node)).strip("\n") + self.POST[case["post"]]
        else:
            text = None
        if text is not None:
            mon.input(text, 5)
            self.judge(mon, k + " text", case["t"], lib("reading %s" % k, io.from_string, text))
            self.judge(mon, k + " bytes", case["t"], lib("reading %s" % k, io.from_bytes, text.encode("utf-8")))
            return
        for fmt, text in (("xml", xmlio.dumps(node, xmlio.Style(rng))), ("kvn", kvn.render(kvn.events(node)))):
            mon.input(text, 5)
            self.judge(mon, fmt + " text", case["t"], lib("reading %s" % fmt, io.from_string, text))
            if k == "files":
                with tmpdir() as d:
                    for ext in (".xml", ".kvn", ".json", ".opm", ".txt", "", ".ndm"):
                        p = os.path.join(d, rng.choice(["m", "aem_x", "oem", "ndm.xml", "CCSDS_"]) + ext)
                        with open(p, "wb") as f:
                            f.write(text.encode("utf-8"))
                        self.judge(mon, fmt + " file named *" + ext, case["t"], lib("reading " + p, io.from_path, p))

    def foreign(self, case, mon, io):
        r = random.Random(case["s"])
        k = r.randrange(12)
        w = lambda: " ".join(r.choice(["a", "1", "OPM", "CCSDS", "{", "x=1", "ndm", "é"]) for _ in range(r.randint(0, 6)))
        exc = Exception
        if k == 0:
            text = "[" + json.dumps({"CCSDS_OPM_VERS": "2.0", "X": w()}) + "]"
            exc = NotImplementedError
        elif k == 1:
            text = r.choice(["\n", " ", ""]) + json.dumps([{"opm": {"a": r.random()}}] * r.randint(1, 3), indent=r.choice([None, 2])) + r.choice(["\n", "", "  "])
            exc = NotImplementedError
        elif k == 2:
            text = r.choice(["\n", " ", ""]) + json.dumps({"opm": {"header": w()}}, indent=r.choice([None, 1])) + r.choice(["\n", "", "  "])
            exc = NotImplementedError
        elif k == 3:
            text = r.choice(["", " ", "\n\n", "\t"])
            exc = Exception
        elif k == 4:
            text = r.choice(["OBJECT_NAME = X", "hello " + w(), "ccsds_opm_vers = 2.0", "COMMENT CCSDS_OPM_VERS = 2.0",
                             "ISS (ZARYA)\n1 25544U 98067A\n2 25544", "CIC_OEM_VERS = 2.0", "META_START\nMETA_STOP"]) + "\n" + w()
            exc = Exception
        elif k == 5:
            text = "CCSDS_%s_VERS = %s\nCREATION_DATE = 2020-01-01T00:00:00\nORIGINATOR = X\n" % (
                r.choice(["OCM", "ACM", "PRM", "FOO", "", "NDM", "OPMX", "opm"]), r.choice(["1.0", "2.0", "3.0"]))
        elif k == 6:
            t = r.choice(["ocm", "foo", "OPM", "Opm", "opms", "html", "acm", "op"])
            text = "<%s id='CCSDS_OPM_VERS' version='2.0'><header/><body/></%s>" % (t, t)
        elif k == 7:
            text = "<" + w() + ">"
        elif k > 8:
            # a real message whose identification is nearly right
            t = r.choice(TYPES)
            node = Gen(r, kvn=True, maxlist=1, fill=0.3).message(t)
            if r.random() < 0.7:
                key, rest = kvn.render(kvn.events(node)).split("\n", 1)
                key = key.split("=")[0].strip()
                bad = r.choice([key + x for x in ("ION", "_2", ".", "X", "S", ":", "-2", "_", " 2", ")")] + [
                    key[:-1], key[:-5], key + key, key.replace("_VERS", "VERS"), key.replace("_VERS", "_vers"), key[:6] + key[6:].lower(),
                    key.replace("CCSDS_", "CCSDS_X"), key.replace("CCSDS_", "CCSDS__"), key.replace("_VERS", "2_VERS"), "CCSDS_VERS", "CCSDS_NDM_VERS",
                    "CCSDS_" + t.lower() + "_VERS", key + "\u00a0X"])
                text = "%s = %s\n%s" % (bad, r.choice(["1.0", "2.0"]), rest)
            else:
                tag = t.lower()
                bad = r.choice([tag + "s", tag + "2", tag.upper(), tag.title(), "x" + tag, tag[:2], tag + tag, tag + "_", tag + ".", "ndm." + tag, "_" + tag])
                text = re.sub(r"<(/?)%s(?=[\s>])" % tag, lambda m: "<" + m.group(1) + bad, xmlio.dumps(node))
        else:
            text = r.choice(["<", ">", "<>", "<opm", "opm>", "{}", "null", "\x00", "CCSDS_", "<!-- only a comment -->"])
        mon.input(text, 3)
        mon.cov("foreign_kinds", k)
        raises(mon, "foreign text %r" % text[:80], exc, io.from_string, text)
        raises(mon, "foreign bytes %r" % text[:80], exc, io.from_bytes, text.encode("utf-8"))


def mimic(node, rng, t):
    """free text that looks like other formats and types."""
    other = rng.choice([x for x in TYPES if x != t])
    hostile = ["CCSDS_%s_VERS = 2.0" % other.upper(), "<%s>" % other.lower(), "</%s>" % other.lower(), "<ndm>", "</ndm>", "[1]",
               "[{}]", "<?xml version=\"1.0\"?>", "<%s id=\"CCSDS_%s_VERS\" version=\"1.0\">" % (other.lower(), other.upper()),
               "x>", "y]"]
    node["header"]["originator"] = rng.choice(hostile)
    c = fields(node["header"].cls)
    node["header"]["comment"] = [rng.choice(hostile) for _ in range(rng.randint(0, 2))]

    def walk(n):
        for f in fields(n.cls):
            v = n.get(f["py"])
            if v is None:
                continue
            if f["py"] == "comment":
                n["comment"] = [rng.choice(hostile) if rng.random() < 0.5 else i for i in v]
            elif isinstance(v, str) and f["base"] == "str" and "pattern" not in f and "fixed" not in f and f["kind"] == "elem" \
                    and "EPOCH" not in f["xml"] and rng.random() < 0.3:
                n[f["py"]] = rng.choice(hostile)
            for e in v if isinstance(v, list) else [v]:
                if isinstance(e, Node):
                    walk(e)
    walk(node)


# ---------------------------------------------------------------------------------------
class C16(Check):
    ID = "C16"
    TECH = "runtime differential oracle over all public entry points, path kinds, encodings and locales"
    RULE = ("one message text is read through every reader (string, bytes, str/Path/PathLike path; unified and format "
            "class) and one tree written through every writer, with and without byte order mark, LF/CRLF, over longer "
            "old files, in odd directories, and in processes with other locales; readings must be equal, file bytes must "
            "be the UTF-8 of the string output; non-trivial = at least 5 values; distinct by text")
    need = {"comparisons": 500, "redeclared": 200, "not_utf8": 500, "foreign_locale_reads": 20, "foreign_locale_writes": 20}

    def plan(self, tier):
        s = self.seed
        c = list(work.rand(s, TYPES, self.scale(tier, 500, 8000), "entry", maxlist=2))
        for i in range(self.scale(tier, 12, 80)):
            c.append(dict(k="locale", s="%s/loc/%d" % (s, i), i=i))
        return c

    DIRS = ["", "with space", "ünï-cødé", "日本", "a.b", "x=y"]

    def run(self, case, mon):
        if case["k"] == "locale":
            return self.locale(case, mon)
        kv = random.Random(case["s"] + "f").random() < 0.6
        node, rng = work.make(case, kv)
        observe(mon, node)
        io, X, K = api().NdmIo, xml_io(), kvn_io()
        texts = [("XML", xmlio.dumps(node, xmlio.Style(rng)))]
        if kv:
            texts.append(("KVN", kvn.render(kvn.events(node), kvn.Style(rng))))
        mon.input(texts[0][1], count_leaves(node) - 3)
        with tmpdir() as d:
            sub = os.path.join(d, rng.choice(self.DIRS))
            os.makedirs(sub, exist_ok=True)
            for fmt, text in texts:
                ref = obj.snapshot(lib("from_string", io().from_string, text))
                data = text.encode("utf-8")
                bom = rng.random() < 0.3
                p = os.path.join(sub, rng.choice(["in." + fmt.lower(), "é.dat", "noext", "a b.txt", " in ", "in.xml ", "in%20.kvn", "~", "in\t", "$HOME", "*"]))
                with open(p, "wb") as f:
                    f.write((b"\xef\xbb\xbf" if bom else b"") + data)
                ways = {
                    "NdmIo.from_bytes": lambda: io().from_bytes((b"\xef\xbb\xbf" if bom else b"") + data),
                    "NdmIo.from_path(str)": lambda: io().from_path(p),
                    "NdmIo.from_path(Path)": lambda: io().from_path(pathlib.Path(p)),
                    "NdmIo.from_path(PathLike)": lambda: io().from_path(PathLike(p)),
                }
                C = X if fmt == "XML" else K
                n = C.__name__
                ways[n + ".from_string"] = lambda: C().from_string(text)
                ways[n + ".from_path(str)"] = lambda: C().from_path(p)
                ways[n + ".from_path(Path)"] = lambda: C().from_path(pathlib.Path(p))
                if hasattr(C, "from_bytes"):
                    ways[n + ".from_bytes"] = lambda: C().from_bytes((b"\xef\xbb\xbf" if bom else b"") + data)
                for w, fn in ways.items():
                    mon.cov("entry_points", w)
                    mon.diff("%s against from_string" % w, snapdiff(ref, obj.snapshot(lib(w, fn))))
                if fmt == "XML":
                    # decoded text: the declared encoding no longer applies
                    body = text[text.index("?>") + 2:].lstrip() if text.startswith("<?xml") else text
                    enc = rng.choice(["ISO-8859-1", "windows-1252", "UTF-16", "US-ASCII", "Shift_JIS", "latin-1", "utf-8"])
                    q = rng.choice("'\"")
                    redecl = "<?xml version=%s1.0%s encoding=%s%s%s%s?>%s%s" % (
                        q, q, q, enc, q, rng.choice(["", ' standalone="yes"', " "]), rng.choice(["", "\n"]), body)
                    mon.cov("declared_encodings", enc)
                    for w, fn in (("NdmIo", io), ("NdmXmlIo", X)):
                        mon.ev("redeclared")
                        mon.diff("%s.from_string declaring %s" % (w, enc), snapdiff(ref, obj.snapshot(
                            lib("reading text that declares " + enc, fn().from_string, redecl))))
                # bytes that are no UTF-8 are refused everywhere
                at = rng.randrange(len(data) + 1)
                while at < len(data) and 0x80 <= data[at] < 0xc0:
                    at += 1
                odd = data[:at] + rng.choice([b"\xe9", b"\xff", b"\xc3", b"\x80", b"\xed\xa0\x80", b"\xc0\xaf", b"\xf0\x9f\x98"]) + data[at:]
                po = os.path.join(sub, "odd")
                with open(po, "wb") as f:
                    f.write(odd)
                for w, fn in {"NdmIo.from_bytes": lambda: io().from_bytes(odd), "NdmIo.from_path": lambda: io().from_path(po),
                              n + ".from_path": lambda: C().from_path(po),
                              n + ".from_bytes": (lambda: C().from_bytes(odd)) if hasattr(C, "from_bytes") else None}.items():
                    if fn:
                        mon.ev("not_utf8")
                        raises(mon, "%s of bytes that are no UTF-8 at %d" % (w, at), ValueError, fn)
                with open(p, "rb") as f:
                    mon.diff("input file", [] if f.read().endswith(data) else ["was changed by reading"])
            o = obj.to_obj(node)
            for fmt in ["XML", "KVN"] if kv else ["XML"]:
                fm = getattr(F(), fmt)
                kw = {}
                if fmt == "XML" and rng.random() < 0.3:
                    kw = rng.choice([dict(schema_location="urn:q a.xsd"), dict(no_namespace_schema_location="http://x/y.xsd")])
                ref = lib("to_string", io().to_string, o, fm, **kw)
                C = X if fmt == "XML" else K
                mon.diff("%s.to_string" % C.__name__, [] if lib("to_string", C().to_string, o, **kw) == ref else ["differs from NdmIo.to_string"])
                for w, fn in {
                    "NdmIo.to_file(str)": lambda q: io().to_file(o, fm, q, **kw),
                    "NdmIo.to_file(Path)": lambda q: io().to_file(o, fm, pathlib.Path(q), **kw),
                    "NdmIo.to_file(PathLike)": lambda q: io().to_file(o, fm, PathLike(q), **kw),
                    C.__name__ + ".to_file(str)": lambda q: C().to_file(o, q, **kw),
                    C.__name__ + ".to_file(Path)": lambda q: C().to_file(o, pathlib.Path(q), **kw),
                }.items():
                    mon.cov("entry_points", w)
                    q = os.path.join(sub, "out-%d" % rng.randint(0, 3))
                    if rng.random() < 0.5:
                        with open(q, "wb") as f:
                            f.write(b"old content\n" * rng.choice([1, 100, 5000]))
                    lib(w, fn, q)
                    if not os.path.isfile(q):
                        mon.fail("%s wrote no file" % w)
                        continue
                    with open(q, "rb") as f:
                        got = f.read()
                    mon.diff("%s (%s)" % (w, fmt), [] if got == ref.encode("utf-8") else [
                        "file differs from the string output: %s" % textdiff(ref, got.decode("utf-8", "replace"))])
                    os.unlink(q)

    LOCALES = [
        dict(LC_ALL="C", LANG="C", PYTHONUTF8="0", PYTHONCOERCECLOCALE="0"),
        dict(LC_ALL="POSIX", LANG="POSIX", PYTHONUTF8="0", PYTHONCOERCECLOCALE="0"),
        dict(LC_ALL="C.UTF-8", LANG="C.UTF-8", PYTHONUTF8="1"),
        dict(LC_ALL="C", LANG="C", PYTHONUTF8="0", PYTHONCOERCECLOCALE="0", PYTHONIOENCODING="latin-1", TZ="Asia/Tokyo"),
    ]

    def locale(self, case, mon):
        """the same files read and written in a process with another locale."""
        rng = random.Random(case["s"])
        env = {k: v for k, v in os.environ.items() if not k.startswith(("LC_", "LANG", "PYTHONUTF8", "PYTHONIO"))}
        env.update(self.LOCALES[case["i"] % len(self.LOCALES)])
        mon.cov("locales", json.dumps(self.LOCALES[case["i"] % len(self.LOCALES)], sort_keys=True))
        with tmpdir() as d:
            jobs, nodes = [], []
            for i in range(8):
                g = Gen(rng, kvn=True, maxlist=2, pcom=0.5)
                g.word = lambda: rng.choice(["é", "日本", "Ω", "Ж", "€", "😀", "ß", "abc", "1"])
                node = g.message(rng.choice(TYPES))
                node["header"]["originator"] = "Agence spatiale européenne 日本 %d" % i
                fmt = rng.choice(["XML", "KVN"])
                text = xmlio.dumps(node) if fmt == "XML" else kvn.render(kvn.events(node))
                p, q = os.path.join(d, "i%d" % i), os.path.join(d, "o%d" % i)
                with open(p, "wb") as f:
                    f.write(text.encode("utf-8"))
                jobs.append([p, fmt, q, rng.choice(["NdmIo", "NdmXmlIo" if fmt == "XML" else "NdmKvnIo"])])
                nodes.append((node, fmt))
            mon.input(json.dumps([n.to_json() for n, _ in nodes]), 5)
            with open(os.path.join(d, "jobs"), "w") as f:
                json.dump(jobs, f)
            r = subprocess.run([sys.executable, "-W", "ignore", os.path.join(HERE, "vf", "locale_worker.py"), os.path.join(d, "jobs")],
                               env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=80)
            if r.returncode:
                raise Broken("in locale %s: %s" % (env["LC_ALL"], r.stderr.decode("utf-8", "replace")[-400:]))
            for (node, fmt), j in zip(nodes, jobs):
                with open(j[2] + ".json", encoding="utf-8") as f:
                    got = json.load(f)
                mon.ev("foreign_locale_reads")
                mon.diff("reading %s in locale %s" % (fmt, env["LC_ALL"]), [] if got == dumpable(obj.snapshot(
                    lib("from_path", api().NdmIo().from_path, j[0]))) else ["differs from the reading in this locale"])
                with open(j[2], "rb") as f:
                    data = f.read()
                mon.ev("foreign_locale_writes")
                try:
                    text = data.decode("utf-8")
                except UnicodeDecodeError as e:
                    mon.fail("file written in locale %s is not UTF-8: %s" % (env["LC_ALL"], e))
                    continue
                mon.diff("writing %s in locale %s" % (fmt, env["LC_ALL"]),
                         xml_diff(node, text) if fmt == "XML" else kvn_text_diff(node, text))


def dumpable(s):
    return json.loads(json.dumps(s, default=str))


# ---------------------------------------------------------------------------------------
def ndm_xml(children, rng, msg_id=None, comments=(), unbound=False, style=None):
    """a combined file; children = [node, ...] in the given (interleaved) order."""
    st = style or xmlio.Style(rng)
    st.schema = 0
    out = []
    if st.decl:
        out.append("<?xml %s?>" % (st.decl if st.decl is not True else 'version="1.0" encoding="UTF-8"'))
    attrs = ""
    if unbound:
        attrs = ' xsi:noNamespaceSchemaLocation="http://sanaregistry.org/r/ndmxml/ndmxml-1.0-master.xsd"'
    elif rng.random() < 0.5:
        attrs = ' xmlns:xsi="%s" xsi:noNamespaceSchemaLocation="http://x/ndmxml-1.0-master.xsd"' % xmlio.XSI
    out.append("<ndm%s>" % attrs)
    if msg_id is not None:
        out.append("<MESSAGE_ID>%s</MESSAGE_ID>" % xmlio._esc(msg_id))
    out += ["<COMMENT>%s</COMMENT>" % xmlio._esc(c) for c in comments]
    for n in children:
        xmlio._emit(n.cls.lower(), n, n.cls, st, 1, out)
    out.append("</ndm>")
    return (st.nl or "\n").join(out)


class C17(Check):
    ID = "C17"
    kvn = False
    TECH = "runtime oracle: combined files against the messages they were composed of"
    RULE = ("0..40 messages of random types composed in random (interleaved) order into a combined file, with and without "
            "id, comments and the customary undeclared xsi prefix; the result must hold each message once, whole, with "
            "its own class, in order; one message alone is returned bare; trees are written back and messages taken out "
            "are written on their own; KVN output of a composition must be refused; distinct by text")
    need = {"comparisons": 500, "messages_in_combined": 500, "single": 20, "refusals": 50}

    def plan(self, tier):
        s, c = self.seed, []
        for i in range(self.scale(tier, 500, 8000)):
            c.append(dict(k="mix", s="%s/mix/%d" % (s, i), n=[0, 1, 2, 2, 3, 4, 5, 8][i % 8], ty=None))
        for i, n in enumerate([129, 257, 501, 1025] + ([] if tier == "quick" else [2049, 5001])):
            c.append(dict(k="huge", s="%s/huge/%d" % (s, n), n=n, ty=None if i % 2 else ["Opm", "Apm", "Omm"]))
        for t in TYPES:
            for n in [1, 2, 3, 7] + ([20, 40] if tier == "quick" else [10, 11, 20, 40, 64, 65, 101]):
                for rep in range(self.scale(tier, 2, 12)):
                    c.append(dict(k="same", s="%s/same/%s/%d/%d" % (s, t, n, rep), n=n, ty=[t]))
            for u in TYPES:
                c.append(dict(k="pair", s="%s/pair/%s/%s" % (s, t, u), n=2, ty=[t, u]))
        return c

    def run(self, case, mon):
        rng = random.Random(case["s"])
        g = Gen(rng, kvn=rng.random() < 0.7, maxlist=2, fill=rng.choice([0.1, 0.3, 0.6, 0.9]))
        n = case["n"]
        types = [case["ty"][i % len(case["ty"])] if case["ty"] else rng.choice(TYPES) for i in range(n)]
        kids = [g.message(t) for t in types]
        for i, k in enumerate(kids):
            k["header"]["originator"] = "origin %d" % i
        order = list(range(n))
        rng.shuffle(order)
        kids = [kids[i] for i in order]
        if n > 1 and rng.random() < 0.2:
            # the very same message more than once is still that many messages
            for _ in range(rng.choice([1, 1, n])):
                kids[rng.randrange(n)] = copy.deepcopy(rng.choice(kids))
            mon.ev("repeated_messages")
        msg_id = g.text() if rng.random() < 0.5 else None
        com = [g.comment() for _ in range(rng.choice([0, 0, 1, 3]))]
        text = ndm_xml(kids, rng, msg_id, com, unbound=rng.random() < 0.3)
        mon.input(text, 3)
        mon.ev("messages_in_combined", n)
        for k in kids:
            mon.cov("member_types", k.cls)
        mon.cov("sizes", n)
        want = Node("Ndm", comment=com)
        if msg_id is not None:
            want["message_id"] = msg_id
        for k in kids:
            want.v.setdefault(k.cls.lower(), []).append(k)
        o = read(text, "reading a combined file of %s" % [k.cls for k in kids])
        if n == 1:
            mon.ev("single")
            mon.diff("single message of a combined file", obj.diff(kids[0], o))
        else:
            mon.diff("combined file of %s" % [k.cls for k in kids], obj.diff(want, o))
        if mon.problems:
            return
        # object tree built by the user
        tree = obj.to_obj(want)
        t2 = write_xml(tree, "writing a combined tree")
        mon.diff("combined tree written", xml_diff(want, t2))
        if n != 1:
            mon.diff("combined file written again", xml_diff(want, write_xml(o, "writing a combined reading")))
        o3 = read(t2, "reading back a combined tree")
        mon.diff("combined tree read back", obj.diff(kids[0] if n == 1 else want, o3))
        # members on their own
        for name in COMBI_ORDER:
            if n == 1:
                break
            for i, m in enumerate(getattr(o, name)[:3]):
                w = want[name][i]
                mon.diff("member written on its own", xml_diff(w, write_xml(m, "writing a member of a combined file")))
                if g.kvn:
                    mon.diff("member written to KVN", kvn_text_diff(w, write_kvn(m, "writing a member of a combined file to KVN")))
        io = api().NdmIo()
        if n == 1 and g.kvn:
            mon.diff("one-message composition to KVN", kvn_text_diff(kids[0], write_kvn(tree, "writing a one-message composition to KVN")))
        elif n > 1:
            raises(mon, "KVN output of %d messages" % n, NotImplementedError, io.to_string, tree, F().KVN)
            raises(mon, "KVN output of a reading of %d messages" % n, NotImplementedError, io.to_string, o, F().KVN)


# ---------------------------------------------------------------------------------------
class C18(Check):
    ID = "C18"
    kvn = False
    TECH = "fault injection into XML texts with a must-raise oracle"
    RULE = ("a valid XML text (single or combined, random layout) is damaged: cut at a position, tag lost, renamed, "
            "crossed or doubled, unknown or repeated element, unknown attribute, text between elements, illegal character, second root; texts that an independent "
            "parser finds malformed or off-schema must raise in every reader; non-trivial = damage confirmed; distinct "
            "by text")
    need = {"comparisons": 500}

    def plan(self, tier):
        s, c = self.seed, []
        for i in range(self.scale(tier, 3000, 20000)):
            c.append(dict(k="damage", s="%s/dam/%d" % (s, i), t=(TYPES + ["Ndm"])[i % 9]))
        for t in TYPES + ["Ndm"]:
            for i in range(self.scale(tier, 8, 40)):
                c.append(dict(k="cuts", s="%s/cut/%s/%d" % (s, t, i), t=t, cuts=self.scale(tier, 40, 150)))
        return c

    def text(self, case):
        rng = random.Random(case["s"])
        g = Gen(rng, kvn=False, maxlist=2, fill=rng.choice([0.0, 0.3, 0.7]))
        self.unbound = False
        if case["t"] == "Ndm":
            self.unbound = rng.random() < 0.4
            return ndm_xml([g.message(rng.choice(TYPES)) for _ in range(rng.choice([1, 2, 3]))], rng, unbound=self.unbound), rng
        st = xmlio.Style(rng)
        return xmlio.dumps(g.message(case["t"]), st), rng

    def bad(self, text):
        """is the text malformed, or does it hold an unknown or repeated element?"""
        if self.unbound:
            text = text.replace("<ndm ", "<ndm xmlns:xsi='%s' " % xmlio.XSI, 1)
        try:
            xmlio.loads(text)
        except xmlio.XmlShape as e:
            m = str(e)
            return "unknown element" in m or "repeated" in m or "child elements" in m or "root element" in m or (
                "stray text" in m or "unknown attribute" in m)
        except Exception:
            return True
        return False

    def run(self, case, mon):
        text, rng = self.text(case)
        lib("reading the undamaged text", api().NdmIo().from_string, text)
        if case["k"] == "cuts":
            end = text.rstrip().rfind("</")
            for _ in range(case["cuts"]):
                i = rng.randrange(1, end + 2)
                self.judge(mon, text[:i], "cut at %d of %d" % (i, len(text)), rng)
            # cuts right behind a tag look like a complete file
            ends = [i + 1 for i, ch in enumerate(text[:end]) if ch == ">"]
            for i in rng.sample(ends, min(len(ends), case["cuts"])):
                self.judge(mon, text[:i] + rng.choice(["", "\n"]), "cut behind a tag at %d of %d" % (i, len(text)), rng)
            return
        for _ in range(6):
            how = rng.choice(DAMAGE)
            t = how(text, rng)
            if t is not None and t != text:
                mon.cov("damage", how.__name__)
                self.judge(mon, t, how.__name__, rng)

    def judge(self, mon, t, what, rng):
        if not self.bad(t):
            mon.ev("harmless")
            return
        mon.input(t, 5)
        mon.ev("damaged")
        io = api().NdmIo()
        x = rng.random()
        if x < 0.6:
            fn = lambda: io.from_string(t)
        elif x < 0.8:
            fn = lambda: io.from_bytes(t.encode("utf-8", "surrogatepass"))
        else:
            fn = lambda: xml_io()().from_string(t)
        try:
            r = fn()
        except Exception:
            mon.diff(what, [])
            return
        mon.diff("%s of a %s" % (what, t.lstrip()[:30]), ["accepted as %s" % type(r).__name__])


def tags(text):
    out, i = [], 0
    while True:
        i = text.find("<", i)
        if i < 0:
            return out
        if text.startswith("<!--", i):
            i = text.index("-->", i) + 3
            continue
        if text.startswith("<![CDATA[", i):
            i = text.index("]]>", i) + 3
            continue
        if text.startswith("<?", i):
            i = text.index("?>", i) + 2
            continue
        j, q = i, None
        while text[j] != ">" or q:
            if q:
                if text[j] == q:
                    q = None
            elif text[j] in "'\"":
                q = text[j]
            j += 1
        out.append((i, j + 1))
        i = j + 1


def lose_tag(t, r):
    i, j = r.choice(tags(t))
    return t[:i] + t[j:]


def lose_close(t, r):
    i, j = r.choice([x for x in tags(t) if t[x[0] + 1] == "/"])
    return t[:i] + t[j:]


def lose_bracket(t, r):
    i, j = r.choice(tags(t))
    return t[:i] + t[i + 1:] if r.random() < 0.5 else t[:j - 1] + t[j:]


def rename_open(t, r):
    i, j = r.choice([x for x in tags(t) if t[x[0] + 1] != "/"])
    return t[:i + 1] + "Z" + t[i + 1:]


def rename_element(t, r):
    cand = [x for x in tags(t) if t[x[0] + 1] != "/" and t[x[1] - 2] != "/"]
    i, j = r.choice(cand)
    name = t[i + 1:j - 1].split()[0]
    k = t.find("</%s>" % name, j)
    new = r.choice([name + "X", name.lower() if name != name.lower() else name.upper(), "FOO", name[:-1] or "Q", "x" + name])
    if new == name or k < 0:
        return None
    return t[:i + 1] + new + t[i + 1 + len(name):k + 2] + new + t[k + 2 + len(name):]


def insert_unknown(t, r):
    cand = [x for x in tags(t) if t[x[0] + 1] != "/" and t[x[1] - 2] != "/"]
    i, j = r.choice(cand)
    new = r.choice(["<FOO>1</FOO>", "<foo/>", "<OBJECT_NAMES>a</OBJECT_NAMES>", "<x><y>1</y></x>", "<EPOCHS/>", "<Comment>a</Comment>"])
    return t[:j] + new + t[j:]


def repeat_element(t, r):
    """double a leaf element."""
    tg = tags(t)
    cand = [(a, b) for a, b in zip(tg, tg[1:]) if t[a[0] + 1] != "/" and t[a[1] - 2] != "/" and t[b[0] + 1] == "/"]
    (i, _), (_, j) = r.choice(cand)
    return t[:j] + t[i:j] + t[j:]


def repeat_block(t, r):
    """double a container element."""
    tg = tags(t)
    cand = []
    for a in tg:
        if t[a[0] + 1] == "/" or t[a[1] - 2] == "/":
            continue
        name = t[a[0] + 1:a[1] - 1].split()[0]
        if name in ("header", "body", "metadata", "data", "relativeMetadataData", "meanElements", "stateVector", "tleParameters"):
            k = t.find("</%s>" % name, a[1])
            if k > 0:
                cand.append((a[0], k + len(name) + 3))
    if not cand:
        return None
    i, j = r.choice(cand)
    return t[:j] + t[i:j] + t[j:]


def illegal_char(t, r):
    i = r.choice(tags(t))[1]
    return t[:i] + r.choice(["\x00", "\x01", "\x0b", "\ufffe", "&", "&nbsp;", "<", "&#0;", "]]>"]) + t[i:]


def second_root(t, r):
    return t.rstrip() + r.choice(["<ndm></ndm>", "<opm/>", "\n<a>1</a>\n", t.lstrip() if not t.lstrip().startswith("<?") else "<x/>"])


def junk_around(t, r):
    return r.choice([t + "<!-- open >", t + "x>", "<<" + t, t.rstrip()[:-1] + ">>" if r.random() < 0.5 else t + "<>"])


def cross_tags(t, r):
    cl = [x for x in tags(t) if t[x[0] + 1] == "/"]
    if len(cl) < 2:
        return None
    k = r.randrange(len(cl) - 1)
    (a, b), (c, d) = cl[k], cl[k + 1]
    if t[a:b] == t[c:d]:
        return None
    return t[:a] + t[c:d] + t[b:c] + t[a:b] + t[d:]


def double_attr(t, r):
    return t.replace(" version=", " version='1.0' version=", 1) if " version=" in t else None


def cut_middle(t, r):
    tg = tags(t)
    a, b = sorted(r.sample(range(len(tg)), 2))
    return t[:tg[a][1]] + t[tg[b][0]:]


def lost_entity(t, r):
    """a reference to an entity whose text is not there"""
    cand = [x for x in tags(t) if t[x[0] + 1] == "/"]
    i, j = r.choice(cand)
    t = t[:i] + "&ext;" + t[i:]
    dt = r.choice(["", '<!DOCTYPE m SYSTEM "file:///nonexistent/m.dtd">', '<!DOCTYPE m [<!ENTITY ext SYSTEM "file:///nonexistent/e">]>',
                   '<!DOCTYPE m [<!ENTITY % p SYSTEM "file:///nonexistent/p"> %p;]>', '<!DOCTYPE m PUBLIC "-//X//Y" "http://127.0.0.1:9/m.dtd">'])
    at = tags(t)[0][0]
    return t[:at] + dt + t[at:]


def stray_text(t, r):
    i, j = r.choice(tags(t))
    s = r.choice(["x", "0", "1.5", "EPOCH = 2020-01-01", "&lt;X&gt;1&lt;/X&gt;", "<![CDATA[lost]]>", "\u00e9", ".", "a b c", "&#88;"])
    return t[:i] + s + t[i:] if r.random() < 0.5 else t[:j] + s + t[j:]


def text_for_block(t, r):
    """text in place of the elements of a block"""
    tg = tags(t)
    cand = []
    for i, j in tg:
        name = t[i + 1:j - 1].split()[0] if t[i + 1] != "/" else ""
        if name and name != name.upper() and not name.startswith("rotation") and t[j - 2] != "/":
            k = t.find("</%s>" % name, j)
            if k > 0:
                cand.append((j, k))
    if not cand:
        return None
    j, k = r.choice(cand)
    return t[:j] + r.choice(["x", " 1.5 ", "lost", "\nEPOCH = 2020-01-01\n", "<![CDATA[lost]]>", "&#88;", "<!-- a -->b"]) + t[k:]


def unknown_attr(t, r):
    cand = [x for x in tags(t) if t[x[0] + 1] != "/"]
    i, j = r.choice(cand)
    k = j - 2 if t[j - 2] == "/" else j - 1
    return t[:k] + r.choice([' foo="1"', " Units='km'", ' unit="km"', " a='b'", ' parameters="X"', ' UNITS="deg"', " value='3'"]) + t[k:]


DAMAGE = [stray_text, text_for_block, unknown_attr, lost_entity, lose_tag, lose_close, lose_bracket, rename_open, rename_element, insert_unknown, repeat_element, repeat_block,
          illegal_char, second_root, junk_around, cross_tags, double_attr, cut_middle]


# ---------------------------------------------------------------------------------------
class Op:
    """One operation of a history with its own oracle, independent of what happened before."""

    def __init__(self, rng, kvn_ok=True, big=False, kinds=None):
        self.rng = rng
        self.kind = rng.choice(kinds or ["rx", "rk", "rk", "wx", "wk", "wk", "wx+", "fx", "fk", "fw", "px", "pk", "rc"])
        self.t = rng.choice(TYPES)
        self.g = None
        self.stamp = None    # the time that its file has
        self.own = None      # 0: through NdmIo, 1: through the format's own class, None: either

    def prepare(self):
        rng = self.rng
        g = Gen(rng, kvn=True, **(self.g or dict(maxlist=2, fill=rng.choice([0.0, 0.2, 0.5, 0.9]))))
        self.node = g.message(self.t)
        k = self.kind
        if k in ("rx", "px"):
            self.text = xmlio.dumps(self.node, xmlio.Style(rng))
        elif k in ("rk", "pk"):
            self.text = kvn.render(kvn.events(self.node), kvn.Style(rng))
        elif k == "rc":
            self.kids = [g.message(rng.choice(TYPES)) for _ in range(rng.choice([2, 3]))]
            self.text = ndm_xml(self.kids, rng)
            self.node = Node("Ndm")
            for m in self.kids:
                self.node.v.setdefault(m.cls.lower(), []).append(m)
        elif k == "fx":
            x = xmlio.dumps(self.node)
            self.text = rng.choice([x[:len(x) // 2] + ">", x.replace("<header>", "<header><FOO>1</FOO>", 1), "<foo/>", x + x])
        elif k == "fk":
            x = kvn.render(kvn.events(self.node))
            self.text = rng.choice(["CCSDS_FOO_VERS = 1.0\nA = B", "CCSDS_OPM_VERS = 2.0", "nonsense", x.split("\n")[0]])
        else:
            self.obj = obj.to_obj(self.node)
        self.kw = {}
        if k == "wx+":
            self.kw = rng.choice([dict(schema_location="urn:u%d b.xsd" % rng.randint(0, 99)),
                                  dict(no_namespace_schema_location="http://h/%d.xsd" % rng.randint(0, 99))])
        return self

    def run(self, ios, d, tag):
        """perform; ios = dict of shared instances."""
        k = self.kind
        rng = self.rng
        io, X, K = ios["NdmIo"], ios["NdmXmlIo"], ios["NdmKvnIo"]
        self.err = self.res = None
        own = rng.random() if self.own is None else self.own
        try:
            if k in ("rx", "rc"):
                self.res = (io if own < 0.5 else X).from_string(self.text)
            elif k == "rk":
                self.res = (io if own < 0.5 else K).from_string(self.text)
            elif k in ("px", "pk"):
                p = os.path.join(d, "%s.dat" % tag)
                with open(p, "wb") as f:
                    f.write(self.text.encode("utf-8"))
                if self.stamp:
                    os.utime(p, ns=(self.stamp, self.stamp))
                self.res = (io if own < 0.5 else X if k == "px" else K).from_path(p)
            elif k in ("fx", "fk"):
                self.res = (io if own < 0.5 else X if k == "fx" else K).from_string(self.text)
            elif k == "fw":
                bad = rng.choice([None, 5, "x"])
                self.res = io.to_string(bad, rng.choice([F().KVN, F().JSON])) if own < 0.5 else K.to_string(bad)
            elif k == "wk":
                self.res = io.to_string(self.obj, F().KVN) if own < 0.5 else K.to_string(self.obj)
            else:
                self.res = io.to_string(self.obj, F().XML, **self.kw) if own < 0.5 else X.to_string(self.obj, **self.kw)
        except Exception as e:
            self.err = e
        return self

    def judge(self):
        k = self.kind
        if k in ("fx", "fk", "fw"):
            return [] if self.err is not None else ["a bad operation (%s) was accepted: %r" % (k, repr(self.res)[:100])]
        if self.err is not None:
            return ["%s of %s raised %s: %s" % (k, self.t, type(self.err).__name__, str(self.err)[:200])]
        if k in ("rx", "px", "rc"):
            return obj.diff(self.node, self.res)
        if k in ("rk", "pk"):
            return obj.diff_kvn(self.node, self.res)
        if k == "wk":
            return kvn_text_diff(self.node, self.res)
        try:
            got, at = xmlio.loads(self.res)
        except Exception as e:
            return ["XML output unreadable: %r" % e]
        want = {("schemaLocation" if a == "schema_location" else "noNamespaceSchemaLocation"): b for a, b in self.kw.items()}
        at = {a.split("}")[1]: b for a, b in at.items()}
        if at != want:
            return ["root attributes %s, requested %s" % (at, want)]
        return xmlio.diff_nodes(self.node, got)


def instances():
    return {"NdmIo": api().NdmIo(), "NdmXmlIo": xml_io()(), "NdmKvnIo": kvn_io()()}


class C19(Check):
    ID = "C19"
    TECH = "history monitor: random operation sequences on shared instances, each judged by its own model"
    RULE = ("sequences of 4..24 (some of up to 1100) reads, writes, file operations and failing operations of mixed types and formats on the "
            "same reader/writer objects; every result is judged as if it were the first, and earlier results must stay "
            "as they were; non-trivial = at least 4 operations; distinct by sequence")
    need = {"comparisons": 1000, "operations": 1000, "failed_operations": 100}

    def plan(self, tier):
        s = self.seed
        c = [dict(k="history", s="%s/hist/%d" % (s, i), n=[4, 6, 8, 12, 16, 24][i % 6]) for i in range(self.scale(tier, 500, 5000))]
        # every ordered pair of types on one instance, per format
        for a in TYPES:
            for b in TYPES:
                for fm in ("k", "x"):
                    c.append(dict(k="pair", s="%s/pair/%s/%s/%s" % (s, a, b, fm), n=4, pair=[a, b], fm=fm))
        # the first operations of a program
        for i in range(self.scale(tier, 120, 2000)):
            c.append(dict(k="cold", s="%s/cold/%d" % (s, i), n=[3, 4, 6][i % 3]))
        # hundreds of operations on one instance, on small messages
        for i in range(self.scale(tier, 10, 60)):
            c.append(dict(k="long", s="%s/long/%d" % (s, i), n=[270, 330, 530, 700, 1100][i // 2 % 5], own=i % 2))
        # long runs of one type (now and then another, or a failure) on one instance
        for t in TYPES:
            for fm in ("k", "x"):
                for own in (0, 1):
                    for i in range(self.scale(tier, 2, 25)):
                        c.append(dict(k="streak", s="%s/streak/%s/%s/%d/%d" % (s, t, fm, own, i), n=[7, 10, 15][i % 3], t=t, fm=fm, own=own))
        return c

    def run(self, case, mon):
        if case["k"] == "cold":
            cold(self, case, mon)
        else:
            self.run_cold(case, mon)

    def run_cold(self, case, mon):
        rng = random.Random(case["s"])
        ios = instances()
        ops, snaps = [], []
        with tmpdir() as d:
            for i in range(case["n"]):
                if "pair" in case:
                    op = Op(rng, kinds=["r" + case["fm"], "w" + case["fm"]] if i else ["r" + case["fm"]])
                    op.t = case["pair"][i % 2]
                    op.own = i // 2 % 2
                elif case["k"] == "streak":
                    fm = case["fm"]
                    op = Op(rng, kinds=["r" + fm] * 5 + ["p" + fm, "w" + fm, "f" + fm])
                    op.own = case["own"]
                    if rng.random() < 0.85:
                        op.t = case["t"]
                else:
                    op = Op(rng)
                if case["k"] == "long":
                    op.own = case["own"]
                    op.g = dict(maxlist=1, fill=rng.choice([0.0, 0.1, 0.4]), longtext=0)
                # a file that is replaced by another one may well keep its times
                again = case["k"] != "long" and rng.random() < 0.5
                op.stamp = 10 ** 18 if again else None
                op.prepare().run(ios, d, "again" if again else i)
                mon.ev("operations")
                mon.cov("op_pairs", (ops[-1].kind if ops else "-", op.kind))
                if op.err is not None:
                    mon.ev("failed_operations")
                ops.append(op)
                mon.diff("operation %d (%s %s) after %s" % (i, op.kind, op.t, [o.kind for o in ops[-25:-1]]), op.judge())
                if mon.problems:
                    break
                keep = op.res is not None and not isinstance(op.res, str) and (i < 25 or i % 16 == 0)
                snaps.append(obj.snapshot(op.res) if keep else None)
        mon.input(" ".join(o.kind + o.t for o in ops) + case["s"], len(ops) - 2)
        for i, (o, sn) in enumerate(zip(ops, snaps)):
            if sn is not None:
                mon.diff("result of operation %d after %d more" % (i, len(ops) - 1 - i), snapdiff(sn, obj.snapshot(o.res)))


# ---------------------------------------------------------------------------------------
class Yielder:
    """Injects thread switches at library lines and records the interleaving."""

    def __init__(self, seed, p):
        self.r, self.p = random.Random(seed), p
        self.trace, self.last, self.switches, self.n = [], None, 0, 0
        self.main = threading.get_ident()

    def __enter__(self):
        from .core import LIBDIR
        self.lib = LIBDIR
        m = sys.monitoring
        m.use_tool_id(4, "vf-yield")
        m.register_callback(4, m.events.LINE, self._line)
        m.set_events(4, m.events.LINE)
        m.restart_events()
        self.old = sys.getswitchinterval()
        sys.setswitchinterval(1e-6)
        return self

    def _line(self, code, line):
        if not code.co_filename.startswith(self.lib) or "models" in code.co_filename:
            return sys.monitoring.DISABLE
        t = threading.get_ident()
        self.n += 1
        if t != self.last:
            self.last = t
            self.switches += 1
            self.trace.append((t, line))
        if self.r.random() < self.p:
            time.sleep(0 if self.r.random() < 0.7 else 0.0001)

    def __exit__(self, *a):
        sys.setswitchinterval(self.old)
        m = sys.monitoring
        m.set_events(4, 0)
        m.register_callback(4, m.events.LINE, None)
        m.free_tool_id(4)

    def signature(self):
        ids = {}
        return hash(tuple((ids.setdefault(t, len(ids)), l) for t, l in self.trace))


class C20(Check):
    ID = "C20"
    TECH = "concurrency stress with injected switches at library lines; every result judged by its own model"
    RULE = ("2..8 threads run mixed reads, writes and failing operations at once, on one shared NdmIo or on one reader/"
            "writer each, also all on one tree and one text, with a 1 us switch interval and yields injected between library lines; every result is judged "
            "as in a sequential run; non-trivial = threads actually alternated inside the library; distinct by "
            "interleaving trace")
    need = {"comparisons": 300, "thread_switches": 2000, "trees_written_by_several_threads": 20}
    LEVEL = "exploration"

    def plan(self, tier):
        s = self.seed
        c = [dict(k=["shared", "own", "same-type"][i % 3], s="%s/thr/%d" % (s, i), threads=[2, 3, 4, 8][i % 4])
             for i in range(self.scale(tier, 110, 1800))]
        # all threads write one tree, and read one text
        c += [dict(k=["own", "shared"][i // 2 % 2], one=True, s="%s/one/%d" % (s, i), threads=[2, 3, 4, 8][i % 4])
              for i in range(self.scale(tier, 40, 600))]
        # threads that find nothing prepared by earlier operations
        c += [dict(k=["shared", "own", "same-type"][i % 3], s="%s/cold/%d" % (s, i), threads=[2, 3, 4, 8][i % 4], cold=True, each=2)
              for i in range(self.scale(tier, 110, 1800))]
        return c

    def run(self, case, mon):
        if case.get("cold"):
            cold(self, case, mon)
        else:
            self.run_cold(case, mon)

    def run_cold(self, case, mon):
        rng = random.Random(case["s"])
        nt = case["threads"]
        one = rng.choice(TYPES)
        plans = []
        for k in range(nt):
            ops = []
            for _ in range(case.get("each", 4)):
                op = Op(random.Random(rng.random()), kinds=["rx", "rk", "rk", "wx", "wx+", "wk", "fx", "fk", "rc"]
                        if case["k"] != "same-type" else ["rk", "wk", "rk"])
                if case["k"] == "same-type":
                    op.t = one
                if case.get("one"):
                    op.kind = rng.choice(["wx", "wx+", "wk", "wk", "rx", "rk"])
                ops.append(op.prepare())
            plans.append(ops)
        if case.get("one"):
            same = {}
            for op in (o for ops in plans for o in ops):
                first = same.setdefault("w" if op.kind[0] == "w" else op.kind, op)
                op.node, op.t = first.node, first.t
                for a in ("obj", "text"):
                    if hasattr(first, a):
                        setattr(op, a, getattr(first, a))
            before = obj.snapshot(same["w"].obj) if "w" in same else None
        shared = api().NdmIo()
        start = threading.Barrier(nt)

        def work_(ops, ios):
            start.wait()
            for op in ops:
                op.run(ios, None, 0)

        ths = []
        for ops in plans:
            # NdmIo is shared; the format classes keep per-message state and are one per thread
            if case["k"] == "own":
                ios = instances()
            else:
                ios = {k: shared for k in ("NdmIo", "NdmXmlIo", "NdmKvnIo")}
                for op in ops:
                    op.kw_shared = True
            if case["k"] != "own":
                ios = {"NdmIo": shared, "NdmXmlIo": Fwd(shared, F().XML), "NdmKvnIo": Fwd(shared, F().KVN)}
            ths.append(threading.Thread(target=work_, args=(ops, ios), daemon=True))
        with Yielder(case["s"], rng.choice([0.0, 0.02, 0.2])) as y:
            for t in ths:
                t.start()
            stuck = self.join(ths, y)
        if stuck:
            mon.fail("%d of %d threads wait for ever: %s" % (len(stuck), nt, "; ".join(stuck)))
            return
        mon.ev("thread_switches", y.switches)
        mon.ev("library_line_events", y.n)
        mon.cov("interleavings", y.signature())
        mon.input(case["s"] + str(y.switches), 5 if y.switches > nt else 0)
        for i, ops in enumerate(plans):
            for j, op in enumerate(ops):
                mon.ev("operations")
                mon.diff("thread %d of %d (%s), operation %d (%s %s)" % (i, nt, case["k"], j, op.kind, op.t), op.judge())
        if case.get("one") and before is not None:
            mon.ev("trees_written_by_several_threads")
            mon.diff("the tree written by %d threads" % nt, snapdiff(before, obj.snapshot(same["w"].obj)))

    def join(self, ths, y):
        """wait; where threads are that neither run nor use the processor for half a minute"""
        quiet, last = 0, None
        while True:
            live = [t for t in ths if t.is_alive()]
            if not live:
                return []
            live[0].join(0.5)
            now = (y.n, round(time.process_time(), 1))
            quiet = quiet + 1 if now == last else 0
            last = now
            if quiet >= 60:
                fr = sys._current_frames()
                return [" < ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in
                                   list(reversed(traceback.extract_stack(fr[t.ident])))[:4]) for t in live if t.ident in fr]

    def extra(self, tot):
        return {"distinct_interleavings": len(tot["cover"].get("interleavings", ()))}


class Fwd:
    """format-class facade over a shared NdmIo."""

    def __init__(self, io, fmt):
        self.io, self.fmt = io, fmt
        self.from_string, self.from_path = io.from_string, io.from_path

    def to_string(self, o, **k):
        return self.io.to_string(o, self.fmt, **k)


# ---------------------------------------------------------------------------------------
def mutables(o, out=None):
    out = {} if out is None else out
    if hasattr(o, "__dataclass_fields__"):
        out[id(o)] = o
        for v in vars(o).values():
            mutables(v, out)
    elif isinstance(o, (list, dict, set)):
        out[id(o)] = o
        for v in o:
            mutables(v, out)
    return out


def process_state():
    """State of the process that reading and writing have no business with."""
    def ctx(x):
        return (x.prec, x.rounding, x.Emin, x.Emax, x.capitals, x.clamp,
                tuple(bool(v) for k, v in sorted(x.traps.items(), key=lambda i: i[0].__name__)))

    mask = os.umask(0)
    os.umask(mask)
    root = logging.getLogger()
    return {
        "decimal context": ctx(decimal.getcontext()), "default decimal context": ctx(decimal.DefaultContext),
        "locale": locale.setlocale(locale.LC_ALL), "directory": os.getcwd(), "environment": dict(os.environ),
        "recursion limit": sys.getrecursionlimit(), "switch interval": sys.getswitchinterval(),
        "integer digits": sys.get_int_max_str_digits(), "warning filters": list(warnings.filters),
        "random numbers": random.getstate(), "umask": mask,
        "standard streams": (id(sys.stdin), id(sys.stdout), id(sys.stderr)), "collector": (gc.isenabled(), gc.get_threshold()),
        "logging": (root.level, len(root.handlers), root.manager.disable),
        "hooks": (sys.gettrace() is None, sys.getprofile() is None, id(sys.excepthook)),
        "time zone": time.tzname, "threads": threading.active_count(), "socket timeout": socket.getdefaulttimeout(),
    }


def statediff(a, b):
    return ["%s of the process changed (%s, %s)" % (k, str(a[k])[:120], str(b[k])[:120]) for k in a if a[k] != b[k]]


def contexts():
    """decimal contexts a caller may have."""
    return [decimal.Context(), decimal.Context(prec=3, rounding=decimal.ROUND_DOWN), decimal.Context(prec=1, Emax=9, Emin=-9),
            decimal.Context(prec=60),
            decimal.Context(prec=9, traps=[decimal.Inexact, decimal.Rounded, decimal.Subnormal, decimal.InvalidOperation,
                                           decimal.Overflow])]


class C21(Check):
    ID = "C21"
    TECH = "state monitor: deep snapshots around calls, aliasing scan, repeated outputs"
    RULE = ("deep snapshot of a tree before and after each output; outputs repeated, from copies and interleaved with "
            "other work, and while the caller changes the tree; two readings of one text compared and scanned for shared mutable parts; a reading is vandalised "
            "and the text read again; state of the process (decimal context, locale, environment, ...) compared around the "
            "calls; everything repeated in other decimal contexts; non-trivial = at least 5 values; distinct by message")

    def plan(self, tier):
        s = self.seed
        c = list(work.rand(s, TYPES, self.scale(tier, 1000, 16000), maxlist=3))
        c += list(work.attitude(s, 1)) + list(work.observations(s))
        c += [dict(k="combined", s="%s/comb/%d" % (s, i)) for i in range(self.scale(tier, 60, 800))]
        c += [dict(k="edited", s="%s/edit/%d" % (s, i), t=TYPES[i % 8]) for i in range(self.scale(tier, 160, 2400))]
        return c

    def edited(self, case, mon):
        """one writer writes a tree (or several short-lived ones) again and again while its caller changes it"""
        rng = random.Random(case["s"])
        g = dict(maxlist=2, fill=rng.choice([0.1, 0.5, 0.9]))
        node = work.make(dict(case, g=g), True)[0]
        ws = {"XML": xml_io()(), "KVN": kvn_io()()}
        io = api().NdmIo()
        how = case["how"] if "how" in case else rng.choice(["written", "read", "short"])
        if how == "read":
            # (in KVN comments may belong to another part)
            o = lib("reading", rng.choice([ws["XML"], io]).from_string, xmlio.dumps(node))
        else:
            o = obj.to_obj(node)
        own = rng.random() < 0.8
        mon.input(json.dumps(node.to_json()) + how, 5)
        log = []
        for i in range(rng.choice([2, 4, 8])):
            if i and how == "short":
                # the next one may well stand at the address of the last
                node = work.make(dict(case, s="%s/%d" % (case["s"], i), g=g), True)[0]
                o = None
                o = obj.to_obj(node)
            elif i:
                donor = work.make(dict(case, s="%s/%d" % (case["s"], i), g=g), True)[0]
                log.append(transplant(node, o, donor, rng))
            for fmt in rng.sample(["XML", "KVN"], rng.choice([1, 2])):
                mon.ev("outputs_after_edits", 1 if i else 0)
                if own:
                    t = lib("writing", ws[fmt].to_string, o)
                else:
                    t = lib("writing", io.to_string, o, getattr(F(), fmt))
                mon.diff("%s output of a tree (%s) after the changes %s" % (fmt, how, log),
                         kvn_text_diff(node, t) if fmt == "KVN" else xmlio.diff_nodes(node, load_xml(t)))

    def run(self, case, mon):
        if case["k"] == "edited":
            return self.edited(case, mon)
        if case["k"] == "combined":
            rng = random.Random(case["s"])
            node = Gen(rng, maxlist=2).combined(rng.choice([2, 3]))
            fmts = ["XML"]
        else:
            node, rng = work.make(case, True)
            fmts = ["XML", "KVN"]
        observe(mon, node)
        mon.input(json.dumps(node.to_json()), count_leaves(node) - 3)
        o = obj.to_obj(node)
        snap = obj.snapshot(o)
        ids = set(mutables(o))
        first = {}
        decimal.setcontext(decimal.Context())
        state = process_state()

        def same_state(what):
            now = process_state()
            mon.ev("process_states")
            mon.diff(what, statediff(state, now))

        for rnd in range(2):
            for fmt in rng.sample(fmts, len(fmts)):
                w = write_xml if fmt == "XML" else write_kvn
                t = w(o)
                same_state("%s output" % fmt)
                mon.diff("tree after %s output" % fmt, snapdiff(snap, obj.snapshot(o)))
                if set(mutables(o)) != ids:
                    mon.fail("parts of the tree were replaced by %s output" % fmt)
                if fmt in first:
                    mon.diff("%s output repeated" % fmt, [] if t == first[fmt] else [textdiff(first[fmt], t)])
                else:
                    first[fmt] = t
        cp = copy.deepcopy(o)
        other = obj.to_obj(node)
        for fmt in fmts:
            w = write_xml if fmt == "XML" else write_kvn
            for name, x in (("a copy", cp), ("an equal tree", other)):
                t = w(x)
                mon.diff("%s output of %s" % (fmt, name), [] if t == first[fmt] else [textdiff(first[fmt], t)])
        texts = [xmlio.dumps(node) if node.cls != "Ndm" else first["XML"]]
        if "KVN" in fmts:
            texts.append(kvn.render(kvn.events(node)))
        same_state("outputs")
        for text in texts:
            a, b = read(text), read(text)
            same_state("reading")
            sa = obj.snapshot(a)
            mon.diff("second reading", snapdiff(sa, obj.snapshot(b)))
            common = set(mutables(a)) & set(mutables(b))
            mon.diff("two readings", [] if not common else ["share %s" % type(mutables(a)[common.pop()]).__name__])
            ma = mutables(a)
            mon.ev("mutable_parts", len(ma))
            # what was read must survive being written
            for fmt in fmts:
                (write_xml if fmt == "XML" else write_kvn)(a)
            mon.diff("reading after outputs", snapdiff(sa, obj.snapshot(a)))
            vandalise(a)
            mon.diff("other reading after one was changed", snapdiff(sa, obj.snapshot(b)))
            mon.diff("reading after an earlier one was changed", snapdiff(sa, obj.snapshot(read(text))))
            fresh = getattr(obj.models(), node.cls)()
            dirty = [k for k, v in vars(fresh).items() if v not in (None, []) and k not in ("id", "version")]
            mon.diff("fresh object", ["has %s" % dirty] if dirty else [])
        ctx = rng.choice(contexts())
        mon.cov("decimal_contexts", ctx.prec)
        for text in texts:
            a = read(text)
            sa = obj.snapshot(a)
            with decimal.localcontext(ctx):
                here = process_state()
                b = read(text)
                mon.diff("reading in a decimal context of the caller", statediff(here, process_state()))
                sb = obj.snapshot(b)
                out = [(fmt, (write_xml if fmt == "XML" else write_kvn)(o)) for fmt in fmts]
                mon.diff("outputs in a decimal context of the caller", statediff(here, process_state()))
            mon.diff("reading in a decimal context of the caller (prec %d)" % ctx.prec, snapdiff(sa, sb))
            for fmt, t in out:
                mon.diff("%s output in a decimal context of the caller (prec %d)" % (fmt, ctx.prec),
                         [] if t == first[fmt] else [textdiff(first[fmt], t)])


def transplant(node, o, donor, rng):
    """give a part of another message to the tree; the same to its description"""
    path = ""
    while True:
        fs = [f for f in fields(node.cls) if "fixed" not in f and (node.get(f["py"]) not in (None, []) or donor.get(f["py"]) not in (None, []))]
        f = rng.choice(fs)
        a, b = node.get(f["py"]), donor.get(f["py"])
        path += "/" + f["py"]
        if f["base"] == "class" and a not in (None, []) and b not in (None, []) and rng.random() < 0.85:
            if f.get("list"):
                a, b = a[0], b[-1]
                sub = getattr(o, f["py"])[0]
            else:
                sub = getattr(o, f["py"])
            if a.cls in WHOLE or a.cls != b.cls:
                continue
            node, donor, o = a, b, sub
            continue
        if node.cls in WHOLE or f["py"] in ("metadata", "data") and node.cls == "AemSegment" or node.cls in ("AemMetadata", "AemData"):
            # what stands in these belongs together
            return path + " (nothing)"
        if f.get("list") and rng.random() < 0.5 and len(a or []) > 1:
            i = rng.randrange(len(a))
            del a[i], getattr(o, f["py"])[i]
            return path + " (one less)"
        part = Node(donor.cls, **{f["py"]: b})
        new = getattr(obj.to_obj(part), f["py"])
        node[f["py"]] = b
        if f.get("list") and rng.random() < 0.5:
            getattr(o, f["py"])[:] = new
            return path + " (in place)"
        setattr(o, f["py"], new)
        return path


WHOLE = ("AttitudeStateType", "TrackingDataObservationType", "OemCovarianceMatrixType", "StateVectorAccType", "EulerElementsThreeType",
         "QuaternionStateType")


def vandalise(o):
    for p in list(mutables(o).values()):
        if isinstance(p, list):
            p.append("vandal")
        elif hasattr(p, "__dataclass_fields__"):
            for k, v in list(vars(p).items()):
                if not isinstance(v, list):
                    try:
                        setattr(p, k, None)
                    except Exception:
                        pass


# ---------------------------------------------------------------------------------------
class Audit:
    """Process-wide audit hook: external effects requested while armed."""
    installed = False
    armed = None

    @classmethod
    def install(cls):
        if not cls.installed:
            cls.installed = True
            sys.addaudithook(cls.hook)

    @classmethod
    def hook(cls, event, args):
        log = cls.armed
        if log is None:
            return
        if event == "open":
            path, mode, flags = args
            w = (isinstance(mode, str) and any(c in mode for c in "wax+")) or (
                isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND))
            log.append(("write" if w else "read", os.fsdecode(path) if isinstance(path, (str, bytes, os.PathLike)) else path))
        elif event.split(".")[0] in ("socket", "subprocess", "shutil", "tempfile", "ftplib", "http", "urllib", "smtplib", "sqlite3", "ctypes") \
                or event in ("os.system", "os.exec", "os.fork", "os.posix_spawn", "os.spawn", "os.remove", "os.rename", "os.mkdir",
                             "os.rmdir", "os.link", "os.symlink", "os.truncate", "os.chmod", "os.chown", "os.putenv", "os.unsetenv",
                             "os.kill", "os.chdir", "os.utime", "os.setxattr", "pty.spawn", "webbrowser.open"):
            log.append((event, repr(args)[:100]))


class audited:
    def __enter__(self):
        Audit.install()
        self.log = Audit.armed = []
        return self.log

    def __exit__(self, *a):
        Audit.armed = None


class Inotify:
    """kernel-level watch: was a canary file opened, by Python or by a C library?"""

    def __init__(self, path):
        import ctypes
        self.libc = ctypes.CDLL(None, use_errno=True)
        self.fd = self.libc.inotify_init1(os.O_NONBLOCK)
        self.ok = self.fd >= 0 and self.libc.inotify_add_watch(self.fd, os.fsencode(path), 0x1 | 0x20) >= 0

    def touched(self):
        try:
            return bool(os.read(self.fd, 4096))
        except BlockingIOError:
            return False

    def close(self):
        if self.fd >= 0:
            os.close(self.fd)


def effects(log, reads=(), writes=(), pre=None):
    """external effects beyond the files named."""
    ok = [os.path.realpath(p) for p in (sys.prefix, sys.base_prefix, os.path.dirname(os.__file__), "/repo/ccsds_ndm")]
    out = []
    for kind, what in log:
        if kind == "read":
            p = os.path.realpath(what) if isinstance(what, str) else what
            if isinstance(what, int) or what in reads or p in ok or p in map(os.path.realpath, reads):
                continue
            if isinstance(p, str) and any(p.startswith(x + os.sep) for x in ok) or str(p).startswith("/nonexistent"):
                continue
            out.append("read %s" % what)
        elif kind == "write":
            if os.path.realpath(str(what)) not in [os.path.realpath(w) for w in writes]:
                out.append("write %s" % what)
        else:
            out.append("%s %s" % (kind, what))
    return out


class C22(Check):
    ID = "C22"
    TECH = "effect monitor: audit hook, kernel inotify watch and loopback listener around calls"
    RULE = ("reads and writes through every entry point under an audit hook: only the named file may be opened, nothing "
            "else written, removed, spawned or contacted; XML with external entities/DTDs/schema locations pointing to a "
            "watched canary file and a loopback listener; files with names that mean something elsewhere (~, $HOME, *, %20, -, ...) among "
            "the files such a meaning would lead to; outputs that must be refused leave an existing file as it was "
            "and create none; distinct by case")
    need = {"comparisons": 500, "audited_calls": 500, "external_references": 50, "refused_writes": 100}

    def plan(self, tier):
        s, c = self.seed, []
        c += list(work.rand(s, TYPES, self.scale(tier, 500, 4000), "effects", maxlist=2))
        for i in range(self.scale(tier, 300, 2000)):
            c.append(dict(k="external", s="%s/ext/%d" % (s, i), t=TYPES[i % 8]))
        for i in range(self.scale(tier, 500, 3000)):
            c.append(dict(k="refused", s="%s/ref/%d" % (s, i), t=TYPES[i % 8], how=i % 11))
        for j in range(self.scale(tier, 1, 8)):
            for i in range(len(self.NAMES)):
                c.append(dict(k="names", s="%s/name/%d/%d" % (s, i, j), t=TYPES[(i + j) % 8], i=i))
        return c

    def run(self, case, mon):
        rng = random.Random(case["s"] + "r")
        with tmpdir() as d:
            getattr(self, case["k"])(case, mon, rng, d)

    # names that some programs take for something else
    NAMES = ["~/m.kvn", "~", "~root/m", "~nobody", "$HOME/m.kvn", "$HOME", "${VFVAR}.xml", "%VFVAR%", "%VFVAR%/m.kvn", "a%20b.kvn", "a+b.xml", "*.kvn",
             "m?.xml", "[ab].kvn", "{a,b}.kvn", " m.kvn", "m.kvn ", "m.kvn.", "m", ".m", ".kvn", "m.KVN", "M.XML", "m.json", "m.gz", "m.xml.gz",
             "m.zip", "m.bz2", "file:m.kvn", "file:/m.kvn", "http:/m/m.xml", "-", "--", "-m", "./m.kvn", "sub/../m.kvn", "sub/./m.kvn", "sub//m.kvn",
             "m.kvn~", "m.kvn.bak", "m.tmp", "con", "nul", "m\nn.kvn", "m\tn.xml", "m\\n.kvn", "m'n\".kvn", "m;n", "m&n", "m|n", "#m", "m#n.kvn", "<m>.xml",
             "m\u00e9.kvn", "me\u0301.kvn", "CCSDS_OPM_VERS = 2.0", "<opm>", "{}", "0", "1", "m" * 200, "aem.opm", "oem.xml.kvn", "stdin", "\u202em.kvn"]

    def names(self, case, mon, rng, d):
        """files with names of a special meaning elsewhere, among files such programs would take instead"""
        import glob
        import unicodedata
        from urllib.parse import unquote, unquote_plus
        name = self.NAMES[case["i"]]
        mon.cov("file_names", name)
        io, f = api().NdmIo, F()
        node, _ = work.make(dict(case, g=dict(maxlist=1, fill=0.2)), True)
        other = copy.deepcopy(node)
        other["header"]["originator"] = "OTHER"
        fmt = rng.choice(["KVN", "XML"])
        C = xml_io() if fmt == "XML" else kvn_io()
        text, wrong = (xmlio.dumps(n) if fmt == "XML" else kvn.render(kvn.events(n)) for n in (node, other))
        mon.input(name + text, 5)
        want = obj.snapshot(io().from_string(text))
        o = obj.to_obj(node)
        env = dict(os.environ)
        cwd = os.getcwd()
        box, home = os.path.join(d, "box"), os.path.join(d, "home")
        os.makedirs(os.path.join(box, "sub"))
        os.mkdir(home)

        def put(p, t):
            try:
                os.makedirs(os.path.dirname(p) or ".", exist_ok=True)
                if not os.path.isdir(p):
                    with open(p, "w", encoding="utf-8", newline="") as h:
                        h.write(t)
            except OSError:
                pass

        def state():
            out = {}
            for a, _, fs in os.walk(d):
                for x in fs:
                    with open(os.path.join(a, x), "rb") as h:
                        out[os.path.realpath(os.path.join(a, x))] = h.read()
            return out

        try:
            os.chdir(box)
            os.environ.update(HOME=home, VFVAR="vfvar", USERPROFILE=home)
            stem, ext = os.path.splitext(name)
            rivals = {unquote(name), unquote_plus(name), os.path.expandvars(name), name.replace("%VFVAR%", "vfvar"), name.strip(),
                      name.rstrip("."), name.lower(), name.upper(), os.path.basename(name), name.replace("file:", ""), name.lstrip("-#./~"),
                      unicodedata.normalize("NFC", name), unicodedata.normalize("NFD", name), name.replace("\\", "/"), stem, name[:100],
                      name.split("#")[0], name.split(";")[0], name.split("\n")[0], "a.kvn", "ma.xml", "b.kvn", "m.kvn", "m.xml",
                      name + ".kvn", name + ".xml", name + ".gz", stem + ".kvn", stem + ".xml", name + "~", name + ".tmp", name + ".bak"}
            rivals = {os.path.normpath(x) for x in rivals if x} - {".", "..", os.path.normpath(name)}
            for x in sorted(rivals):
                if not x.startswith(("/", "..", "~")) and not x.startswith(os.path.normpath(name) + "/") \
                        and not os.path.normpath(name).startswith(x + "/"):
                    put(x, wrong)
            for x in ("m.kvn", "m", "m.xml"):
                put(os.path.join(home, x), wrong)
            P = rng.choice([str, pathlib.Path, PathLike])
            missing = not os.path.lexists(name)
            if missing:
                for who, fn in (("NdmIo", io().from_path), (C.__name__, C().from_path)):
                    mon.ev("audited_calls")
                    with audited() as log:
                        try:
                            fn(P(name))
                            mon.fail("%s.from_path(%r) of a file that is not there returned a result" % (who, name))
                        except OSError:
                            pass
                        except Exception as e:
                            mon.fail("%s.from_path(%r) of a file that is not there raised %s" % (who, name, type(e).__name__))
                    mon.diff("%s.from_path(%r)" % (who, name), effects(log, [name]))
            put(name, text)
            for who, fn in (("NdmIo", io().from_path), (C.__name__, C().from_path)):
                got = self.call(mon, "%s.from_path(%r)" % (who, name), lambda: fn(P(name)), reads=[name])
                mon.diff("%s.from_path(%r)" % (who, name), snapdiff(want, obj.snapshot(got)))
            expect = io().to_string(o, getattr(f, fmt)).encode("utf-8")
            for who, fn in (("NdmIo", lambda q: io().to_file(o, getattr(f, fmt), q)), (C.__name__, lambda q: C().to_file(o, q))):
                if rng.random() < 0.5:
                    os.unlink(name)
                before = state()
                self.call(mon, "%s.to_file(%r)" % (who, name), lambda: fn(P(name)), writes=[name])
                before[os.path.realpath(name)] = expect
                after = state()
                mon.diff("files after %s.to_file(%r)" % (who, name), ["%s is %s" % (k[len(d):][:80], "changed" if k in before and k in after else
                                                                                  "new" if k in after else "gone")
                                                                      for k in sorted(set(before) | set(after)) if before.get(k) != after.get(k)])
        finally:
            os.chdir(cwd)
            os.environ.clear()
            os.environ.update(env)

    def call(self, mon, what, fn, reads=(), writes=()):
        err = None
        with audited() as log:
            try:
                r = fn()
            except Exception as e:
                err = e
        mon.ev("audited_calls")
        mon.ev("audit_events", len(log))
        mon.diff(what + ": external effects", effects(log, reads, writes))
        if err is not None:
            raise Broken("%s raised %s: %s" % (what, type(err).__name__, str(err)[:200]))
        return r

    def effects(self, case, mon, rng, d):
        node, _ = work.make(case, True)
        observe(mon, node)
        io = api().NdmIo()
        o = obj.to_obj(node)
        texts = {"XML": xmlio.dumps(node, xmlio.Style(rng)), "KVN": kvn.render(kvn.events(node), kvn.Style(rng))}
        mon.input(texts["KVN"], 5)
        for fmt, text in texts.items():
            p = os.path.join(d, "in" + fmt)
            with open(p, "wb") as f:
                f.write(text.encode("utf-8"))
            before = os.stat(p)
            C = xml_io() if fmt == "XML" else kvn_io()
            self.call(mon, "from_string", lambda: io.from_string(text))
            self.call(mon, "from_bytes", lambda: io.from_bytes(text.encode("utf-8")))
            self.call(mon, "from_path", lambda: io.from_path(p), reads=[p])
            self.call(mon, "from_path", lambda: C().from_path(p), reads=[p])
            after = os.stat(p)
            if (before.st_mtime_ns, before.st_size, before.st_ino, before.st_mode) != (
                    after.st_mtime_ns, after.st_size, after.st_ino, after.st_mode):
                mon.fail("reading %s changed the file" % fmt)
            fm = getattr(F(), fmt)
            self.call(mon, "to_string", lambda: io.to_string(o, fm))
            q = os.path.join(d, "out" + fmt)
            self.call(mon, "to_file", lambda: io.to_file(o, fm, q), writes=[q])
            self.call(mon, "to_file", lambda: C().to_file(o, q), writes=[q])
        left = sorted(os.listdir(d))
        mon.diff("directory", [] if left == ["inKVN", "inXML", "outKVN", "outXML"] else ["holds %s" % left])

    def external(self, case, mon, rng, d):
        canary = os.path.join(d, "canary.txt")
        secret = "SECRET-%d" % rng.randint(10**8, 10**9)
        with open(canary, "w") as f:
            f.write(secret)
        dtd = os.path.join(d, "x.dtd")
        with open(dtd, "w") as f:
            f.write('<!ENTITY ext "%s">' % secret)
        srv = socket.socket()
        srv.bind(("127.0.0.1", 0))
        srv.listen(5)
        srv.setblocking(False)
        port = srv.getsockname()[1]
        node, _ = work.make(dict(case, g=dict(maxlist=1, fill=0.2)), True)
        node["header"]["originator"] = "@@@"
        st = xmlio.Style()
        st.decl = None
        body = xmlio.dumps(node, st)
        root = node.cls.lower()
        k = rng.randrange(8)
        pre, ent = "", "x"
        if k == 0:
            pre, ent = '<!DOCTYPE %s [<!ENTITY ext SYSTEM "file://%s">]>' % (root, canary), "&ext;"
        elif k == 1:
            pre, ent = '<!DOCTYPE %s [<!ENTITY ext SYSTEM "%s">]>' % (root, canary), "&ext;"
        elif k == 2:
            pre, ent = '<!DOCTYPE %s SYSTEM "%s">' % (root, dtd), "&ext;"
        elif k == 3:
            pre, ent = '<!DOCTYPE %s [<!ENTITY ext SYSTEM "http://127.0.0.1:%d/a">]>' % (root, port), "&ext;"
        elif k == 4:
            pre = '<!DOCTYPE %s SYSTEM "http://127.0.0.1:%d/a.dtd">' % (root, port)
        elif k == 5:
            pre, ent = '<!DOCTYPE %s [<!ENTITY %% p SYSTEM "file://%s"> %%p;]>' % (root, dtd), "&ext;"
        elif k == 6:
            ent = '<xi:include xmlns:xi="http://www.w3.org/2001/XInclude" href="file://%s" parse="text"/>' % canary
        else:
            pre = '<?xml-stylesheet type="text/xsl" href="http://127.0.0.1:%d/a.xsl"?>' % port
            body = body.replace("<%s " % root, '<%s xmlns:xsi="%s" xsi:noNamespaceSchemaLocation="http://127.0.0.1:%d/a.xsd" '
                                % (root, xmlio.XSI, port), 1)
        text = '<?xml version="1.0" encoding="UTF-8"?>\n' + pre + "\n" + body.replace("@@@", ent)
        mon.input(case["s"] + str(k), 5)
        mon.cov("external_kinds", k)
        ino = Inotify(canary)
        ino2 = Inotify(dtd)
        io = api().NdmIo()
        res = None
        with audited() as log:
            try:
                res = io.from_string(text) if rng.random() < 0.5 else io.from_bytes(text.encode("utf-8"))
            except Exception:
                mon.ev("external_rejected")
        mon.ev("external_references")
        if ino.ok:
            mon.ev("kernel_watched")
        mon.ev("audited_calls")
        d_ = effects(log)
        if ino.touched() or ino2.touched():
            d_.append("an external file was opened")
        try:
            srv.accept()
            d_.append("a network connection was made")
        except BlockingIOError:
            pass
        srv.close()
        ino.close()
        ino2.close()
        if res is not None and secret in repr(res):
            d_.append("content of an external file is in the result")
        mon.diff("external reference kind %d" % k, d_)

    def refused(self, case, mon, rng, d):
        node, _ = work.make(dict(case, g=dict(maxlist=1, fill=0.3)), True)
        o = obj.to_obj(node)
        io = api().NdmIo()
        f = F()
        how = case["how"]
        fmt = f.KVN
        if how == 0:
            fmt = f.JSON
        elif how == 1:
            o = obj.to_obj(Gen(rng, maxlist=1, fill=0.2).combined(rng.choice([2, 3])))
        elif how == 2:
            o, fmt = rng.choice([None, 5, "text", {}, object()]), f.KVN
        elif how == 3:
            o, fmt = rng.choice([None, 5, {}, object()]), f.XML
        elif how == 4:
            g = Gen(rng, maxlist=1, fill=0.2)
            g.att_types = ["QUATERNION", "QUATERNION/RATE", "QUATERNION/DERIVATIVE"]
            o = obj.to_obj(g.message("Aem"))
            for seg in o.body.segment:
                seg.metadata.quaternion_type = None
        elif how == 5:
            # a document that is fine up to its end
            o, fmt = rng.choice([poison_list(o)]), rng.choice([f.XML, f.KVN])
        elif how == 6:
            o = obj.to_obj(Node("Ndm", comment=["nothing in it"]))
        elif how == 7:
            o = obj.to_obj(Gen(rng, maxlist=1, fill=0.2).combined(4))
        elif how >= 9:
            # characters that no UTF-8 file can hold
            fmt = (f.KVN, f.XML)[how - 9]
            bad = rng.choice(["a\ud800b", "\udfff", "a" * 9000 + "\udc80", "\ud83d"])
            rng.choice([lambda: setattr(o.header, "originator", bad), lambda: o.header.comment.append(bad),
                        lambda: setattr(o.header, "creation_date", bad)])()
        else:
            fmt = f.JSON
            o = obj.to_obj(Gen(rng, maxlist=1, fill=0.2).combined(2))
        mon.input(case["s"], 5)
        mon.cov("refused_kinds", how)
        old = b"previous content \xff\n" * rng.choice([0, 1, 50])
        for exists in (True, False):
            p = os.path.join(d, "dest%d" % exists)
            if exists:
                with open(p, "wb") as h:
                    h.write(old)
            with audited() as log:
                try:
                    io.to_file(o, fmt, rng.choice([p, pathlib.Path(p)]))
                    refused = False
                except Exception:
                    refused = True
            mon.ev("audited_calls")
            if not refused:
                if how in (2, 3, 5):
                    mon.ev("not_refused")
                    continue
                mon.fail("output kind %d was not refused" % how)
                continue
            mon.ev("refused_writes")
            d_ = ["%s %s" % x for x in log if x[0] not in ("read",)]
            now = open(p, "rb").read() if os.path.exists(p) else None
            if exists and now != old:
                d_.append("existing file was changed (%s bytes left of %d)" % (None if now is None else len(now), len(old)))
            if not exists and now is not None:
                d_.append("a file of %d bytes was left behind" % len(now))
            mon.diff("refused output (kind %d)" % how, d_)
        extra = [x for x in os.listdir(d) if not x.startswith("dest")]
        mon.diff("directory", ["holds %s" % extra] if extra else [])


def poison_list(o):
    """replace the last list of the tree by something that cannot be written."""
    o = copy.deepcopy(o)
    o.header.comment = 5
    return o


# ---------------------------------------------------------------------------------------
def monster(r):
    """text on which careless pattern matching goes astray: long runs with a late mismatch"""
    n = r.choice([20, 33, 60, 400, 3000])
    unit = r.choice(["1", "9", "0", " ", "  ", "1 ", "-", "+-", ".", "1.", "1,", "e", "1e", "a", "a ", "A_", "_", "=", "= ", "[", "[]", "]", "[a]",
                     "\t", "<", "<!--", "&", "&amp;", "::", "00:", "T", "-01", "COMMENT ", "X=1 ", "\u00e9", "\u0660", "\"", "'", "\\"])
    return r.choice(["", "x", "2020-01-01T00:00:00", "1.5", "[", "-"]) + unit * n + r.choice(["", "x", "!", "[", "[km", "[km]", "]", "=", " ", "1", "\u2028"])


class C23(Check):
    ID = "C23"
    TECH = "logical-time monitor: executed library lines as a function of input size; step budget on hostile inputs"
    RULE = ("(growth) the same message with n, 2n and 4n items, lines executed counted by sys.monitoring: at most "
            "quadratic growth; (hostile) shuffled, cut, doubled, joined and oversized inputs: each call returns or raises "
            "within a step budget (square of the input lines plus its characters); distinct by text")
    need = {"comparisons": 300, "growth_curves": 10, "hostile_inputs": 200}

    def plan(self, tier):
        s, c = self.seed, []
        base = self.scale(tier, 12, 40)
        for t in TYPES:
            for p, f, chain in work.paths(t):
                if f.get("list") and not f.get("max_occurs"):
                    if f["py"] == "comment":
                        continue
                    for fmt in ("rk", "wk", "rx", "wx"):
                        c.append(dict(k="growth", t=t, s="%s/gr/%s/%s" % (s, t, p), p=p, chain=chain, fmt=fmt, n=base))
            for fmt in ("rk", "wk", "rx", "wx"):
                c.append(dict(k="growth", t=t, s="%s/grc/%s" % (s, t), p="comment", chain=[], fmt=fmt, n=base))
        for i in range(self.scale(tier, 700, 12000)):
            c.append(dict(k="hostile", t=TYPES[i % 8], s="%s/ho/%d" % (s, i)))
        for i in range(self.scale(tier, 40, 120)):
            c.append(dict(k="bomb", s="%s/bomb/%d" % (s, i), i=i))
        return c

    def run(self, case, mon):
        getattr(self, case["k"])(case, mon)

    def measure(self, fn, limit):
        st = Steps(limit, prefix="/")
        with Cpu(), st:
            try:
                fn()
                ok = True
            except Exception:
                ok = False
        return st.n, ok

    def growth(self, case, mon):
        res = []
        for mul in (1, 2, 4):
            n = case["n"] * mul
            rng = random.Random(case["s"])
            if case["p"] == "comment":
                g = Gen(rng, fill=0.3, pcom=0.0, maxlist=1, longtext=0)
                node = g.message(case["t"])
                node["header"]["comment"] = ["line %d" % i for i in range(n)]
                lst = node
            else:
                g = Gen(rng, fill=0.2, pcom=0.0, maxlist=1, sizes={case["p"]: n}, longtext=0,
                        force={x: True for x in case["chain"] + [case["p"]]})
                g.obs_fields = ["range"]
                g.att_types = ["QUATERNION"]
                node = g.message(case["t"])
            if case["fmt"] == "rk":
                text = kvn.render(kvn.events(node))
                fn = lambda: api().NdmIo().from_string(text)
            elif case["fmt"] == "rx":
                text = xmlio.dumps(node)
                fn = lambda: api().NdmIo().from_string(text)
            else:
                o = obj.to_obj(node)
                fm = F().KVN if case["fmt"] == "wk" else F().XML
                fn = lambda: api().NdmIo().to_string(o, fm)
            if mul == 1:
                fn()  # lazy imports and caches are not growth
                mon.input(case["s"] + case["fmt"], 5)
            try:
                steps, ok = self.measure(fn, 200_000_000)
            except (StepLimit, CpuLimit) as e:
                raise Broken("%s of %d items: %s" % (case["fmt"], n, e))
            if not ok:
                raise Broken("%s of %d items failed" % (case["fmt"], n))
            res.append(steps)
        mon.ev("growth_curves")
        mon.ev("steps", sum(res))
        mon.cov("curves", (case["t"], case["p"], case["fmt"]))
        a, b, c = res
        d = []
        if c > 18 * a + 20000:
            d.append("steps %s for n, 2n, 4n items grow faster than the square" % res)
        mon.diff("%s %s %s" % (case["t"], case["p"], case["fmt"]), d)

    warm = False

    def warm_up(self):
        """what the library and its dependencies build once per process is not work for this input"""
        if not C23.warm:
            C23.warm = True
            for t in TYPES:
                node = Gen(random.Random(t), fill=1.0, maxlist=1, longtext=0).message(t)
                for text in (kvn.render(kvn.events(node)), xmlio.dumps(node)):
                    try:
                        api().NdmIo().from_string(text)
                    except Exception:
                        pass

    def hostile(self, case, mon):
        rng = random.Random(case["s"])
        g = Gen(rng, maxlist=4)
        node = g.message(case["t"])
        if rng.random() < 0.75:
            lines = kvn.render(kvn.events(node)).split("\n")
            for _ in range(rng.choice([1, 1, 2, 5])):
                k = rng.randrange(12)
                i = rng.randrange(len(lines))
                if k == 0:
                    lines = lines[:max(1, i)]
                elif k == 1:
                    lines.insert(i, lines[rng.randrange(len(lines))])
                elif k == 2 and len(lines) > 2:
                    del lines[i]
                elif k == 3:
                    head, rest = lines[0], lines[1:]
                    rng.shuffle(rest)
                    lines = [head] + rest
                elif k == 4:
                    lines[i:i] = ["COMMENT"] * rng.choice([1, 50])
                elif k == 5:
                    lines[i] = lines[i] + " = " + "x" * rng.choice([10, 5000])
                elif k == 6:
                    lines.insert(i, rng.choice(["META_START", "META_STOP", "DATA_START", "DATA_STOP", "COVARIANCE_START", "COVARIANCE_STOP", "=", "[", "= [", "X", "1 2 3", "1"]))
                elif k == 7:
                    lines += lines[1:]
                elif k == 8:
                    lines[i] = lines[i][:rng.randrange(len(lines[i]) + 1)]
                elif k == 9:
                    lines.insert(i, "".join(rng.choice("=[] \t.-1aZ\u00e9") for _ in range(rng.randint(1, 40))))
                elif k == 10:
                    lines[i:i] = [""] * 200
                else:
                    other = kvn.render(kvn.events(g.message(rng.choice(TYPES)))).split("\n")
                    lines += other[rng.randrange(len(other)):]
            for _ in range(rng.choice([0, 1, 3, 8])):
                i = rng.randrange(len(lines))
                head, eq, rest = lines[i].partition("=")
                lines[i] = rng.choice([head + eq + " " + monster(rng), lines[i] + monster(rng), monster(rng) + lines[i],
                                       head + eq + monster(rng) + rest, monster(rng)])
            if rng.random() < 0.9:
                lines[0] = "CCSDS_%s_VERS = 1.0" % case["t"].upper()
            text = "\n".join(lines)
        else:
            text = xmlio.dumps(node)
            if rng.random() < 0.6:
                cand = [j for i, j in tags(text)]
                i = rng.choice(cand)
                m = monster(rng)
                text = text[:i] + (m if rng.random() < 0.3 else xmlio._esc(m)) + text[i:]
            for _ in range(rng.choice([1, 2])):
                how = rng.choice(DAMAGE)
                try:
                    text = how(text, rng) or text
                except Exception:
                    break
        nl = text.count("\n") + text.count("<") + 1
        budget = 1_000_000 + 4_000 * nl + 60 * nl * nl + 100 * len(text)
        self.warm_up()
        mon.input(text, 5)
        mon.ev("hostile_inputs")
        try:
            steps, ok = self.measure(lambda: api().NdmIo().from_string(text), budget)
        except StepLimit:
            mon.fail("no result after %d steps for %d lines of hostile input" % (budget, nl))
            return
        except CpuLimit as e:
            mon.fail("%s for %d lines of hostile input" % (e, nl))
            return
        mon.ev("hostile_accepted" if ok else "hostile_rejected")
        mon.ev("steps", steps)
        mon.cov("budget_share_percent", 100 * steps // budget)
        mon.diff("hostile input", [])

    def bomb(self, case, mon):
        i = case["i"]
        rng = random.Random(case["s"])
        k = i % 10
        n = 200 * (1 + i // 10)
        if k == 0:
            ents = "".join('<!ENTITY e%d "%s">' % (j, "&e%d;" % (j - 1) * 10) for j in range(1, 12))
            text = '<!DOCTYPE opm [<!ENTITY e0 "x">%s]><opm id="CCSDS_OPM_VERS" version="2.0"><header><ORIGINATOR>&e11;</ORIGINATOR></header></opm>' % ents
        elif k == 1:
            text = "<opm>" * n * 10 + "</opm>" * n * 10
        elif k == 2:
            text = "CCSDS_OPM_VERS = 2.0\n" + "COMMENT x\n" * n
        elif k == 3:
            text = "CCSDS_OPM_VERS = 2.0\n" + "X" * n * 1000
        elif k == 4:
            text = "<ndm>" + "<!-- x -->" * n * 10 + "</ndm>"
        elif k == 5:
            text = "CCSDS_OEM_VERS = 2.0\n" + "META_START\nMETA_STOP\n" * n
        else:
            # one huge line or value among ordinary ones
            unit = rng.choice([" ", "1", "1 ", "[", "a ", "=", "\t", "-", "a_", "1.", "]"]) * (n * 100)
            node = Gen(rng, maxlist=2).message(rng.choice(TYPES))
            if k < 9:
                lines = kvn.render(kvn.events(node)).split("\n")
                j = rng.randrange(1, len(lines))
                head, eq, rest = lines[j].partition("=")
                lines[j] = rng.choice([head + eq + " " + unit + "x", head + unit + eq + rest, unit + "x", "COMMENT " + unit + "x", head + eq + " 1 [" + unit + "]"])
                text = "\n".join(lines)
            else:
                text = xmlio.dumps(node)
                a, b = rng.choice(tags(text))
                text = text[:b] + xmlio._esc(unit) + "x" + text[b:]
        mon.input(text, 5)
        mon.ev("hostile_inputs")
        try:
            steps, ok = self.measure(lambda: api().NdmIo().from_string(text), 30_000_000)
        except StepLimit:
            mon.fail("no result after 30000000 steps for input kind %d (%d characters)" % (k, len(text)))
            return
        except CpuLimit as e:
            mon.fail("%s for input kind %d (%d characters)" % (e, k, len(text)))
            return
        mon.ev("steps", steps)
        mon.diff("oversized input kind %d" % k, [])


CHECKS = [C15, C16, C17, C18, C19, C20, C21, C22, C23]
