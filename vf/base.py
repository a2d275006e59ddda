"""Shared parts of the checks: library access through its public API, oracles."""
import json
import os
import random
import tempfile

from . import kvn, obj, work, xmlio
from .core import HERE, Broken, lib
from .schema import CLASSES, COMBI_ORDER, ENUMS, TYPES, Node, count_leaves, fields

QUICK, THOROUGH = "quick", "thorough"


def api():
    import ccsds_ndm.ndm_io as a
    return a


def kvn_io():
    from ccsds_ndm.ndm_kvn_io import NdmKvnIo
    return NdmKvnIo


def xml_io():
    from ccsds_ndm.ndm_xml_io import NdmXmlIo
    return NdmXmlIo


def F():
    return api().NDMFileFormats


def read(text, what="reading"):
    return lib(what, api().NdmIo().from_string, text)


def write_xml(o, what="writing XML", **k):
    t = lib(what, api().NdmIo().to_string, o, F().XML, **k)
    if type(t) is not str:
        raise Broken("%s returned %s" % (what, type(t).__name__))
    if t.startswith("<?xml") and t[5:].split("?>")[0].replace("'", '"').split("version")[-1].strip().lstrip("= ")[:5] != '"1.0"':
        raise Broken("%s: not a document of XML 1.0: %r" % (what, t[:60]))
    return t


def write_kvn(o, what="writing KVN"):
    t = lib(what, api().NdmIo().to_string, o, F().KVN)
    if type(t) is not str:
        raise Broken("%s returned %s" % (what, type(t).__name__))
    return t


def xml_diff(node, text):
    """compare XML text with an abstract message: well-formed, schema order, content."""
    try:
        got, _ = xmlio.loads(text)
    except xmlio.XmlShape as e:
        return ["not a valid message: %s" % e]
    except Exception as e:
        return ["not well-formed: %s" % e]
    return xmlio.diff_nodes(node, got)


def kvn_text_diff(node, text):
    return kvn.event_diff(kvn.events(node), kvn.tokenize(text))


def observe(mon, node, spec=None):
    """what the workload covered: schema positions with value classes."""
    mon.ev("messages")
    mon.cov("message_types", node.cls)
    n = [0]

    def walk(x):
        for f in fields(x.cls):
            v = x.get(f["py"])
            if v is None or "fixed" in f:
                continue
            vs = v if f.get("list") else [v]
            for i in vs:
                n[0] += 1
                p = x.cls + "." + f["py"]
                if f["base"] == "class":
                    walk(i)
                elif f["base"] == "enum":
                    mon.cov("enum_values", (p, i))
                else:
                    mon.cov("schema_positions", p)
            if f.get("list") and vs:
                mon.cov("list_lengths", (x.cls + "." + f["py"], len(vs)))
    walk(node)
    mon.ev("values", n[0])
    return n[0]


class Check:
    LEVEL = "exploration"
    ASSUME = ["the message tree of the frozen schema table (vf/schema.json) is the NDM/XML 2.0 one",
              "only messages of the documented domain are generated (DESIGN.md, Domain)"]
    need = {"comparisons": 50}
    kvn = True
    seed = 1

    def scale(self, tier, q, t):
        return t if tier == THOROUGH else q

    def node(self, case, mon=None):
        n, rng = work.make(case, self.kvn)
        if mon is not None:
            observe(mon, n)
        return n, rng


def tmpdir():
    base = os.environ.get("VF_TMP") or tempfile.gettempdir()
    return tempfile.TemporaryDirectory(prefix="vf-", dir=base)
