"""Frozen, repository-independent description of the NDM/XML 2.0 message tree."""
import json
import os
from decimal import Decimal

_here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(_here, "schema.json"), encoding="utf-8") as f:
    S = json.load(f)

CLASSES = S["classes"]
ENUMS = S["enums"]
TYPES = ["Aem", "Apm", "Cdm", "Oem", "Omm", "Opm", "Rdm", "Tdm"]
# the order in which a combined instantiation stores its lists
COMBI_ORDER = ["aem", "apm", "cdm", "oem", "omm", "opm", "rdm", "tdm"]

for _n, _c in CLASSES.items():
    _c["name"] = _n
    _c["by_py"] = {f["py"]: f for f in _c["fields"]}
    _c["by_xml"] = {(f["kind"], f["xml"]): f for f in _c["fields"]}
    for _f in _c["fields"]:
        _f["base"], _, _f["ref"] = _f["type"].partition(":")


def fields(cls):
    return CLASSES[cls]["fields"]


def root_tag(cls):
    return cls.lower()


def version_key(cls):
    return "CCSDS_%s_VERS" % cls.upper()


def version(cls):
    return CLASSES[cls]["by_py"]["version"]["fixed"]


def is_leaf(f):
    return f["base"] != "class"


def is_valued(cls):
    """class that is `value [units]` (possibly plus a keyword attribute)."""
    return any(f["kind"] == "text" for f in fields(cls))


class Node:
    """Abstract message node: lexical leaf values, independent of the repository."""

    __slots__ = ("cls", "v")

    def __init__(self, cls, **v):
        self.cls = cls
        self.v = v

    def get(self, k):
        return self.v.get(k)

    def __getitem__(self, k):
        return self.v[k]

    def __setitem__(self, k, x):
        self.v[k] = x

    def __repr__(self):
        return "%s(%s)" % (
            self.cls,
            ", ".join("%s=%r" % i for i in self.v.items() if i[1] not in (None, [])),
        )

    def to_json(self):
        def cv(x):
            if isinstance(x, Node):
                return x.to_json()
            if isinstance(x, list):
                return [cv(i) for i in x]
            return x

        return {"_cls": self.cls, **{k: cv(x) for k, x in self.v.items() if x not in (None, [])}}

    @staticmethod
    def from_json(d):
        def cv(x):
            if isinstance(x, dict):
                return Node.from_json(x)
            if isinstance(x, list):
                return [cv(i) for i in x]
            return x

        return Node(d["_cls"], **{k: cv(x) for k, x in d.items() if k != "_cls"})

    def copy(self):
        return Node.from_json(self.to_json())


def count_leaves(node):
    n = 0
    for f in fields(node.cls):
        x = node.get(f["py"])
        for i in x if isinstance(x, list) else [x]:
            if isinstance(i, Node):
                n += count_leaves(i)
            elif i is not None:
                n += 1
    return n


def dec(s):
    return Decimal(s.strip())
