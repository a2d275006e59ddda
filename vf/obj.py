"""Node <-> repository object bridges and tree comparison.

Only the public dataclass model (attribute names, class names) is used.
"""
from decimal import Decimal

from .schema import CLASSES, Node, fields, is_valued

_M = None


def models():
    global _M
    if _M is None:
        import ccsds_ndm.models.ndmxml2 as M
        _M = M
    return _M


def conv(f, s):
    """lexical -> python value of the model."""
    b = f["base"]
    if b == "str":
        return s
    if b == "decimal":
        return Decimal(s)
    if b == "int":
        return int(s)
    return getattr(models(), f["ref"])(s)


def to_obj(node):
    """Build the repository's object tree for an abstract message."""
    cls = getattr(models(), node.cls)
    kw = {}
    for f in fields(node.cls):
        x = node.get(f["py"])
        if x is None or "fixed" in f:
            continue
        if x == "" and (node.cls, f["py"]) == ("UserDefinedParameterType", "value"):
            continue    # as the model says it
        one = (lambda i: to_obj(i)) if f["base"] == "class" else (lambda i: conv(f, i))
        kw[f["py"]] = [one(i) for i in x] if f.get("list") else one(x)
    return cls(**kw)


class Mismatch(Exception):
    pass


def leaf_diff(f, want, got):
    """None when the object value `got` carries lexical value `want`."""
    b = f["base"]
    if b == "decimal":
        if type(got) is not Decimal:
            return "expected a Decimal %s, got %s %r" % (want, type(got).__name__, got)
        if Decimal(want) != got:
            return "expected number %s, got %s" % (want, got)
        return None
    if b == "int":
        if type(got) is not int or got != int(want):
            return "expected integer %s, got %r" % (want, got)
        return None
    if b == "enum":
        v = getattr(got, "value", None)
        if v is None or type(got).__name__ != f["ref"] or v != want:
            return "expected %s %r, got %r" % (f["ref"], want, got)
        return None
    if type(got) is not str or got != want:
        return "expected text %r, got %r" % (want, got)
    return None


def same_value(f, a, b):
    """lexical equality modulo number notation (for text outputs)."""
    if f["base"] in ("decimal", "int"):
        try:
            return Decimal(a.strip()) == Decimal(b.strip())
        except Exception:
            return a.strip() == b.strip()    # a text that is no number (C24)
    return a == b


def absent(x):
    return x is None or x == []


def diff(node, obj, path="", comments=True, out=None, limit=8):
    """List of differences between an abstract message and an object tree."""
    out = [] if out is None else out
    if len(out) >= limit:
        return out
    if type(obj).__name__ != node.cls:
        out.append("%s: expected a %s, got %s" % (path or "/", node.cls, type(obj).__name__))
        return out
    for f in fields(node.cls):
        py = f["py"]
        p = path + "/" + py
        want = node.get(py)
        if py == "comment" and not comments:
            continue
        if "fixed" in f:
            want = f["fixed"]
        try:
            got = getattr(obj, py)
        except AttributeError:
            out.append("%s: attribute missing" % p)
            continue
        if f.get("list"):
            want = want or []
            if not isinstance(got, (list, tuple)):
                out.append("%s: expected a list, got %r" % (p, got))
                continue
            if len(want) != len(got):
                out.append("%s: expected %d items, got %d" % (p, len(want), len(got)))
            for i, (w, g) in enumerate(zip(want, got)):
                _one(f, w, g, "%s[%d]" % (p, i), comments, out, limit)
        elif want == "" and got is None and (node.cls, py) == ("UserDefinedParameterType", "value"):
            pass    # an empty user-defined value: the model has no other way to say it
        elif want is None:
            if got is not None:
                out.append("%s: expected nothing, got %s" % (p, short(got)))
        elif got is None:
            out.append("%s: expected %s, got nothing" % (p, short(want)))
        else:
            _one(f, want, got, p, comments, out, limit)
    extra = [k for k in vars(obj) if k not in CLASSES[node.cls]["by_py"] and not k.startswith("_")]
    if extra:
        out.append("%s: unexpected attributes %s" % (path, extra))
    return out


def _one(f, want, got, p, comments, out, limit):
    if f["base"] == "class":
        diff(want, got, p, comments, out, limit)
    else:
        d = leaf_diff(f, want, got)
        if d:
            out.append("%s: %s" % (p, d))


def short(x, n=160):
    s = repr(x)
    return s if len(s) <= n else s[:n] + "..."


def flat(x, getter, clsname, out):
    """document-order event list: ('#', text) for comments, (py, value) for leaves."""
    for f in fields(clsname(x)):
        v = getter(x, f["py"])
        if v is None:
            continue
        for i in v if f.get("list") else [v]:
            if f["py"] == "comment":
                out.append(("#", i))
            elif f["base"] == "class":
                flat(i, getter, clsname, out)
            else:
                out.append((f["py"], f, i))
    return out


def comment_places(x, is_node):
    """comments with the number of non-comment leaves in front of them."""
    ev = flat(x, (lambda n, k: n.get(k)) if is_node else (lambda o, k: getattr(o, k)),
              (lambda n: n.cls) if is_node else (lambda o: type(o).__name__), [])
    res, n = [], 0
    for e in ev:
        if e[0] == "#":
            res.append((n, e[1]))
        elif e[0] not in ("id", "version"):
            n += 1
    return res


def diff_kvn(node, obj):
    """KVN comparison: everything but comments exactly; comments in sequence and place."""
    d = diff(node, obj, comments=False)
    if d:
        return d
    a, b = comment_places(node, True), comment_places(obj, False)
    if a != b:
        for i in range(max(len(a), len(b))):
            x = a[i] if i < len(a) else None
            y = b[i] if i < len(b) else None
            if x != y:
                return ["comment #%d: expected %s, got %s (place = values in front of it)" % (i, x, y)]
    return []


def snapshot(obj):
    """deep structural picture of an object tree (for mutation monitoring)."""
    if hasattr(obj, "__dataclass_fields__"):
        return (type(obj).__name__, tuple((k, snapshot(v)) for k, v in vars(obj).items() if not k.startswith("_")))
    if isinstance(obj, list):
        return ("list", tuple(snapshot(i) for i in obj))
    if isinstance(obj, Decimal):
        return ("dec", obj.as_tuple())
    if hasattr(obj, "value") and hasattr(obj, "name"):
        return ("enum", type(obj).__name__, obj.value)
    return (type(obj).__name__, obj)


def from_obj(obj):
    """Independent dump of an object tree into a Node (schema driven)."""
    n = Node(type(obj).__name__)
    for f in fields(n.cls):
        v = getattr(obj, f["py"])
        if v is None or v == []:
            continue

        def one(i):
            if f["base"] == "class":
                return from_obj(i)
            return str(getattr(i, "value", i))
        n[f["py"]] = [one(i) for i in v] if f.get("list") else one(v)
    return n
