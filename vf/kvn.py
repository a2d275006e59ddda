"""Independent NDM/KVN writer and tokenizer (CCSDS keyword = value notation).

A KVN message is a sequence of logical events:
  ("kv", KEY, value, unit|None)   keyword line
  ("#", text)                     comment line
  ("mark", NAME)                  META_START, DATA_STOP, ...
  ("data", (tok, tok, ...))       tabular line
"""
from decimal import Decimal

from .schema import CLASSES, fields, is_valued, version, version_key

MARKED = {  # metadata / data delimiters
    "AemMetadata": "META", "OemMetadata": "META", "TdmMetadata": "META",
    "AemData": "DATA", "TdmData": "DATA",
}
COV = "OemCovarianceMatrixType"


def val(n):
    return n["value"]


def events(node):
    """The KVN event sequence of an abstract message."""
    out = [("kv", version_key(node.cls), version(node.cls), None)]
    _walk(node, out, {})
    return out


def _walk(node, out, ctx):
    cls = node.cls
    mark = MARKED.get(cls)
    if mark:
        out.append(("mark", mark + "_START"))
    if cls == "AemSegment":
        ctx = dict(ctx, md=node["metadata"])
    for f in fields(cls):
        if "fixed" in f:
            continue
        v = node.get(f["py"])
        if v is None or v == []:
            continue
        if f["py"] == "comment":
            out.extend(("#", c) for c in v)
            continue
        if f["base"] == "class" and f["ref"] == COV:
            out.append(("mark", "COVARIANCE_START"))
        for i in v if f.get("list") else [v]:
            _item(f, i, out, ctx)
        if f["base"] == "class" and f["ref"] == COV:
            out.append(("mark", "COVARIANCE_STOP"))
    if mark:
        out.append(("mark", mark + "_STOP"))


def _item(f, i, out, ctx):
    if f["base"] != "class":
        out.append(("kv", f["xml"].upper(), i, None))
        return
    ref = f["ref"]
    if ref == "UserDefinedParameterType":
        out.append(("kv", "USER_DEFINED_" + i["parameter"], i["value"], None))
    elif ref == "StateVectorAccType":
        toks = [i["epoch"]] + [val(i[k]) for k in
                               ("x", "y", "z", "x_dot", "y_dot", "z_dot", "x_ddot", "y_ddot", "z_ddot")
                               if i.get(k) is not None]
        out.append(("data", tuple(toks)))
    elif ref == COV:
        out.extend(("#", c) for c in i.get("comment") or [])
        out.append(("kv", "EPOCH", i["epoch"], None))
        if i.get("cov_ref_frame") is not None:
            out.append(("kv", "COV_REF_FRAME", i["cov_ref_frame"], None))
        vs = [val(i[g["py"]]) for g in fields(COV) if g["base"] == "class"]
        k = 0
        for row in range(1, 7):
            out.append(("data", tuple(vs[k:k + row])))
            k += row
    elif ref == "AttitudeStateType":
        out.append(("data", tuple(att_tokens(i, ctx["md"]))))
    elif ref == "TrackingDataObservationType":
        for g in fields(ref):
            if g["py"] != "epoch" and i.get(g["py"]) is not None:
                w = i[g["py"]]
                out.append(("kv", g["xml"].upper(), (i["epoch"], val(w) if g["base"] == "class" else w), None))
    elif is_valued(ref):
        key = f["xml"].upper()
        for g in fields(ref):
            if g["kind"] == "attr" and g["py"] not in ("units",):
                key = i[g["py"]]
        out.append(("kv", key, i["value"], i.get("units")))
    else:
        _walk(i, out, ctx)


def att_tokens(state, md):
    (n,) = [x for x in state.v.values() if x is not None]
    toks = [n["epoch"]]
    last = (md.get("quaternion_type") or "").upper() == "LAST"
    q = n.get("quaternion")
    if q:
        toks += [q[k] for k in (("q1", "q2", "q3", "qc") if last else ("qc", "q1", "q2", "q3"))]
    if n.get("quaternion_rate"):
        d = n["quaternion_rate"]
        toks += [val(d[k]) for k in (("q1_dot", "q2_dot", "q3_dot", "qc_dot") if last
                                     else ("qc_dot", "q1_dot", "q2_dot", "q3_dot"))]
    for k in ("rotation_angles", "rotation_rates"):
        if n.get(k):
            toks += [val(n[k]["rotation%d" % j]) for j in (1, 2, 3)]
    if n.cls.startswith("Spin"):
        toks += [val(n[f["py"]]) for f in fields(n.cls) if f["py"] != "epoch"]
    return toks


class Style:
    """Layout freedom of a KVN file: spacing, blank lines, line ends."""

    def __init__(self, rng=None, comment_eq=None, mixed=True):
        r = self.r = rng
        self.plain = r is None
        if r is None:
            self.nl, self.pad, self.eq = "\n", 20, " = "
            self.blank = 0
            self.comment_eq = comment_eq or False
            self.unitsp, self.datasep = " ", "  "
            self.unitin = ""
            self.mixed = False
            self.lead = ""
            self.final = True
            return
        self.nl = r.choice(["\n"] * 6 + ["\r\n", "\r\n", "\r"])
        self.pad = r.choice([0, 20, 20, 25, 40])
        self.eq = r.choice([" = ", "=", "  =  ", "\t=\t", " =", "= "])
        self.blank = r.choice([0, 0, 0.2, 0.6])
        self.comment_eq = r.random() < 0.3 if comment_eq is None else comment_eq
        self.unitsp = r.choice([" ", "", "   ", "\t"])
        self.datasep = r.choice([" ", " ", "  ", "  ", "     ", "\t", " \t "])
        self.lead = r.choice(["", "", "", "  ", "\t"])
        self.final = r.random() < 0.7
        self.trail = r.choice(["", "", " ", "   "])
        self.unitin = r.choice(["", "", "", " ", "  "])
        self.mixed = mixed and r.random() < 0.2


def render(evs, st=None):
    base = st = st or Style()
    lines, ends = [], []
    for e in evs:
        if base.mixed:      # every line in its own layout
            st = Style(base.r, mixed=False)
        if st.blank and lines and st.r.random() < st.blank:
            k = st.r.randint(1, 3)
            lines.extend([st.r.choice(["", " ", "\t"])] * k)
            ends.extend([st.nl] * k)
        if e[0] == "kv":
            v = e[2]
            if isinstance(v, tuple):
                v = v[0] + (" " if st.plain else st.datasep) + v[1]
            s = e[1].ljust(st.pad) + st.eq + v
            if e[3] is not None:
                s += st.unitsp + "[" + st.unitin + e[3] + st.unitin + "]"
        elif e[0] == "#":
            s = "COMMENT".ljust(st.pad) + st.eq + e[1] if st.comment_eq or e[1].startswith("=") else "COMMENT " + e[1]
        elif e[0] == "mark":
            s = e[1]
        else:
            s = st.datasep.join(e[1])
        lines.append(st.lead + s + (getattr(st, "trail", "") if not st.plain else ""))
        ends.append(st.nl)
    if not base.final:
        ends[-1] = ""
    return "".join(a + b for a, b in zip(lines, ends))


class KvnShape(Exception):
    pass


MARKS = {a + b for a in ("META", "DATA", "COVARIANCE") for b in ("_START", "_STOP")}


def tokenize(text):
    """Physical lines -> raw events.  Keyword values stay whole: ("kv", KEY, rhs)."""
    out = []
    for ln in text.split("\n"):
        s = ln.strip(" \t\r")
        if not s:
            continue
        if s == "COMMENT" or s.startswith("COMMENT ") or s.startswith("COMMENT\t") or s.startswith("COMMENT="):
            out.append(("#", s[7:].strip(" \t")))
        elif s in MARKS:
            out.append(("mark", s))
        elif "=" in s and (" " not in s.split("=", 1)[0].strip() or s.startswith("USER_DEFINED_")):
            k, v = s.split("=", 1)
            out.append(("kv", k.strip(), v.strip()))
        else:
            out.append(("data", tuple(s.split())))
    return out


def _num(a, b):
    try:
        return Decimal(a) == Decimal(b)
    except Exception:
        return False


def _isnum(a):
    try:
        Decimal(a)
        return True
    except Exception:
        return False


def _txt(a, b):
    return a == b or _num(a, b)


def event_diff(want, raw):
    """Compare expected events with a tokenized text.  Numbers by value, comments
    with or without the customary '=' filler."""
    for i in range(max(len(want), len(raw))):
        w = want[i] if i < len(want) else None
        g = raw[i] if i < len(raw) else None
        if w is None:
            return ["line %d: unexpected extra %r" % (i + 1, g)]
        if g is None:
            return ["line %d: expected %r, text ends" % (i + 1, w)]
        ok = False
        if w[0] == "#" and g[0] == "#":
            ok = g[1] == w[1] and not g[1].startswith("=") or (g[1].startswith("=") and g[1][1:].strip(" \t") == w[1])
        elif w[0] == "mark":
            ok = g == w
        elif w[0] == "data" and g[0] == "data":
            ok = (len(w[1]) == len(g[1]) and all(_txt(a, b) for a, b in zip(w[1], g[1])))
        elif w[0] == "kv" and g[0] == "kv" and g[1] == w[1]:
            if isinstance(w[2], tuple):
                t = g[2].split()
                ok = len(t) == 2 and t[0] == w[2][0] and _txt(t[1], w[2][1])
            elif w[3] is None:
                ok = _txt(g[2], w[2])
            else:
                if g[2].endswith("[" + w[3] + "]"):
                    ok = _txt(g[2][:-len(w[3]) - 2].strip(), w[2])
        if not ok:
            return ["line %d: expected %r, got %r" % (i + 1, w, g)]
    return []
