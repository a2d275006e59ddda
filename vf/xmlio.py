"""Independent NDM/XML writer and reader (standard library only)."""
import xml.etree.ElementTree as ET

from .schema import CLASSES, TYPES, Node, fields, root_tag

XSI = "http://www.w3.org/2001/XMLSchema-instance"


def _esc(s, r=None):
    out = []
    for ch in s:
        if ch == "&":
            out.append("&amp;")
        elif ch == "<":
            out.append("&lt;")
        elif ch == ">":
            out.append("&gt;")
        elif r is not None and r.random() < 0.02 and ch.isalnum():
            out.append("&#x%X;" % ord(ch) if r.random() < 0.5 else "&#%d;" % ord(ch))
        else:
            out.append(ch)
    return "".join(out)


def _text(s, r, ent=False):
    """element text; in random layouts also CDATA, and comments or processing instructions amid the text"""
    if r is None or not s:
        return _esc(s, r)
    if "]]>" not in s and r.random() < (0.3 if "<" in s else 0.05):
        return "<![CDATA[%s]]>" % s
    if ent and "E" in s and r.random() < 0.3:
        return _esc(s).replace("E", "&vfe;")
    if r.random() < 0.03:
        i = r.randrange(len(s) + 1)
        noise = r.choice(["<!-- x -->", "<?vf <X>1</X>?>", "<!---->", "<?vf?>"])
        return _esc(s[:i], r) + noise + _esc(s[i:], r)
    return _esc(s, r)


def _attr(s, r):
    q = "'" if r is not None and r.random() < 0.3 else '"'
    t = _esc(s, r).replace("\n", "&#10;").replace("\t", "&#9;")
    return q + (t.replace('"', "&quot;") if q == '"' else t.replace("'", "&apos;")) + q


class Style:
    """Layout freedom of an XML document carrying the same message."""

    def __init__(self, rng=None):
        r = self.r = rng
        self.ent = False
        if r is None:
            self.indent, self.nl, self.decl, self.selfclose = "  ", "\n", True, True
            self.xcomments = self.pi = False
            self.schema = 0
            self.ws = False
        else:
            self.indent = r.choice(["  ", "\t", "", "    "])
            self.nl = r.choice(["\n", "\n", "\r\n", ""])
            self.decl = r.choice([None, 'version="1.0" encoding="UTF-8"', 'version="1.0" encoding="utf-8"',
                                  "version='1.0' encoding='UTF-8' standalone='yes'", 'version="1.0"'])
            self.xcomments = r.random() < 0.3
            self.pi = r.random() < 0.1
            self.schema = r.choice([0, 1, 2, 3])
            self.ws = r.random() < 0.3
            self.selfclose = r.random() < 0.5


def _emit(tag, node, cls, st, depth, out, extra=""):
    attrs = extra
    text = None
    for f in fields(cls):
        v = node.get(f["py"])
        if f["kind"] == "attr":
            v = f.get("fixed", v)
            if v is not None:
                attrs += " %s=%s" % (f["xml"], _attr(v, st.r))
        elif f["kind"] == "text":
            text = v
    pad = st.indent * depth if st.nl else ""
    sp = " " if st.ws and st.r.random() < 0.2 else ""
    if text is not None:
        out.append("%s<%s%s%s>%s</%s>" % (pad, tag, attrs, sp, _text(text, st.r, st.ent), tag))
        return
    kids = []
    for f in fields(cls):
        if f["kind"] != "elem":
            continue
        v = node.get(f["py"])
        if v is None:
            continue
        for i in v if f.get("list") else [v]:
            if st.xcomments and st.r.random() < 0.05:
                kids.append("%s<!-- noise <X>1</X> -->" % pad)
            if st.pi and st.r.random() < 0.05:
                kids.append("%s<?noise x?>" % pad)
            if f["base"] == "class":
                _emit(f["xml"], i, f["ref"], st, depth + 1, kids)
            else:
                p = st.indent * (depth + 1) if st.nl else ""
                kids.append("%s<%s>%s</%s>" % (p, f["xml"], _text(i, st.r, st.ent), f["xml"]))
    if not kids and st.selfclose:
        out.append("%s<%s%s%s/>" % (pad, tag, attrs, sp))
        return
    out.append("%s<%s%s%s>" % (pad, tag, attrs, sp))
    out.extend(kids)
    out.append("%s</%s>" % (pad, tag))


def dumps(node, style=None):
    st = style or Style()
    out = []
    if st.decl:
        out.append("<?xml %s?>" % (st.decl if st.decl is not True else 'version="1.0" encoding="UTF-8"'))
    if st.xcomments:
        out.append("<!-- prolog -->")
    if st.ent:
        out.append('<!DOCTYPE %s [<!ENTITY vfe "E">]>' % root_tag(node.cls))
    extra = ""
    if st.schema:
        extra = ' xmlns:xsi="%s"' % XSI
        if st.schema == 2:
            extra += ' xsi:noNamespaceSchemaLocation="http://sanaregistry.org/r/ndmxml/ndmxml-1.0-master.xsd"'
        if st.schema == 3:
            extra += ' xsi:schemaLocation="urn:a b.xsd"'
    _emit(root_tag(node.cls), node, node.cls, st, 0, out, extra)
    if st.xcomments and st.r.random() < 0.5:
        out.append("<!-- epilog -->")
    t = st.nl.join(out) + st.nl
    if st.r is not None and "\r" not in t and st.r.random() < 0.15:
        # all line ends of a document, also those within its texts, are one and the same to a reader
        t = t.replace("\n", st.r.choice(["\r\n", "\r"]))
    return t


class XmlShape(Exception):
    pass


def loads(text):
    """Parse with the standard library into a Node; XmlShape if the document
    is not a message of the frozen schema in schema order. Also returns root attribs."""
    p = ET.XMLParser(encoding="utf-8")
    p.feed(text.encode("utf-8"))
    root = p.close()
    cls = None
    for c in ("Aem", "Apm", "Cdm", "Oem", "Omm", "Opm", "Rdm", "Tdm", "Ndm"):
        if root.tag == root_tag(c):
            cls = c
    if cls is None:
        raise XmlShape("root element <%s>" % root.tag)
    rattr = {k: v for k, v in root.attrib.items() if k.startswith("{")}
    return _load(root, cls, "/" + root.tag), rattr


def _load(el, cls, path):
    n = Node(cls)
    elems = [f for f in fields(cls) if f["kind"] == "elem"]
    textf = [f for f in fields(cls) if f["kind"] == "text"]
    for k, v in el.attrib.items():
        if k.startswith("{"):
            continue
        f = CLASSES[cls]["by_xml"].get(("attr", k))
        if f is None:
            raise XmlShape("%s: unknown attribute %s" % (path, k))
        n[f["py"]] = v
    for f in fields(cls):
        if f["kind"] == "attr" and "fixed" in f and n.get(f["py"]) != f["fixed"]:
            raise XmlShape("%s: attribute %s is %r, must be %r" % (path, f["xml"], n.get(f["py"]), f["fixed"]))
    if textf:
        if len(el):
            raise XmlShape("%s: child elements in a value element" % path)
        n[textf[0]["py"]] = el.text or ""
        return n
    pos = -1
    if (el.text or "").strip():
        raise XmlShape("%s: stray text %r" % (path, el.text))
    for ch in el:
        if (ch.tail or "").strip():
            raise XmlShape("%s: stray text %r" % (path, ch.tail))
        idx = [i for i, f in enumerate(elems) if f["xml"] == ch.tag]
        if not idx:
            raise XmlShape("%s: unknown element <%s>" % (path, ch.tag))
        i = idx[0]
        f = elems[i]
        if i < pos:
            raise XmlShape("%s: <%s> out of schema order" % (path, ch.tag))
        if i == pos and not f.get("list"):
            raise XmlShape("%s: repeated <%s>" % (path, ch.tag))
        pos = i
        if f["base"] == "class":
            ref = f["ref"]
            if cls == "Ndm" and ref[:-4] in TYPES:
                ref = ref[:-4]
            v = _load(ch, ref, path + "/" + ch.tag)
        else:
            if len(ch) or ch.attrib:
                raise XmlShape("%s: <%s> must be plain text" % (path, ch.tag))
            v = ch.text or ""
        if f.get("list"):
            n.v.setdefault(f["py"], []).append(v)
        else:
            n[f["py"]] = v
    for f in elems:
        if f.get("required") and not f.get("list") and n.get(f["py"]) is None:
            raise XmlShape("%s: required <%s> missing" % (path, f["xml"]))
    return n


def diff_nodes(want, got, path="", out=None, limit=8, comments=True):
    """Compare two Nodes, numbers by value."""
    from .obj import same_value
    out = [] if out is None else out
    if want.cls != got.cls:
        out.append("%s: expected %s, got %s" % (path or "/", want.cls, got.cls))
        return out
    for f in fields(want.cls):
        if len(out) >= limit:
            break
        if f["py"] == "comment" and not comments:
            continue
        w, g = want.get(f["py"]), got.get(f["py"])
        if "fixed" in f:
            continue
        p = path + "/" + f["py"]
        if f.get("list"):
            w, g = w or [], g or []
            if len(w) != len(g):
                out.append("%s: expected %d items, got %d" % (p, len(w), len(g)))
        elif w is None and g is None:
            continue
        elif w is None or g is None:
            out.append("%s: expected %s, got %s" % (p, _s(w), _s(g)))
            continue
        else:
            w, g = [w], [g]
        for i, (a, b) in enumerate(zip(w, g)):
            q = "%s[%d]" % (p, i) if f.get("list") else p
            if f["base"] == "class":
                diff_nodes(a, b, q, out, limit, comments)
            elif not same_value(f, a, b):
                out.append("%s: expected %r, got %r" % (q, a, b))
    return out


def _s(x):
    if x is None:
        return "nothing"
    s = repr(x)
    return s[:150]
