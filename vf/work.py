"""Workloads: directed sweeps over the message schema plus seeded random messages.

A spec is a JSON value {"t": type, "s": seed string, "g": Gen keyword arguments}.
"""
import random

from .gen import Gen
from .schema import CLASSES, ENUMS, TYPES, fields

KEYWORD_TYPES = ["Opm", "Omm", "Apm", "Cdm", "Rdm"]
TABLE_TYPES = ["Oem", "Tdm", "Aem"]


def make(spec, kvn):
    rng = random.Random(spec["s"])
    g = Gen(rng, kvn=kvn, **{k: v for k, v in spec.get("g", {}).items()})
    for k in ("att_types", "obs_fields", "att_fixed"):
        if k in spec:
            setattr(g, k, spec[k])
    return g.message(spec["t"]), rng


_paths = {}


def paths(typ):
    """every (class.field, field, [optional ancestors as class.field]) below a message type."""
    if typ in _paths:
        return _paths[typ]
    out, seen = [], set()

    def walk(cls, chain):
        for f in fields(cls):
            if "fixed" in f:
                continue
            p = cls + "." + f["py"]
            if p in seen:
                continue
            seen.add(p)
            out.append((p, f, list(chain)))
            if f["base"] == "class":
                walk(f["ref"], chain + ([] if f.get("required") else [p]))
    walk(typ, [])
    _paths[typ] = out
    return out


def _up(seed, *a):
    return "/".join(str(x) for x in (seed,) + a)


def presence(seed, types):
    """each optional element alone, and each one missing from a full message."""
    for t in types:
        for p, f, chain in paths(t):
            if f.get("required") or f["py"] == "units":
                continue
            yield dict(k="solo", t=t, s=_up(seed, "solo", t, p), p=p,
                       g=dict(fill=0.0, pcom=0.0, force={**{c: True for c in chain}, p: True}))
            yield dict(k="absent", t=t, s=_up(seed, "absent", t, p), p=p,
                       g=dict(fill=1.0, pcom=0.3, force={p: False}))


def pairs(seed, types, n):
    """random subsets of presence decisions at several densities."""
    for t in types:
        for i in range(n):
            yield dict(k="subset", t=t, s=_up(seed, "subset", t, i),
                       g=dict(fill=[0.05, 0.2, 0.5, 0.8, 0.95][i % 5]))


def enums(seed, types, lower=True):
    """every value of every enumeration, units included."""
    for t in types:
        for p, f, chain in paths(t):
            if f["base"] != "enum" or p.startswith(("AemMetadata.attitude", "AemMetadata.quat", "AemMetadata.euler")):
                continue
            if f["ref"].startswith("Rotseq") or f["py"] in ("angle", "rate"):
                continue
            vals = ENUMS[f["ref"]]
            for v in vals:
                yield dict(k="enum", t=t, s=_up(seed, "enum", t, p, v), p=p,
                           g=dict(fill=0.3, units=1.0, force={c: True for c in chain + [p]}, values={p: v}))


def sizes(seed, types, ns, fill=0.2):
    """list lengths, including lengths around powers of two and ten."""
    for t in types:
        for p, f, chain in paths(t):
            if not f.get("list") or f.get("max_occurs") or f["py"] == "comment":
                continue
            for n in ns:
                yield dict(k="size", t=t, s=_up(seed, "size", t, p, n), p=p,
                           g=dict(fill=fill, sizes={p: n}, maxlist=1, pcom=0.05,
                                  force={c: True for c in chain + [p]}))


def rand(seed, types, n, tag="rand", **g):
    for i in range(n):
        t = types[i % len(types)]
        yield dict(k=tag, t=t, s=_up(seed, tag, t, i), g=dict(g))


ATT = list(Gen.ATT)
ROT = [s for s in ENUMS["RotseqType"]]


def attitude(seed, reps, **g):
    """every attitude type x quaternion order x rotation sequence."""
    for at in ATT:
        q = ["FIRST", "LAST"] if at.startswith("QUATERNION") else [None]
        rots = ROT if at.startswith("EULER") or at.endswith("RATE") else [None]
        for qt in q:
            for rs in rots:
                for i in range(reps):
                    yield dict(k="attitude", t="Aem", s=_up(seed, "att", at, qt, rs, i), att_fixed=[at, qt, rs],
                               g=dict(g))


def observations(seed):
    for f in fields("TrackingDataObservationType"):
        if f["py"] != "epoch":
            yield dict(k="observation", t="Tdm", s=_up(seed, "obs", f["py"]), obs_fields=[f["py"]],
                       p=f["py"], g=dict(fill=0.2))
