"""One-off extractor used when the schema table was frozen (2.2 pinned commit).

Never run by a check: the committed schema.json is the independent specification.
Usage: /opt/venv/bin/python mkschema.py > schema.json   (then reviewed by hand)
"""
import dataclasses, enum, inspect, json, pkgutil, importlib, typing
from decimal import Decimal
import ccsds_ndm.models.ndmxml2 as M

classes, enums = {}, {}
mods = [importlib.import_module(m.name) for m in pkgutil.iter_modules(M.__path__, M.__name__ + '.')]
for mod in mods:
    for n, c in vars(mod).items():
        if not inspect.isclass(c) or c.__module__ != mod.__name__:
            continue
        if issubclass(c, enum.Enum):
            enums[n] = [v.value for v in c.__members__.values()]
            continue
        fs = []
        for f in dataclasses.fields(c):
            md = dict(f.metadata)
            t = f.type
            islist = f.default_factory is list
            if typing.get_args(t):
                t = typing.get_args(t)[0]
            if t is str: ty = 'str'
            elif t is int: ty = 'int'
            elif t is Decimal: ty = 'decimal'
            elif issubclass(t, enum.Enum): ty = 'enum:' + t.__name__
            else: ty = 'class:' + t.__name__
            kind = {'Element': 'elem', 'Attribute': 'attr', None: 'text'}[md.get('type')]
            d = dict(py=f.name, xml=md.get('name', f.name), kind=kind, type=ty)
            if islist: d['list'] = True
            if md.get('required'): d['required'] = True
            for k in ('min_inclusive', 'max_inclusive', 'min_exclusive', 'max_exclusive', 'min_occurs', 'max_occurs'):
                if k in md: d[k] = str(md[k]) if not k.endswith('occurs') else md[k]
            if 'pattern' in md:
                d['pattern'] = md['pattern']
            if not f.init:
                d['fixed'] = f.default
            fs.append(d)
        classes[n] = dict(xmlname=c.Meta.name, fields=fs)
roots = {r: dict(tag=r.lower(), cls=r) for r in ('Aem','Apm','Cdm','Oem','Omm','Opm','Rdm','Tdm','Ndm')}
json.dump(dict(classes=classes, enums=enums, roots=roots), open('/dev/stdout','w'), indent=0)
