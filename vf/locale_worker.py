"""Reads and writes files in a process with another locale (driven by C16)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get("VF_REPO", "/repo"))
from vf import obj  # noqa
import ccsds_ndm.ndm_io as a  # noqa
import ccsds_ndm.ndm_kvn_io as k  # noqa
import ccsds_ndm.ndm_xml_io as x  # noqa

with open(sys.argv[1], encoding="utf-8") as f:
    jobs = json.load(f)
for p, fmt, q, cls in jobs:
    io = {"NdmIo": a.NdmIo, "NdmXmlIo": x.NdmXmlIo, "NdmKvnIo": k.NdmKvnIo}[cls]()
    o = io.from_path(p)
    with open(q + ".json", "w", encoding="utf-8") as f:
        json.dump(obj.snapshot(o), f, default=str)
    if cls == "NdmIo":
        io.to_file(o, getattr(a.NDMFileFormats, fmt), q)
    else:
        io.to_file(o, q)
