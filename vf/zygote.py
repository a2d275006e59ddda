"""A process that has loaded the library and done nothing with it.  Every case it is given runs in
a fork of its own, so that each one finds the library as a new program finds it."""
import json
import os
import pickle
import signal
import struct
import sys
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from vf import core  # noqa
sys.path.insert(0, core.REPO)
from vf import checks  # noqa
import ccsds_ndm.ndm_io  # noqa
import ccsds_ndm.ndm_kvn_io  # noqa
import ccsds_ndm.ndm_xml_io  # noqa


def one(check, case):
    signal.signal(signal.SIGALRM, signal.SIG_DFL)
    signal.alarm(core.CASE_WATCHDOG)
    core.coverage_on()
    mon = core.Mon()
    core.guarded(mon, check.run_cold, case)
    return pickle.dumps((mon, set(core._seen_lines)))


def main():
    out = os.fdopen(os.dup(1), "wb", buffering=0)
    os.dup2(2, 1)
    warnings.simplefilter("ignore")
    for line in sys.stdin:
        pid_, case = json.loads(line)
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                data = one(checks.ALL[pid_], case)
                while data:
                    data = data[os.write(w, data):]
            finally:
                os._exit(0)
        os.close(w)
        data = b""
        while True:
            b = os.read(r, 1 << 16)
            if not b:
                break
            data += b
        os.close(r)
        _, st = os.waitpid(pid, 0)
        out.write(struct.pack("<ii", st, len(data)))
        while data:
            data = data[out.write(data):]


if __name__ == "__main__":
    main()
