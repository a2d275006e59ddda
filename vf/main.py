import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def main(argv):
    from vf import core
    sys.path.insert(0, core.REPO)
    import ccsds_ndm
    assert os.path.abspath(ccsds_ndm.__file__).startswith(core.LIBDIR), ccsds_ndm.__file__
    from vf import checks
    if argv[0] == "--list":
        for c in checks.ALL.values():
            print(c.ID, c.TECH)
        return 0
    check = checks.ALL[argv[0]]
    if len(argv) > 2 and argv[1] == "--replay":
        return core.replay(check, argv[2])
    return core.run_check(check)


if __name__ == "__main__":
    rc = main(sys.argv[1:])
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)    # evidence is written, verdict printed: nothing left to wait for
