#!/usr/bin/env python3
"""check.py ID [quick|thorough]: decide one property on /repo's working tree.
exit 0 held, exit 1 VIOLATION line, exit 2 the check could not do its work."""
import os, shutil, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vf, checks


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    c = vf.Ctx(pid, tier, seed)
    rc = 2
    try:
        checks.CHECKS[pid](c)
        c.evidence(0)
        print("OK property=%s states=%d transitions=%d traces=%d events=%d" %
              (pid, c.states, c.transitions, c.traces, c.events))
        rc = 0
    except vf.Violation as v:
        c.evidence(1)
        print(v.msg)
        print("VIOLATION property=%s replay=%s" % (pid, v.replay))
        rc = 1
    except vf.Machinery as m:
        print("ERROR property=%s %s" % (pid, m), file=sys.stderr)
    finally:
        sys.stdout.flush()
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(c.wd, ignore_errors=True)
    return rc


if __name__ == "__main__":
    sys.exit(main())
