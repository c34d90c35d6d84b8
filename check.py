#!/usr/bin/env python3
"""check.py PROPERTY: decides one property of the tree in /repo (VP_REPO overrides), writes evidence/PROPERTY.json"""
import os, sys, importlib, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "rules"))
import base


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    R = base.Rule(prop, tier)
    try:
        importlib.import_module(prop.lower()).check(R)
    except (base.Undecided, base.Unsupported) as e:
        if R.violations:
            return R.finish()
        print("%s: undecided: %s" % (prop, e))
        return 2
    return R.finish()


if __name__ == "__main__":
    import threading
    threading.stack_size(1 << 29)
    out = [2]

    def go():
        try:
            out[0] = main()
        except SystemExit as e:
            print(e)
            out[0] = 2
        except BaseException:
            traceback.print_exc()
            out[0] = 2
    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(out[0])
