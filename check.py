#!/usr/bin/env python3
import importlib, os, sys, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "engine"))
sys.path.insert(0, os.path.join(HERE, "checks"))
import threading


def main():
    import lib

    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    for f in sorted(os.listdir(os.path.join(HERE, "checks"))):
        if f.endswith(".py") and not f.startswith("_"):
            importlib.import_module(f[:-3])
    ids = sorted(lib.PROPS) if pid == "all" else pid.split(",")
    rc = 0
    for i in ids:
        rep = lib.Report(i, tier)
        try:
            lib.PROPS[i](rep)
        except lib.ExtractError:
            raise
        except Exception as e:
            # the shape of the code is beyond this check: no verdict from the rest of it
            traceback.print_exc()
            rep.undecided("analysis", i, "stopped: %s: %s" % (type(e).__name__, str(e)[:300]))
        rc = max(rc, rep.finish())
    return rc


if __name__ == "__main__":
    threading.stack_size(512 * 1024 * 1024)
    out = []

    def run():
        try:
            out.append(main())
        except SystemExit as e:
            out.append(e.code)
        except BaseException:
            traceback.print_exc()
            out.append(3)

    t = threading.Thread(target=run)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(out[0] if out and isinstance(out[0], int) else 3)
