"""Entry point: main.py <property id>.  See vlib.py for the machinery."""
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib  # noqa: E402


def main():
    if len(sys.argv) < 2:
        print("usage: main.py Cxx", file=sys.stderr)
        return 2
    pid = sys.argv[1]
    ctx = vlib.Check(pid)
    code = 2
    try:
        try:
            mod = importlib.import_module("checks." + pid.lower())
            mod.run(ctx)
        except vlib.MachineryError as e:
            print("MACHINERY ERROR: %s" % e, file=sys.stderr)
            code = 2
        except BaseException as e:
            tb = traceback.format_exc()
            if vlib.raised_by_repo(e):
                # the code under test failed where the driver expects it to work
                ctx.violation("unexpected-exception", {"traceback": tb.splitlines()[-25:]})
                code = ctx.finish()
            else:
                print(tb, file=sys.stderr)
                code = 2
        else:
            code = ctx.finish()
    finally:
        ctx.cleanup()
    sys.stdout.flush()
    return code


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
