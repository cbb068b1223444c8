"""Entry point: run.py <property> | replay <file>. See DESIGN.md."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

from vlib import harness  # noqa: E402


def main():
    if sys.argv[1:] == ["setup"]:       # nothing to build: see that the code and the tools can be imported
        harness.setup_environment()
        return 0
    if len(sys.argv) == 3 and sys.argv[1] == "replay":
        return harness.replay(sys.argv[2])
    if len(sys.argv) in (2, 3):
        only = sys.argv[2] if len(sys.argv) == 3 else None
        return harness.check(sys.argv[1], only)
    print(__doc__)
    return 2


if __name__ == "__main__":
    code = 2
    try:
        code = main()
    except SystemExit as e:
        code = e.code
    except BaseException:      # an error of the harness: neither 0 nor 1
        import traceback
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.stderr.flush()
    harness.cleanup()
    os._exit(code if isinstance(code, int) else 2)
