import sys
import traceback

if __name__ == "__main__":
    try:
        from . import core

        if sys.argv[1] == "replay":
            code = core.replay(sys.argv[2])
        else:
            code = core.main(sys.argv[1], *sys.argv[2:])
    except Exception:  # an error of the check itself: neither held nor violated
        traceback.print_exc()
        code = 3
    sys.exit(code)
