import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import vp.boot  # noqa: E402,F401
from vp import core  # noqa: E402

if __name__ == "__main__":
    try:
        code = core.main(sys.argv[1:])
    except SystemExit:
        raise
    except BaseException:
        import traceback

        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    os._exit(code)
