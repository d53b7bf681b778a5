import os
import sys
if __name__ == '__main__':
    from .core import main
    try:
        rc = main(sys.argv[1:])
    except SystemExit:
        raise
    except BaseException:      # an error of the check itself
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
