import os
import sys

sys.path.insert(0, os.environ.get('RV_HOME', os.path.dirname(os.path.dirname(os.path.abspath(__file__)))))
sys.path.insert(0, os.environ.get('RV_REPO', '/repo'))
from rv import core  # noqa: E402

if __name__ == '__main__':
    rc = core.main(sys.argv[1:])
    sys.stdout.flush()
    os._exit(rc)
