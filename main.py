"""Entry point: runs the monitor of one property."""
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(os.environ.get("RV_REPO", "/repo"), "src"))

from rv.core import main  # noqa: E402

if __name__ == "__main__":
    try:
        sys.exit(main(sys.argv[1:]))
    except Exception:
        # nothing was decided; only a violation exits with 1
        traceback.print_exc()
        sys.exit(3)
