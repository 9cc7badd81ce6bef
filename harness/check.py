"""check.py PROPERTY | setup: one registered check."""
import os
import sys
import time
os.environ.setdefault("VERIF_T0", str(time.time()))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.environ.get("FIAT_REPO", "/repo"))
import core      # noqa: E402
import plans     # noqa: E402


def main():
    prop = sys.argv[1]
    try:
        if prop == "setup":
            return core.setup()
        return plans.PLANS[prop](prop)
    except core.CheckError as exc:
        sys.stderr.write("check failed: %s\n" % exc)
        return 2


if __name__ == "__main__":
    sys.exit(main())
