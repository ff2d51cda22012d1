"""check.py <PROPERTY> [--tier quick|thorough] [--replay FILE] [--sub NAME] [--scale X]"""

import argparse
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable, "-B"] + sys.argv)

from lib import boot  # noqa: E402,F401
from lib import harness  # noqa: E402


def cli():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--sub", action="append")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--jobs", type=int, default=8)
    a = ap.parse_args()
    if a.replay:
        boot.load_tatc()
        return harness.replay(a.prop, a.replay)
    return harness.main(a.prop, a.tier, a.seed, a.sub, a.scale, a.jobs)


if __name__ == "__main__":
    try:
        rc = cli()
    except Exception:  # pylint: disable=broad-except
        import traceback

        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
