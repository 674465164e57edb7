"""Entry point: python -m mc.main ID [--tier T] [--replay FILE] [--only SUBSTR]."""

import argparse
import os
import sys


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--jobs", type=int)
    a = ap.parse_args()
    import pyuvdata

    if not pyuvdata.__file__.startswith(os.environ.get("VERIF_DEVSRC", "/repo") + "/src/"):
        print("pyuvdata is not imported from /repo", file=sys.stderr)
        return 2
    modname = f"mc.checks.{a.pid.lower()}"
    from mc import core

    if a.replay:
        return core.replay(modname, a.replay)
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    return core.explore(
        modname, tier, int(os.environ.get("VERIF_SEED", "1")), a.jobs, a.only
    )


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        import traceback

        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
