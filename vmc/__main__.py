import os, sys
from vmc import core


def run():
    if sys.argv[1] == "replay":
        return core.replay(sys.argv[2])
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    return core.main(sys.argv[1], tier)


if __name__ == "__main__":
    sys.exit(run())
