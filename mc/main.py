"""python -m mc.main C01 [quick|thorough]   |   python -m mc.main replay FILE"""
import importlib
import json
import os
import sys


def main(argv):
    if argv[0] == "replay":
        from . import core
        core.load_library()
        with open(argv[1]) as f:
            v = json.load(f)
        c = v["case"]
        res = core._worker((c["module"], c["fn"], c["kwargs"], c["seed"]))
        if res[3] is None:
            print("replay: no violation")
            return 0
        print("replay: %s\n%s" % (res[3]["what"], json.dumps(res[3]["detail"], indent=1)))
        return 1
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    mod = importlib.import_module("mc." + prop.lower())
    return mod.run(tier)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
