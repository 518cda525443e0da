"""Replay one recorded violation without the explorer:  python -m mc.replay FILE"""
import importlib
import json
import sys
import warnings

from mc import env
from mc.core import Result


def main():
    rec = json.load(open(sys.argv[1]))
    env.load()
    mod = importlib.import_module(rec["module"])
    res = Result()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        mod.run(rec["payload"], res)
    for v in res.violations:
        print(f"[{v['key']}] {v['message']}")
    print("reproduced" if res.violations else "not reproduced")
    return 1 if res.violations else 0


if __name__ == "__main__":
    sys.exit(main())
