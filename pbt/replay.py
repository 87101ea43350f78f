"""
Run one saved case, without Hypothesis: python -m pbt.replay FILE
Exit 0: the property holds for it. 1: it does not. 2: harness error.
Only the deciding line goes to stdout.
"""
import json
import sys

from pbt import loader
from pbt.worker import module, run_case


def main():
    with open(sys.argv[1]) as f:
        saved = json.load(f)
    ac = loader.load()
    mod = module(saved["property"])
    sub = {s.name: s for s in mod.SUBS}[saved["sub"]]
    verdict, detail = run_case(ac, sub, saved["case"])
    if verdict == "violation":
        print("property %s, %s: %s" % (saved["property"], sub.name, detail))
        sys.exit(1)
    if verdict == "error":
        print(detail)
        sys.exit(2)
    print("property %s, %s: holds for this case" % (saved["property"], sub.name))


if __name__ == "__main__":
    main()
