"""setup_cmd: builds every instrumented driver once, so that checks find them in the object cache."""
import os, sys
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import build as B
from vlib.props import PROPS
first, rest, seen = [], [], set()
for pid in sorted(PROPS):
    for j in PROPS[pid]["jobs"]:
        for key in [(j["flavour"], j["driver"], None)] + [(j.get("toolflavour", j["flavour"]), None, os.path.join(B.REPO, "tools", t + ".cpp")) for t in j.get("tools", [])]:
            if key in seen:
                continue
            (rest if any(k[0] == key[0] for k in first) else first).append(key)
            seen.add(key)


def one(key):
    try:
        B.build(key[0], key[1], repo_main=key[2])
        return 0
    except B.BuildError as e:
        print(e)
        return 1


rc = 0
for key in first:            # the library of each flavour, in parallel over its sources
    rc |= one(key)
with ThreadPoolExecutor(8) as ex:
    rc |= max(list(ex.map(one, rest)) + [0])
print("built", len(seen), "programs")
sys.exit(rc)
