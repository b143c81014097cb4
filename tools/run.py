#!/usr/bin/env python3
"""Entry point: run.py setup | check <ID> <quick|thorough> | replay <file> | all <tier>"""
import json, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib
from checks import CHECKS


def check(prop, tier):
    s = lib.Session(prop, tier)
    c = CHECKS[prop]
    try:
        c["run"](s, tier)
    except lib.BuildError as e:
        s.errors.append(str(e))
    return s.finish(c["technique"])


def main(a):
    if a[:1] == ["setup"]:
        # Everything is built by the checks from the working tree; only make sure that the tools are there.
        for t in (["clang++", "--version"], ["python3", "--version"]):
            subprocess.run(t, check=True, stdout=subprocess.DEVNULL)
        os.makedirs(lib.BUILD, exist_ok=True)
        return 0
    if a[:1] == ["check"]:
        return check(a[1], a[2] if len(a) > 2 else os.environ.get("VERIF_TIER", "quick"))
    if a[:1] == ["all"]:
        rc = 0
        for p in sorted(CHECKS):
            r = check(p, a[1] if len(a) > 1 else "quick")
            rc = max(rc, r)
        return rc
    if a[:1] == ["replay"]:
        d = json.load(open(a[1]))
        if "exe" not in d:
            print(json.dumps(d, indent=1))
            return 0
        print(d["message"])
        c = CHECKS[d["property"]]
        if "build" in c:
            c["build"]()
        return subprocess.run([os.path.join(lib.VERIF, d["exe"])] + d["args"]).returncode
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
