#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]   decide one property on /repo's working tree
   check.py --replay FILE                        re-execute recorded counterexamples
   check.py --setup                              pre-build"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib, props


def main():
    a = sys.argv[1:]
    if a and a[0] == "--setup":
        b = vlib.Build()
        try:
            b.metac(); b.lib("asan"); b.lib("plain")
            print("setup ok")
        except vlib.BuildError as e:
            print("setup: nothing pre-built:", str(e)[:2000])
        return 0
    if a and a[0] == "--replay":
        j = json.load(open(a[1]))
        rc = 0
        for v in j["violations"]:
            if v.get("exe") and not v.get("exe_none"):
                b = vlib.Build()
                props.rebuild(b, j["property"], v)
                m, e = vlib.replay_case(v["exe"], j["tier"], v["mode"], v["idx"], extra=v.get("extra", ()))
                print("%s: %s\n%s\n=> %s" % (v["part"], v["desc"], e[-3000:], m))
                rc |= m is not None
            else:
                print("%s: %s => %s" % (v["part"], v["desc"], v["msg"]))
        return rc
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        i = a.index("--tier")
        tier = a[i + 1]
        del a[i:i + 2]
    return props.run(a[0], tier)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except vlib.BuildError as e:
        print("BUILD-ERROR:", e)
        sys.exit(2)
