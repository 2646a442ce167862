"""helper: mk(id, prop, file, [(old,new)...], needs, breaks, demo)  -> seeded/id (patch from a temporary edit of /repo, reverted)"""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def mk(i, prop, edits, needs, breaks, demo=None, run=None, extra=None):
    d = os.path.join(V, "seeded", i)
    os.makedirs(d, exist_ok=True)
    assert not subprocess.run(["git", "-C", "/repo", "status", "--porcelain"], stdout=subprocess.PIPE).stdout.strip(), "dirty"
    try:
        for f, old, new in edits:
            p = os.path.join("/repo", f); s = open(p).read()
            assert s.count(old) == 1, (i, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", "/repo", "diff"], stdout=subprocess.PIPE).stdout
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
    open(os.path.join(d, "patch.diff"), "wb").write(diff)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    if demo: open(os.path.join(d, "demo.c"), "w").write(demo)
    if run: open(os.path.join(d, "run.sh"), "w").write(run)
    for n, t in (extra or {}).items(): open(os.path.join(d, n), "w").write(t)
    r = subprocess.run(["python3", os.path.join(V, "tools", "seed.py"), "prepare", i], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    print(i, "prepared" if not r.returncode else r.stdout.decode()[-2000:])
