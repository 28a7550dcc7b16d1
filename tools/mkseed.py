#!/usr/bin/env python3
"""mkseed.py SPEC.py...: make and confirm planted bugs.
A spec defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (rust)."""
import json, os, subprocess, sys, shutil
W = "/tmp/seedwork"
LIB = os.path.join(os.path.dirname(os.path.abspath(__file__)), "seedlib")
def sh(c, **k):
    return subprocess.run(c, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def main(spec):
    ns = {}
    exec(open(spec).read(), ns)
    d = "/verif/seeded/" + ns["ID"]
    os.makedirs(d, exist_ok=True)
    assert sh("git -C /repo status --short").stdout == "", "dirty /repo"
    try:
        for f, old, new in ns["EDITS"]:
            p = "/repo/app/roster/src/" + f
            s = open(p).read()
            assert s.count(old) == 1, (f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = sh("git -C /repo diff").stdout
        open(d + "/patch.diff", "w").write(diff)
    finally:
        sh("git -C /repo checkout -- .")
    json.dump({"property": ns["PROPERTY"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
    open(d + "/demo.rs", "w").write(ns["DEMO"])
    shutil.copy(LIB + "/common.rs", d)
    shutil.copy(LIB + "/demo.sh", d)
    os.chmod(d + "/demo.sh", 0o755)
    env = dict(os.environ, DEMO_TARGET="/tmp/demotarget")
    res = []
    r = sh("bash %s/demo.sh" % d, env=env)
    res.append(("clean demo", r.returncode, r.stdout[-400:]))
    sh("git -C /repo apply %s/patch.diff" % d)
    try:
        r = sh("bash /opt/vp/build.sh")
        res.append(("build", r.returncode, r.stdout[-600:] if r.returncode else ""))
        if r.returncode == 0:
            r = sh("bash /opt/vp/test.sh /tmp/seed.json")
            j = json.load(open("/tmp/seed.json"))
            base = json.load(open("/opt/vp/BASELINE.json"))
            want = base if isinstance(base, list) else base.get("stable") or list(base.values())[0]
            miss = [t for t in want if t not in j["passed"]]
            res.append(("tests", len(miss), str(miss[:5])))
            r = sh("bash %s/demo.sh" % d, env=env)
            res.append(("patched demo", r.returncode, r.stdout[-400:]))
    finally:
        sh("git -C /repo checkout -- .")
    ok = res[0][1] == 0 and len(res) == 4 and res[1][1] == 0 and res[2][1] == 0 and res[3][1] not in (0, 3)
    print(ns["ID"], "KEPT" if ok else "REJECTED")
    for r in res:
        print("   ", r)
    if not ok:
        shutil.move(d, "/tmp/rejected-" + ns["ID"] + "-%d" % os.getpid())
for s in sys.argv[1:]:
    main(s)
