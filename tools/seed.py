#!/usr/bin/env python3
"""Development tool for planted bugs (no check uses it).
 seed.py new <id> <property> "<what_it_breaks>" "<needs>"   from the changes in /tmp/sr (a copy of /repo); demo_test.go in /tmp/demo_test.go
 seed.py try <id> [property ...]                              applies it to /repo, runs the quick checks, undoes it"""
import json, os, shutil, subprocess, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, cwd, t=600):
    return subprocess.run(c, shell=True, cwd=cwd, timeout=t, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
def main():
    cmd, i = sys.argv[1:3]
    d = os.path.join(R, "seeded", i)
    if cmd == "new":
        prop, what, needs = sys.argv[3:6]
        diff = sh("git diff HEAD", "/tmp/sr").stdout
        assert diff.strip(), "no change"
        os.makedirs(d, exist_ok=True)
        for f in ("demo.sh", "peer_test.go"):
            shutil.copy(os.path.join(R, "tools/seedkit", f), d)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        shutil.copy("/tmp/demo_test.go", d)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        json.dump(dict(property=prop, what_it_breaks=what, needs=needs), open(os.path.join(d, "meta.json"), "w"), indent=1)
        # original lines?
        rem = [l for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
        print("removed lines:", len(rem))
        for l in rem: print("   ", l)
    r = None
    if cmd in ("new", "verify"):
        sh("git -C /repo apply --check %s/patch.diff" % d, "/repo")
        try:
            r = sh("git apply %s/patch.diff" % d, "/repo"); assert r.returncode == 0, r.stdout
            r = sh("bash /opt/vp/build.sh", "/repo"); assert r.returncode == 0, r.stdout
            if os.path.exists("/tmp/st.json"): os.unlink("/tmp/st.json")
            sh("bash /opt/vp/test.sh /tmp/st.json", "/repo", 200)
            base = set(json.load(open('/opt/vp/BASELINE.json'))['stable']); t = json.load(open('/tmp/st.json'))
            p = t.get('passed') or t.get('pass') or []
            p = set(p if isinstance(p, list) else [k for k in p])
            print("stable tests missing with the bug:", sorted(base - p)[:5])
            r = sh("bash %s/demo.sh" % d, "/repo", 300)
            print("demo with the bug:", r.returncode, r.stdout[-700:])
        finally:
            sh("git checkout -- .", "/repo")
        sh("bash /opt/vp/build.sh", "/repo")
        r = sh("bash %s/demo.sh" % d, "/repo", 300)
        print("demo without:", r.returncode, r.stdout[-300:] if r.returncode else "")
        if cmd == "new": sh("git checkout -- .", "/tmp/sr")
    if cmd == "try":
        props = sys.argv[3:] or [json.load(open(d + "/meta.json"))["property"]]
        try:
            r = sh("git apply %s/patch.diff" % d, "/repo"); assert r.returncode == 0, r.stdout
            for p in props:
                r = sh("python3 tools/check.py %s quick" % p, R, 900)
                print(i, p, "->", r.returncode, "CAUGHT" if r.returncode == 1 else "missed" if r.returncode == 0 else r.stdout[-1500:])
                for l in r.stdout.splitlines():
                    if "candidate" in l: print("    ", l[:200])
        finally:
            sh("git checkout -- .", "/repo")
main()
