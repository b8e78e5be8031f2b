#!/usr/bin/env python3
"""usage: plant.py [-c] BUG...   builds seeded/<id> from tools/bugs.py and confirms it; -c also runs the property's quick check."""
import json, os, re, shutil, subprocess, sys, tempfile
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(root, "tools"))
from bugs import BUGS, PRE
BASE = "b74f868"
def sh(cmd, **k):
    return subprocess.run(cmd, shell=isinstance(cmd, str), capture_output=True, text=True, errors="replace", **k)
def script(path, wt):
    t = open(path).read().replace("/repo", wt).replace("/opt/vp/build.sh", wt + "-build.sh")
    out = wt + "-" + os.path.basename(path)
    open(out, "w").write(t)
    return out
def main():
    args = sys.argv[1:]
    check = "-c" in args
    args = [a for a in args if a != "-c"]
    names = args or [b["id"] for b in BUGS]
    wt = "/dev/shm/plant-%d" % os.getpid()
    shutil.copytree("/repo", wt, symlinks=True)
    try:
        build = script("/opt/vp/build.sh", wt); test = script("/opt/vp/test.sh", wt)
        base = json.load(open("/opt/vp/BASELINE.json"))
        stable = base.get("stable") or base.get("tests") or base.get("passed") or base
        for b in BUGS:
            if b["id"] not in names: continue
            sh(["git", "-C", wt, "checkout", "--", "."])
            msgs = []
            for f, old, new in b["edits"]:
                p = os.path.join(wt, f); t = open(p).read()
                if t.count(old) != 1: msgs.append("%s: %d matches of %r" % (f, t.count(old), old[:60])); continue
                open(p, "w").write(t.replace(old, new))
            if msgs: print(b["id"], "EDIT", msgs); continue
            diff = sh(["git", "-C", wt, "diff"]).stdout
            # removed lines must be lines of the original repository
            orig = False
            for f in {e[0] for e in b["edits"]}:
                bl = sh(["git", "-C", "/repo", "blame", "-s", BASE + "..HEAD", "--", f]).stdout.splitlines()
                mine = {i + 1 for i, l in enumerate(bl) if not l.startswith("^")}
                n = 0
                for l in sh(["git", "-C", wt, "diff", "-U0", "--", f]).stdout.splitlines():
                    m = re.match(r"@@ -(\d+)(?:,(\d+))?", l)
                    if m:
                        a, k = int(m[1]), int(m[2] or 1)
                        for x in range(a, a + k):
                            if x in mine: msgs.append("touches fix line %s:%d" % (f, x))
                            else: orig = True
            if not orig: msgs.append("no original line changed")
            d = os.path.join(root, "seeded", b["id"]); os.makedirs(d, exist_ok=True)
            open(d + "/patch.diff", "w").write(diff)
            open(d + "/demo.sh", "w").write(PRE + b["demo"].lstrip("\n")); os.chmod(d + "/demo.sh", 0o755)
            for f in b.get("files", []): shutil.copy(os.path.join(root, f), d)
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
            r = sh(["bash", build], cwd=wt)
            if r.returncode: msgs.append("BUILD " + r.stderr[-400:])
            r0 = sh(["bash", d + "/demo.sh"], cwd="/repo"); r1 = sh(["bash", d + "/demo.sh"], cwd=wt)
            if r0.returncode: msgs.append("DEMO fails on base: " + (r0.stdout + r0.stderr)[-400:])
            if not r1.returncode: msgs.append("DEMO passes with the patch")
            sh(["bash", test, wt + "-out.json"])
            o = json.load(open(wt + "-out.json"))
            passed = set(o.get("passed", [])) 
            miss = [t for t in stable if t not in passed]
            if miss: msgs.append("TESTS fail: %d %s" % (len(miss), miss[:4]))
            res = ""
            if check and not msgs:
                r = sh(["bash", os.path.join(root, "run.sh"), b["property"]], env=dict(os.environ, VERIF_REPO=wt))
                v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
                res = "caught" if r.returncode == 1 and v else "MISSED rc=%d %s" % (r.returncode, (r.stdout+r.stderr)[-300:])
            print(b["id"], "; ".join(msgs) or "ok", res, flush=True)
    finally:
        shutil.rmtree(wt)
        for x in ("-build.sh", "-test.sh", "-out.json"):
            if os.path.exists(wt + x): os.remove(wt + x)
main()
