"""Make and confirm planted bugs.  Usage: seed.py SPEC.py   (SPEC defines SEEDS = [dict(id=,property=,edits=[(file,old,new)],demo=,needs=,breaks=)])
Each is applied in /repo, built, tested, its demo run with and without, and undone."""
import sys, os, subprocess, json
R="/repo"; OUT="/verif/seeded"
ENV=dict(os.environ, PATH="/opt/venv/bin:"+os.environ["PATH"])
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def reset(): sh("git -C /repo checkout -- ."); 
def main():
    ns = {}; exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[2:]
    base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    assert not sh("git -C /repo status --porcelain").stdout.strip(), "repo not clean"
    for s in ns["SEEDS"]:
        if only and s["id"] not in only: continue
        d = os.path.join(OUT, s["id"]); os.makedirs(d, exist_ok=True)
        open(d+"/demo.py","w").write(s["demo"].lstrip("\n"))
        open(d+"/demo.sh","w").write('#!/bin/bash\nexport PATH=/opt/venv/bin:$PATH PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=2\nunset PYTHONPATH\nexec python "$(dirname "$0")/demo.py"\n')
        json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d+"/meta.json","w"), indent=1)
        msg = []
        r = sh("bash %s/demo.sh" % d, cwd=R)
        if r.returncode: msg.append("demo fails on clean tree: "+(r.stdout+r.stderr)[-400:])
        try:
            for f, a, b in s["edits"]:
                p = os.path.join(R, f); t = open(p).read()
                assert t.count(a) == 1, (s["id"], f, a, t.count(a))
                open(p,"w").write(t.replace(a, b))
            open(d+"/patch.diff","w").write(sh("git -C /repo diff").stdout)
            r = sh("bash /opt/vp/build.sh ext")
            if r.returncode: msg.append("does not build")
            r = sh("bash %s/demo.sh" % d, cwd=R)
            if r.returncode == 0: msg.append("demo passes with the bug")
            else: print("   demo:", (r.stdout+r.stderr).strip().split("\n")[-1][:150])
            if not os.environ.get("NOTEST"):
                sh("bash /opt/vp/test.sh /tmp/seedtest.json")
                miss = set(base)-set(json.load(open("/tmp/seedtest.json"))["passed"])
                if miss: msg.append("tests fail: %s" % sorted(miss)[:3])
            r = sh("/verif/check.sh %s quick" % s["property"])
            v = [l for l in r.stdout.split("\n") if l.startswith("VIOLATION")]
            print(s["id"], "OK" if not msg else msg, "| check rc=%d" % r.returncode, ("CAUGHT" + (" (no input)" if all("no-failing-input" in l for l in v) else "")) if v else "MISSED", r.stdout.strip().split("\n")[-1][:120], flush=True)
        finally:
            reset()
    sh("bash /opt/vp/build.sh ext"); sh("rm -f /verif/replays/*")
main()
