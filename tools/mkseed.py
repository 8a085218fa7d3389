#!/usr/bin/env python3
"""Build /verif/seeded/<id>/ from tools/seeds/<id>.py and confirm it in a scratch copy.
   mkseed.py [--notest] [--nocheck] [ID...]
A seed file defines PROP, EDITS=[(file, old, new)], DEMO (python source), NEEDS, BREAKS."""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SD = os.path.join(HERE, "tools", "seeds")
args = [a for a in sys.argv[1:] if not a.startswith("--")]
ids = args or sorted(f[:-3] for f in os.listdir(SD) if f.endswith(".py"))
base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
DEMO_SH = '''#!/bin/bash
# cwd: the repository.  exit 0: the property holds for this input; nonzero: it is broken.
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d) || exit 1
trap 'rm -rf "$W"' EXIT
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 DEMO_TMP="$W"
/opt/venv/bin/python "$D/demo.py"
'''
for i in ids:
    g = {}
    exec(open(f"{SD}/{i}.py").read(), g)
    d = tempfile.mkdtemp(prefix="seed", dir="/tmp")
    try:
        r = d + "/repo"
        subprocess.run(["git", "clone", "-q", "/repo", r], check=True)
        for f, old, new in g["EDITS"]:
            p = f"{r}/ticdat/{f}.py"
            s = open(p, newline="").read()
            if "\r\n" in s:
                old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            assert s.count(old) == 1, (i, f, s.count(old), old[:80])
            open(p, "w", newline="").write(s.replace(old, new))
        out = f"{HERE}/seeded/{i}"
        os.makedirs(out, exist_ok=True)
        diff = subprocess.run(["git", "-C", r, "diff"], capture_output=True, text=True, check=True).stdout
        open(out + "/patch.diff", "w", newline="").write(diff)
        open(out + "/demo.sh", "w").write(DEMO_SH)
        os.chmod(out + "/demo.sh", 0o755)
        open(out + "/demo.py", "w").write(g["DEMO"].lstrip("\n"))
        json.dump({"property": g["PROP"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]},
                  open(out + "/meta.json", "w"), indent=1)
        a = subprocess.run(["bash", out + "/demo.sh"], cwd="/repo", capture_output=True, text=True)
        b = subprocess.run(["bash", out + "/demo.sh"], cwd=r, capture_output=True, text=True)
        ok = a.returncode == 0 and b.returncode != 0
        print(i, g["PROP"], "demo clean", a.returncode, "patched", b.returncode, "" if ok else "BAD\n" + a.stderr[-800:] + a.stdout[-300:])
        print("    ", (b.stderr.strip().splitlines() or ["?"])[-1][:150])
        if "--nocheck" not in sys.argv:
            c = subprocess.run([sys.executable, HERE + "/check.py", g["PROP"]], capture_output=True, text=True,
                               env=dict(os.environ, SA_REPO=r, SA_EVIDENCE=d + "/ev"))
            print("     check", c.returncode, "CAUGHT" if c.returncode == 1 else "MISSED", [l for l in c.stdout.splitlines() if l.startswith("  ")][:1])
        if "--notest" not in sys.argv:
            t = open("/opt/vp/test.sh").read().replace("/repo", r)
            open(d + "/test.sh", "w").write(t)
            os.chmod(d, 0o755)
            env = dict(os.environ)
            t = t.replace("PYTHONPATH=/opt/vp/pytest_plugin", f"PYTHONPATH={r}:/opt/vp/pytest_plugin")
            open(d + "/test.sh", "w").write(t)
            subprocess.run(["bash", d + "/test.sh", d + "/OUT.json"], capture_output=True, cwd="/tmp")
            o = json.load(open(d + "/OUT.json"))
            miss = base - set(o.get("passed", o.get("pass", [])))
            print("     tests", "OK" if not miss else f"BROKEN {sorted(miss)[:5]}", flush=True)
    finally:
        shutil.rmtree(d)
