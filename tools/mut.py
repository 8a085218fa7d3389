#!/usr/bin/env python3
"""Run the checks against small edits of a scratch copy of the package (tools/mutants.py).
   mut.py [PID ...]        'bug' edits must be reported, 'ok' edits must stay quiet."""
import os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from mutants import MUTANTS


def run(i, m):
    pid, kind, f, edits = m[0], m[1], m[2], m[3]
    d = tempfile.mkdtemp(prefix="mut", dir="/tmp")
    try:
        shutil.copytree("/repo/ticdat", d + "/ticdat", ignore=shutil.ignore_patterns("testing", "__pycache__"))
        if isinstance(edits, tuple):
            edits = [edits]
        for e in edits:
            ff, (old, new) = (f, e) if len(e) == 2 else (e[0], e[1:])
            p = f"{d}/ticdat/{ff}.py"
            s = open(p).read()
            if s.count(old) < 1:
                return i, m, "NOMATCH " + repr(old[:60]), ""
            open(p, "w").write(s.replace(old, new, 1))
        r = subprocess.run([sys.executable, "-c", f"import ast;ast.parse(open('{d}/ticdat/{f}.py').read())"])
        if r.returncode:
            return i, m, "SYNTAX", ""
        out = []
        for p in pid.split("+"):
            ev = tempfile.mkdtemp(dir=d)
            r = subprocess.run([sys.executable, HERE + "/check.py", p], capture_output=True, text=True,
                               env=dict(os.environ, SA_REPO=d, SA_EVIDENCE=ev))
            out.append((r.returncode, r.stdout + r.stderr))
        rc = max(o[0] for o in out)
        good = rc == (1 if kind == "bug" else 0)
        return i, m, "ok" if good else f"WRONG rc={rc}", "\n".join(o[1][-1500:] for o in out)
    finally:
        shutil.rmtree(d)


def main():
    want = set(sys.argv[1:])
    ms = [(i, m) for i, m in enumerate(MUTANTS) if not want or m[0] in want or any(p in want for p in m[0].split("+"))]
    bad = 0
    with ThreadPoolExecutor(3) as ex:
        for i, m, res, out in ex.map(lambda a: run(*a), ms):
            print(f"{i:3} {m[0]} {m[1]:3} {m[2]:15} {res}  {m[4] if len(m) > 4 else ''}")
            if res != "ok":
                bad += 1
                print("     " + out.replace("\n", "\n     "))
            elif os.environ.get("V"):
                print("     " + out.replace("\n", "\n     "))
    print("bad:", bad)


main()
