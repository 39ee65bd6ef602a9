"""Tries one edit in a scratch copy: python3 tools/mut.py CHECK[,CHECK] FILE <<< 'old\\n=====\\nnew' — prints what the checks say."""
import os
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks, file = sys.argv[1].split(","), sys.argv[2]
for edit in sys.stdin.read().split("\n#####\n"):
    old, new = (x.strip("\n") for x in edit.split("\n=====", 1))
    d = tempfile.mkdtemp(prefix="mut", dir="/dev/shm")
    try:
        shutil.copytree(os.environ.get("VF_REPO", "/repo"), d + "/r", ignore=shutil.ignore_patterns(".git"), symlinks=True)
        p = f"{d}/r/{file}"
        with open(p) as f:
            s = f.read()
        if s.count(old) != 1:
            print(f"?? {s.count(old)} matches: {old[:60]!r}")
            continue
        with open(p, "w") as f:
            f.write(s.replace(old, new))
        for c in checks:
            r = subprocess.run(["timeout", "900", "python3", f"{V}/checks/{c}.py"], env=dict(os.environ, VF_REPO=d + "/r"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            out = r.stdout.strip().splitlines()
            n = out[-1][:90] if out else ""
            print(f"{c} {'CAUGHT' if r.returncode == 1 and 'VIOLATION' in r.stdout else 'rc %d MISSED' % r.returncode}: {old.strip().splitlines()[0][:70]!r} -> {(new.strip().splitlines() or [''])[0][:60]!r} | {out[1][:150] if len(out) > 1 and r.returncode else n}", flush=True)
    finally:
        shutil.rmtree(d)
