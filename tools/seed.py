"""Plants one bug: seed.mk(id, property, edits, needs, breaks, demo) validates it in a scratch copy of /repo and writes
seeded/<id>/. edits: [(file, old, new)]. demo: text of demo.py (uses the helper g.py copied beside it) or of demo.sh."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, cwd, timeout=300):
    return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)


def mk(sid, prop, edits, needs, breaks, demo, helper=None, run_check=True):
    w = tempfile.mkdtemp(prefix="seedw", dir="/tmp")
    os.chmod(w, 0o755)
    try:
        repo = os.path.join(w, "repo")
        sh(["cp", "-a", os.environ.get("SEED_BASE", "/repo"), repo], "/")
        for f, old, new in edits:
            p = os.path.join(repo, f)
            s = open(p).read()
            if s.count(old) != 1:
                print(sid, "edit matches", s.count(old), "times in", f)
                return False
            open(p, "w").write(s.replace(old, new))
        diff = sh(["git", "diff"], repo).stdout
        d = os.path.join(w, sid)
        os.makedirs(d)
        if demo.startswith("//js"):
            open(os.path.join(d, "demo.js"), "w").write(demo)
            open(os.path.join(d, "demo.sh"), "w").write(
                "#!/bin/bash\nexport NODE_PATH=/usr/lib/node_modules/npm/node_modules NODE_GYP_NULL_LOGGER=1\n"
                'exec node "$(cd "$(dirname "$0")" && pwd)/demo.js"\n')
        elif demo.startswith("#!"):
            open(os.path.join(d, "demo.sh"), "w").write(demo)
        else:
            open(os.path.join(d, "demo.py"), "w").write(demo)
            open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec python3 "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
        if helper:
            for h in [helper] if isinstance(helper, str) else helper:
                shutil.copy(h, d)
        t = sh("PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300", repo)
        tests = t.stdout.decode().strip().splitlines()[-1]
        bad = sh(["bash", os.path.join(d, "demo.sh")], repo)
        sh(["git", "checkout", "--", "."], repo)
        good = sh(["bash", os.path.join(d, "demo.sh")], repo)
        print(f"{sid}: tests [{tests}] demo unchanged={good.returncode} patched={bad.returncode} :: {bad.stdout.decode()[-200:].strip()}", flush=True)
        if good.returncode != 0:
            print(good.stdout.decode()[-1500:])
        if good.returncode != 0 or bad.returncode == 0 or "failed" in tests or "error" in tests:
            return False
        out = os.path.join(V, "seeded", sid)
        if os.path.exists(out):
            shutil.rmtree(out)
        shutil.copytree(d, out)
        open(os.path.join(out, "patch.diff"), "wb").write(diff)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(out, "meta.json"), "w"), indent=1)
    finally:
        shutil.rmtree(w, ignore_errors=True)
    return caught(sid) if run_check else True


def caught(sid, tier="quick"):
    """Runs the property's quick check against a scratch copy of /repo with the planted bug applied."""
    d = os.path.join(V, "seeded", sid)
    prop = json.load(open(os.path.join(d, "meta.json")))["property"]
    w = tempfile.mkdtemp(prefix="seedc", dir="/tmp")
    os.chmod(w, 0o755)
    try:
        repo = os.path.join(w, "repo")
        sh(["cp", "-a", os.environ.get("SEED_BASE", "/repo"), repo], "/")
        a = sh(["git", "apply", os.path.join(d, "patch.diff")], repo)
        if a.returncode:
            print(sid, "patch does not apply", a.stdout.decode())
            return False
        m = json.load(open(os.path.join(V, "MANIFEST.json")))
        cmd = next(c for c in m["checks"] if c["property"] == prop)["quick_cmd"]
        r = subprocess.run(cmd, shell=True, cwd=V, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=900,
                           env=dict(os.environ, VERIF_TIER=tier, VERIF_SEED="1", VF_REPO=repo))
        o = r.stdout.decode("utf-8", "replace")
        ok = r.returncode == 1 and f"VIOLATION property={prop}" in o
        print(f"   {sid} [{prop}]: {'CAUGHT' if ok else 'MISSED rc=%d' % r.returncode} {o.splitlines()[1][:160] if len(o.splitlines()) > 1 else o[:200]}", flush=True)
        return ok
    finally:
        shutil.rmtree(w, ignore_errors=True)


if __name__ == "__main__":
    ids = sys.argv[1:] or sorted(os.listdir(os.path.join(V, "seeded")))
    missed = [i for i in ids if not caught(i)]
    print("missed:", missed)
