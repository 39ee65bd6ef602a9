"""C35: Python discovery over every assignment of answers to the candidates, on the real finder, against the documented order."""
import itertools
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import nodelab  # noqa: E402
import vf  # noqa: E402

# what asking a command for its executable's path gives, and what that executable says of its version
FULL = {"absent": (None, None), "fails": ("FAIL", None), "cannot spawn": ("THROW", None), "silent": ("", None), "garbage": ("hello there\n", None),
        "good": ("P\n", "3.12.3\n"), "good crlf": ("P\r\n", "3.8.1\r\n"), "lowest": ("P", "3.6.0\n"), "next major": ("P", "4.0.0\n"), "old": ("P", "3.5.10\n"), "python 2": ("P", "2.7.18\n"),
        "no version": ("P", ""), "odd version": ("P", "Python 3.9\n"), "vanished": ("P", None), "version fails": ("P", "FAIL"), "version cannot spawn": ("P", "THROW"), "two digits": ("P", "3.10.0\n")}
GOOD = ("good", "good crlf", "lowest", "next major", "two digits")
FEW = ("absent", "good", "old", "garbage", "version cannot spawn")
UNIX = ["config", "PYTHON", "python3", "python"]
WIN = ["config", "PYTHON", "py", "python3", "python", "C:\\d1\\python.exe", "D:\\d 2\\python.exe"]


def setup(win, kinds, force=None, same=None, spell=None):
    """kinds: {candidate: kind}; candidates 'config' and 'PYTHON' missing from it are not set."""
    names = {"config": "/opt/my python/bin/py", "PYTHON": "mypython", "py": "py.exe", "FORCE": "/forced/python"}
    if win:
        names["config"] = "C:\\my py\\python.exe"
    names.update(same or {})
    if spell:
        names["config"] = spell
    env = {"HOME": "/h", "X": "y"}
    c = {"win": win, "answers": {}, "versions": {}, "env": env, "config": "", "defaults": [k for k in WIN if "\\" in k]}
    if "config" in kinds:
        c["config"] = names["config"]
    if "PYTHON" in kinds:
        env["PYTHON"] = names["PYTHON"]
    if "FORCE" in kinds:
        env["NODE_GYP_FORCE_PYTHON"] = names["FORCE"]
    order = []
    for cand in (["FORCE"] if "FORCE" in kinds else WIN if win else UNIX):
        if cand not in kinds and cand in ("config", "PYTHON"):
            continue
        order.append((cand, names.get(cand, cand)))
    found = None
    for cand in list(kinds):
        name = names.get(cand, cand)
        says, version = FULL[kinds[cand]]
        if "\\d" in cand:
            if cand not in c["versions"]:
                c["versions"][cand] = version
            continue
        if name in c["answers"]:
            continue
        real = f"/exe/{cand}"
        c["answers"][name] = says.replace("P", real) if says and says not in ("FAIL", "THROW") and "P" in says else says
        if says and "P" in says:
            c["versions"][real] = version
    for cand, name in order:
        says = c["answers"].get(name)
        exe = name if "\\d" in cand else says.strip() if says and says not in ("FAIL", "THROW") else None
        v = c["versions"].get(exe) if exe else None
        try:
            parts = tuple(int(x) for x in v.strip().split("."))
            if len(parts) == 3 and parts >= (3, 6, 0):
                found = exe
                break
        except (ValueError, AttributeError):
            pass
    return c, order, found


def cases():
    def few(cands, kinds):
        for combo in itertools.product(kinds, repeat=len(cands)):
            yield dict(zip(cands, combo))
    for cfg, env in itertools.product((False, True), repeat=2):
        cands = (["config"] if cfg else []) + (["PYTHON"] if env else []) + ["python3", "python"]
        for k in few(cands, FULL if vf.THOROUGH or len(cands) < 4 else FEW + ("silent", "fails", "cannot spawn", "python 2", "version fails", "two digits")):
            yield setup(False, k) + (k,)
            if cfg or env:
                for same in ({"config": "python3"}, {"PYTHON": "python3"}, {"config": "python", "PYTHON": "python3"}, {"config": "python", "PYTHON": "python"}):
                    if vf.THOROUGH or all(v in FEW for v in k.values()):
                        yield setup(False, k, same=same) + (k,)
        cands = (["config"] if cfg else []) + (["PYTHON"] if env else []) + WIN[2:]
        for k in few(cands, FEW if vf.THOROUGH else ("absent", "good", "old", "version cannot spawn") if len(cands) < 7 else ("absent", "good", "old")):
            yield setup(True, k) + (k,)
    for win in (False, True):
        for f in FULL:
            for k in few(["config", "PYTHON", "python3"], ("absent", "good", "old")):
                k = dict(k, FORCE=f)
                yield setup(win, k) + (k,)
        for spell in ("py", "./py", "a b", "~/py", "C:\\p\\python.exe", "/p/é", "python3.9", "x y/z'q"):
            for f in FULL:
                k = {"config": f, "python3": "good"}
                yield setup(win, k, spell=spell) + (k,)


REAL = {"good": "3.7.2", "old": "3.5.1", "junk": "word", "absent": None, "fails": "FAIL", "not executable": "3.9.9"}


def real_job(part, item):
    """Real programs in real directories."""
    cfg, env, p3, p = item
    root = vf.scratch("c35")
    dirs = {"config": os.path.join(root, "my 'own\" $dir;x"), "PYTHON": os.path.join(root, "env dir"), "python3": os.path.join(root, "bin"), "python": os.path.join(root, "bin")}
    want = None
    e = {"PATH": dirs["python3"] + ":/nonexistent", "HOME": root}
    conf = ""
    for cand, kind in zip(UNIX, item):
        name = cand if cand.startswith("python") else "py thon"
        exe = os.path.join(dirs[cand], name)
        os.makedirs(dirs[cand], exist_ok=True)
        if kind is None:
            continue
        if cand == "config":
            conf = exe
        elif cand == "PYTHON":
            e["PYTHON"] = exe
        if kind == "absent":
            continue
        with open(exe, "w") as f:
            if kind == "fails":
                f.write("#!/bin/sh\nexit 3\n")
            else:
                f.write('#!/bin/sh\n[ "$1" = -c ] || exit 9\ncase "$2" in *executable*) printf "%s" "$0";; *version_info*) echo ' + REAL[kind] + ";; esac\n")
        os.chmod(exe, 0o644 if kind == "not executable" else 0o755)
        if kind == "good" and want is None:
            want = exe
    [r] = nodelab.batch("python-real.js", [{"config": conf, "env": e}])
    part.add()
    part.seen(("real",) + item)
    part.count("real_processes")
    got = r.get("ok", r)
    if got.get("found") != want:
        raise vf.Bad(f"real programs (--python {cfg}, PYTHON {env}, python3 {p3}, python {p}): found {got}, should be {want}", f"real:{item}")
    vf.rmtree(root)


def main():
    c = vf.Check("C35", "model_checking",
                 "the real finder on every assignment of 17 answers to the candidates (config, PYTHON, python3, python; on Windows also the launcher and default locations), with and without "
                 "NODE_GYP_FORCE_PYTHON, aliased candidates and odd spellings; calls recorded; and on real programs in real directories",
                 ["the scripted commands exit non-zero only with nothing printed"])
    todo = list(cases())
    results = nodelab.batch("python.js", [t[0] for t in todo])
    for (x, order, want, kinds), r in zip(todo, results):
        c.add()
        told = f"{'Windows' if x['win'] else 'Unix'}, --python={x['config']!r}, env {x['env']}, candidates {kinds}"
        c.seen(told)
        if "error" in r:
            c.violation(f"{told}: {r['error']}", "throws:" + told, case=x)
            continue
        r = r["ok"]
        if r["found"] != want:
            c.violation(f"{told}: found {r['found']}, should be {want}", "found:" + told, case=x, calls=r["calls"])
            continue
        if want is None:
            c.count("nothing_usable")
            if not r["error"]:
                c.violation(f"{told}: no error", "noerror:" + told, case=x)
            for cand, name in order:
                if name not in r["text"] and not (cand == "py" and "py launcher" in r["text"]):
                    c.violation(f"{told}: the error does not mention {name}", "untold:" + told, case=x, text=r["text"])
        else:
            c.count("found")
        # candidates are run in order and none after the one chosen; Windows commands through the shell, others never
        asked = []
        for name, what, launcher, shell, term, env in r["calls"]:
            if what == "path" and shell != (x["win"] and not launcher):
                c.violation(f"{told}: {name} run {'with' if shell else 'without'} a shell", "shell:" + told, case=x, calls=r["calls"])
            if what == "version" and shell:
                c.violation(f"{told}: {name} asked for its version through a shell", "shellv:" + told, case=x)
            if launcher != (name == "py.exe" and x["win"] and what == "path"):
                c.violation(f"{told}: -3 {'given to' if launcher else 'missing for'} {name}", "launcher:" + told, case=x)
            if what == "path" or name in x["defaults"]:
                asked.append(name)
        wanted = []
        for cand, name in order:
            wanted.append(name)
            says = x["answers"].get(name)
            exe = name if name in x["defaults"] else (says or "").strip()
            if want is not None and exe == want:
                break
        if list(dict.fromkeys(asked)) != list(dict.fromkeys(wanted)):
            c.violation(f"{told}: tried {asked}, should try {wanted}", "order:" + told, case=x)
        c.sample({"case": told, "found": r["found"]})
    kinds = [None] + list(REAL)
    vf.pmap(c, real_job, [t for t in itertools.product(kinds, kinds, list(REAL), list(REAL)) if vf.THOROUGH or (t[2] in ("good", "absent", "old") and t[3] in ("good", "junk", "not executable"))], chunk=4)
    return c.finish()


vf.main(main)
