"""C33: for every argument within the bounds, remove deletes at most one entry of the device directory and clean at most the build directory."""
import itertools
import os
import re
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import nodelab  # noqa: E402
import vf  # noqa: E402

TREE = {
    "home/dev/12.0.0/include/node/node.h": "h", "home/dev/12.0.0/installVersion": "11\n", "home/dev/12.0.0/out": {"link": "@/outside"},
    "home/dev/4.0.0-rc.4/installVersion": "11\n", "home/dev/iojs-3.3.1/installVersion": "11\n", "home/dev/12.0.01/x": "x", "home/dev/12.0": None, "home/dev/note": "a file",
    "home/dev/8.0.0": {"link": "@/outside/versions"}, "home/dev/9.0.0": {"link": "@/outside/precious"}, "home/dev/10.0.0": {"link": "@/nowhere"}, "home/dev/current": {"link": "12.0.0"},
    "home/dev/.hidden/f": "f", "home/dev/a b/f": "f", "home/dev/v12.0.0/f": "f", "home/dev/...": None, "home/dev/12.0.0+b": None,
    "home/12.0.0/f": "f", "home/f": "f", "home/devel/f": "f", "outside/versions/installVersion": "11\n", "outside/versions/f": "f", "outside/precious": "p", "outside/12.0.0/f": "f",
    "proj/build/Release/x.node": "x", "proj/build/up": {"link": "@/outside"}, "proj/build/self": {"link": "../src"}, "proj/src/a.c": "a", "proj/12.0.0/f": "f", "proj/dev/f": "f", "proj/builds/f": "f",
    "proj/binding.gyp": "{}", "proj/sub/f": "f", "proj/out/f": "f", "linked": {"link": "@/home/dev"},
}
DEVDIRS = ["@/home/dev", "@/home/dev/", "@/home/x/../dev", "../home/dev", "@/linked", "@/nodev"]


def parts():
    yield from ["12.0.0", "v12.0.0", "4.0.0-rc.4", "iojs-3.3.1", "12.0.01", "12.0", "note", "8.0.0", "9.0.0", "10.0.0", "current", ".hidden", "a b", "...", "12.0.0+b", "77.0.0",
                "", ".", "..", "~", "*", "1*", "-rf", "--", "12.0.0 8.0.0", "\u0000", "12.0.0\n", " 12.0.0", "=12.0.0", "latest", "\\..", "..\\outside", "C:\\", "%2e%2e", "node_modules", "undefined"]


def arguments():
    yield from parts()
    yield from ["@", "@/", "@/outside", "@/outside/precious", "@/home", "@/home/dev", "@/home/dev/12.0.0", "@/home/f", "@/proj", "@/proj/build", "@/nowhere"]
    alphabet = ["..", ".", "12.0.0", "outside", "home", "dev", "", "include", "8.0.0", "precious", "note"]
    for n in (2, 3, 4) if vf.THOROUGH else (2, 3):
        for p in itertools.product(alphabet, repeat=n):
            yield "/".join(p)


def semver(v):
    m = re.fullmatch(r"\s*v?((?:0|[1-9]\d*)\.(?:0|[1-9]\d*)\.(?:0|[1-9]\d*)(?:-[0-9A-Za-z.-]+)?)(\+[0-9A-Za-z.-]+)?\s*", v)
    return m.group(1) if m else None


def removable(arg):
    """The one entry of the device directory that this argument may remove, or None."""
    v = semver(arg)
    if v:
        return v
    if "\u0000" in arg:
        return None
    n = os.path.normpath(os.path.join("/D/home/dev", arg.replace("@", "/D", 1))) if arg else None
    if n and os.path.dirname(n) == "/D/home/dev":
        return os.path.basename(n)
    return None


def within(tree, entry):
    return {n for n in tree if n == entry or n.startswith(entry + "/")}


def main():
    c = vf.Check("C33", "exhaustive_enumeration",
                 "real remove on every path of up to 3 (4 thorough) parts over 11 names, absolute paths and 35 odd names, as argument and as --target, with 6 spellings of the device directory; real clean on "
                 "build directories, files and links; every tree compared before and after, deletions outside the scratch tree refused and recorded",
                 ["runs without privileges in a scratch tree", "POSIX paths"])
    todo, kinds = [], []

    def add(kind, **kw):
        x = {"tree": TREE, "devdir": DEVDIRS[0], "cwd": "proj", "cmd": "remove", "argv": []}
        x.update(kw)
        todo.append(x)
        kinds.append(kind)
    args = list(dict.fromkeys(arguments()))
    for a in args:
        for d in DEVDIRS if a in list(parts()) or vf.THOROUGH else DEVDIRS[:1]:
            add(a, argv=[a], devdir=d)
        add(a, argv=[], target=a)
    for a, t in itertools.product(["12.0.0", "..", "77.0.0", ""], ["4.0.0-rc.4", "../..", "."]):
        add(a or t, argv=[a, t], target=t)
        add(a or t, argv=[a], target=t)
    for b, cmd in itertools.product(["dir", "file", "link", "dangling", "link file", "missing", "link up", "link self"], ["clean"]):
        tree = {n: x for n, x in TREE.items() if not n.startswith("proj/build/")}
        if b == "dir":
            tree = TREE
        elif b == "file":
            tree["proj/build"] = "x"
        elif b != "missing":
            tree["proj/build"] = {"link": {"link": "@/outside", "dangling": "@/nowhere", "link file": "@/outside/precious", "link up": "..", "link self": "."}[b]}
        for argv in ([], ["x"], [".."], ["../outside"], ["@/outside"], ["build", "src"]):
            for target in (None, "..", "12.0.0"):
                add(None, tree=tree, cmd=cmd, argv=argv, **({"target": target} if target else {}))
        add(None, tree=dict(tree, **{"proj/sub/build/x": "x"}), cmd=cmd, cwd="proj/sub")
    scratch = vf.scratch("c33")
    os.chmod(vf.scratch_root(), 0o711)
    os.chmod(scratch, 0o711)
    own = os.path.join(scratch, "own")
    os.mkdir(own)
    os.chown(own, 65534, 65534)
    try:
        # the program gives up its privileges, so the harness's own files come first
        results = nodelab.batch("remove.js", todo, {"VFJ_SCRATCH": own}, own=65534)
    except vf.Bad as e:
        c.violation(e.what, e.key)
        return c.finish()
    for x, a, r in zip(todo, kinds, results):
        c.add()
        told = f"{x['cmd']} {x['argv']} target {x.get('target')} in {x['cwd']}, device directory {x['devdir']}"
        c.seen(repr(x))
        if "error" in r:
            raise vf.Bad("the program fails outside any command: " + r["stack"][-600:], "crash")
        r = r["ok"]
        before, after = r["before"], r["after"]
        gone = set(before) - set(after)
        if r["escapes"]:
            c.violation(f"{told}: tries to delete {r['escapes']}", "escape:" + told, case=x["argv"])
            continue
        if set(after) - set(before) or any(after[n] != before[n] for n in after):
            c.violation(f"{told}: changes {sorted(set(after) - set(before))}", "changes:" + told)
            continue
        if x["cmd"] == "clean":
            allowed = within(before, x["cwd"] + "/build")
            must = True
        else:
            e = removable(a)
            allowed = within(before, "home/dev/" + e) if e and x["devdir"] != "@/nodev" else set()
            must = e == a or semver(a) is not None
        if not gone <= allowed:
            c.violation(f"{told}: deletes {sorted(gone - allowed)[:5]}", "outside:" + told)
        elif gone and gone != allowed:
            c.violation(f"{told}: leaves {sorted(allowed - gone)[:5]}", "partly:" + told)
        elif must and allowed and not gone:
            c.violation(f"{told}: deletes nothing ({r['error']})", "nothing:" + told)
        elif r["error"] and allowed and must:
            c.violation(f"{told}: fails: {r['error']}", "error:" + told)
        elif x["cmd"] == "clean" and r["error"]:
            c.violation(f"{told}: fails: {r['error']}", "clean:" + told)
        elif x["cmd"] == "remove" and not allowed and r["error"] is None and not isinstance(r["result"], str):
            c.violation(f"{told}: succeeds without saying that there was nothing to remove", "silent:" + told)
        c.count("removed" if gone else "refused" if r["error"] else "nothing_there")
        c.sample({"case": told, "deleted": sorted(gone)[:3]})
    return c.finish()


vf.main(main)
