"""C41: where headers and the exports file are looked for: every existence pattern of the candidates and every layout around the program."""
import itertools
import os
import posixpath
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import nodelab  # noqa: E402
import vf  # noqa: E402

KINDS = {"absent": False, "file": True, "dir": True, "unreadable": False, "dangling": False, "link": True, "loop": False}
SETS = [["a"], ["a", "sub/b"], ["x/y/a.exp", "a.exp", "../c.exp"], ["p q/r", "p", "z", "../base dir/w"]]


def node_root(script, exec_path, platform):
    """The documented places: beside npm in a source tree or an installation, otherwise by the program's own place."""
    win = platform == "win32"
    up = posixpath.normpath(posixpath.join(script, "../../../.."))
    if posixpath.basename(up) == "deps":
        return posixpath.dirname(up)
    if posixpath.basename(up) == "node_modules":
        return posixpath.dirname(up) if win else posixpath.dirname(posixpath.dirname(up))
    d = posixpath.dirname(exec_path)
    if posixpath.basename(d) == "bin":
        return posixpath.dirname(d)
    if posixpath.basename(d) in ("Release", "Debug"):
        return posixpath.dirname(d) if win else posixpath.dirname(posixpath.dirname(d))
    return ""


EXP = {"aix": ["include/node/node.exp", "out/Release/node.exp", "out/Debug/node.exp", "node.exp"],
       "os390": ["out/Release/lib.target/libnode.x", "out/Debug/lib.target/libnode.x", "out/Release/obj.target/libnode.x", "out/Debug/obj.target/libnode.x", "lib/libnode.x"]}
EXP["os400"] = EXP["aix"]
ZOS = ["include/node/zoslib/zos-base.h", "include/zoslib/zos-base.h", "zoslib/include/zos-base.h", "install/include/node/zoslib/zos-base.h"]


def main():
    c = vf.Check("C41", "model_checking", "every assignment of 7 kinds of entry to up to 4 candidates on real trees, absolute and relative; every layout of program and script around 4 platforms; "
                 "configure on AIX, IBM i and z/OS over every existence pattern of the exports file and the library headers, and with every kind of given header directory, where nothing may be downloaded",
                 ["platforms are the real code with process.platform set"])
    cases = []
    for names in SETS:
        kinds = KINDS if vf.THOROUGH or len(names) < 4 else ("absent", "file", "dir", "unreadable", "dangling")
        for ks in itertools.product(kinds, repeat=len(names)):
            for relative, absolute in ((False, False), (True, False), (False, True)):
                cases.append({"files": list(zip(names, ks)), "relative": relative, "absolute": absolute})
    for x, r in zip(cases, nodelab.batch("dirs.js", cases, {"VFJ_DROP": "1"}, own=65534)):
        told = f"candidates {x['files']}{' relative' if x['relative'] else ''}{' absolute' if x['absolute'] else ''}"
        c.add()
        c.seen(told)
        if "error" in r:
            raise vf.Bad("the program fails outside any command: " + r["stack"][-600:], "crash")
        r = r["ok"]
        want = next((posixpath.normpath("@B@/" + n) for n, k in x["files"] if KINDS[k]), None)
        if want is not None:
            want = want.replace("@B@/../base dir", "@B@")
        got = r["found"]
        if got is not None and want is not None and want != got and "../" in str([n for n, _ in x["files"]]):
            # outside the base directory
            got = None if not got.endswith("/" + posixpath.basename(want)) else want
        if got != want or r["leak"] or r["none"] != (want is None):
            c.violation(f"{told}: finds {r}, should find {want}", "accessible:" + told)
    c.count("existence_patterns", len(cases))
    cases = []
    for parent, depth in itertools.product(("deps", "node_modules", "other", "Deps", "xdeps"), (0, 1, 2, 3)):
        for leaf in ("npm/node_modules/node-gyp/lib", "x/y/z/w", "node_modules/deps/bin/lib"):
            script = "/" + "/".join(["d", "e", "f"][:depth] + [parent, leaf])
            for d, edepth, platform in itertools.product(("bin", "Release", "Debug", "other", "sbin", "release", "bin "), (0, 1, 2), ("linux", "win32", "darwin", "aix", "os390")):
                cases.append({"script": script, "exec": "/" + "/".join(["g", "h"][:edepth] + [d, "node"]), "platform": platform})
    for x, r in zip(cases, nodelab.batch("dirs.js", cases)):
        c.add()
        c.seen(str(x))
        if "error" in r:
            raise vf.Bad("the program fails outside any command: " + r["stack"][-600:], "crash")
        want = node_root(x["script"], x["exec"], x["platform"])
        if (posixpath.normpath(r["ok"]) if r["ok"] else "") != want:
            c.violation(f"{x}: root is {r['ok']!r}, should be {want!r}", "root:" + str(x))
    c.count("layouts", len(cases))
    configure(c)
    c.sample({"layouts": len(cases)})
    return c.finish()


def configure(c):
    host = nodelab.host_version()
    nd = {"nd/include/node/common.gypi": "{}", "nd/include/node/config.gypi": "{'variables': {}}"}
    base = {"config": {"variables": {}, "target_defaults": {}}, "die": 0}
    for platform, cands in EXP.items():
        cases = []
        for layout, root in (("n/bin/node", "n"), ("n/out/Release/node", "n"), ("n/out/Debug/node", "n")):
            for have in itertools.product((False, True), repeat=len(cands)):
                if layout != "n/bin/node" and sum(have) > 1 and not vf.THOROUGH:
                    continue
                tree = dict(nd, **{f"{root}/{n}": "" for n, h in zip(cands, have) if h})
                want = next((f"{root}/{n}" for n, h in zip(cands, have) if h), None)
                if platform != "os390":
                    cases.append((tree, layout, {}, want, None, None))
                else:
                    cases.append((dict(tree, **{f"{root}/{ZOS[0]}": ""}), layout, {}, want, f"{root}/{posixpath.dirname(ZOS[0])}", None))
        if platform == "os390":
            for have in itertools.product((False, True), repeat=len(ZOS)):
                for env, there in (({}, False), ({"ZOSLIB_INCLUDES": "@R@/zl"}, False), ({"ZOSLIB_INCLUDES": "@R@/zl"}, True), ({"ZOSLIB_INCLUDES": ""}, False)):
                    for target in (None, "v14.1.0", "v16.0.0", "v15.9.9"):
                        tree = dict(nd, **{f"n/{n}": "" for n, h in zip(ZOS, have) if h}, **{"n/lib/libnode.x": ""}, **({"zl/zos-base.h": ""} if there else {}))
                        zl = ("zl" if there else None) if env.get("ZOSLIB_INCLUDES") else next((f"n/{posixpath.dirname(n)}" for n, h in zip(ZOS, have) if h), None)
                        major = int((target or "v" + host)[1:].split(".")[0])
                        cases.append((tree, "n/bin/node", env, "n/lib/libnode.x" if zl or major < 16 else None, zl, target))
        jobs = [dict(base, tree=t, exec=f"@R@/{lay}", env=env, argv=["--nodedir=@R@/nd"] + ([f"--target={target}"] if target else []) + ["configure"]) for t, lay, env, _, _, target in cases]
        for (tree, layout, env, want, zl, target), r in zip(cases, nodelab.batch("configure.js", jobs, {"VFJ_PLATFORM": platform}, per=40)):
            told = f"{platform}: program at {layout}, files {sorted(n for n in tree if not n.startswith('nd/'))}, {env}, target {target}"
            c.add()
            c.seen(told)
            c.count("exports_patterns")
            if "error" in r:
                raise vf.Bad("the program fails outside any command: " + r["stack"][-600:], "crash")
            r = r["ok"]
            if want is None:
                if r["runs"] or not r["error"]:
                    c.violation(f"{told}: nothing to be found, yet gyp runs with {r['args']}", "exports-none:" + told)
                continue
            if r["runs"] != 1 or r["error"]:
                c.violation(f"{told}: {r['error']}", "exports:" + told)
                continue
            defs = nodelab.gyp_args(r["args"])[3]
            if defs.get("node_exp_file") != f"{r['root']}/{want}" or defs.get("zoslib_include_dir") != (f"{r['root']}/{zl}" if zl else None):
                c.violation(f"{told}: exports file {defs.get('node_exp_file')}, should be {want}; zoslib {defs.get('zoslib_include_dir')}, should be {zl}", "exports:" + told)
    # a given directory is used as it is
    cases = []
    for argv, env in ((["--nodedir=@R@/nd"], {}), ([], {"npm_config_nodedir": "@R@/nd"}), (["--nodedir=../nd"], {})):
        for files in itertools.product((False, True), repeat=3):
            tree = {n: "{}" for n, h in zip(("nd/include/node/common.gypi", "nd/common.gypi", "nd/include/node/config.gypi"), files) if h}
            for target, tarball in itertools.product((None, "v4.0.0", "3.0.0"), (False, True)):
                cases.append((argv + ([f"--target={target}"] if target else []) + (["--tarball=@R@/none.tar.gz"] if tarball else []), env, dict(tree, **{"nd/x": ""})))
    url = nodelab.server().url
    nodelab.server().script({})
    jobs = [dict(base, tree=t, env=env, argv=argv + [f"--dist-url={url}/dist", "configure"]) for argv, env, t in cases]
    for (argv, env, tree), r in zip(cases, nodelab.batch("configure.js", jobs, {"VFJ_PLATFORM": "linux"}, per=40)):
        told = f"{argv} {env} with {sorted(tree)}"
        c.add()
        c.seen(told)
        c.count("given_directories")
        if "error" in r:
            raise vf.Bad("the program fails outside any command: " + r["stack"][-600:], "crash")
        r = r["ok"]
        if r["runs"] != 1 or r["error"]:
            c.violation(f"{told}: {r['error']}", "given:" + told)
            continue
        _, _, inc, defs, _, _ = nodelab.gyp_args(r["args"])
        root, mod = r["root"], r["root"] + "/mod"
        common = posixpath.normpath(posixpath.join(mod, inc[-1]))
        want = f"{root}/nd/include/node/common.gypi" if "nd/include/node/common.gypi" in tree else f"{root}/nd/common.gypi"
        if posixpath.normpath(posixpath.join(mod, defs.get("node_root_dir", ""))) != f"{root}/nd" or common != want or r["dev"]:
            c.violation(f"{told}: headers from {defs.get('node_root_dir')}, {common}, device directory {r['dev']}", "given:" + told)
    if nodelab.server().requests:
        c.violation(f"with a given header directory {nodelab.server().requests[:3]} is requested", "given:requests")


vf.main(main)
