"""C39: the build command over every stored configuration, option source, job count, tool and end of the tool within the bounds, with a recording tool."""
import itertools
import json
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import nodelab  # noqa: E402
import vf  # noqa: E402

STORED = {"Release": "Release", "Debug": "Debug", "Other": "Other", None: "Release", "": "Release"}
DEBUG = {"none": ([], {}, None), "--debug": (["--debug"], {}, "Debug"), "-d": (["-d"], {}, "Debug"), "--release": (["--release"], {}, "Release"), "--no-debug": (["--no-debug"], {}, "Release"),
         "variable true": ([], {"npm_config_debug": "true"}, "Debug"), "variable empty": ([], {"npm_config_debug": ""}, "Release"), "variable false": ([], {"npm_config_debug": "false"}, "Release")}
JOBS = {"none": ([], {}, None), "-j 4": (["-j", "4"], {}, "4"), "--jobs=16": (["--jobs=16"], {}, "16"), "--jobs max": (["--jobs", "max"], {}, "max"), "MAX": (["--jobs=MAX"], {}, "max"), "Max": (["-j", "Max"], {}, "max"),
        "zero": (["--jobs=0"], {}, None), "minus": (["--jobs=-2"], {}, None), "word": (["--jobs=many"], {}, None), "JOBS=3": ([], {"JOBS": "3"}, "3"), "JOBS=max": ([], {"JOBS": "max"}, "max"), "JOBS=word": ([], {"JOBS": "x"}, None),
        "JOBS empty": ([], {"JOBS": ""}, None), "both": (["--jobs=2"], {"JOBS": "9"}, "2"), "variable": ([], {"npm_config_jobs": "5"}, "5"), "variable max": ([], {"npm_config_jobs": "max"}, "max"), "variable and JOBS": ([], {"npm_config_jobs": "5", "JOBS": "9"}, "5")}
LEVEL = {"none": ([], False), "--verbose": (["--verbose"], True), "--silly": (["--silly"], True), "--silent": (["--silent"], False), "--loglevel=verbose": (["--loglevel=verbose"], True), "--loglevel=http": (["--loglevel=http"], False)}
WORDS = [[], ["target1"], ["a", "b-c.node"], ["V=2", "x y"]]
MAKE = {"default": ([], {}, None), "--make": (["--make=mymake"], {}, "bin/mymake"), "--make path": (["--make=@R@/opt tools/odd make"], {}, "opt tools/odd make"), "MAKE": ([], {"MAKE": "envmake"}, "bin/envmake"),
        "both": (["--make=mymake"], {"MAKE": "envmake"}, "bin/mymake"), "variable": ([], {"npm_config_make": "mymake"}, "bin/mymake")}
TOOLS = ["bin/make", "bin/gmake", "bin/mymake", "bin/envmake", "opt tools/odd make", "opt tools/MSBuild.exe", "opt tools/my py"]
ENDS = [0, 1, 2, 3, 42, 126, 127, 128, 130, 137, 255, "KILL", "TERM", "INT", "SEGV", "HUP", "ABRT"]
ARCHS = {"x64": "x64", "X64": "x64", "ia32": "Win32", "arm": "ARM", "arm64": "ARM64", "ARM64": "ARM64", "x86": "Win32", "mips": "Win32"}
COMMENT = "# Do not edit. File was generated by node-gyp's \"configure\" step\n"


def conf(stored="Release", arch="x64", comment=True, msbuild="@R@/opt tools/MSBuild.exe", more=None):
    d = {"target_defaults": {}, "variables": dict({"target_arch": arch, "nodedir": "/nd", "python": "@R@/opt tools/my py"}, **(more or {}))}
    if stored is not None:
        d["target_defaults"]["default_configuration"] = stored
    if msbuild:
        d["variables"]["msbuild_path"] = msbuild
    return (COMMENT if comment else "") + json.dumps(d, indent=2) + "\n"


def case(platform, stored="Release", debug="none", jobs="none", level="none", words=(), make="default", die=0, arch="x64", comment=True, slns=("binding.sln",), makefile=False, solution=None, twice=False, tree=None, links=None, more=None):
    x = {"config": conf(stored, arch, comment, more=more), "tree": dict(tree or {}), "links": links or {}, "env": {}, "die": die, "tools": TOOLS, "twice": twice}
    argv = []
    for t, k in ((DEBUG, debug), (JOBS, jobs), (MAKE, make)):
        argv += t[k][0]
        x["env"].update(t[k][1])
    argv += LEVEL[level][0]
    if solution:
        argv.append(f"--solution={solution}")
    if platform == "win32":
        for s in slns:
            x["tree"]["mod/build/" + s] = ""
        if makefile:
            x["tree"]["mod/build/" + makefile] = ""
    x["argv"] = argv + ["build"] + (["--"] + list(words) if words else [])
    x["want"] = dict(platform=platform, type=DEBUG[debug][2] or STORED[stored], jobs=JOBS[jobs][2], verbose=LEVEL[level][1], words=list(words), make=MAKE[make][2], die=die, arch=arch, slns=list(slns), makefile=makefile, solution=solution, twice=twice)
    return x


def without(args, *pair):
    """Takes a flag and its value out of a list; the value, None when it is not there exactly once."""
    at = [i for i, a in enumerate(args) if a == pair[0]]
    if len(at) != 1 or at[0] + 1 >= len(args):
        return None, args
    return args[at[0] + 1], args[:at[0]] + args[at[0] + 2:]


def judge(c, told, x, r):
    w = x["want"]

    def bad(what, key):
        c.violation(f"{told}: {what}", f"{key}:{told}", result=r, case=x)
    n = 2 if w["twice"] else 1
    if len(r["args"]) != n:
        return bad(f"the tool is run {len(r['args'])} times ({r['error']})", "runs")
    if any((e is None) != (w["die"] == 0) for e in r["error"]):
        return bad(f"the tool ends with {w['die']}, build with {r['error']}", "outcome")
    win = w["platform"] == "win32" and bool(w["slns"])
    root = r["root"]
    tool, cwd, path, py, link = r["env"]
    if cwd != f"{root}/mod":
        bad(f"runs in {cwd}", "cwd")
    name = "opt tools/MSBuild.exe" if win else w["make"] or ("bin/gmake" if w["platform"] in ("aix", "os400", "freebsd", "openbsd", "netbsd") else "bin/make")
    if tool != f"{root}/{name}":
        bad(f"runs {tool}, should run {name}", "tool")
    jobs = {"max": str(r["cpus"])}.get(w["jobs"], w["jobs"])
    for args in r["args"]:
        rest = list(args)
        if win:
            want = [f"/t:{t}" for t in w["words"]] + ["/nologo", f"/p:Configuration={w['type']};Platform={ARCHS[w['arch']]}"] + ([f"/m:{jobs}"] if jobs else []) + ([] if w["verbose"] else ["/clp:Verbosity=minimal"])
            sln = [a for a in rest if a.endswith(".sln")]
            ok = [w["solution"]] if w["solution"] else [f"build/{s}" for s in w["slns"]]
            if len(sln) != 1 or os.path.normpath(sln[0]) not in ok:
                bad(f"solution is {sln}, should be {ok}", "sln")
            rest = [a for a in rest if not a.endswith(".sln")]
        else:
            words = [("/t:" if w["platform"] == "win32" else "") + t for t in w["words"]]
            d, rest = without(rest, "-C")
            if d is None or os.path.normpath(d) not in ("build", f"{root}/mod/build"):
                bad(f"directory is {d}: {args}", "dir")
            if jobs:
                j, rest = without(rest, "--jobs")
                if j != jobs:
                    bad(f"jobs are {j}, should be {jobs}: {args}", "jobs")
            want = words + [f"BUILDTYPE={w['type']}"] + (["V=1"] if w["verbose"] else [])
            if [a for a in rest if a in words] != words:
                bad(f"arguments in another order: {args}", "order")
        if sorted(rest) != sorted(want):
            bad(f"arguments are {args}, besides directory, jobs and solution should be {want}", "args")
    if w["platform"] != "win32":
        if path.split(":")[0] != f"{root}/mod/build/node_gyp_bins" or not path.endswith(f"{root}/bin") or py != f"{root}/mod/build/node_gyp_bins/python3" or link != f"{root}/opt tools/my py":
            bad(f"python3 is {py} -> {link}, PATH {path}", "python")
    if r["bins"] is not None:
        bad(f"leaves node_gyp_bins: {r['bins']}", "bins")
    if r["config"] != x["config"].replace("@R@", root):
        bad("changes config.gypi", "config")


def refused():
    """(name, platform, case): no tool may run, and the command fails."""
    base = {"tree": {}, "env": {}, "tools": TOOLS, "argv": ["build"], "config": None}
    yield "no configuration", "linux", base
    yield "no configuration", "win32", base
    yield "no build directory but a solution", "win32", dict(base, tree={"mod/build/x.sln": ""})
    for t in ("", "{", COMMENT, COMMENT + "{'variables': {}}", conf()[:-20], "null"):
        yield f"configuration {t[:90]!r}", "linux", dict(base, config=t)
    yield "no make", "linux", dict(base, config=conf(), tools=["bin/gmake"])
    yield "no gmake", "aix", dict(base, config=conf(), tools=["bin/make"])
    yield "chosen make absent", "linux", dict(base, config=conf(), argv=["--make=nomake", "build"])
    yield "chosen make absent (environment)", "linux", dict(base, config=conf(), env={"MAKE": "nomake"})
    yield "make not executable", "linux", dict(base, config=conf(), tools=["bin/gmake"], tree={"bin/make": "x"})
    yield "no solution", "win32", dict(base, config=conf())
    yield "no MSBuild", "win32", dict(base, config=conf(msbuild=None), tree={"mod/build/x.sln": ""})


def main():
    c = vf.Check("C39", "model_checking",
                 "the real build command with a recording tool: products of stored configuration x debug option source x job count source, tool choice x platform x log level x extra arguments, every end of the tool (exit codes and signals), "
                 "architectures and solutions on Windows, leftovers of an earlier build, missing and unreadable configurations",
                 ["platforms are the real code with process.platform set"])
    groups = {}

    def put(platform, told, x):
        groups.setdefault(platform, []).append((f"{platform}: {told}", x))
    unix = ["linux", "darwin", "freebsd", "openbsd", "netbsd", "aix", "os400", "sunos", "os390"]
    for platform in unix + ["win32"]:
        main_one = platform in ("linux", "win32") or vf.THOROUGH
        for stored, debug, jobs in itertools.product(STORED, DEBUG, JOBS):
            if main_one or (stored in ("Debug", None) and jobs in ("none", "-j 4", "JOBS=max")):
                put(platform, f"stored {stored}, debug {debug}, jobs {jobs}", case(platform, stored, debug, jobs))
        for make, level, words, jobs in itertools.product(MAKE, LEVEL, WORDS, ("none", "-j 4", "MAX") if main_one else ("none",)):
            put(platform, f"make {make}, level {level}, arguments {words}, jobs {jobs}", case(platform, make=make, level=level, words=words, jobs=jobs))
        for die, stored, twice in itertools.product(ENDS if not vf.THOROUGH else list(range(256)) + ENDS[-6:], ("Release", "Debug"), (False, True)):
            put(platform, f"tool ends with {die}, stored {stored}, twice {twice}", case(platform, stored, die=die, twice=twice))
        for comment in (False, True):
            for more in ({"url": "https://x/#frag", "q": "a # b"}, {"x": "#"}, {}):
                if comment or not more:
                    put(platform, f"comment {comment}, more {more}", case(platform, comment=comment, more=more))
        if platform != "win32":
            for left in ({"tree": {"mod/build/node_gyp_bins/other": "x"}}, {"links": {"mod/build/node_gyp_bins/python3": "/nowhere"}}, {"tree": {"mod/build/node_gyp_bins/python3": "file"}}, {"tree": {"mod/build/node_gyp_bins/d/e": "x"}}):
                for die in (0, 1, "TERM"):
                    put(platform, f"left over {left}, ends with {die}", case(platform, die=die, **left))
    for arch, jobs, words, debug in itertools.product(ARCHS, ("none", "-j 4", "MAX", "zero"), WORDS[:3], ("none", "--debug")):
        put("win32", f"arch {arch}, jobs {jobs}, targets {words}, debug {debug}", case("win32", arch=arch, jobs=jobs, words=words, debug=debug))
    for slns, solution, words in itertools.product((("binding.sln",), ("b.sln", "a.sln"), ("with space.sln",)), (None, "my.sln"), WORDS[:3]):
        put("win32", f"solutions {slns}, --solution {solution}, targets {words}", case("win32", slns=slns, solution=solution, words=words))
    for makefile, make, jobs in itertools.product(("Makefile", "x.mk"), ("default", "--make", "MAKE"), ("none", "-j 4")):
        put("win32", f"no solution but {makefile}, make {make}, jobs {jobs}", case("win32", slns=(), makefile=makefile, make=make, jobs=jobs))
    for platform, cases in groups.items():
        try:
            res = nodelab.batch("build.js", [{k: v for k, v in x.items() if k != "want"} for _, x in cases], {"VFJ_PLATFORM": platform}, per=40)
        except vf.Bad as e:
            c.violation(e.what, e.key)
            return c.finish()
        for (told, x), r in zip(cases, res):
            c.add()
            c.seen(told)
            c.count("configurations_" + ("windows" if platform == "win32" else "unix"))
            if "error" in r:
                raise vf.Bad("the program fails outside any command: " + r["stack"][-600:], "crash")
            judge(c, told, x, r["ok"])
    for told, platform, x in refused():
        r = nodelab.batch("build.js", [x], {"VFJ_PLATFORM": platform})[0]
        c.add()
        c.seen("refused " + told + platform)
        c.count("refused")
        if "error" in r:
            raise vf.Bad("the program fails outside any command: " + r["stack"][-600:], "crash")
        r = r["ok"]
        if r["args"] or r["error"] == [None]:
            c.violation(f"{platform}, {told}: runs {r['args']}, {r['error']}", "refused:" + told)
        if r["bins"]:
            c.violation(f"{platform}, {told}: leaves node_gyp_bins {r['bins']}", "refused-bins:" + told)
    c.sample({"runs": {k: len(v) for k, v in groups.items()}})
    return c.finish()


vf.main(main)
