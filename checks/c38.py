"""C38: the configuration handed to gyp: every option value, every place headers can come from and every option source within the bounds, through the real configure command."""
import base64
import itertools
import json
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import hdrsrv  # noqa: E402
import nodelab  # noqa: E402
import vf  # noqa: E402

CHARS = ["'", '"', "\\", "#", "<", ">", "(", ")", "@", "$", " ", "%", "{", "}", "[", "\n", "\r", "\t", ",", ":", "é", "😀", "\u2028", "\x7f", "\x01", "1", "t", "-", "=", "!", "~"]
WORDS = ["null", "true", "false", "undefined", "NaN", "None", "True", "0", "007", "1e3", "-5", "1.50", "__builtins__", "'''", '"""', "<(x)", "<!(echo x)", ">(y)", "# c", "/* c */", "// c", "{}", "[]", "a" * 3000]
BASE = {"target_defaults": {"cflags": ["-inherited"], "defines": ["INHERITED"], "include_dirs": ["/inherited"], "libraries": ["-linherited"], "default_configuration": "Release", "configurations": {"Debug": {"v8_on": 1}}},
        "variables": {"from": "process", "flag": True, "off": False, "num": 11, "list": ["a", "b"], "target_arch": "mips", "clang": 1, "str": "it's #1 \"q\""}}
HDR = "# Do not edit. Generated by the configure script.\n{ 'target_defaults': { 'cflags': ['-x'],\n    'default_configuration': 'Debug'},\n  'variables': { 'from': 'headers',\n    'long': 'one '\n      'two',\n    'flag': true, 'n': 7, 'clang': 1}}\n"
HDR_VAL = {"target_defaults": {"cflags": ["-x"], "default_configuration": "Debug"}, "variables": {"from": "headers", "long": "one two", "flag": True, "n": 7, "clang": 1}}
HDR_COMMENTED = "# first\n\n  # second\n{ # opens\n 'target_defaults': { 'cflags': ['-x' # an item\n ],\n  # between\n  'default_configuration': 'Debug' # last\n },\n 'variables': {'from': 'headers', # \"quoted\" 'and' all\n  'long': 'one '\n 'two', 'flag': true,#\n 'n': 7, 'clang': 1}} # end"
HDR_NODEF = "{'variables': {'from': 'bare'}}"
HDR_BARE = {"variables": {"from": "bare"}}
VERSION_H = "// x\n#define NODE_MAJOR_VERSION %s\n#define NODE_MINOR_VERSION %s\n#define NODE_PATCH_VERSION %s\n"


def norm(v):
    """What a value becomes once written: yes and no as words."""
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, dict):
        return {k: norm(x) for k, x in v.items()}
    if isinstance(v, list):
        return [norm(x) for x in v]
    return v


def read(root, text, c, told):
    """As gyp reads it, in both of its modes."""
    import gyp.input
    p = os.path.join(root, "config.gypi")
    with open(p, "w", encoding="utf-8") as f:
        f.write(text)
    out = []
    for check in (False, True):
        try:
            out.append(gyp.input.LoadOneBuildFile(p, {}, {}, None, False, check))
        except Exception as e:
            return f"gyp cannot read it ({'checking' if check else 'plain'}): {type(e).__name__} {str(e)[:200]}"
    return out[0] if out[0] == out[1] else "gyp reads it differently with --check"


def devtree(v, name="node"):
    """Installed headers."""
    d = v if name == "node" else f"{name}-{v}"
    return {f"dev/{d}/installVersion": "11\n", f"dev/{d}/include/node/common.gypi": "{}", f"dev/{d}/include/node/config.gypi": HDR, f"dev/{d}/ia32/{name}.lib": "", f"dev/{d}/x64/{name}.lib": "", f"dev/{d}/arm64/{name}.lib": ""}


# ------------------------------------------------------------- places headers come from
def places(host):
    """name -> dict(tree, argv, env, config, dir (@R@ based), where common.gypi is, text of the headers' own configuration or None, read)"""
    inst = {"tree": devtree(host), "dir": f"@R@/dev/{host}", "common": f"@R@/dev/{host}/include/node/common.gypi", "own": None}
    full = {"nd/include/node/common.gypi": "{}", "nd/include/node/config.gypi": HDR, "nd/common.gypi": "{}"}

    def nd(tree, arg="@R@/nd", own=HDR_VAL, common="include/node/common.gypi", **k):
        return dict({"tree": tree, "argv": [f"--nodedir={arg}"], "dir": arg, "common": f"{arg}/{common}", "own": own, "nodedir": True}, **k)
    out = {
        "installed": inst,
        "installed, dist-url": dict(inst, argv=["--dist-url=http://127.0.0.1:9/x"], own=HDR_VAL),
        "installed, disturl variable": dict(inst, env={"npm_config_disturl": "http://127.0.0.1:9/x"}, own=HDR_VAL, var={"disturl": "http://127.0.0.1:9/x"}),
        "nodedir": nd(full),
        "nodedir variable": dict(nd(full), argv=[], env={"npm_config_nodedir": "@R@/nd"}),
        "nodedir in home": nd({"home/n d/" + n[3:]: t for n, t in full.items()}, "~/n d", dir="@R@/home/n d", common="include/node/common.gypi"),
        "nodedir relative": nd(full, "../nd", dirs=["../nd", "@R@/nd"]),
        "nodedir odd": nd({"n'd \"=#/" + n[3:]: t for n, t in full.items()}, "@R@/n'd \"=#"),
        "source tree": nd({"nd/common.gypi": "{}", "nd/node.gyp": "{}"}, own=None, common="common.gypi"),
        "commented headers": nd(dict(full, **{"nd/include/node/config.gypi": HDR_COMMENTED})),
        "headers with other line ends": nd(dict(full, **{"nd/include/node/config.gypi": HDR.replace("\n", "\r\n")})),
        "bare headers": nd(dict(full, **{"nd/include/node/config.gypi": HDR_NODEF}), own=HDR_BARE),
        "broken headers": nd(dict(full, **{"nd/include/node/config.gypi": "{'variables': {"}), own=None),
        "prefix": {"tree": {**{"nd/include/node/" + n: t for n, t in (("common.gypi", "{}"), ("config.gypi", HDR))}, "nd/include/node/node_version.h": VERSION_H % tuple(host.split("."))},
                   "use": "@R@/nd", "dir": "@R@/nd", "common": "@R@/nd/include/node/common.gypi", "own": HDR_VAL, "nodedir": True},
        "prefix of another version": dict(inst, tree=dict(inst["tree"], **{"nd/include/node/common.gypi": "{}", "nd/include/node/node_version.h": VERSION_H % ("11", "0", "0")}), use="@R@/nd"),
        "prefix without headers": dict(inst, use="@R@/nd"),
        "prefix and nodedir": nd(dict(full, **{"pp/include/node/node_version.h": VERSION_H % tuple(host.split("."))}), use="@R@/pp"),
    }
    out["nodedir in home"]["common"] = "@R@/home/n d/include/node/common.gypi"
    return out


FORMATS = {"none": ([], None), "-f": (["-f", "ninja"], ["ninja"]), "--format": (["--format", "make-linux"], ["make-linux"]), "--format=": (["--format=ninja"], ["ninja"]), "-fninja": (["-fninja"], ["ninja"])}
DEBUG = {"none": ([], {}, None), "--debug": (["--debug"], {}, "Debug"), "--release": (["--release"], {}, "Release"), "--no-debug": (["--no-debug"], {}, "Release"),
         "variable true": ([], {"npm_config_debug": "true"}, "Debug"), "variable empty": ([], {"npm_config_debug": ""}, "Release"), "variable false": ([], {"npm_config_debug": "false"}, "Release")}
FORCE = {"none": ([], {}, False), "yes": (["--force-process-config"], {}, True), "variable": ([], {"npm_config_force_process_config": "true"}, True), "variable false": ([], {"npm_config_force_process_config": "false"}, False)}
ARCH = {"none": ([], {}, None), "ia32": (["--arch=ia32"], {}, "ia32"), "arm64": (["--arch", "arm64"], {}, "arm64"), "variable": ([], {"npm_config_arch": "arm64"}, "arm64")}
THIN = {"none": ([], 1), "yes": (["--thin=yes"], 0)}
VS = {"2019": ("16.11.33423.256", 2019, "v142", "MSBuild\\Current\\Bin\\MSBuild.exe", 1), "2017.9": ("15.9.28307.665", 2017, "v141", "MSBuild\\15.0\\Bin\\MSBuild.exe", 1),
      "2017.8": ("15.8.28010.2", 2017, "v141", "MSBuild\\15.0\\Bin\\MSBuild.exe", None), "2017.10": ("15.10.1.1", 2017, "v141", "MSBuild\\15.0\\Bin\\MSBuild.exe", 1), "2022": ("17.8.34330.188", 2022, "v143", "MSBuild\\Current\\Bin\\MSBuild.exe", 1)}


def case(host, platform, place, local=(False, False), force="none", debug="none", arch="none", thin="none", fmt="none", extra=(), opts=(), env=None, vars=None, die=0, target=None, vs="2019", pythonpath=None, eng=None, name=None):
    p = places(host)[place] if isinstance(place, str) else place
    x = {"tree": dict(p["tree"]), "env": dict(p.get("env", {}), **(env or {})), "die": die}
    if local[0]:
        x["tree"]["mod/config.gypi"] = "{}"
    if local[1]:
        x["tree"]["mod/common.gypi"] = "{}"
    argv = list(p.get("argv", []))
    for table, k in ((FORCE, force), (DEBUG, debug), (ARCH, arch)):
        argv += table[k][0]
        x["env"].update(table[k][1])
    argv += THIN[thin][0] + list(opts)
    if target:
        argv.append(f"--target={target}")
    tail = list(FORMATS[fmt][0]) + list(extra)
    x["argv"] = argv + ["configure"] + (["--"] + tail if tail else [])
    base = json.loads(json.dumps(BASE))
    if p.get("use"):
        base["variables"].update(use_prefix_to_find_headers=True, node_prefix=p["use"])
    x["config"] = base
    if pythonpath is not None:
        x["env"]["PYTHONPATH"] = pythonpath
    if platform == "win32":
        v = VS[vs]
        x["env"].update(VCINSTALLDIR="C:\\VS\\VC", VSCMD_VER=v[0], WindowsSDKVersion="10.0.19041.0\\")
        x["tree"]["mod/C:\\VS\\" + v[3]] = ""
    x["want"] = {"platform": platform, "p": {k: v for k, v in p.items() if k != "tree"}, "local": local, "force": FORCE[force][2], "debug": DEBUG[debug][2], "arch": ARCH[arch][2], "thin": THIN[thin][1], "fmt": FORMATS[fmt][1], "extra": list(extra),
                 "vars": dict(p.get("var", {}), **(vars or {}), **({"target": target} if target else {})), "die": die, "target": target, "vs": vs, "pythonpath": pythonpath, "eng": eng, "base": base, "tname": name or "node"}
    return x


def judge(c, told, x, r, scratch):
    w = x["want"]
    root = r["root"]

    def s(t):
        return json.loads(json.dumps(t).replace("@R@", json.dumps(root)[1:-1]))

    def bad(what, key):
        c.violation(f"{told}: {what}", f"{key}:{told}", result=r, case=x)
    if r["runs"] != 1:
        return bad(f"gyp is run {r['runs']} times ({r['error']})", "runs")
    if (w["die"] == 0) != (r["error"] is None):
        return bad(f"gyp ends with {w['die']}, configure with {r['error']}", "outcome")
    got = read(scratch, r["config"], c, told) if r["config"] is not None else "it is not written"
    p = s(w["p"])
    win = w["platform"] == "win32"
    want = s(w["base"] if w["force"] or p["own"] is None else p["own"])
    td, va = want.setdefault("target_defaults", {}), want.setdefault("variables", {})
    for k in ("cflags", "defines", "include_dirs", "libraries"):
        td[k] = []
    td["default_configuration"] = w["debug"] or td.get("default_configuration", "Release")
    va["target_arch"] = w["arch"] or r["arch"]
    if va["target_arch"] == "arm64":
        td["msvs_configuration_platform"], td["xcode_configuration_platform"] = "ARM64", "arm64"
    dirs = p.get("dirs", [p["dir"]])
    va["nodedir"] = got["variables"].get("nodedir") if isinstance(got, dict) and got.get("variables", {}).get("nodedir") in dirs else dirs[0]
    va["python"] = f"{root}/my py"
    va["standalone_static_library"] = w["thin"]
    v = VS[w["vs"]]
    if win:
        td["msbuild_toolset"], td["msvs_windows_target_platform_version"] = v[2], "10.0.19041.0"
        if va["target_arch"] == "arm64" and v[4]:
            td["msvs_enable_marmasm"] = 1
        va["msbuild_path"] = "C:\\VS\\" + v[3]
        if va.get("clang") == 1:
            va["clang"] = 0
    va.update(s(w["vars"]))
    want = norm(want)
    if got != want:
        diff = got if isinstance(got, str) else {k: {n: (got.get(k, {}).get(n), want.get(k, {}).get(n)) for n in set(got.get(k, {})) | set(want.get(k, {})) if got.get(k, {}).get(n) != want.get(k, {}).get(n)} for k in set(got) | set(want)}
        return bad(f"config.gypi: {str(diff)[:600]} (is, should be)", "config")
    script, files, inc, defs, fmt, rest = nodelab.gyp_args(r["args"])
    if os.path.realpath(script) != os.path.realpath(os.path.join(vf.REPO, "gyp", "gyp_main.py")):
        bad(f"runs {script}", "script")
    if files != ["binding.gyp"]:
        bad(f"build files are {files}", "files")
    mod = f"{root}/mod"
    full = [os.path.join(mod, i) for i in inc]
    winc = [f"{mod}/build/config.gypi"] + [f"{mod}/{n}" for n, on in zip(("config.gypi", "common.gypi"), w["local"]) if on] + [os.path.join(vf.REPO, "addon.gypi"), os.path.normpath(os.path.join(mod, p["common"]))]
    mine = [i for i in full if not i.endswith("mine.gypi")]
    if [os.path.realpath(i) for i in mine] != [os.path.realpath(i) for i in winc]:
        bad(f"includes are {full}, should be {winc}", "includes")
    name = w["tname"]
    lib = f"{va['nodedir']}/{'$(Configuration)' if p.get('nodedir') else '<(target_arch)'}/{name}.lib"
    if win:
        lib = lib.replace("\\", "\\\\")
    wdefs = {"library": "shared_library", "visibility": "default", "node_root_dir": va["nodedir"], "node_gyp_dir": vf.REPO, "node_lib_file": lib, "module_root_dir": mod, "node_engine": w["eng"] or "v8"}
    for e in w["extra"]:
        if e.startswith("-D"):
            n, _, val = e[2:].partition("=")
            wdefs.setdefault(n, val)
    if {k: os.path.normpath(x) if k == "node_lib_file" else x for k, x in defs.items()} != {k: os.path.normpath(x) if k == "node_lib_file" else x for k, x in wdefs.items()}:
        bad(f"definitions are {defs}, should be {wdefs}", "defines")
    if fmt != (w["fmt"] or ["msvs" if win else "make"]):
        bad(f"formats are {fmt}, should be {w['fmt'] or ['msvs' if win else 'make']}", "format")
    d = {k: x for k, x in rest}
    if os.path.join(mod, d.get("--generator-output", "")) != f"{mod}/build" or ("-G", "output_dir=.") not in rest or os.path.normpath(os.path.join(mod, d.get("--depth", "x"))) != mod:
        bad(f"other options are {rest}", "rest")
    for e in w["extra"]:
        if e.startswith("--") and e not in [k for k, _ in rest]:
            bad(f"does not pass {e}", "extra")
    cwd, pypath, py, mv, mo = r["env"]
    if cwd != mod or py != f"{root}/my py":
        bad(f"runs in {cwd} with PYTHON={py}", "where")
    sep = ";" if win else ":"
    wp = os.path.join(vf.REPO, "gyp", "pylib")
    first, _, more = pypath.partition(sep)
    if os.path.realpath(first) != os.path.realpath(wp) or more != (w["pythonpath"] or ""):
        bad(f"PYTHONPATH is {pypath}", "pythonpath")
    if win and (mv != str(min(v[1], 2015)) or mo != "C:\\VS"):
        bad(f"GYP_MSVS_VERSION={mv} GYP_MSVS_OVERRIDE_PATH={mo}", "msvs")
    if w["die"] == 0 and set(r["stray"]) - {"build", "config.gypi", "common.gypi", "C:\\VS\\" + v[3]}:
        bad(f"leaves {r['stray']}", "stray")


def values():
    """Every value, packed into as few runs as their names allow."""
    vals = WORDS + [""] + ["".join(t) for n in range(1, 4 if vf.THOROUGH else 3) for t in itertools.product(CHARS, repeat=n)]
    for k in range(0, len(vals), 60):
        yield vals[k:k + 60]


def main():
    sys.path.insert(0, os.path.join(vf.REPO, "gyp", "pylib"))
    c = vf.Check("C38", "model_checking",
                 "the real configure command with a recording Python: every option value over a 31-character alphabet up to length 2 (3 thorough) from the command line and the environment, "
                 "every place headers come from x project files x options that shape the configuration x forms of naming the format, on Linux, macOS and Windows, and every end of gyp",
                 ["Windows and macOS are the real code with process.platform set", "Python and Visual Studio answers are scripted"])
    host = nodelab.host_version()
    scratch = vf.scratch("c38")
    groups = {}

    def put(platform, told, x):
        groups.setdefault(platform, []).append((told, x))
    for k, vals in enumerate(values()):
        names = [f"v{i}" for i in range(len(vals))]
        want = dict(zip(names, vals))
        # (the option parser takes a word starting with a dash for another option, and trims)
        cli = {n: v for n, v in want.items() if not v.startswith("-")}
        put("linux", f"values {k} as options", case(host, "linux", "installed", opts=[f"--{n}={v}" for n, v in cli.items()], vars={n: v.strip() for n, v in cli.items()}))
        put("linux", f"values {k} as variables", case(host, "linux", "installed", env={f"npm_config_{n}": v for n, v in want.items()}, vars=want))
    for opts, env, vars in ((["--shared-libxml2"], {}, {"shared_libxml2": True}), (["--no-shared-x"], {}, {"shared_x": False}), (["--under_score=1"], {}, {"under_score": "1"}), (["--a-b-c=x y"], {}, {"a_b_c": "x y"}),
                            ([], {"npm_config_a_b_c": "2"}, {"a_b_c": "2"}), (["--target-arch=arm64"], {}, {"target_arch": "arm64"}), (["--clang=7"], {}, {"clang": "7"}), (["--jobs=3", "--msvs-version=2019", "--make=m", "--cafile=c", "--proxy=p"], {}, {})):
        for platform in ("linux", "win32"):
            put(platform, f"{platform} {opts} {env}", case(host, platform, "installed", opts=opts, env=env, vars=vars))
    for eng in ("--node_engine=chakracore", "--node-engine=chakracore"):
        put("linux", eng, case(host, "linux", "installed", opts=[eng], vars={"node_engine": "chakracore"}, eng="chakracore"))
    put("linux", "npm_config_node_engine", case(host, "linux", "installed", env={"npm_config_node_engine": "chakracore"}, vars={"node_engine": "chakracore"}, eng="chakracore"))
    allp = list(places(host))
    for platform in ("linux", "darwin", "win32"):
        most = 9 if platform == "linux" or vf.THOROUGH else 2
        for place, local, force, debug, arch in itertools.product(allp, itertools.product((False, True), repeat=2), FORCE, DEBUG, ARCH):
            if sum((local != (False, False), force != "none", debug != "none", arch != "none")) > most:
                continue
            put(platform, f"{platform}, {place}, own config.gypi/common.gypi {local}, force {force}, debug {debug}, arch {arch}", case(host, platform, place, local, force, debug, arch))
        for place, fmt, extra, thin, pp in itertools.product(("installed", "nodedir"), FORMATS, ((), ("-Dx=y z",), ("-I", "mine.gypi", "--check"), ("-Dlibrary_x=1", "--no-duplicate-basename-check")), THIN, (None, "/a:/b")):
            if platform == "win32" and fmt not in ("none", "-f", "--format="):
                continue
            if platform == "win32" and fmt == "--format=":
                continue
            put(platform, f"{platform}, {place}, format {fmt}, {extra}, thin {thin}, PYTHONPATH {pp}", case(host, platform, place, fmt=fmt, extra=extra, thin=thin, pythonpath=pp))
        for place, die in itertools.product(("installed", "nodedir"), (1, 2, 127, 255, "KILL", "TERM", "SEGV")):
            put(platform, f"{platform}, {place}, gyp ends with {die}", case(host, platform, place, die=die))
        for t, name in (("v4.0.0", "node"), ("12.3.4", "node"), ("3.3.1", "iojs"), ("v" + host, "node")):
            pl = {"tree": devtree(t.lstrip("v"), name), "dir": f"@R@/dev/{'iojs-' if name == 'iojs' else ''}{t.lstrip('v')}", "own": None}
            pl["common"] = pl["dir"] + "/include/node/common.gypi"
            put(platform, f"{platform}, target {t}", case(host, platform, pl, target=t, name=name))
    for vs, arch, place in itertools.product(VS, ARCH, ("installed", "nodedir", "bare headers")):
        if vs.startswith("2017") and int(host.split(".")[0]) >= 22:
            v12 = dict(places(host)["installed"], tree=devtree("12.0.0"), dir="@R@/dev/12.0.0", common="@R@/dev/12.0.0/include/node/common.gypi")
            if place == "installed":
                put("win32", f"win32, VS {vs}, arch {arch}", case(host, "win32", v12, arch=arch, vs=vs, target="12.0.0"))
            continue
        put("win32", f"win32, VS {vs}, arch {arch}, {place}", case(host, "win32", place, arch=arch, vs=vs))
    for platform, cases in groups.items():
        try:
            res = nodelab.batch("configure.js", [{k: v for k, v in x.items() if k != "want"} for _, x in cases], {"VFJ_PLATFORM": platform}, per=40)
        except vf.Bad as e:
            c.violation(e.what, e.key)
            return c.finish()
        for (told, x), r in zip(cases, res):
            c.add()
            c.seen(told)
            c.count("configurations_" + platform)
            if "error" in r:
                raise vf.Bad("the program fails outside any command: " + r["stack"][-600:], "crash")
            judge(c, told, x, r["ok"], scratch)
    refused(c, host)
    local_tarball(c, host)
    c.sample({"runs": {k: len(v) for k, v in groups.items()}})
    return c.finish()


def refused(c, host):
    """Nothing runs for what cannot be configured."""
    cases = []
    for t in ("nonsense", "4", "v4.0", "latest", "1.2.3.4"):
        x = case(host, "linux", "installed", target=t)
        cases.append((f"target {t}", x))
    for (told, x), r in zip(cases, nodelab.batch("configure.js", [{k: v for k, v in x.items() if k != "want"} for _, x in cases])):
        c.add()
        c.seen(told)
        r = r["ok"]
        if r["runs"] or not r["error"] or r["config"] is not None:
            c.violation(f"{told}: runs gyp {r['runs']} times, {r['error']}", "refused:" + told)


def local_tarball(c, host):
    """With a local archive the headers are taken from it, whatever is installed."""
    cases = []
    for target, forced in itertools.product((host, "4.0.0"), ("option", "variable")):
        body, files = hdrsrv.archive(target, tag="local")
        for have in ({}, devtree(target), {f"dev/{target}/installVersion": "9\n", f"dev/{target}/include/node/common.gypi": "{'old': 1}"}):
            tree = dict(have, **{"h.tar.gz": {"b64": base64.b64encode(body).decode()}})
            cases.append((f"local archive by {forced} for {target} over {sorted(have)[:1]}", files["include/node/common.gypi"].decode(),
                          {"tree": tree, "env": {"npm_config_tarball": "@R@/h.tar.gz"} if forced == "variable" else {}, "config": BASE, "die": 0, "read": f"dev/{target}/include/node/common.gypi",
                           "argv": (["--tarball=@R@/h.tar.gz"] if forced == "option" else []) + [f"--target={target}", "configure"]}))
    for (told, want, x), r in zip(cases, nodelab.batch("configure.js", [x for _, _, x in cases])):
        c.add()
        c.seen(told)
        if "error" in r:
            raise vf.Bad("the program fails outside any command: " + r["stack"][-600:], "crash")
        r = r["ok"]
        if r["runs"] != 1 or r["error"] or r["read"] != want:
            c.violation(f"{told}: {r['error']}, headers are {r['read']!r}", "tarball:" + told)


vf.main(main)
