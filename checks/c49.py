"""C49: the steps of a mac bundle (property lists, resources, frameworks, header maps, archives, signing) that generated builds run produce what Xcode's would."""
import codecs
import contextlib
import importlib.util
import io
import itertools
import json
import os
import plistlib
import subprocess
import sys
import types

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import ctypes  # noqa: E402,F401
import multiprocessing.pool  # noqa: E402,F401
import urllib.request  # noqa: E402,F401
import xml.dom.minidom  # noqa: E402,F401
import xml.sax.saxutils  # noqa: E402,F401

import buildlab as B  # noqa: E402
import macstub  # noqa: E402
import vf  # noqa: E402

STUB = """#!/bin/sh
n=$(basename "$0")
{ printf '%s\\0' "$n" "$@"; printf '%s\\0' "END"; } >> "$VF_LOG"
case "$n" in
security) cp "$4" "$6";;
libtool) printf '%s' "$ZERO_AR_DATE" > "$VF_LOG.env"; printf '%s' "$VF_OUT" >&2; exit "$VF_RC";;
xcrun) printf '%s' "$VF_OUT";;
esac
"""
_tool = None


def tool():
    global _tool
    if _tool is None:
        spec = importlib.util.spec_from_file_location("vf_mac_tool", os.path.join(vf.REPO, "gyp/pylib/gyp/mac_tool.py"))
        _tool = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(_tool)
    return _tool


def bins():
    d = os.path.join(vf.scratch_root(), "c49bin")
    if not os.path.exists(d):
        os.makedirs(d)
        for n in ("xcrun", "security", "codesign", "libtool", "plutil"):
            with open(os.path.join(d, n), "w") as f:
                f.write(STUB)
            os.chmod(os.path.join(d, n), 0o755)
    return d


def run(told, root, args, env=None, shell_env=None):
    """Runs the helper in root as its command line does; (exit status, stdout, stderr, the commands it ran)."""
    log = os.path.join(vf.scratch_root(), f"log{os.getpid()}")
    with contextlib.suppress(FileNotFoundError):
        os.unlink(log)
    was, cwd = dict(os.environ), os.getcwd()
    out, err = io.StringIO(), io.StringIO()
    os.environ.clear()
    os.environ.update({"PATH": bins() + ":/usr/bin:/bin", "VF_LOG": log, "VF_OUT": "", "VF_RC": "0"})
    os.environ.update(env or {})
    os.chdir(root)
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                rc = tool().main(list(args)) or 0
            except SystemExit as e:
                rc = e.code or 0
    except Exception as e:
        raise vf.Bad(f"{told}: {type(e).__name__}: {e}", f"raise:{told}")
    finally:
        os.chdir(cwd)
        os.environ.clear()
        os.environ.update(was)
    ran = []
    if os.path.exists(log):
        with open(log) as f:
            words = f.read().split("\0")[:-1]
        while words:
            k = words.index("END")
            ran.append(words[:k])
            words = words[k + 1:]
    return rc, out.getvalue(), err.getvalue(), ran


def same(told, what, got, want):
    if got != want:
        raise vf.Bad(f"{told}: {what} is {got!r}, should be {want!r}", f"{what}:{told}")


def put(path, data):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(data if isinstance(data, bytes) else data.encode())


def tree(path):
    """Everything below a directory: links by target, files by contents."""
    res = {}
    for base, dirs, files in os.walk(path):
        for n in dirs + files:
            p = os.path.join(base, n)
            k = os.path.relpath(p, path)
            if os.path.islink(p):
                res[k] = ("link", os.readlink(p))
            elif os.path.isdir(p):
                res[k] = ("dir",)
            else:
                with open(p, "rb") as f:
                    res[k] = ("file", f.read())
    return res


# ---- Info.plist ----
ENTRIES = [
    {"Name": "${PRODUCT_NAME}"},
    {"Id": "com.${PRODUCT_NAME:rfc1034identifier}.x"},
    {"Id2": "${EXECUTABLE_NAME:identifier}${PRODUCT_NAME:identifier}"},
    {"Gone": "${UNSET}", "Gone2": "${UNSET} ${PRODUCT_NAME}", "After": "here"},
    {"Kept": "x${UNSET}"},
    {"Flag": True, "N": 3, "L": ["a", "${PRODUCT_NAME}", {"X": "${EXECUTABLE_NAME}"}]},
    {"Deep": {"In": "${UNSET:identifier}", "K": "${EXECUTABLE_NAME}", "Z": "z"}},
    {"T": "$(PRODUCT_NAME)", "Hidden": "${_HIDDEN}", "U": "$PRODUCT_NAME"},
    {"Accent": "\u00e9 ${EXECUTABLE_NAME}", "Blank": "", "Lines": "a\nb"},
    {"Esc": "<a> & \"b\" ${PRODUCT_NAME}"},
]
NAMES = [("p", "exe"), ("a b/c_d\te.f-g", "E E"), ("\u00e9", "P"), ("", "x/y")]
KEYS = [None, {"BuildMachineOSBuild": "22A"}, {"Name": "over ${PRODUCT_NAME}", "Extra": "${UNSET}", "N": 7}]
UNSAFE = "_/ \t\r\n\f\v"


def expand(x, env):
    if isinstance(x, dict):
        y = {k: expand(v, env) for k, v in x.items()}
        return {k: v for k, v in y.items() if not (isinstance(v, str) and v.startswith("${"))}
    if isinstance(x, list):
        return [expand(v, env) for v in x]
    if isinstance(x, str):
        for k, v in env.items():
            if not k.startswith("_"):
                x = x.replace("${%s}" % k, v)
                for suffix, c in (("identifier", "_"), ("rfc1034identifier", "-")):
                    x = x.replace("${%s:%s}" % (k, suffix), "".join(c if z in UNSAFE else z for z in v))
    return x


def plist_job(part, entries, names, keys, package, signature, convert):
    env = {"PRODUCT_NAME": NAMES[names][0], "EXECUTABLE_NAME": NAMES[names][1], "_HIDDEN": "h"}
    src = {"CFBundlePackageType": package}
    for e in entries:
        src.update(ENTRIES[e])
    if signature is not None:
        src["CFBundleSignature"] = signature
    told = f"copy-info-plist of {src} with {env}, keys {KEYS[keys]}, convert {convert}"
    part.add()
    part.seen((told,))
    root = vf.scratch("mp")
    try:
        put(root + "/in/Info.plist", plistlib.dumps(src))
        os.makedirs(root + "/out")
        args = ["copy-info-plist", "in/Info.plist", "out/Info.plist"]
        if convert is not None:
            args.append(str(convert))
            if KEYS[keys]:
                args.append(json.dumps(KEYS[keys]))
        rc, _, _, ran = run(told, root, args, env)
        same(told, "status", rc, 0)
        want = expand({**src, **((convert is not None and KEYS[keys]) or {})}, env)
        with open(root + "/out/Info.plist", "rb") as f:
            same(told, "contents", plistlib.load(f), want)
        sign = signature if signature is not None and len(signature) == 4 else "????"
        names = {"Info.plist"} | ({"PkgInfo"} if package == "APPL" else set())
        same(told, "files", set(os.listdir(root + "/out")), names)
        if package == "APPL":
            with open(root + "/out/PkgInfo") as f:
                same(told, "PkgInfo", f.read(), "APPL" + sign)
        same(told, "commands", ran, [["xcrun", "plutil", "-convert", "binary1", "-o", "out/Info.plist", "out/Info.plist"]] if convert else [])
        part.count("property lists")
    finally:
        vf.rmtree(root)


MERGE = [
    {"a": 1, "d": {"x": 1, "y": {"p": "q"}}},
    {"a": 2, "d": {"y": {"r": [1]}, "z": True}},
    {"d": 5, "b": "t"},
    {"d": {"y": 0}, "c": [1, 2]},
    {"c": [3], "e": {}},
    {},
]


def merge(a, b):
    res = dict(a)
    for k, v in b.items():
        res[k] = merge(res[k] if isinstance(res.get(k), dict) else {}, v) if isinstance(v, dict) else v
    return res


def merge_job(part, which, binary):
    told = f"merge-info-plist of {[MERGE[i] for i in which]}{' (binary)' if binary else ''}"
    part.add()
    part.seen((told,))
    root = vf.scratch("mm")
    try:
        want = {}
        for k, i in enumerate(which):
            put(f"{root}/{k}.plist", plistlib.dumps(MERGE[i], fmt=plistlib.FMT_BINARY if binary and k == binary - 1 else plistlib.FMT_XML))
            want = merge(want, MERGE[i])
        rc, _, _, _ = run(told, root, ["merge-info-plist", "o.plist"] + [f"{k}.plist" for k in range(len(which))])
        same(told, "status", rc, 0)
        with open(root + "/o.plist", "rb") as f:
            same(told, "contents", plistlib.load(f), want)
        for k, i in enumerate(which):
            with open(f"{root}/{k}.plist", "rb") as f:
                same(told, "input", plistlib.load(f), MERGE[i])
        part.count("merges")
    finally:
        vf.rmtree(root)


# ---- frameworks ----
def framework_job(part, name, version, states, binary, others):
    told = f"package-framework {name} {version}, binary {binary}, links {states}, {others}"
    part.add()
    part.seen((told,))
    root = vf.scratch("mf")
    try:
        short = name.split(".")[0]
        f = f"{root}/o/{name}"
        put(f"{f}/Versions/{version}/Resources/r", "r")
        if binary:
            put(f"{f}/Versions/{version}/{short}", "bin")
        if others:
            put(f"{f}/Versions/0/{short}", "old")
            put(f"{f}/Headers/h.h", "h")
        want = {"Versions/Current": version, short: f"Versions/Current/{short}", "Resources": "Versions/Current/Resources"}
        for (k, v), s in zip(want.items(), states):
            if s == "file":
                put(f"{f}/{k}", "plain")
            elif s != "absent":
                os.symlink({"right": v, "other": "Versions", "dangling": "nowhere"}[s], f"{f}/{k}")
        before = tree(f)
        rc, _, _, _ = run(told, root, ["package-framework", f"o/{name}", version])
        same(told, "status", rc, 0)
        after = dict(before)
        if binary:
            after.update({k: ("link", v) for k, v in want.items()})
        same(told, "tree", tree(f), after)
        if binary:
            with open(f"{f}/{short}") as g:
                same(told, "binary", g.read(), "bin")
        part.count("frameworks")
    finally:
        vf.rmtree(root)


def ios_framework_job(part, name, there, headers):
    told = f"package-ios-framework {name} with headers {headers}, there before: {there}"
    part.add()
    part.seen((told,))
    root = vf.scratch("mi")
    try:
        short = name.split(".")[0]
        f = f"{root}/{name}"
        os.makedirs(f)
        if there:
            put(f + "/Modules/module.modulemap", "stale")
            put(f + "/Headers/a.h", "stale")
        for h in headers:
            put(f"{root}/{h}", f"new {h}")
        same(told, "status", run(told, root, ["package-ios-framework", name])[0], 0)
        same(told, "status", run(told, root, ["copy-ios-framework-headers", name, *headers])[0], 0)
        t = tree(f)
        words = t["Modules/module.modulemap"][1].decode().split()
        same(told, "map", words, ["framework", "module", short, "{", "umbrella", "header", f'"{short}.h"', "export", "*", "module", "*", "{", "export", "*", "}", "}"])
        want = {os.path.basename(h): ("file", f"new {h}".encode()) for h in headers}
        if there:
            want.setdefault("a.h", ("file", b"stale"))
        same(told, "headers", {k[8:]: v for k, v in t.items() if k.startswith("Headers/")}, want)
        part.count("framework headers")
    finally:
        vf.rmtree(root)


HEADERS = ["Foo.h", "oof.h", "sub/b.H", "s p/Q.h", "z_long_name-1.hpp", "ab.h", "ba.h", "sub/deeper/I.h", "Foo.hpp"]
MORE = [f"m/{'AbcDef'[i % 6]}{'xYz'[i % 3]}{i}.{'hH'[i % 2]}" for i in range(90)]


def hmap_job(part, which, framework):
    pool = HEADERS + MORE if len(which) > 9 else HEADERS
    headers = [pool[i] for i in which]
    told = f"header map of {headers} for {framework}"
    part.add()
    part.seen((told,))
    root = vf.scratch("mh")
    try:
        for h in headers:
            put(f"{root}/src/{h}", f"IS {h.replace('/', ' ').replace(' ', '_')}\n")
        short = framework.split(".")[0]
        rc, _, _, _ = run(told, root, ["compile-ios-framework-header-map", "o.hmap", "o/" + framework] + ["src/" + h for h in headers])
        same(told, "status", rc, 0)
        lines, want = [], []
        for h in pool:
            b = os.path.basename(h)
            for n in (b, f"{short}/{b}", b.swapcase(), f"{short.upper()}/{b.upper()}"):
                lines += [f"#if __has_include(<{n}>)", f"#include <{n}>", "#else", f"NO {len(want)}", "#endif"]
                want.append("IS " + h.replace("/", " ").replace(" ", "_") if h in headers else f"NO {len(want)}")
        os.makedirs(root + "/cwd")
        os.chdir(root + "/cwd")
        r = subprocess.run(["clang", "-E", "-P", "-nostdinc", "-x", "c", "-I", "../o.hmap", "-"], input="\n".join(lines) + "\n", text=True, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        os.chdir("/")
        same(told, "lookups", [x for x in r.stdout.split("\n") if x], want)
        part.count("header maps")
    finally:
        vf.rmtree(root)


# ---- archives ----
LINES = [
    ("/u/bin/libtool: file: foo.o has no symbols", 0),
    ("libtool: for architecture: x86_64 file: a b.o has no symbols", 0),
    ("/x/libtool: warning for library: y.a the table of contents is empty (no object file members in the library define global symbols)", 0),
    ("libtool: file: foo.o has no symbols at all", 1),
    ("error: x has no symbols", 1),
    ("", 1),
    ("libtool: can't open file: f.o (No such file)", 1),
]


def libtool_job(part, which, rc, words):
    told = f"filter-libtool {words} saying {[LINES[i][0] for i in which]}, status {rc}"
    part.add()
    part.seen((told,))
    root = vf.scratch("ml")
    try:
        for w in words:
            put(f"{root}/{w}", "x")
            os.utime(f"{root}/{w}", (1000, 1000))
        got, out, err, ran = run(told, root, ["filter-libtool", *words], {"VF_OUT": "".join(LINES[i][0] + "\n" for i in which), "VF_RC": str(rc), "ZERO_AR_DATE": ""})
        same(told, "status", got, rc)
        same(told, "commands", ran, [list(words)])
        same(told, "messages", (out, err), ("", "".join(LINES[i][0] + "\n" for i in which if LINES[i][1])))
        with open(os.path.join(vf.scratch_root(), f"log{os.getpid()}.env")) as f:
            same(told, "ZERO_AR_DATE", f.read(), "1")
        archive = [b for a, b in zip(words, words[1:]) if a == "-o" and b.endswith(".a")][:1] if not rc else []
        same(told, "touched", [w for w in sorted(set(words)) if os.stat(f"{root}/{w}").st_mtime != 1000], archive)
        part.count("archives")
    finally:
        vf.rmtree(root)


# ---- resources ----
TREE = {"f": "1", "sub/g": "2", "sub/deep/h": "3"}
CF = types.ModuleType("CoreFoundation")
CF.CFDataCreate = lambda _, s, n: bytes(s[:n])
CF.CFPropertyListCreateFromXMLData = lambda _, d, x, y: (None, "bad" if b"BAD" in d.replace(b"\0", b"") else None)


def resource_job(part, kind, dest, convert):
    told = f"copy-bundle-resource of a {kind}, destination {dest}, convert {convert}"
    part.add()
    part.seen((told,))
    root = vf.scratch("mr")
    try:
        name = {"file": "a.png", "plist": "a.plist", "PLIST": "B.PLIST", "dir": "d.lproj", "strings": "a.strings", "Strings": "a.STRINGS"}[kind.split(" ")[0]]
        data = b"data\0\xff"
        if "strings" in kind.lower():
            text = '"k" = "\u00e9";' + (" BAD" if "bad" in kind else "")
            data = {"utf8": text.encode(), "le": codecs.BOM_UTF16_LE + text.encode("utf-16-le"), "be": codecs.BOM_UTF16_BE + text.encode("utf-16-be")}[kind.split(" ")[1]]
        if kind == "dir":
            for k, v in TREE.items():
                put(f"{root}/s/{name}/{k}", v)
        else:
            put(f"{root}/s/{name}", data)
        d = f"{root}/o/{name}"
        os.makedirs(root + "/o")
        if dest == "old":
            if kind == "dir":
                put(d + "/stale", "s")
                put(d + "/f", "old")
            else:
                put(d, "old and longer than the new one" * 9)
        elif dest == "link":
            put(root + "/target", "mine")
            os.symlink("../target", d)
        sys.modules["CoreFoundation"] = CF
        args = ["copy-bundle-resource", "s/" + name, "o/" + name]
        if convert is not None:
            args.append(str(convert))
        rc, _, _, ran = run(told, root, args)
        same(told, "status", rc, 0)
        if kind == "dir":
            same(told, "tree", {k: v[1].decode() for k, v in tree(d).items() if v[0] == "file"}, TREE)
        elif "strings" in kind.lower() and not convert:
            if "bad" in kind:
                same(told, "written", os.path.lexists(d), dest != "none")
            else:
                with open(d, "rb") as f:
                    got = f.read()
                same(told, "byte order mark", got[:2] in (codecs.BOM_UTF16_LE, codecs.BOM_UTF16_BE), True)
                same(told, "text", got.decode("utf-16"), text)
        else:
            with open(d, "rb") as f:
                same(told, "contents", f.read(), data)
            same(told, "link", os.path.islink(d), False)
        if dest == "link" and not ("strings" in kind.lower() and not convert):
            with open(root + "/target") as f:
                same(told, "linked file", f.read(), "mine")
        conv = convert and kind.split(" ")[0] not in ("file", "dir")
        same(told, "commands", ran, [["xcrun", "plutil", "-convert", "binary1", "-o", "o/" + name, "o/" + name]] if conv else [])
        part.count("resources")
    finally:
        vf.rmtree(root)


IBLINES = ["/* com.apple.ibtool.document.notices */", "/* com.apple.ibtool.document.errors */", "x.xib: note: y is clipping its content", "x.xib:1: warning: w", ""]


def xib_job(part, ext, version, platform, which):
    told = f"copy-bundle-resource of {ext} under Xcode {version} for {platform}, ibtool saying {[IBLINES[i] for i in which]}"
    part.add()
    part.seen((told,))
    root = vf.scratch("mx")
    try:
        put(f"{root}/s/a{ext}", "x")
        env = {"XCODE_VERSION_ACTUAL": version, platform: "9.1", "VF_OUT": "".join(IBLINES[i] + "\n" for i in which)}
        rc, out, err, ran = run(told, root, ["copy-bundle-resource", f"{root}/s/a{ext}", f"{root}/o/a.nib", "False"], env)
        same(told, "status", rc, 0)
        want, section = [], None
        for i in which:
            if i < 2:
                section = IBLINES[i]
            elif i != 2:
                want += ([section] if section else []) + [IBLINES[i]]
                section = None
        same(told, "messages", (out, err), ("".join(w + "\n" for w in want), ""))
        same(told, "commands", len(ran), 1)
        w = ran[0]
        same(told, "tool", w[:2], ["xcrun", "ibtool"])
        same(told, "source", w[-1], f"{root}/s/a{ext}")
        same(told, "destination", w[w.index("--compile") + 1], f"{root}/o/a.nib")
        new = version > "0700"
        same(told, "fonts", "--auto-activate-custom-fonts" in w, new)
        dev = [b for a, b in zip(w, w[1:]) if a == "--target-device"]
        same(told, "devices", dev, [] if not new else ["mac"] if platform.startswith("MAC") else ["iphone", "ipad"])
        same(told, "minimum", [b for a, b in zip(w, w[1:]) if a == "--minimum-deployment-target"], ["9.1"] if new else [])
        part.count("interfaces")
    finally:
        vf.rmtree(root)


XKEYS = ["", {}, {"app-icon": "Icon"}, {"launch-image": "L I", "app-icon": "x"}, {"flag": True, "off": False, "l": ["a", 2]}]


def xcassets_job(part, keys, platform, inputs, configuration):
    told = f"compile-xcassets {inputs} with {XKEYS[keys]} for {platform} in {configuration}"
    part.add()
    part.seen((told,))
    root = vf.scratch("mk")
    try:
        env = {platform: "8.3", "CONFIGURATION": configuration, "CONTENTS_FOLDER_PATH": "o/App.app", "UNLOCALIZED_RESOURCES_FOLDER_PATH": "o/App.app/Contents/Resources"}
        rc, out, err, ran = run(told, root, ["compile-xcassets", json.dumps(XKEYS[keys]) if keys else "", *inputs], env)
        same(told, "status", rc, 0)
        same(told, "commands", len(ran), 1)
        w = ran[0]
        same(told, "tool", w[:2], ["xcrun", "actool"])
        same(told, "inputs", w[len(w) - len(inputs):], [os.path.join(root, i) for i in inputs])
        opts, k, mid = {}, 0, w[2:len(w) - len(inputs)]
        while k < len(mid):
            if k + 1 < len(mid) and not mid[k + 1].startswith("--"):
                opts.setdefault(mid[k], []).append(mid[k + 1])
                k += 2
            else:
                opts.setdefault(mid[k], []).append(None)
                k += 1
        ios = platform.startswith("IPHONE")
        last = configuration.split("-")[-1]
        want = {"--output-format": ["human-readable-text"], "--compress-pngs": [None], "--notices": [None], "--warnings": [None], "--errors": [None],
                "--platform": [(last if last in ("iphoneos", "iphonesimulator") else "iphonesimulator") if ios else "macosx"],
                "--target-device": ["iphone", "ipad"] if ios else ["mac"], "--minimum-deployment-target": ["8.3"],
                "--compile": [os.path.join(root, "o/App.app" if ios else "o/App.app/Contents/Resources")]}
        for a, v in (XKEYS[keys] or {}).items():
            if v is not False:
                want["--" + a] = [None] if v is True else [str(x) for x in v] if isinstance(v, list) else [v]
        same(told, "options", opts, want)
        part.count("asset catalogs")
    finally:
        vf.rmtree(root)


# ---- signing ----
PROFILES = {
    "any1": ("T1.*", ["T1"]), "x1": ("T1.com.x.*", ["T1"]), "app1": ("T1.com.x.app", ["T1"]), "x2": ("T2.com.x.*", ["T0", "T2"]),
    "wrong": ("T9.com.x.app.longest", ["T1"]), "star": ("*", ["T1", "T3"]), "none": (None, []),
}


def sign_job(part, which, asked, ident, entitlements, preserve):
    told = f"code-sign-bundle of {ident} with profiles {which}, asked for {asked!r}, entitlements {entitlements!r}, preserve {preserve}"
    part.add()
    part.seen((told,))
    root = vf.scratch("mg")
    try:
        import fnmatch
        home = root + "/home/Library/MobileDevice/Provisioning Profiles"
        if which is not None:
            os.makedirs(home)
        for p in which or ():
            pattern, teams = PROFILES[p]
            data = {"TeamIdentifier": teams, "Name": p, "Entitlements": {"application-identifier": pattern, "get-task-allow": True, "keychain": "from profile"}} if pattern else {"Name": p}
            put(f"{home}/{p}.mobileprovision", plistlib.dumps(data))
        put(root + "/home/Library/MobileDevice/Provisioning Profiles.txt", "")
        put(root + "/b/App.app/Info.plist", plistlib.dumps({"CFBundleIdentifier": ident}))
        ent = {"keychain": ["$(AppIdentifierPrefix)$(CFBundleIdentifier)", {"k": "$(Other)"}], "own": "$(CFBundleIdentifier)-$(CFBundleIdentifier)", "n": 1}
        put(f"{root}/{entitlements or 'sdk/Entitlements.plist'}", plistlib.dumps(ent))
        env = {"HOME": root + "/home", "BUILT_PRODUCTS_DIR": "b", "CONTENTS_FOLDER_PATH": "App.app", "TARGET_BUILD_DIR": "b", "INFOPLIST_PATH": "App.app/Info.plist", "PRODUCT_NAME": "App", "SDKROOT": "sdk"}
        rc, out, err, ran = run(told, root, ["code-sign-bundle", "Key Name", entitlements, asked, "b/App.app", str(preserve)], env)
        use = [asked] if asked in (which or ()) else list(which or ())
        fits = [(PROFILES[p][0], p, t) for p in use for t in PROFILES[p][1] if fnmatch.fnmatchcase(f"{t}.{ident}", PROFILES[p][0])]
        best = [f for f in fits if len(f[0]) == max(len(g[0]) for g in fits)]
        signed = [r for r in ran if r[0] == "codesign"]
        if not best:
            same(told, "signed", signed, [])
            if not rc or "cannot find mobile provisioning for " + ident not in err:
                raise vf.Bad(f"{told}: no profile fits, but status {rc}: {err}", f"quiet:{told}")
            return
        same(told, "status", rc, 0)
        with open(root + "/b/App.app/embedded.mobileprovision", "rb") as f:
            got = plistlib.load(f)["Name"]
        with open(root + "/b/App.xcent", "rb") as f:
            xcent = plistlib.load(f)
        wants = [(p, {"keychain": [f"{t}.{ident}", {"k": "$(Other)"}], "own": f"{ident}-{ident}", "n": 1, "application-identifier": a, "get-task-allow": True}) for a, p, t in best]
        if (got, xcent) not in wants:
            raise vf.Bad(f"{told}: embeds {got} with {xcent}, should be one of {wants}", f"profile:{told}")
        same(told, "signed", signed, [["codesign", "--force", "--sign", "Key Name"] + (["--deep", "--preserve-metadata=identifier,entitlements"] if preserve else ["--entitlements", "b/App.xcent"]) + ["--timestamp=none", "b/App.app"]])
        part.count("signatures")
    finally:
        vf.rmtree(root)


# ---- whole bundles, built from what the generators write ----
_mac = None


def macbin():
    """Stand-ins for Apple's tools, in front of PATH."""
    global _mac
    if _mac is None:
        d = os.path.join(vf.scratch_root(), f"mactools{os.getpid()}")
        os.makedirs(d)
        for n in ("libtool", "strip", "dsymutil"):
            os.link(B.tools() + "/cc", os.path.join(d, n))
        for n in ("otool", "nm", "plutil"):
            with open(os.path.join(d, n), "w") as f:
                f.write("#!/bin/sh\nexit 0\n")
            os.chmod(os.path.join(d, n), 0o755)
        _mac = d + ":" + macstub.path()
    return _mac


RESOURCES = {"r.png": "r.png", "en.lproj/x.txt": "en.lproj/x.txt", "s/q.dat": "q.dat", "s/fr.lproj/y.txt": "fr.lproj/y.txt", "../p.json": "p.json"}
INFO = {"CFBundlePackageType": "APPL", "Exe": "${EXECUTABLE_NAME}", "Name": "${PRODUCT_NAME:rfc1034identifier}", "Full": "${FULL_PRODUCT_NAME}", "Conf": "${CONFIGURATION}", "Mine": "<${MY_SETTING}>", "Gone": "${UNSET}", "Wrap": "${WRAPPER_NAME}"}


def bundle_job(part, fmt, typ, where, names, version, resources, info, made, configs):
    told = f"{fmt} bundle of {typ} in {where}, names {names}, version {version}, resources {resources}, Info.plist {info}, generated resource {made}, configurations {configs}"
    part.add()
    part.seen((told,))
    root = vf.scratch("mb")
    try:
        def norm(x):
            return os.path.normpath(os.path.join(where, x))
        name, ext = names
        t = {"target_name": "t", "type": typ, "mac_bundle": 1, "sources": ["a.c"], "mac_bundle_resources": list(resources), "configurations": {c: {} for c in configs}, "default_configuration": configs[0]}
        x = t["xcode_settings"] = {"MY_SETTING": "mine"}
        if name:
            t["product_name"] = name
        if ext:
            t["product_extension"] = ext
        if version:
            x["FRAMEWORK_VERSION"] = version
        if info:
            x["INFOPLIST_FILE"] = info
        if made:
            t["actions"] = [{"action_name": "m", "inputs": ["in.txt"], "outputs": ["<(INTERMEDIATE_DIR)/made.txt"], "action": ["cp", "in.txt", "<(INTERMEDIATE_DIR)/made.txt"], "process_outputs_as_mac_bundle_resources": 1}]
        files = {norm("a.gyp"): {"targets": [t]}, norm("a.c"): "int a;\n", norm("in.txt"): "made"}
        files.update({norm(r): "1 " + r for r in resources})
        if info:
            files[norm(info)] = plistlib.dumps(INFO).decode()
        env = {"PATH": macbin() + ":" + os.environ["PATH"]}
        r = B.generate(root, fmt, files, args=(norm("a.gyp"),), env=env, pre=lambda: setattr(sys, "platform", "darwin"))
        same(told, "generated", (r.status, r.stderr[-900:] if r.status else ""), (0, ""))
        name = name or "t"
        full = name + "." + (ext or {"executable": "app", "shared_library": "framework", "loadable_module": "bundle"}[typ])
        v = f"Versions/{version or 'A'}/"
        exe, res, plist = {"shared_library": (v + name, v + "Resources/", v + "Resources/Info.plist")}.get(typ, ("Contents/MacOS/" + name, "Contents/Resources/", "Contents/Info.plist"))
        for step, config in [(0, c) for c in configs] + [(1, configs[0])]:
            if step:
                for r in resources[:1]:
                    with open(os.path.join(root, norm(r)), "w") as f:
                        f.write("2 " + r)
                if info:
                    with open(os.path.join(root, norm(info)), "wb") as f:
                        f.write(plistlib.dumps({**INFO, "New": "${PRODUCT_NAME}"}))
                for r in list(resources[:1]) + ([info] if info else []):
                    os.utime(os.path.join(root, norm(r)), (2e9, 2e9))
            ran = B.build(root, fmt, config=config, env=env)
            same(told, "build status", (ran.rc, ran.out[-600:] if ran.rc else ""), (0, ""))
            d = f"{root}/out/{config}/{full}"
            got = {k: x for k, x in tree(d).items() if x[0] != "dir"}
            want = {res + RESOURCES[r]: ("file", f"{1 + (step and r == resources[0])} {r}".encode()) for r in resources}
            if made:
                want[res + "made.txt"] = ("file", b"made")
            links = {"Versions/Current": version or "A", name: f"Versions/Current/{name}", "Resources": "Versions/Current/Resources"} if typ == "shared_library" else {}
            want.update({k: ("link", x) for k, x in links.items()})
            if info:
                want[os.path.join(os.path.dirname(plist), "PkgInfo")] = ("file", b"APPL????")
                p = plistlib.loads(got.pop(plist, ("file", b""))[1])
                if fmt == "ninja":  # adds what describes the machine and the SDK
                    p = {k: x for k, x in p.items() if not k.startswith(("DT", "BuildMachine"))}
                full_info = {"CFBundlePackageType": "APPL", "Exe": name, "Name": name.replace("_", "-"), "Full": full, "Conf": config, "Mine": "<mine>", "Wrap": full}
                same(told, "property list", p, {**full_info, **({"New": name} if step else {})})
            binary = got.pop(exe, None)
            same(told, "binary", bool(binary and binary[0] == "file"), True)
            same(told, "bundle", got, want)
        part.count("bundles")
    finally:
        vf.rmtree(root)


def job(part, item):
    {"bundle": bundle_job, "plist": plist_job, "merge": merge_job, "framework": framework_job, "ios": ios_framework_job, "hmap": hmap_job, "libtool": libtool_job,
     "resource": resource_job, "xib": xib_job, "xcassets": xcassets_job, "sign": sign_job}[item[0]](part, *item[1:])


def upto(xs, n, least=0):
    for k in range(least, n + 1):
        yield from itertools.combinations(xs, k)


def main():
    deep = vf.THOROUGH
    c = vf.Check("C49", "model_checking",
                 "every set of up to 2 (thorough 4) of 10 kinds of Info.plist entries x names x keys x package types; every sequence of up to 3 (4) lists to merge; every state of a framework's links; every set of up to 3 (4) of 9 "
                 "headers in a header map read by clang; every sequence of up to 3 (4) message lines of libtool and ibtool; every kind of resource x destination; every set of up to 3 (all) of 7 provisioning profiles",
                 ["xcrun, codesign, security, libtool and CoreFoundation are stand-ins that record their arguments"])
    todo = []
    P = itertools.product
    for e in upto(range(len(ENTRIES)), 4 if deep else 2):
        for names, keys, (package, sig) in P(range(len(NAMES)), range(len(KEYS)), (("APPL", None), ("APPL", "abcd"), ("FMWK", "abcd"), ("BNDL", None))):
            todo.append(("plist", e, names, keys, package, sig, None if not keys and len(todo) % 3 == 0 else len(todo) % 5 == 0))
    for e, sig in P(range(len(ENTRIES)), ("abc", "", "abcde", "\u00e9bcd"[1:] + "z")):
        todo.append(("plist", (e,), 0, 1, "APPL", sig, False))
    for n in range(1, 5 if deep else 4):
        for w in P(range(len(MERGE)), repeat=n):
            todo.append(("merge", w, len(todo) % (n + 1) if n < 4 else 0))
    for name, version, states, binary, others in P(("N.framework", "N.b.framework"), ("A", "Current1"), P(("absent", "right", "other", "dangling", "file"), repeat=3), (True, False), (True, False)):
        if deep or name == "N.framework" or version == "A":
            todo.append(("framework", name, version, states, binary, others))
    for name, there, h in P(("K.framework", "K.b.framework"), (0, 1), upto(("a.h", "s/a.h", "s/b.h", "B.h"), 2)):
        todo.append(("ios", name, there, h))
    for w in upto(range(len(HEADERS)), 4 if deep else 3, 1):
        todo.append(("hmap", w, ("K.framework", "Foo.b.framework")[len(todo) % 2]))
        todo.append(("hmap", w[::-1], "K.framework"))
    todo += [("hmap", tuple(range(n)), "Kit.framework") for n in ((15, 16, 17, 31, 32, 33, 63, 64, 65, 99) if not deep else range(10, 100))]
    for n in range(0, 5 if deep else 4):
        for w in P(range(len(LINES)), repeat=n):
            for rc, words in P((0, 3), (("libtool", "-static", "-o", "lib y.a", "-o", "z.a", "f.o"), ("libtool", "-o", "x.dylib", "f.a"))) if n < 3 else ((0, ("libtool", "-o", "q.a")),):
                todo.append(("libtool", w, rc, words))
    for kind, dest, convert in P(("file", "plist", "PLIST", "dir", "strings utf8", "strings le", "strings be", "Strings utf8", "strings utf8 bad"), ("none", "old", "link"), (None, False, True)):
        if kind != "dir" or dest != "link":
            todo.append(("resource", kind, dest, convert))
    for n in range(0, 5 if deep else 4):
        for w in P(range(len(IBLINES)), repeat=n):
            for ext, version, platform in P((".xib", ".storyboard", ".XIB"), ("0630", "0701", "1420"), ("IPHONEOS_DEPLOYMENT_TARGET", "MACOSX_DEPLOYMENT_TARGET")) if n < 2 else ((".xib", "1420", "MACOSX_DEPLOYMENT_TARGET"),):
                todo.append(("xib", ext, version, platform, w))
    for keys, platform, inputs, conf in P(range(len(XKEYS)), ("IPHONEOS_DEPLOYMENT_TARGET", "MACOSX_DEPLOYMENT_TARGET"), (("a.xcassets",), ("s/a.xcassets", "b c.xcassets")), ("Debug", "Release-iphoneos", "A-b-iphonesimulator")):
        todo.append(("xcassets", keys, platform, inputs, conf))
    for k, (w, asked) in enumerate(P([None] + list(upto(sorted(PROFILES), 7 if deep else 3)), ("", "x1", "star", "missing"))):
        for i, (ident, ent) in enumerate(P(("com.x.app", "com.y", "com.x.app.w"), ("", "s/E.plist"))):
            if deep or (k + i) % 2 == 0 or w is None:
                todo.append(("sign", w, asked, ident, ent, bool((k + i) // 2 % 2)))
    B.tools()
    macstub.path()
    for fmt, typ in P(("make", "ninja"), ("executable", "shared_library", "loadable_module")):
        k = 0
        for resources in upto(list(RESOURCES), 3 if deep else 1):
            for names, version, info, made, configs in P(((None, None), ("P_q", None), ("N", "ext")), (None, "B"), (None, "Info.plist", "s/my.plist"), (0, 1), (("Default",), ("Debug", "Release"))):
                k += 1
                if deep and len(resources) < 2 or k % (5 if deep else 7) == 0:
                    todo.append(("bundle", fmt, typ, ("d", ".")[k % 2] if "../p.json" not in resources else "d", names, version, resources, info, made, configs))
    if os.environ.get("VF_ONLY"):
        todo = [t for t in todo if t[0] in os.environ["VF_ONLY"].split(",")]
    vf.pmap(c, job, todo)
    return c.finish()


vf.main(main)
