"""C47: on macOS, what make and ninja run for a target is what its Xcode settings say."""
import itertools
import os
import re
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import ctypes  # noqa: E402,F401
import multiprocessing.pool  # noqa: E402,F401
import plistlib  # noqa: E402,F401
import subprocess  # noqa: E402,F401
import urllib.request  # noqa: E402,F401
import xml.dom.minidom  # noqa: E402,F401
import xml.sax.saxutils  # noqa: E402,F401

import buildlab as B  # noqa: E402
import macstub  # noqa: E402
import vf  # noqa: E402

KINDS = ["executable", "static_library", "shared_library", "loadable_module"]
LANGS = {"c": "a.c", "cc": "b.cc", "m": "c.m", "mm": "d.mm"}
BOTH = ("c", "cc", "m", "mm")
OBJC = ("m", "mm")
# setting: (languages, flag when YES, flag when NO, flag when not set)
SWITCHES = {
    "CLANG_WARN_CONSTANT_CONVERSION": (BOTH, "-Wconstant-conversion", None, None),
    "GCC_CHAR_IS_UNSIGNED_CHAR": (BOTH, "-funsigned-char", None, None),
    "GCC_CW_ASM_SYNTAX": (BOTH, "-fasm-blocks", None, "-fasm-blocks"),
    "GCC_DYNAMIC_NO_PIC": (BOTH, "-mdynamic-no-pic", None, None),
    "GCC_ENABLE_PASCAL_STRINGS": (BOTH, "-mpascal-strings", None, "-mpascal-strings"),
    "GCC_GENERATE_DEBUGGING_SYMBOLS": (BOTH, "-gdwarf-2", None, "-gdwarf-2"),
    "GCC_STRICT_ALIASING": (BOTH, "-fstrict-aliasing", "-fno-strict-aliasing", None),
    "GCC_SYMBOLS_PRIVATE_EXTERN": (BOTH, "-fvisibility=hidden", None, None),
    "GCC_TREAT_WARNINGS_AS_ERRORS": (BOTH, "-Werror", None, None),
    "GCC_WARN_ABOUT_MISSING_NEWLINE": (BOTH, "-Wnewline-eof", None, None),
    "LLVM_LTO": (BOTH, "-flto", None, None),
    "GCC_ENABLE_SSE3_EXTENSIONS": (BOTH, "-msse3", None, None),
    "GCC_ENABLE_SUPPLEMENTAL_SSE3_INSTRUCTIONS": (BOTH, "-mssse3", None, None),
    "GCC_ENABLE_SSE41_EXTENSIONS": (BOTH, "-msse4.1", None, None),
    "GCC_ENABLE_SSE42_EXTENSIONS": (BOTH, "-msse4.2", None, None),
    "GCC_ENABLE_CPP_RTTI": (("cc", "mm"), None, "-fno-rtti", None),
    "GCC_ENABLE_CPP_EXCEPTIONS": (("cc", "mm"), None, "-fno-exceptions", None),
    "GCC_INLINES_ARE_PRIVATE_EXTERN": (("cc", "mm"), "-fvisibility-inlines-hidden", None, None),
    "GCC_THREADSAFE_STATICS": (("cc", "mm"), None, "-fno-threadsafe-statics", None),
    "GCC_WARN_ABOUT_INVALID_OFFSETOF_MACRO": (("cc", "mm"), None, "-Wno-invalid-offsetof", None),
    "CLANG_ENABLE_OBJC_ARC": (OBJC, "-fobjc-arc", None, None),
    "CLANG_WARN_OBJC_MISSING_PROPERTY_SYNTHESIS": (OBJC, "-Wobjc-missing-property-synthesis", None, None),
    "GCC_OBJC_CALL_CXX_CDTORS": (("mm",), "-fobjc-call-cxx-cdtors", None, None),
    "DEAD_CODE_STRIPPING": (("link",), "-Wl,-dead_strip", None, None),
    "PREBINDING": (("link",), "-Wl,-prebind", None, None),
}
VALUES = {
    "GCC_OPTIMIZATION_LEVEL": ["0", "3", "s"],
    "GCC_C_LANGUAGE_STANDARD": ["c99", "ansi"],
    "CLANG_CXX_LANGUAGE_STANDARD": ["c++14"],
    "CLANG_CXX_LIBRARY": ["libc++"],
    "GCC_ENABLE_OBJC_GC": ["supported", "required", "unsupported"],
    "MACOSX_DEPLOYMENT_TARGET": ["10.9"],
    "SDKROOT": ["macosx10.12", "macosx10.9", "/abs/sdk"],
    "ARCHS": [["arm64"], ["$(ARCHS_STANDARD)"]],
    "VALID_ARCHS": [["x86_64"]],
    "DEBUG_INFORMATION_FORMAT": ["dwarf"],
    "OTHER_CFLAGS": [["-fo1"], ["-fo2", "-fo1", "-fo2"]],
    "OTHER_CPLUSPLUSFLAGS": [["-fp1"], ["-fp2", "$(inherited)"], ["$(OTHER_CFLAGS)", "-fp1", "$inherited"], ["-fp1", "-fp2", "-fp1"], ["${OTHER_CFLAGS}"], []],
    "WARNING_CFLAGS": [["-Wa1"], ["-Wa2", "-Wa1"]],
    "OTHER_LDFLAGS": [["-Wl,-z1"], ["-Llib", "-Wl,-z2"], ["-Wl,-exported_symbols_list,e.txt"], ["-Wl,-reexported_symbols_list,../r.txt", "-Wl,-z3", "-L."], ["-Wl,-unexported_symbols_list u.txt", "-Wl,-sectcreate,__X,__y,f.bin"]],
    "LIBRARY_SEARCH_PATHS": [["l1"], ["../l2", "/abs/l"]],
    "LD_RUNPATH_SEARCH_PATHS": [["@loader_path/x"], ["@rpath/y", "/z"]],
    "ORDER_FILE": ["o.order"],
    "DYLIB_COMPATIBILITY_VERSION": ["1.2"],
    "DYLIB_CURRENT_VERSION": ["3.4.5"],
    "DYLIB_INSTALL_NAME_BASE": ["@rpath", "@loader_path/../x", "/a//b/./c", "@executable_path/a/../../b/"],
    "LD_DYLIB_INSTALL_NAME": ["@rpath/some.dylib"],
    "CODE_SIGN_IDENTITY[sdk=iphoneos*]": ["x"],
}
PER_TARGET = {"DYLIB_INSTALL_NAME_BASE", "LD_DYLIB_INSTALL_NAME"}
TWO = ("-arch", "-isysroot", "-install_name", "-framework", "-compatibility_version", "-current_version", "-iframework")


def sdk(x):
    return {"macosx10.9": "/sdk9", "/abs/sdk": "/abs/sdk"}.get(x.get("SDKROOT"), "/sdk")


def active(x):
    """Something is left to build for (with nothing left Xcode refuses), and it is one architecture."""
    archs = {"x86_64" if a.startswith("$") else a for a in x.get("ARCHS", ["$"])}
    return len(archs & set(x.get("VALID_ARCHS", archs))) == 1


def settings():
    for k in SWITCHES:
        for v in ("YES", "NO"):
            yield k, v
    for k, vs in VALUES.items():
        for v in vs:
            yield k, v


# ---- the model: flags of each language, and of the linker ----
def expected(x, kind, made, lang, path, framework_dirs=()):
    """(flags as a multiset, lists of flags that must appear in that order)"""
    flags, lists = [], []
    for k, (langs, yes, no, unset) in SWITCHES.items():
        f = {"YES": yes, "NO": no, None: unset}[x.get(k)]
        if lang in langs and f:
            flags.append(f)
    if x.get("MACOSX_DEPLOYMENT_TARGET"):
        flags.append("-mmacosx-version-min=" + x["MACOSX_DEPLOYMENT_TARGET"])
    if "SDKROOT" in x:
        flags.append("-isysroot " + sdk(x))
    archs = x.get("ARCHS", ["$(ARCHS_STANDARD)"])
    archs = list(dict.fromkeys("x86_64" if a.startswith("$") else a for a in archs))
    if "VALID_ARCHS" in x:
        archs = [a for a in archs if a in x["VALID_ARCHS"]]
    arch = archs[0] if len(archs) == 1 else "i386"
    flags.append("-arch " + arch)
    if arch not in ("i386", "x86_64"):
        flags = [f for f in flags if not f.startswith(("-msse", "-mssse"))]
    if lang == "link":
        ld = x.get("OTHER_LDFLAGS", [])
        mapped = []
        for f in ld:
            m = re.match(r"(-Wl,-(?:un|re)?exported_symbols_list[ ,])(.*)|(-Wl,-sectcreate,\w+,\w+,)(.*)|(-L)(.*)", f)
            mapped += ((m.group(1) or m.group(3) or m.group(5)) + path(m.group(2) or m.group(4) or m.group(6))).split(" ") if m else [f]
        lists.append(mapped)
        lists.append(["-L" + path(p) for p in x.get("LIBRARY_SEARCH_PATHS", [])])
        lists.append(["-Wl,-rpath," + p for p in x.get("LD_RUNPATH_SEARCH_PATHS", [])])
        lists.append(["-F" + d for d in framework_dirs])
        if "ORDER_FILE" in x:
            lists.append(["-Wl,-order_file", "-Wl," + path(x["ORDER_FILE"])])
        for k, f in (("DYLIB_COMPATIBILITY_VERSION", "-compatibility_version "), ("DYLIB_CURRENT_VERSION", "-current_version ")):
            if k in x:
                flags.append(f + x[k])
        if "CLANG_CXX_LIBRARY" in x:
            flags.append("-stdlib=" + x["CLANG_CXX_LIBRARY"])
        if kind == "shared_library":
            base = x.get("DYLIB_INSTALL_NAME_BASE", "/usr/local/lib")
            base = {"/a//b/./c": "/a/b/c", "@executable_path/a/../../b/": "@executable_path/../b"}.get(base, base)
            flags.append("-install_name " + x.get("LD_DYLIB_INSTALL_NAME", base + "/" + made))
        flags += {"shared_library": ["-shared"], "loadable_module": ["-bundle"], "executable": []}[kind]
    else:
        flags.append("-O" + x.get("GCC_OPTIMIZATION_LEVEL", "s"))
        lists.append(x.get("WARNING_CFLAGS", []))
        lists.append(["-F" + d for d in framework_dirs])
        oc = x.get("OTHER_CFLAGS", [])
        if lang in ("c", "m"):
            if "GCC_C_LANGUAGE_STANDARD" in x:
                flags.append("-ansi" if x["GCC_C_LANGUAGE_STANDARD"] == "ansi" else "-std=" + x["GCC_C_LANGUAGE_STANDARD"])
            lists.append(oc)
        else:
            if "CLANG_CXX_LANGUAGE_STANDARD" in x:
                flags.append("-std=" + x["CLANG_CXX_LANGUAGE_STANDARD"])
            if "CLANG_CXX_LIBRARY" in x:
                flags.append("-stdlib=" + x["CLANG_CXX_LIBRARY"])
            mine = []
            for f in x.get("OTHER_CPLUSPLUSFLAGS", ["$(inherited)"]):
                mine += oc if f.startswith("$") else [f]
            lists.append(mine)
        if lang in OBJC:
            gc = {"supported": "-fobjc-gc", "required": "-fobjc-gc-only"}.get(x.get("GCC_ENABLE_OBJC_GC"))
            if gc:
                flags.append(gc)
    return flags, lists


def contains(words, part):
    return not part or any(words[i:i + len(part)] == part for i in range(len(words) - len(part) + 1))


def subseq(part, words):
    it = iter(words)
    return all(x in it for x in part)


def compare(told, words, want, key):
    flags, lists = want
    every = sorted(flags + [f for ls in lists for f in ls])
    if sorted(words) != every:
        more, less = list(words), []
        for f in every:
            if f in more:
                more.remove(f)
            else:
                less.append(f)
        raise vf.Bad(f"{told}: has {more} too much and lacks {less}; all of it is {words}", key)
    for ls in lists:
        if not subseq(ls, words):
            raise vf.Bad(f"{told}: {ls} are not in that order in {words}", key)


_mac = None


def macbin():
    """Stand-ins for Apple's tools, in front of PATH."""
    global _mac
    if _mac is None:
        d = os.path.join(vf.scratch_root(), "mactools")
        os.makedirs(d, exist_ok=True)
        for n in ("libtool", "strip", "dsymutil"):
            os.link(B.tools() + "/cc", os.path.join(d, n))
        for n in ("otool", "nm"):
            with open(os.path.join(d, n), "w") as f:
                f.write("#!/bin/sh\nexit 0\n")
            os.chmod(os.path.join(d, n), 0o755)
        _mac = d + ":" + macstub.path()
    return _mac


def generate(root, fmt, files, gyps):
    env = {"PATH": macbin() + ":" + os.environ["PATH"]}
    return B.generate(root, fmt, files, args=gyps, env=env, pre=lambda: setattr(sys, "platform", "darwin"))


def words_of(cwd, argv):
    out, it = [], iter(argv[1:])
    for a in it:
        if a.startswith("@") and os.path.isfile(os.path.join(cwd, a[1:])):
            with open(os.path.join(cwd, a[1:])) as f:
                out += f.read().split()
        else:
            out.append(a)
    return out


def observe(root, fmt, config, told, part):
    """-> (compiles {source: [(tool, flags, defines, includes, object)]}, links {output: (tool, flags, inputs, libs)}, tools [(name, words)])"""
    x = B.build(root, fmt, config=config, env={"PATH": macbin() + ":" + os.environ["PATH"]}, extra=("-d", "keeprsp") if fmt == "ninja" else ())
    part.count("builds")
    if x.rc:
        raise vf.Bad(f"{told}: the build ends with {x.rc}: {x.out[-500:]}", f"rc:{told}")
    compiles, links, others = {}, {}, []
    for cwd, argv in x.calls:
        tool = os.path.basename(argv[0])

        def full(p, cwd=cwd):
            return os.path.normpath(os.path.join(cwd, p))

        if tool in ("strip", "dsymutil"):
            others.append((tool, argv[1:], cwd))
            continue
        if tool not in ("cc", "cxx", "libtool"):
            continue
        flags, plain, defines, incs, libs, outp, it = [], [], [], [], [], None, iter(words_of(cwd, argv))
        for a in it:
            if a in ("-o", "-MF"):
                v = next(it)
                outp = full(v) if a == "-o" else outp
            elif a in TWO:
                v = next(it)
                if a == "-framework":
                    libs.append(a + " " + v)
                else:
                    flags.append(a + " " + v)
            elif a in ("-c", "-MMD", "-static"):
                if a == "-c":
                    flags.append(a)
            elif a.startswith("-D"):
                defines.append(a[2:])
            elif a.startswith("-I"):
                incs.append(full(a[2:]))
            elif tool == "libtool" and not a.endswith((".o", ".a")):
                flags.append(a)
            elif a.startswith("-L"):
                flags.append("-L" + full(a[2:]))
            elif re.match(r"-Wl,-?(un|re)?exported_symbols_list,|-Wl,-sectcreate,", a):
                head, tail = a.rsplit(",", 1)
                flags.append(head + "," + full(tail))
            elif flags and flags[-1] in ("-Wl,-exported_symbols_list", "-Wl,-unexported_symbols_list"):
                flags.append(full(a))
            elif flags and flags[-1] == "-Wl,-order_file":
                flags.append("-Wl," + full(a[4:]))
            elif a.startswith("-l"):
                libs.append(a)
            elif a.startswith("-"):
                flags.append(a)
            else:
                plain.append(full(a))
        if "-c" in flags:
            flags.remove("-c")
            if len(plain) != 1:
                raise vf.Bad(f"{told}: compile of {plain}", f"inputs:{told}")
            compiles.setdefault(plain[0], []).append((tool, flags, defines, incs, outp))
        else:
            links[outp] = (tool, flags, plain, libs)
    return compiles, links, others


def product(spec):
    kind = spec["type"]
    name = spec["target_name"]
    if kind != "executable" and name.startswith("lib"):
        name = name[3:]
    name = spec.get("product_name", name)
    prefix = spec.get("product_prefix", {"executable": "", "loadable_module": ""}.get(kind, "lib"))
    ext = {"executable": "", "static_library": ".a", "shared_library": ".dylib", "loadable_module": ".so"}[kind]
    if "product_extension" in spec:
        ext = "." + spec["product_extension"]
    if spec.get("mac_bundle"):
        whole = spec.get("product_name", spec["target_name"])
        wrap = whole + "." + spec.get("product_extension", {"executable": "app", "shared_library": "framework", "loadable_module": "bundle"}[kind])
        return wrap + ("/Versions/A/" if kind == "shared_library" else "/Contents/MacOS/") + whole
    return prefix + name + ext


def judge(root, fmt, where, config, specs, got, told):
    """specs: [(spec, settings of that configuration, extra {defines, include_dirs, libs, frameworks, deps, framework_dirs})]"""
    compiles, links, others = got
    here = os.path.normpath(os.path.join(root, where))
    done = 0
    for spec, x, extra in specs:
        name, kind = spec["target_name"], spec["type"]
        note = f"{told}: {name}"
        objs = []
        for lang, s in LANGS.items():
            src = os.path.join(here, name + s)
            cs = compiles.get(src, [])
            if len(cs) != 1:
                raise vf.Bad(f"{note}: {name + s} is compiled {len(cs)} times", f"times:{fmt}:{told}:{name}")
            tool, flags, defines, incs, obj = cs[0]
            done += 1
            objs.append(obj)
            if tool != {"c": "cc", "m": "cc"}.get(lang, "cxx"):
                raise vf.Bad(f"{note}: {lang} is compiled by {tool}", f"tool:{fmt}:{told}:{name}")
            compare(f"{note}: .{lang} of {spec['type']} with {x}", flags, expected(x, kind, product(spec), lang, None, extra.get("framework_dirs", ())), f"flags:{fmt}:{lang}:{told}:{name}")
            if defines != extra.get("defines", []) or incs != [os.path.normpath(os.path.join(here, i)) for i in extra.get("include_dirs", [])]:
                raise vf.Bad(f"{note}: .{lang} has defines {defines} and directories {incs}", f"defines:{fmt}:{told}:{name}")
        out = os.path.join(root, "out", config)
        p = product(spec)
        cand = [o for o in links if o.endswith("/" + p) and set(objs) <= set(links[o][2])]
        if len(cand) != 1:
            raise vf.Bad(f"{note}: {p} of {kind} is not made; made are {sorted(os.path.relpath(o, root) for o in links)}", f"product:{fmt}:{told}:{name}")
        if kind in ("executable", "loadable_module") and cand[0] != os.path.join(out, p):
            raise vf.Bad(f"{note}: made as {os.path.relpath(cand[0], root)}", f"place:{fmt}:{told}:{name}")
        tool, flags, inputs, libs = links[cand[0]]
        if kind == "static_library":
            if tool != "libtool" or sorted(inputs) != sorted(objs) or flags != " ".join(x.get("OTHER_LDFLAGS", [])).split():
                raise vf.Bad(f"{note}: archived by {tool} with {flags} from {inputs}", f"archive:{fmt}:{told}:{name}")
            continue
        places = {"-L" + out, "-L" + os.path.join(out, "lib")}
        mine = [f for f in flags if f in places]
        flags = [f for f in flags if f not in places and not (f in ("-Wl,-search_paths_first",))]
        if not mine:
            raise vf.Bad(f"{note}: is not linked with the product directory", f"productdir:{fmt}:{told}:{name}")
        want = expected(x, kind, product(spec), "link", lambda q: os.path.normpath(os.path.join(here, q)), extra.get("framework_dirs", ()))
        compare(f"{note}: link of {kind} with {x}", flags, want, f"link:{fmt}:{told}:{name}")
        if libs != extra.get("libs", []):
            raise vf.Bad(f"{note}: links {libs}, should {extra.get('libs', [])}", f"libs:{fmt}:{told}:{name}")
        deps = sorted(os.path.basename(i) for i in inputs if i not in objs)
        if not set(objs) <= set(inputs) or deps != sorted(extra.get("deps", [])):
            raise vf.Bad(f"{note}: links {deps} besides its objects", f"deps:{fmt}:{told}:{name}")
    n = sum(len(c) for c in compiles.values())
    if n != done:
        raise vf.Bad(f"{told}: {n} compiles, should be {done}", f"count:{fmt}:{told}")
    return others


def project(items):
    """[(name, kind, {configuration: settings}, base settings)] -> gyp targets"""
    targets = []
    for name, kind, confs, base in items:
        t = {"target_name": name, "type": kind, "sources": [name + s for s in LANGS.values()], "default_configuration": sorted(confs)[0], "configurations": {c: {"xcode_settings": x} if x else {} for c, x in confs.items()}}
        if base:
            t["xcode_settings"] = base
        targets.append(t)
    return targets


def build_all(part, told, where, targets, specs_of, configs, fmts=("make", "ninja")):
    for fmt in fmts:
        root = vf.scratch("c47")
        try:
            files = {f"{where}/{s}": "EXPORT f\n" for t in targets for s in t["sources"]}
            r = generate(root, fmt, {**files, f"{where}/a.gyp": {"targets": targets}}, (f"{where}/a.gyp",))
            if not r.ok:
                raise vf.Bad(f"{fmt}: {told}: not generated: {r.stderr[-400:]}", f"gen:{fmt}:{told}")
            for c in configs:
                part.add(len(targets))
                part.seen((fmt, told, c))
                judge(root, fmt, where, c, specs_of(c), observe(root, fmt, c, f"{fmt}: {told}", part), f"{fmt}: {told} ({c})")
        except vf.Bad as e:
            part.violation(str(e), e.key)
        finally:
            vf.rmtree(root)


def batch_job(part, where, cells):
    """Each cell: (kind, settings); a target each."""
    items = [(f"t{i}", k, {"Default": dict(x)}, None) for i, (k, x) in enumerate(cells)]
    targets = project(items)
    build_all(part, f"{where}: {cells[0]} and {len(cells) - 1} more", where, targets, lambda c: [(t, dict(x), {}) for t, (_, x) in zip(targets, cells)], ("Default",))


def config_job(part, kind, cells):
    """Each cell (a setting, its value in the target, in one configuration, in the other): each configuration has its own."""
    items, per = [], {}
    for i, (k, base, one, two) in enumerate(cells):
        name = f"t{i}"
        items.append((name, kind, {"Default": {k: one} if one is not None else {}, "Other": {k: two} if two is not None else {}}, {k: base} if base is not None else None))
        for c, v in (("Default", one), ("Other", two)):
            if isinstance(v, list) and base is not None:
                v = base + [w for w in v if w.startswith("-") or w not in base]
            v = base if v is None else v
            per[name, c] = {} if v is None else {k: v}
    targets = project(items)
    build_all(part, f"configurations of {cells[0]} and {len(cells) - 1} more", "d", targets, lambda c: [(t, per[t["target_name"], c], {}) for t in targets], ("Default", "Other"))


LIBS = [([], []), (["libz.dylib"], ["-lz"]), (["liba.a", "-lx"], ["-la", "-lx"]), (["Cocoa.framework"], ["-framework Cocoa"]), (["$(SDKROOT)/System/Library/Frameworks/Foo.framework", "-lq"], ["-framework Foo", "-lq"]),
        (["-lx", "-lx", "libx.dylib"], ["-lx", "-lx"])]
NAMES = [{}, {"product_name": "pn"}, {"product_prefix": "pp"}, {"product_extension": "node"}, {"product_name": "lib5", "product_extension": "x"}, {"product_prefix": "", "product_name": "q"}]


def misc_job(part, kind, name, names, libs, bundle, conf):
    """Names of products, libraries, defines and dependencies."""
    t = project([(name, kind, {"Default": {}}, None)])[0]
    t.update(names)
    if bundle:
        t["mac_bundle"] = 1
    given, want = LIBS[libs]
    if given:
        t["libraries"] = given
    x = {}
    extra = {"libs": [] if kind == "static_library" else want}
    if conf:
        t["configurations"]["Default"] = {"defines": ["A", "B=2"], "include_dirs": ["i", "../j"], "mac_framework_dirs": ["/fw", "$(SDKROOT)/f"]}
        if conf == 2:
            t["configurations"]["Default"]["xcode_settings"] = {"SDKROOT": "macosx10.9"}
            x["SDKROOT"] = "macosx10.9"
        extra.update(defines=["A", "B=2"], include_dirs=["i", "../j"], framework_dirs=["/fw", sdk(x) + "/f"])
    told = f"{kind} {name} with {names}{' bundle' if bundle else ''} {given} {conf}"
    specs = [(t, x, extra)]
    if bundle and kind == "shared_library":
        x["LD_DYLIB_INSTALL_NAME"] = "/Library/Frameworks/" + product(t)
    build_all(part, told, "d", [t], lambda c: specs, ("Default",))


def deps_job(part, kinds, edges):
    """What a target depends on is linked."""
    items = [(f"t{i}", k, {"Default": {}}, None) for i, k in enumerate(kinds)]
    targets = project(items)
    for i, j in edges:
        targets[i].setdefault("dependencies", []).append(f"t{j}")
    need = {}
    for i, k in enumerate(kinds):
        out, todo, seen = set(), [i], set()
        while todo:
            n = todo.pop()
            for a, b in edges:
                if a == n:
                    if kinds[b] in ("static_library", "shared_library"):
                        out.add(b)
                    if kinds[b] == "static_library" and b not in seen:
                        seen.add(b)
                        todo.append(b)
        need[i] = [product(targets[b]) for b in out]
    specs = [(t, {}, {"deps": need[i]}) for i, t in enumerate(targets)]
    build_all(part, f"{kinds} {edges}", "d", targets, lambda c: specs, ("Default",))


def post_job(part, kind, x):
    """Debug information is taken out before the product is stripped, then the target's own steps run; without the settings none of it happens."""
    x = dict(x)
    t = project([("t0", kind, {"Default": x}, None)])[0]
    act = B.tools() + "/act"
    t["postbuilds"] = [{"postbuild_name": "mine", "action": [act, "--out", "post.txt", "--in", "in put.txt"]}]
    debug = x.get("GCC_GENERATE_DEBUGGING_SYMBOLS") != "NO" and x.get("DEBUG_INFORMATION_FORMAT") == "dwarf-with-dsym" and kind != "static_library"
    strip = x.get("DEPLOYMENT_POSTPROCESSING") == "YES" and x.get("STRIP_INSTALLED_PRODUCT") == "YES"
    style = {"all": [], "non-global": ["-x"], "debugging": ["-S"]}[x.get("STRIP_STYLE", "all" if kind == "executable" else "debugging")] + x.get("STRIPFLAGS", "").split()
    for fmt in ("make", "ninja"):
        root = vf.scratch("c47")
        told = f"{fmt}: steps after {kind} with {x}"
        try:
            files = {f"d/{s}": "EXPORT f\n" for s in t["sources"]}
            r = generate(root, fmt, {**files, "d/in put.txt": "1", "d/a.gyp": {"targets": [t]}}, ("d/a.gyp",))
            if not r.ok:
                raise vf.Bad(f"{told}: not generated: {r.stderr[-400:]}", f"gen:{told}")
            part.add()
            part.seen((told,))
            x_ = B.build(root, fmt, env={"PATH": macbin() + ":" + os.environ["PATH"]})
            part.count("builds")
            if x_.rc:
                raise vf.Bad(f"{told}: the build ends with {x_.rc}: {x_.out[-500:]}", f"rc:{told}")
            steps = [(os.path.basename(a[0]), a[1:], cwd) for cwd, a in x_.calls if os.path.basename(a[0]) in ("strip", "dsymutil", "act")]
            want = ["dsymutil"] * debug + ["strip"] * strip + ["act"]
            if [s[0] for s in steps] != want:
                raise vf.Bad(f"{told}: steps are {[s[0] for s in steps]}, should {want}", f"steps:{told}")
            made = product(t)
            for name, words, cwd in steps:
                full = [os.path.normpath(os.path.join(cwd, w)) for w in words]
                if name == "strip" and (words[:-1] != style or os.path.basename(words[-1]) != made or not os.path.exists(full[-1])):
                    raise vf.Bad(f"{told}: strip {words}, should {style} and {made}", f"strip:{told}")
                if name == "dsymutil" and (os.path.basename(words[0]) != made or words[1] != "-o" or full[2] != full[0] + ".dSYM" or not os.path.exists(full[0])):
                    raise vf.Bad(f"{told}: dsymutil {words}", f"dsym:{told}")
                if name == "act" and (words != ["--out", "post.txt", "--in", "in put.txt"] or cwd != os.path.join(root, "d")):
                    raise vf.Bad(f"{told}: own step is {words} in {cwd}", f"own:{told}")
        except vf.Bad as e:
            part.violation(str(e), e.key)
        finally:
            vf.rmtree(root)


def job(part, item):
    {"batch": batch_job, "config": config_job, "misc": misc_job, "deps": deps_job, "post": post_job}[item[0]](part, *item[1:])


def chunks(xs, n):
    xs = list(xs)
    return [xs[i:i + n] for i in range(0, len(xs), n)]


def main():
    c = vf.Check("C47", "model_checking",
                 "every value of each of 47 Xcode settings x 4 target kinds; every pair of values of two settings; every value at target, one configuration and the other; names, libraries, bundles, dependencies and steps after the "
                 "link in combination - each built for real by make and ninja as on macOS, over recording tools",
                 ["Apple's tools are stand-ins with fixed answers (Xcode 14.2, SDK /sdk)", "iOS targets and resources of bundles are not judged", "where flags of different settings stand to each other is not judged; those of one list are, in order"])
    B.tools()
    macbin()
    every = list(settings())
    todo = []
    for where in (".", "d"):
        for k in KINDS:
            todo += [("batch", where, g) for g in chunks([(k, ())] + [(k, ((s, v),)) for s, v in every], 18)]
    pairs = [("executable", (a, b)) for a, b in itertools.combinations(every, 2) if a[0] != b[0] and active(dict((a, b)))]
    if not vf.THOROUGH:  # two switches: both on or both off
        pairs = [(k, (a, b)) for k, (a, b) in pairs if not (a[0] in SWITCHES and b[0] in SWITCHES and a[1] != b[1])]
    related = [(k, p) for k in KINDS[1:] for _, p in pairs if all(s in VALUES for s, _ in p)]
    todo += [("batch", "d", g) for g in chunks(pairs + (related if vf.THOROUGH else [r for r in related if all(s.startswith(("DYLIB", "LD_", "OTHER_LD", "LIBRARY", "ORDER")) for s, _ in r[1])]), 30)]
    if vf.THOROUGH:
        todo += [("batch", "d", g) for g in chunks([(k, p) for k in KINDS[2:3] for _, p in pairs], 30)]
    cells = []
    for s in dict.fromkeys(s for s, _ in every):
        vs = [None] + [v for t, v in every if t == s]
        for base, one, two in itertools.product(vs, vs, vs):
            if s in PER_TARGET and one != two or s.endswith("]"):
                continue
            if s == "ARCHS" and len({*(base or ()), *(one or ()), *(two or ())}) > 1:
                continue
            cells.append((s, base, one, two))
    for k in ("executable", "shared_library", *(("static_library", "loadable_module") if vf.THOROUGH else ())):
        mine = [c for c in cells if vf.THOROUGH or k == "executable" or c[0].startswith(("DYLIB", "LD_", "OTHER_", "SDK"))]
        todo += [("config", k, g) for g in chunks(mine, 24)]
    for k in KINDS:
        for name, names, libs, bundle in itertools.product(("t", "libt"), NAMES, range(len(LIBS)), (0, 1)):
            if bundle and (k == "static_library" or "product_prefix" in names) or (libs and names and not vf.THOROUGH):
                continue
            todo += [("misc", k, name, names, libs, bundle, conf) for conf in (0, 1, 2)]
    ps = [(0, 1), (0, 2), (1, 2)]
    for n in (2, 3):
        for kinds in itertools.product(KINDS, repeat=n):
            for m in range(1, 2 ** len([p for p in ps if p[1] < n])):
                edges = [p for i, p in enumerate([p for p in ps if p[1] < n]) if m >> i & 1]
                if not any(kinds[b] in ("executable", "loadable_module") for _, b in edges):
                    todo.append(("deps", kinds, edges))
    for k in KINDS:
        for debug, sym, pp, inst, style, sf in itertools.product((None, "dwarf", "dwarf-with-dsym"), (None, "NO"), (None, "YES", "NO"), (None, "YES", "NO"), (None, "all", "non-global", "debugging"), (None, "-a -b")):
            if not vf.THOROUGH and (style or sf) and not (pp == inst == "YES" and debug != "dwarf"):
                continue
            x = {"DEBUG_INFORMATION_FORMAT": debug, "GCC_GENERATE_DEBUGGING_SYMBOLS": sym, "DEPLOYMENT_POSTPROCESSING": pp, "STRIP_INSTALLED_PRODUCT": inst, "STRIP_STYLE": style, "STRIPFLAGS": sf}
            todo.append(("post", k, tuple((a, b) for a, b in x.items() if b)))
    if os.environ.get("VF_ONLY"):
        todo = [t for t in todo if t[0] == os.environ["VF_ONLY"]]
    vf.pmap(c, job, todo, chunk=1 if len(todo) < 2000 else 4)
    return c.finish()


vf.main(main)
