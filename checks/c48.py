"""C48: descriptions of a project for people and tools (gypd, dependency dumps, Eclipse settings) say what was loaded."""
import ast
import itertools
import json
import os
import sys
import xml.etree.ElementTree as ET

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import ctypes  # noqa: E402,F401
import multiprocessing.pool  # noqa: E402,F401
import xml.sax.saxutils  # noqa: E402,F401

import gypdrv  # noqa: E402
import vf  # noqa: E402

CAPTURE = os.path.join(vf.VERIF, "lib", "capgypd.py")
LANGUAGES = ["C++ Source File", "C Source File", "Assembly Source File", "GNU C++", "GNU C", "Assembly"]


# ---- gypd ----
PIECES = [
    {"sources": ["a.c", "b'.c", 'c".c', "d e.c", "\u00e9.c"]},
    {"defines": ["A", "B=1", "C=\"q\\n\"", "T=<(PRODUCT_DIR)/x", "N=1\n2"]},
    {"variables": {"v": ["1", 2, "-3"], "w%": "<(v)"}, "include_dirs": [">@(v)", "<(SHARED_INTERMEDIATE_DIR)/g", "../i"]},
    {"conditions": [['OS=="mac"', {"defines": ["M"], "xcode_settings": {"K": "YES"}}, {"defines": ["L"]}]]},
    {"sources": ["a.c", "x.cc", "x.h"], "sources!": ["a.c"], "sources/": [["exclude", "h$"]]},
    {"actions": [{"action_name": "n", "inputs": ["<(RULE_INPUT_PATH)"], "outputs": ["<(INTERMEDIATE_DIR)/o"], "action": ["cp", "<@(_inputs)", "<(LIB_DIR)"]}]},
    {"rules": [{"rule_name": "r", "extension": "x", "outputs": ["<(INTERMEDIATE_DIR)/<(RULE_INPUT_ROOT).c"], "action": ["y", "<(RULE_INPUT_PATH)", "<(RULE_INPUT_NAME)<(RULE_INPUT_EXT)<(RULE_INPUT_DIRNAME)"]}], "sources": ["s.x"]},
    {"configurations": {"D": {"defines": ["d"]}, "R": {"inherit_from": ["D"], "cflags": ["-O2", "-I<(CONFIGURATION_NAME)"]}}},
    {"product_name": "<(STATIC_LIB_PREFIX)n<(STATIC_LIB_SUFFIX)", "product_prefix": "<(EXECUTABLE_PREFIX)", "msvs_guid": "", "deep": {"a": {"b": [{"c": [1, -2, []]}]}}},
    {"toolsets": ["host", "target"], "cflags": ["<(_toolset)"]},
    {"direct_dependent_settings": {"defines": ["DD"]}, "all_dependent_settings": {"include_dirs": ["e"]}},
]


def plain(x):
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    return [plain(v) for v in x] if isinstance(x, (list, tuple)) else x


def gypd_job(part, pieces, kind, where, suffix, os_name, second):
    told = f"gypd of {kind} with {[PIECES[p] for p in pieces]} in {where}{' -S' + suffix if suffix else ''} for {os_name}{', two files' if second else ''}"
    t = {"target_name": "t", "type": kind}
    for p in pieces:
        for k, v in PIECES[p].items():
            t[k] = t[k] + v if isinstance(v, list) and k in t else v
    name = "a.b.gyp" if second and len(pieces) % 2 else "a.gyp"
    files = {f"{where}/{name}": {"targets": [t]}, f"{where}/inc.gypi": {"target_defaults": {"ldflags": ["-l"]}}}
    files[f"{where}/{name}"]["includes"] = ["inc.gypi"]
    if second:
        t["dependencies"] = [os.path.relpath("e/b.gyp", where) + ":u"]
        if "toolsets" not in t:
            t["dependencies"].append(os.path.relpath("e/b.gyp", where) + ":w")
        files["e/b.gyp"] = {"variables": {"x": "<(OS)"}, "targets": [{"target_name": "u", "type": "none", "toolsets": ["host", "target"], "defines": ["<(x)"]}, {"target_name": "w", "type": "none", "direct_dependent_settings": {"defines": ["FROM_W"]}}]}
    path = os.path.normpath(f"{where}/{name}")
    args = (path, "-DOS=" + os_name) + (("-S" + suffix,) if suffix else ())
    part.add()
    part.seen((told,))
    d, e = vf.scratch("c48"), vf.scratch("c48")
    try:
        r = gypdrv.run(files, fmt="gypd", args=args, root=d)
        want = gypdrv.run(files, fmt=CAPTURE, args=args, root=e, post=lambda: sys.modules["capgypd"].captured[-1])
        if not want.ok:
            raise vf.Bad(f"{told}: the loader refuses: {want.stderr[-300:]}", f"load:{told}")
        if not r.ok:
            raise vf.Bad(f"{told}: not written: {r.stderr[-300:]}", f"gen:{told}")
        data = want.extra[1]
        made = sorted(os.path.relpath(os.path.join(b, n), d) for b, _, ns in os.walk(d) for n in ns if n.endswith(".gypd"))
        named = {os.path.normpath(f[:-4] + suffix + ".gypd"): f for f in data if f.endswith(".gyp")}
        if made != sorted(named) or len(named) != 1 + second:
            raise vf.Bad(f"{told}: {made} are written, should {sorted(named)}", f"files:{told}")
        for n, f in named.items():
            with open(os.path.join(d, n), encoding="utf-8") as g:
                text = g.read()
            try:
                got = ast.literal_eval(text)
            except (ValueError, SyntaxError) as x:
                raise vf.Bad(f"{told}: {n} is not a literal: {x}: {text[:300]}", f"literal:{told}") from None
            ours = plain(data[f])
            if repr(sorted_(got)) != repr(sorted_(ours)):
                raise vf.Bad(f"{told}: {n} says {got}, loaded was {ours}", f"content:{told}")
            part.count("documents")
    except vf.Bad as x:
        part.violation(str(x), x.key)
    finally:
        vf.rmtree(d)
        vf.rmtree(e)


def sorted_(x):
    if isinstance(x, dict):
        return sorted((k, sorted_(v)) for k, v in x.items())
    return [sorted_(v) for v in x] if isinstance(x, list) else x


# ---- dependency dumps ----
def dump_job(part, kinds, edges, layout, given, outdir, host):
    """The dump has every target loaded, with exactly the targets its dependencies name."""
    n = len(kinds)
    place = {"one": lambda i: "a.gyp", "own": lambda i: "a.gyp" if i == 0 else f"d{i}/f{i}.gyp"}[layout]
    told = f"dump of {kinds} {edges} in {layout} files{', output_dir' if outdir else ''}{', host tools' if host else ''}, given {given}"
    docs = {}

    def ref(a, b):
        p = os.path.relpath(place(b), os.path.dirname(place(a)) or ".")
        return (p if place(a) != place(b) else "") + f":t{b}"

    for i, k in enumerate(kinds):
        t = {"target_name": f"t{i}", "type": k}
        ds = [ref(i, j) for a, j in edges if a == i]
        if ds and i % 2 == 0:
            t["dependencies"] = ds
        elif ds:
            t["conditions"] = [['OS=="linux"', {"dependencies": ds}, {"type": "nothing"}]]
        if host:
            t["toolsets"] = ["host", "target"]
        docs.setdefault(place(i), {"targets": []})["targets"].append(t)
    part.add()
    part.seen((told,))
    root = vf.scratch("c48")
    try:
        os.makedirs(os.path.join(root, "o/p"))
        r = gypdrv.run(docs, fmt="dump_dependency_json", args=tuple(place(g) for g in given), root=root, flags=("output_dir=o/p",) if outdir else ())
        if not r.ok:
            raise vf.Bad(f"{told}: not written: {r.stderr[-300:]}", f"gen:{told}")
        with open(os.path.join(root, "o/p" if outdir else ".", "dump.json")) as f:
            got = json.load(f)
        sets = ("host", "target") if host else ("target",)
        files, todo = set(), {place(g) for g in given}
        while todo - files:
            f = (todo - files).pop()
            files.add(f)
            todo |= {place(b) for a, b in edges if place(a) == f}
        want = {f"{place(i)}:t{i}#{s}": [f"{place(j)}:t{j}#{s}" for a, j in edges if a == i] for i in range(n) if place(i) in files for s in sets}
        if {k: sorted(v) for k, v in got.items()} != {k: sorted(v) for k, v in want.items()}:
            raise vf.Bad(f"{told}: says {got}, should {want}", f"edges:{told}")
        part.count("dumps")
    except vf.Bad as x:
        part.violation(str(x), x.key)
    finally:
        vf.rmtree(root)


# ---- Eclipse ----
CC = """#!/bin/sh
case " $* " in
*" -v "*) printf 'using built-in specs\\n#include "..." search starts here:\\n#include <...> search starts here:\\n /usr/inc/%s\\n /usr/both\\nEnd of search list.\\nmore\\n' %s >&2;;
*" -dM "*) printf '#define __STDC__ 1\\n#define NAMED %s\\n#define EMPTY \\n#define WORDS a b  c\\n#define F(x) x\\n' %s;;
esac
"""
INCLUDES = [[], ["i"], ["../j", "i"], ["/abs/z", "a&b", "/usr/both"], ["<(SHARED_INTERMEDIATE_DIR)/g"]]
DEFINES = [[], ["A", "B=2"], ["S=a<b&c", "E=", "X=1=2"], ["A=9", "NAMED=mine", "P=<(OS)"]]
CFLAGS = [[], ["-O2", "-Ifrom/flags"], ["-I/usr/both", "-Wall", "-Ii&2", "-Ilate"]]


def eclipse_model(root, where, targets, config, named):
    gen = [os.path.join(root, "out", config, *p) for p in (("obj", "gen"), ("gen",))]
    ours, flags, macros = set(), [], {}
    for incs, defs, cfl in targets:
        for i in incs:
            if i.startswith("<("):
                ours |= {os.path.normpath(g + i[len("<(SHARED_INTERMEDIATE_DIR)"):]) for g in gen}
            else:
                ours.add(os.path.normpath(os.path.join(root, where, i)))
        flags += [c[2:] for c in cfl if c.startswith("-I")]
        for d in defs:
            k, _, v = d.replace("<(OS)", "linux").partition("=")
            macros.setdefault(k, v if "=" in d else "1")
    rest = [p for p in dict.fromkeys(["/usr/inc/" + named, "/usr/both"] + flags) if p not in ours]
    macros.update({"__STDC__": "1", "NAMED": named, "EMPTY": "", "WORDS": "a b  c", "F(x)": "x"})
    return ours, rest, macros


def eclipse_job(part, cells, configs, where, tool, only):
    """cells: per target, per configuration (include_dirs, defines, cflags) by index."""
    told = f"eclipse settings of {cells} in {configs}, {where}, compiler from {tool}{', only ' + only if only else ''}"
    docs = {"targets": []}
    spec = {c: [] for c in configs}
    for n, per in enumerate(cells):
        t = {"target_name": f"t{n}", "type": "static_library", "default_configuration": configs[0], "configurations": {}}
        for c, (i, d, f) in zip(configs, per):
            x = {"include_dirs": INCLUDES[i], "defines": DEFINES[d], "cflags": CFLAGS[f]}
            t["configurations"][c] = {k: v for k, v in x.items() if v}
            spec[c].append((INCLUDES[i], DEFINES[d], CFLAGS[f]))
        docs["targets"].append(t)
    root = os.path.realpath(vf.scratch("c48"))
    part.add()
    part.seen((told,))
    try:
        os.makedirs(os.path.join(root, "bin"))
        for n in ("gcc", "mine", "envcc"):
            with open(os.path.join(root, "bin", n), "w") as f:
                f.write(CC % ("%s", n, "%s", n))
            os.chmod(os.path.join(root, "bin", n), 0o755)
        env = {"PATH": os.path.join(root, "bin") + ":" + os.environ["PATH"]}
        named = "gcc"
        if tool == "settings":
            docs["make_global_settings"] = [["CC", "bin/mine"], ["LD", "bin/no"]]
            named = "mine"
        elif tool != "path":
            env[tool] = os.path.join(root, "bin", "envcc")
            named = "envcc"
        files = {os.path.normpath(f"{where}/a.gyp"): docs}
        r = gypdrv.run(files, fmt="eclipse", args=tuple(files), root=root, env=env, flags=("config=" + only,) if only else ())
        if not r.ok:
            raise vf.Bad(f"{told}: not written: {r.stderr[-400:]}", f"gen:{told}")
        for c in configs:
            p = os.path.join(root, "out", c, "eclipse-cdt-settings.xml")
            if only and c != only:
                if os.path.exists(p):
                    raise vf.Bad(f"{told}: {c} is written too", f"only:{told}")
                continue
            try:
                doc = ET.parse(p).getroot()
            except (ET.ParseError, FileNotFoundError) as x:
                raise vf.Bad(f"{told}: {c}: {x}", f"xml:{told}") from None
            orders = [eclipse_model(root, where, o, c, named) for o in itertools.permutations(spec[c])]  # of targets that need nothing of each other
            ours, rest, macros = orders[0]
            sections = {s.get("name").rsplit(".", 1)[1]: s for s in doc.findall("section")}
            for lang in LANGUAGES:
                inc = [[e.text for e in la.findall("includepath")] for la in sections["IncludePaths"].findall("language") if la.get("name") == lang]
                mac = [[(m.findtext("name"), m.findtext("value") or "") for m in la.findall("macro")] for la in sections["Macros"].findall("language") if la.get("name") == lang]
                if len(inc) != 1 or set(inc[0][:len(ours)]) != ours or inc[0][len(ours):] not in [o[1] for o in orders]:
                    raise vf.Bad(f"{told}: {c}: {lang} has directories {inc}, should {sorted(ours)} then {rest}", f"includes:{told}")
                if len(mac) != 1 or len(mac[0]) != len(macros) or dict(mac[0]) not in [o[2] for o in orders]:
                    raise vf.Bad(f"{told}: {c}: {lang} has macros {mac}, should {macros}", f"macros:{told}")
            part.count("settings")
    except vf.Bad as x:
        part.violation(str(x), x.key)
    finally:
        vf.rmtree(root)


INPUTS = ["x.java", "src/p/q/X.java", "java/p/X.java", "p/q/Y.java", "lib/z.jar", "../k.jar", "/opt/j/l.jar", "$PRODUCT_DIR/v.jar", "<(PRODUCT_DIR)/v.java", "n.txt", "/opt/app/src/o/Z.java", "/opt/app/o/Z.java",
          "src/java/p/W.java", "javax/V.java", "a.jar.txt", "src.jar"]


def java(i, where):
    """(kind, path) an input stands for: a library, or the root of a source tree - the nearest directory above named src or java, else the file's own."""
    if i.startswith(("$", "<(")):
        return None
    full = os.path.normpath(os.path.join(where, i))
    if i.endswith(".jar"):
        return "lib", full
    if not i.endswith(".java"):
        return None
    own = os.path.dirname(full)
    parts = own.split("/")
    for n in range(len(parts), 0, -1):
        if parts[n - 1] in ("src", "java"):
            return "src", "/".join(parts[:n])
    return "src", own or "."


def classpath_job(part, inputs, where):
    told = f"eclipse class path of {[INPUTS[i] for i in inputs]} in {where}"
    root = os.path.realpath(vf.scratch("c48"))
    part.add()
    part.seen((told,))
    acts = [{"action_name": f"n{n}", "inputs": [INPUTS[i]], "outputs": [f"o{n}"], "action": ["x"]} for n, i in enumerate(inputs)]
    half = len(acts) // 2
    doc = {"targets": [{"target_name": "t", "type": "none", "actions": acts[:half]}, {"target_name": "u", "type": "none", "actions": acts[half:]}]}
    try:
        files = {os.path.normpath(f"{where}/a.gyp"): doc}
        os.makedirs(os.path.join(root, "bin"))
        with open(os.path.join(root, "bin", "gcc"), "w") as f:
            f.write(CC % ("%s", "gcc", "%s", "gcc"))
        os.chmod(os.path.join(root, "bin", "gcc"), 0o755)
        r = gypdrv.run(files, fmt="eclipse", args=tuple(files), root=root, env={"PATH": os.path.join(root, "bin") + ":" + os.environ["PATH"]}, timeout=10)
        if not r.ok:
            raise vf.Bad(f"{told}: not written: {r.status} {r.stderr[-400:]}", f"gen:{told}")
        got = [(e.get("kind"), os.path.normpath(os.path.join(root, e.get("path"))) if e.get("kind") in ("lib", "src") else e.get("path")) for e in ET.parse(os.path.join(root, "out/Default/eclipse-classpath.xml")).getroot()]
        want = {(x[0], os.path.normpath(os.path.join(root, x[1]))) for x in (java(INPUTS[i], where) for i in inputs) if x}
        mine = [g for g in got if g[0] in ("lib", "src")]
        if set(mine) != want or len(mine) != len(want):
            raise vf.Bad(f"{told}: names {mine}, should {sorted(want)}", f"paths:{told}")
        if ("con", "org.eclipse.jdt.launching.JRE_CONTAINER") not in got or not [g for g in got if g[0] == "output"]:
            raise vf.Bad(f"{told}: lacks the container or the output: {got}", f"fixed:{told}")
        part.count("class paths")
    except vf.Bad as x:
        part.violation(str(x), x.key)
    finally:
        vf.rmtree(root)


def job(part, item):
    {"gypd": gypd_job, "dump": dump_job, "eclipse": eclipse_job, "classpath": classpath_job}[item[0]](part, *item[1:])


def main():
    c = vf.Check("C48", "model_checking",
                 "every pair (thorough: triple) of 11 kinds of contents through gypd; every DAG on up to 4 targets through the dependency dump; include directories x defines x flags x configurations x compilers, "
                 "and all triples of 16 inputs, through the Eclipse settings",
                 ["gypd documents are compared with what the loader hands to a capturing generator with the same variables", "the compiler asked for its directories and macros is a stand-in"])
    todo = []
    sets = [p for n in range(0, 4 if vf.THOROUGH else 3) for p in itertools.combinations(range(len(PIECES)), n)]
    for p in sets:
        for kind, second, os_name in itertools.product(("none", "executable") if len(p) > 1 else ("none", "executable", "static_library", "shared_library", "loadable_module"), (0, 1), ("linux", "mac")):
            where, suffix = (("d", ""), (".", "-x"), ("d/e", ".y"), (".", ""))[len(todo) % 4]
            todo.append(("gypd", p, kind, where, suffix, os_name, second))
    for n in (1, 2, 3, 4):
        ps = list(itertools.combinations(range(n), 2))
        for m in range(2 ** len(ps)):
            edges = tuple(p for i, p in enumerate(ps) if m >> i & 1)
            for kinds in {("none",) * n, ("static_library",) * n, ("executable",) + ("static_library",) * (n - 1), ("shared_library", "static_library") * (n // 2)}:
                if len(kinds) == n:
                    for layout, outdir, host in itertools.product(("one", "own"), (0, 1), (0, 1)):
                        if n < 4 or vf.THOROUGH or not (outdir or host):
                            todo.append(("dump", kinds, edges, layout, (0,) if layout == "one" or m % 2 else (0, n - 1), outdir, host))
    every = list(itertools.product(range(len(INCLUDES)), range(len(DEFINES)), range(len(CFLAGS))))
    tools = ("path", "settings", "CC", "CXX", "CC_target")
    for k, x in enumerate(every):
        for where in (".", "d"):
            todo.append(("eclipse", ((x,),), ("Default",), where, tools[k % 5], None))
        todo.append(("eclipse", ((x,),), ("Default",), ".", tools[(k + 1) % 5], "Default"))
    for a, b in itertools.product(every, repeat=2):
        if vf.THOROUGH or sum(x != 0 for x in a) + sum(x != 0 for x in b) <= 3:
            todo.append(("eclipse", ((a,), (b,)), ("Default",), "d", "path", None))
            todo.append(("eclipse", ((a, b),), ("Debug", "Release"), "d", "path", None))
            todo.append(("eclipse", ((a, b), (b, a)), ("Debug", "Release"), ".", "settings", "Release"))
    for n in (1, 2, 3):
        for i in itertools.combinations(range(len(INPUTS)), n):
            todo.append(("classpath", i, ("d", "d/src", ".")[len(todo) % 3] if n > 1 else "d"))
            if n == 1:
                todo += [("classpath", i, w) for w in (".", "e/f")]
    if os.environ.get("VF_ONLY"):
        todo = [t for t in todo if t[0] == os.environ["VF_ONLY"]]
    vf.pmap(c, job, todo)
    return c.finish()


vf.main(main)
