"""C17: for every project of a grammar, the commands of real make and ninja builds and of the compilation database are those of the loaded targets."""
import itertools
import json
import os
import re
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import buildlab as B  # noqa: E402
import vf  # noqa: E402
from c14 import compdb_split  # noqa: E402

FORMATS = ("make", "ninja", "compile_commands_json")
LANG = {"c": "cc", "s": "cc", "S": "cc", "cc": "cxx", "cpp": "cxx", "cxx": "cxx"}


# ---- the model: what a target's commands must be ----
def expected(root, project, config):
    """-> {target: {"compiles": {(source): (tool, defines, includes, flags)}, "link": ... or None}}

    project: {name: {"dir", "spec" (settings already merged: the projects here use no inheritance)}}"""
    out = {}
    for name, p in project.items():
        spec, here = p["spec"], os.path.join(root, p["dir"])
        conf = dict(spec.get("configurations", {}).get(config, {}))

        def both(key):
            return conf.get(key, []) + []

        def path(x):
            return os.path.normpath(os.path.join(here, x))

        compiles = {}
        order = []
        for s in spec.get("sources", []) if spec["type"] != "none" else []:
            ext = s.rsplit(".", 1)[-1]
            if ext not in LANG:
                continue
            tool = LANG[ext]
            flags = both("cflags") + both("cflags_c" if tool == "cc" else "cflags_cc")
            compiles[path(s)] = (tool, both("defines"), [path(i) for i in both("include_dirs")], flags)
            order.append(path(s))
        link = None
        if spec["type"] in ("executable", "shared_library", "loadable_module"):
            libs = list(dict.fromkeys(spec.get("libraries", [])))
            link = {"ldflags": both("ldflags"), "dirs": [path(x) for x in both("library_dirs")], "libs": libs}
        out[name] = {"compiles": compiles, "order": order, "link": link, "file": product(spec), "type": spec["type"],
                     "here": spec.get("product_dir"), "links": linked(project, name)}
    return out


def product(spec):
    kind, name = spec["type"], spec["target_name"]
    lib = kind in ("static_library", "shared_library", "loadable_module")
    prefix = spec.get("product_prefix", "lib" if lib else "")
    if "product_name" in spec:
        name = spec["product_name"]
    elif prefix == "lib" and name.startswith("lib"):
        name = name[3:]
    ext = spec.get("product_extension")
    ext = "." + ext if ext else {"static_library": ".a", "shared_library": ".so", "loadable_module": ".so"}.get(kind, "")
    return prefix + name + ext


def linked(project, name):
    """Targets whose product must be on the link line of name: static libraries reached through static libraries (and targets of no
    product), each after all that use it; shared libraries reached the same way."""
    spec = project[name]["spec"]
    if spec["type"] not in ("executable", "shared_library", "loadable_module"):
        return set()
    out, seen = set(), set()

    def walk(n, top):
        for d in project[n]["deps"]:
            k = project[d]["spec"]["type"]
            if k in ("static_library", "shared_library"):
                out.add(d)
            if d not in seen:
                seen.add(d)
                if k == "static_library" or (k == "none"):
                    walk(d, False)
    walk(name, True)
    return out


def observe(root, fmt, config, gypfile, env, part):
    """-> (compiles {source: [(tool, defines, includes, flags, output)]}, links {output: (tool, objects, ldflags, dirs, libs)}, archives {output: objects})"""
    if fmt == "compile_commands_json":
        with open(os.path.join(root, "out", config, "compile_commands.json")) as f:
            db = json.load(f)
        calls = []
        for e in db:
            argv = compdb_split(e["command"])
            if argv[-1] != e["file"]:
                raise vf.Bad(f"database: {argv[-1]} compiled for {e['file']}", "db:file")
            calls.append((os.path.join(root, e["directory"]), [{"cc": "cc", "c++": "cxx"}[argv[0]], *argv[1:]]))
    else:
        x = B.build(root, fmt, config=config, env=env, extra=("-d", "keeprsp") if fmt == "ninja" else ())
        if x.rc:
            raise vf.Bad(f"{fmt}: the build ends with {x.rc}: {x.out[-400:]}", f"{fmt}:rc")
        calls = x.calls
    compiles, links, archives = {}, {}, {}
    for cwd, argv in calls:
        tool = os.path.basename(argv[0])

        def full(p, cwd=cwd):
            return os.path.normpath(os.path.join(cwd, p))

        if tool in ("cc", "cxx"):
            words, i = [], 1
            outp = None
            while i < len(argv):
                a = argv[i]
                if a in ("-o", "-MF"):
                    if a == "-o":
                        outp = full(argv[i + 1])
                    i += 1
                elif a.startswith("@"):
                    with open(full(a[1:])) as f:
                        words += f.read().split()
                else:
                    words.append(a)
                i += 1
            plain = [w for w in words if not w.startswith("-")]
            flags = [w for w in words if re.match(r"-[fmO]", w)]
            if "-c" in words:
                if len(plain) != 1:
                    raise vf.Bad(f"{fmt}: compile of {plain}", f"{fmt}:inputs")
                compiles.setdefault(full(plain[0]), []).append((tool, [w[2:] for w in words if w.startswith("-D")], [full(w[2:]) for w in words if w.startswith("-I")], flags, outp))
            else:
                links[outp] = (tool, [full(p) for p in plain], [w for w in words if re.match(r"-[fmO]|-Wl,-z", w)], [full(w[2:]) for w in words if w.startswith("-L")], [w for w in words if w.startswith("-l")], "-shared" in words)
        elif tool == "ar":
            members = []
            for a in argv[3:]:
                if a.startswith("@"):
                    with open(full(a[1:])) as f:
                        members += f.read().split()
                else:
                    members.append(a)
            archives.setdefault(full(argv[2]), []).extend(full(m) for m in members)
    return compiles, links, archives


def compare(fmt, told, root, config, exp, got, project, env, part, full_targets):
    compiles, links, archives = got
    env = env or {}
    wanted = {}
    for n, e in exp.items():
        for s, w in e["compiles"].items():
            if fmt == "compile_commands_json" and s.rsplit(".", 1)[-1] in "sS":
                continue
            wanted.setdefault(s, []).append((n, w))
    if set(wanted) != set(compiles):
        raise vf.Bad(f"{told}: compiles {sorted(map(short(root), compiles))}, should {sorted(map(short(root), wanted))}", f"set:{fmt}:{told}")
    obj = {}
    for s, ws in wanted.items():
        gs = compiles[s]
        left = list(gs)
        for n, (tool, defines, includes, flags) in ws:
            ts = project[n]["spec"].get("toolset", "target")
            if fmt != "compile_commands_json":
                suffix = "_host" if ts == "host" else ""
                ef = (env.get("CPPFLAGS" + suffix, "") + " " + env.get(("CFLAGS" if tool == "cc" else "CXXFLAGS") + suffix, "")).split()
            else:
                ef = []
            hit = None
            for g in left:
                gflags = list(g[3])
                ok = True
                for x in ef:
                    ok = ok and x in gflags
                got_e = [x for x in gflags if x in ef]
                rest = [x for x in gflags if x not in ef]
                if ok and got_e == ef and (g[0], g[1], g[2], rest) == (tool, defines, includes, flags):
                    hit = g
                    break
            if hit is None:
                raise vf.Bad(f"{told}: {short(root)(s)} of {n} is compiled with {left}, should be {(tool, defines, includes, flags, ef)}", f"compile:{fmt}:{told}:{n}")
            left.remove(hit)
            obj.setdefault(n, {})[s] = hit[4]
        if left:
            raise vf.Bad(f"{told}: {short(root)(s)} is compiled {len(gs)} times for {len(ws)} targets", f"times:{fmt}:{told}")
    if fmt == "compile_commands_json":
        return
    where = {}
    for outp in list(links) + list(archives):
        where.setdefault(os.path.basename(outp), []).append(outp)
    total = 0
    found = {}
    for n, e in exp.items():
        if e["type"] == "none":
            continue
        total += 1
        cand = [o for o in where.get(e["file"], []) if set(obj.get(n, {}).values()) <= set((links[o][1] if o in links else archives[o]))]
        t = project[n]["spec"]
        if not cand and fmt == "make" and t["target_name"].startswith("lib") and t.get("product_prefix", "lib") != "lib" and "product_name" not in t \
                and any(os.path.basename(o) == product({**t, "target_name": t["target_name"][3:]}) for o in list(links) + list(archives)):
            raise vf.Bad(f"{told}: product {e['file']} is made without its 'lib'", "make-lib-prefix")
        if len(cand) != 1:
            raise vf.Bad(f"{told}: product {e['file']} of {n} ({e['type']}): made are {sorted(map(short(root), list(links) + list(archives)))}", f"product:{fmt}:{told}:{n}")
        found[n] = cand[0]
    if total != len(set(links) | set(archives)):
        raise vf.Bad(f"{told}: makes {sorted(map(short(root), list(links) + list(archives)))}", f"products:{fmt}:{told}")
    for n, e in exp.items():
        if e["type"] == "none":
            continue
        o = found[n]
        mine = [obj[n][s] for s in e["order"]]
        place = os.path.join(root, "out", config)
        if e["here"] is not None:
            place = os.path.join(place, os.path.relpath(e["here"], "<(PRODUCT_DIR)"))
        if (e["type"] in ("executable",) or e["here"] is not None) and os.path.dirname(o) != os.path.normpath(place):
            raise vf.Bad(f"{told}: {n} is made as {short(root)(o)}", f"place:{fmt}:{told}:{n}")
        if e["type"] == "loadable_module" and not os.path.exists(os.path.join(place, e["file"])):
            raise vf.Bad(f"{told}: no {e['file']} of {n} in the product directory", f"place:{fmt}:{told}:{n}")
        if e["type"] == "static_library":
            if archives.get(o) != mine:
                raise vf.Bad(f"{told}: archive of {n} holds {archives.get(o)}, should {mine}", f"archive:{fmt}:{told}:{n}")
            continue
        tool, inputs, ldflags, dirs, libs, shared = links[o]
        ts = project[n]["spec"].get("toolset", "target")
        ef = env.get("LDFLAGS" + ("_host" if ts == "host" else ""), "").split()
        if shared != (e["type"] != "executable"):
            raise vf.Bad(f"{told}: {n}, {e['type']}: -shared is {shared}", f"shared:{fmt}:{told}:{n}")
        if [i for i in inputs if i in mine] != mine:
            raise vf.Bad(f"{told}: link of {n} takes objects {inputs}, should {mine}", f"objects:{fmt}:{told}:{n}")
        others = [i for i in inputs if i not in mine]
        names = {d: found[d] for d in e["links"]}
        if len(set(others)) != len(others) or {os.path.basename(i) for i in others} != {os.path.basename(p) for p in names.values()} or len(others) != len(names):
            raise vf.Bad(f"{told}: link of {n} takes {sorted(map(short(root), others))} besides its objects, should take the products of {sorted(e['links'])}", f"libs:{fmt}:{told}:{n}")
        for i in others:
            if i.endswith(".a") and i not in names.values():
                raise vf.Bad(f"{told}: link of {n} takes {short(root)(i)}", f"libs:{fmt}:{told}:{n}")
        pos = {os.path.basename(p): k for k, p in enumerate(others)}
        for d in e["links"]:
            for d2 in project[d]["deps"]:
                if d2 in e["links"] and exp[d]["type"] == exp[d2]["type"] == "static_library" and pos[exp[d]["file"]] > pos[exp[d2]["file"]]:
                    raise vf.Bad(f"{told}: link of {n} takes {d2} before {d}, which uses it", f"order:{fmt}:{told}:{n}")
        if e["link"]["ldflags"] != [x for x in ldflags if x not in ef] or [x for x in ldflags if x in ef] != ef or dirs != e["link"]["dirs"] or libs != e["link"]["libs"]:
            raise vf.Bad(f"{told}: link of {n} has flags {ldflags}, directories {list(map(short(root), dirs))}, libraries {libs}; should have {e['link']} and {ef}", f"flags:{fmt}:{told}:{n}")


def short(root):
    return lambda p: os.path.relpath(p, root)


def case(part, told, project, files=(), configs=("Default",), env=None, settings=None, formats=FORMATS, key=None):
    """project: {name: {"dir", "spec", "deps"}}; one gyp file per directory."""
    for fmt in formats:
        root = vf.scratch("c17")
        try:
            docs = {}
            text = dict(files)
            for n, p in project.items():
                doc = docs.setdefault(os.path.join(p["dir"], "a.gyp"), {"targets": []})
                t = {k: v for k, v in p["spec"].items() if k not in ("toolset",)}
                if "toolset" in p["spec"]:
                    t["toolsets"] = [p["spec"]["toolset"]]
                if p["deps"]:
                    t["dependencies"] = [os.path.join(os.path.relpath(project[d]["dir"], p["dir"]), "a.gyp") + ":" + project[d]["spec"]["target_name"]
                                         + ("#" + project[d]["spec"]["toolset"] if "toolset" in project[d]["spec"] else "") for d in p["deps"]]
                doc["targets"].append(t)
                for s in p["spec"].get("sources", []):
                    text[os.path.normpath(os.path.join(p["dir"], s))] = "EXPORT f%s\n" % re.sub(r"\W", "_", s)
            if settings:
                for d in docs.values():
                    d["make_global_settings"] = settings
            gyps = sorted(docs)
            genv = dict(env or {})
            r = B.generate(root, fmt, {**text, **docs}, args=tuple(gyps), env=genv)
            label = f"{fmt}: {told}"
            if not r.ok:
                raise vf.Bad(f"{label}: not generated: {r.stderr[-300:]}", f"gen:{label}")
            for c in configs:
                part.add()
                part.seen((fmt, told, c))
                got = observe(root, fmt, c, gyps[0], genv, part)
                compare(fmt, f"{label} ({c})", root, c, expected(root, project, c), got, project, env, part, True)
                part.count("builds")
        except vf.Bad as e:
            part.violation(str(e), key(fmt) if key else e.key)
        finally:
            vf.rmtree(root)


SOURCES = ["a.c", "b.cc", "c.cpp", "s/d.cxx", "../e.c", "f.s", "g.S", "h.h", "s/a.c", "r.txt"]
CONF_VALUES = {
    "defines": [[], ["A"], ["B=2", "A"], ["A", "B=2", "A=3"]],
    "include_dirs": [[], ["i"], ["../j", "i"], ["/abs", ".", "i/k"]],
    "cflags": [[], ["-fa"], ["-fb", "-fa"], ["-O2", "-fa", "-fa"]],
    "cflags_c": [[], ["-fc"], ["-O1", "-fc"]],
    "cflags_cc": [[], ["-fx"], ["-mx", "-fy"]],
    "ldflags": [[], ["-mld"], ["-Wl,-z,now", "-mld"]],
    "library_dirs": [[], ["l"], ["../m", "/abs/l"]],
}
SPEC_VALUES = {
    "libraries": [[], ["-lm"], ["-lz", "-lm", "-lz"]],
    "product_name": [None, "pn", "libq"],
    "product_prefix": [None, "", "pp"],
    "product_extension": [None, "node", "x.y"],
    "product_dir": [None, "<(PRODUCT_DIR)/sub"],
    "target_name": ["t", "libt", "t-1.2", "t+x"],
    "standalone_static_library": [None, 1],
    "sources": [["a.c", "b.cc"], SOURCES, ["b.cc", "s/a.c", "a.c"], ["f.s"]],
}
KINDS = ["executable", "static_library", "shared_library", "loadable_module"]


def build_project(kind, where, choice):
    spec = {"target_name": "t", "type": kind, "sources": ["a.c", "b.cc"]}
    conf = {}
    for k, v in choice:
        if k in CONF_VALUES:
            conf[k] = v
        elif v is None:
            spec.pop(k, None)
        else:
            spec[k] = v
    spec["configurations"] = {"Default": conf}
    return {"t": {"dir": where, "spec": spec, "deps": []}}


def features():
    """Every value of every pair of settings."""
    allv = {**CONF_VALUES, **SPEC_VALUES}
    for a, b in itertools.combinations(allv, 2):
        for x in allv[a][1:]:
            for y in allv[b][1:]:
                yield ((a, x), (b, y))
    for a in allv:
        for x in allv[a]:
            yield ((a, x),)


def feature_job(part, kind, where, choice):
    d = dict(choice)
    if "standalone_static_library" in d and kind != "static_library":
        return
    if kind in ("executable", "shared_library", "loadable_module") and d.get("product_extension") == "x.y":
        return
    project = build_project(kind, where, choice)
    case(part, f"{kind} in {where} with {d}", project)


def dag_job(part, kinds, edges, layout, reverse):
    project = {}
    for i, k in enumerate(kinds):
        d = {"one": ".", "sub": "d", "each": f"d{i}"}[layout]
        spec = {"target_name": f"t{i}", "type": k, "configurations": {"Default": {}}}
        if k != "none":
            spec["sources"] = [f"s{i}.c" if i % 2 else f"s{i}.cc", f"u{i}.c"]
        project[f"t{i}"] = {"dir": d, "spec": spec, "deps": [f"t{j}" for a, j in edges if a == i]}
    if reverse:
        project = dict(reversed(list(project.items())))
    case(part, f"{'+'.join(kinds)} edges {edges} {layout}{' reversed' if reverse else ''}", project, formats=("make", "ninja"))


def env_job(part, names, kind, toolset):
    env = {}
    for n in names:
        env[n] = {"CFLAGS": "-fe1 -fe2", "CXXFLAGS": "-fe3", "CPPFLAGS": "-fe4 -fe5", "LDFLAGS": "-me6 -me7",
                  "CFLAGS_host": "-fh1", "CXXFLAGS_host": "-fh3 -fh2", "CPPFLAGS_host": "-fh4", "LDFLAGS_host": "-mh6"}[n]
    if toolset == "host":
        for t in ("CC", "CXX", "AR", "LINK"):
            env[t + "_host"] = B.toolenv()[t]
    spec = {"target_name": "t", "type": kind, "sources": ["a.c", "b.cc", "c.S"], "configurations": {"Default": {"cflags": ["-fa"], "cflags_c": ["-fc"], "cflags_cc": ["-fx"], "ldflags": ["-ml"], "defines": ["D"], "include_dirs": ["i"]}}}
    if toolset == "host":
        spec["toolset"] = "host"
    case(part, f"{kind} ({toolset}) under {sorted(names)}", {"t": {"dir": ".", "spec": spec, "deps": []}}, env=env)


def config_job(part, kind, where, pick):
    """Two configurations differ in every setting picked."""
    conf = {"Default": {}, "Other": {}}
    for k in pick:
        conf["Default"][k] = CONF_VALUES[k][1]
        conf["Other"][k] = CONF_VALUES[k][2]
    spec = {"target_name": "t", "type": kind, "sources": ["a.c", "b.cc", "f.s"], "configurations": conf, "default_configuration": "Default"}
    case(part, f"{kind} in {where}, configurations differ in {pick}", {"t": {"dir": where, "spec": spec, "deps": []}}, configs=("Default", "Other"))


def gen_job(part, kind, where, how, outdir, name):
    """A generated source is compiled with the settings of its target and linked."""
    for fmt in ("make", "ninja"):
        root = vf.scratch("c17")
        try:
            part.add()
            part.seen(("gen", fmt, kind, where, how, outdir, name))
            told = f"{fmt}: {kind} in {where}, {how} makes {outdir}/{name}"
            ACT = B.tools() + "/act"
            conf = {"defines": ["A", "B=2"], "include_dirs": ["i", f"<({outdir})"], "cflags": ["-fa"], "cflags_c": ["-fc"], "cflags_cc": ["-fx"]}
            t = {"target_name": "t", "type": kind, "sources": ["a.c", "b.cc"], "configurations": {"Default": conf}}
            out = f"<({outdir})/{name}"
            if how == "action":
                t["actions"] = [{"action_name": "n", "inputs": [], "outputs": [out], "action": [ACT, "--out", out], "process_outputs_as_sources": 1}]
            elif how == "action and header":
                t["actions"] = [{"action_name": "n", "inputs": [], "outputs": [out + ".h", out], "action": [ACT, "--out", out + ".h", out], "process_outputs_as_sources": 1}]
            elif how == "other action":
                t["actions"] = [{"action_name": "n", "inputs": [], "outputs": [out], "action": [ACT, "--out", out]}]
                t["sources"].append(out)
            elif how == "action not compiled":
                t["actions"] = [{"action_name": "n", "inputs": [], "outputs": [out], "action": [ACT, "--out", out]}]
            else:
                root_, ext = name.rsplit(".", 1)
                t["sources"].append(root_ + ".x")
                o = f"<({outdir})/<(RULE_INPUT_ROOT).{ext}"
                t["rules"] = [{"rule_name": "r", "extension": "x", "outputs": [o], "action": [ACT, "--out", o, "--in", "<(RULE_INPUT_PATH)"], "process_outputs_as_sources": 1}]
            files = {where + "/" + s: "" for s in ("a.c", "b.cc", name.rsplit(".", 1)[0] + ".x")}
            r = B.generate(root, fmt, {**files, where + "/a.gyp": {"targets": [t]}}, args=(where + "/a.gyp",))
            if not r.ok:
                raise vf.Bad(f"{told}: not generated: {r.stderr[-300:]}", f"gen:{told}")
            compiles, links, archives = observe(root, fmt, "Default", None, None, part)
            want = ["a.c", "b.cc"] + ([name] if how != "action not compiled" else [])
            if sorted(map(os.path.basename, compiles)) != sorted(want) or any(len(g) != 1 for g in compiles.values()):
                raise vf.Bad(f"{told}: compiles {compiles}", f"set:{told}")
            objs = {}
            for s, ((tool, defines, includes, flags, outp),) in compiles.items():
                ext = s.rsplit(".", 1)[1]
                objs[os.path.basename(s)] = outp
                inc = includes[:1] == [os.path.normpath(os.path.join(root, where, "i"))] and len(includes) == 2 and (not os.path.basename(s) == name or includes[1] == os.path.dirname(s))
                if tool != LANG[ext] or defines != ["A", "B=2"] or not inc or flags != ["-fa", {"cc": "-fc", "cxx": "-fx"}[LANG[ext]]]:
                    raise vf.Bad(f"{told}: {short(root)(s)} is compiled by {tool} with {defines}, {includes}, {flags}", f"compile:{told}")
            taken = [m for ms in archives.values() for m in ms] if kind == "static_library" else [o for k in links.values() for o in k[1]]
            listed = [objs[n] for n in want[:2]]
            if sorted(taken) != sorted(objs[n] for n in want) or [o for o in taken if o in listed] != listed:
                raise vf.Bad(f"{told}: takes {list(map(short(root), taken))}, should take those of {want}", f"objects:{told}")
            part.count("builds")
        finally:
            vf.rmtree(root)


def globals_job(part, kind, keys, where, style):
    """Tools named by make_global_settings: the commands run are those, relative to the top directory."""
    for fmt in ("make", "ninja"):
        root = vf.scratch("c17")
        try:
            part.add()
            part.seen(("globals", fmt, kind, keys, where, style))
            told = f"{fmt}: {kind} in {where} with {style} {', '.join(keys)}"
            prefix = {"relative": "my/tools/", "absolute": root + "/my/tools/"}[style]
            os.makedirs(root + "/my/tools")
            settings = []
            for k in keys:
                n = k.lower().replace("_wrapper", "w")
                settings.append([k, prefix + n])
                if k.endswith("_wrapper"):
                    with open(f"{root}/my/tools/{n}", "w") as f:
                        f.write(f'#!/bin/sh\np="$1"\nshift\nexec "$p" "$@" -mwrapped\n')
                    os.chmod(f"{root}/my/tools/{n}", 0o755)
                else:
                    os.link(B.tools() + "/" + n, f"{root}/my/tools/{n}")
            os.makedirs(root + "/bin")
            for n in ("cc", "gcc", "c++", "g++", "ar", "nm", "readelf"):
                os.link(B.tools() + "/cc", f"{root}/bin/{n}")
            path = {"PATH": root + "/bin:" + os.environ["PATH"]}
            doc = {"make_global_settings": settings, "targets": [{"target_name": "t", "type": kind, "sources": ["a.c", "b.cc"]}]}
            if kind == "static_library":
                doc["targets"][0]["standalone_static_library"] = 1
            r = B.generate(root, fmt, {where + "/a.gyp": doc, where + "/a.c": "", where + "/b.cc": ""}, args=(where + "/a.gyp",), bare=True, env=path)
            if not r.ok:
                raise vf.Bad(f"{told}: not generated: {r.stderr[-300:]}", f"gen:{told}")
            x = B.build(root, fmt, bare=True, env=path)
            if x.rc:
                raise vf.Bad(f"{told}: the build ends with {x.rc}: {x.out[-300:]}", f"rc:{told}")
            seen = set()
            for cwd, argv in x.calls:
                tool = "CC" if any(os.path.basename(a) == "a.c" for a in argv) else "CXX" if any(os.path.basename(a) == "b.cc" for a in argv) else "AR" if os.path.basename(argv[0]) == "ar" else None
                if tool is None:
                    continue
                seen.add(tool)
                mine = os.path.normpath(os.path.join(cwd, argv[0])) == f"{root}/my/tools/{tool.lower()}"
                if mine != (tool in keys) or ("-mwrapped" in argv) != (tool + "_wrapper" in keys and (fmt == "ninja" or tool in keys)):
                    raise vf.Bad(f"{told}: runs {argv}", f"tool:{fmt}:{tool}" if tool == "AR" else f"tool:{told}")
            if not seen >= {"CC", "CXX"} or (kind == "static_library") != ("AR" in seen):
                raise vf.Bad(f"{told}: runs {x.calls}", f"runs:{told}")
            part.count("builds")
        finally:
            vf.rmtree(root)


def job(part, item):
    {"globals": globals_job, "gen": gen_job, "feature": feature_job, "dag": dag_job, "env": env_job, "config": config_job}[item[0]](part, *item[1:])


def main():
    c = vf.Check("C17", "model_checking",
                 "every value of every pair of settings x 4 target kinds; every typed DAG on up to 3 targets x file layout x order; every set of environment flags x toolset; every set of settings that differ between two configurations; "
                 "every set of tools named by make_global_settings; every way to generate a source - each built for real by make and ninja, and as a compilation database",
                 ["the database is judged on C and C++ sources listed in the build file (it does not do assembler, generated sources or generated include directories)",
                  "where environment flags stand among a target's own is not judged", "executables link shared libraries with run paths of the back end's own"])
    B.tools()
    todo = []
    for ch in features():
        for kind in KINDS:
            for where in (".", "d"):
                if vf.THOROUGH or len(ch) == 1 or where == "d":
                    todo.append(("feature", kind, where, ch))
    kinds5 = [*KINDS, "none"]
    pairs = [(a, b) for a in range(3) for b in range(a + 1, 3)]
    for n in (2, 3):
        ps = [p for p in pairs if p[1] < n]
        for kinds in itertools.product(kinds5, repeat=n):
            for m in range(1, 2 ** len(ps)):
                edges = [p for k, p in enumerate(ps) if m >> k & 1]
                if any(kinds[b] in ("executable", "loadable_module") and kinds[a] != "none" for a, b in edges):
                    continue
                for layout, rev in itertools.product(("one", "each"), (False, True)):
                    if vf.THOROUGH or (layout == "each") == rev or n == 2:
                        todo.append(("dag", kinds, edges, layout, rev))
    names = ["CFLAGS", "CXXFLAGS", "CPPFLAGS", "LDFLAGS"]
    for ts in ("target", "host"):
        suf, other = ("_host", "") if ts == "host" else ("", "_host")
        subsets = [sub for r in range(5) for sub in itertools.combinations(names, r)]
        # flags for the other toolset must not reach this one, whatever its own are
        for sub in subsets:
            for sub2 in subsets if vf.THOROUGH else ((), *((n,) for n in names), tuple(names)):
                for kind in KINDS if vf.THOROUGH or sub2 in ((), tuple(names)) else KINDS[:1]:
                    todo.append(("env", tuple(x + suf for x in sub) + tuple(x + other for x in sub2), kind, ts))
    for r in (1, 2, len(CONF_VALUES)):
        for pick in itertools.combinations(CONF_VALUES, r):
            for kind in KINDS:
                todo.append(("config", kind, "d", pick))
    for kind in KINDS:
        for keys in itertools.chain.from_iterable(itertools.combinations(("CC", "CXX", "AR", "CC_wrapper", "CXX_wrapper"), r) for r in range(6)):
            for where, style in itertools.product((".", "d"), ("relative", "absolute")):
                todo.append(("globals", kind, keys, where, style))
        for where, how, outdir, name in itertools.product((".", "d"), ("action", "action and header", "other action", "action not compiled", "rule"), ("INTERMEDIATE_DIR", "SHARED_INTERMEDIATE_DIR"),
                                                          ("g.c", "g.cc", "g.cpp", "g.S", "g.s", "g.cxx")):
            todo.append(("gen", kind, where, how, outdir, name))
    if os.environ.get("VF_ONLY"):
        todo = [t for t in todo if t[0] == os.environ["VF_ONLY"]]
    vf.pmap(c, job, todo, chunk=4)
    return c.finish()


vf.main(main)
