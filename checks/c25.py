"""C25: Xcode projects: every string in every position and every small graph reads back, with an independent reader, as the build files say."""
import itertools
import os
import re
import subprocess
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import gypdrv  # noqa: E402
import macstub  # noqa: E402
import plist  # noqa: E402
import vf  # noqa: E402

ALPHA = "aZ9 \t\"'\\$/._-+@#&;:,=(){}[]<>|*?!%~^`é"
HARD = "a \"'\\$/._-*(,;=)"
ENV = {}
STRONG = {  # the properties of an object that own others, by the format's own structure
    "PBXProject": ("buildConfigurationList", "mainGroup", "targets"),
    "PBXGroup": ("children",), "PBXVariantGroup": ("children",),
    "XCConfigurationList": ("buildConfigurations",),
    "PBXNativeTarget": ("buildConfigurationList", "buildPhases", "dependencies", "buildRules"),
    "PBXAggregateTarget": ("buildConfigurationList", "buildPhases", "dependencies"),
    "PBXSourcesBuildPhase": ("files",), "PBXFrameworksBuildPhase": ("files",), "PBXResourcesBuildPhase": ("files",),
    "PBXHeadersBuildPhase": ("files",), "PBXCopyFilesBuildPhase": ("files",),
    "PBXTargetDependency": ("targetProxy",), "PBXReferenceProxy": ("remoteRef",),
}
WEAK = {"PBXBuildFile": ("fileRef",), "PBXTargetDependency": ("target",), "PBXContainerItemProxy": ("containerPortal",), "PBXNativeTarget": ("productReference",),
        "PBXProject": ("productRefGroup",), "XCBuildConfiguration": ("baseConfigurationReference",)}
TOOLS = ""
KEYSYNTAX = ("!", "/", "=", "+", "?")  # endings of keys that are instructions to the merger, not names
PRODUCT = {"executable": "com.apple.product-type.tool", "static_library": "com.apple.product-type.library.static",
           "shared_library": "com.apple.product-type.library.dynamic", "loadable_module": "com.apple.product-type.library.dynamic"}


class Project:
    """A parsed project file, its structure checked."""

    def __init__(self, path, told):
        self.path = path
        try:
            with open(os.path.join(path, "project.pbxproj"), encoding="utf-8", newline="") as f:
                self.text = f.read()
            doc = plist.read(self.text)
        except (plist.Bad, OSError) as e:
            raise vf.Bad(f"{told}: {os.path.basename(path)} cannot be read: {e}", f"parse:{told}") from None
        self.objects, self.root_id = doc["objects"], doc["rootObject"]
        self.told = told
        self.root = self.get(self.root_id, "the root")
        if self.root["isa"] != "PBXProject":
            raise vf.Bad(f"{told}: the root is {self.root}", f"root:{told}")
        owner = {}
        for oid, o in self.objects.items():
            if len(oid) != 24 or set(oid) - set("0123456789ABCDEF"):
                raise vf.Bad(f"{told}: {oid!r} is no identifier", f"id:{told}")
            for k in STRONG.get(o["isa"], ()):
                v = o.get(k, [])
                for x in v if isinstance(v, list) else [v]:
                    self.get(x, f"{k} of {o['isa']} {oid}")
                    if x in owner:
                        raise vf.Bad(f"{told}: {self.objects[x]} belongs to {owner[x]} and to {(oid, k)}", f"owned:{told}")
                    owner[x] = (oid, k)
            for k in WEAK.get(o["isa"], ()):
                if k in o:
                    self.get(o[k], f"{k} of {o['isa']} {oid}")
        for r in self.root.get("projectReferences", []):
            self.get(r["ProjectRef"], "ProjectRef")
            self.get(r["ProductGroup"], "ProductGroup")
            owner[r["ProductGroup"]] = "projectReferences"
        for oid, o in self.objects.items():
            if oid != self.root_id and oid not in owner:
                raise vf.Bad(f"{told}: {o} belongs to nothing", f"orphan:{told}")
        self.owner = owner
        self.targets = [self.get(t, "target") for t in self.root["targets"]]
        self.ids = dict(zip([t["name"] for t in self.targets], self.root["targets"]))
        if len(set(self.root["targets"])) != len(self.root["targets"]):
            raise vf.Bad(f"{told}: targets {self.root['targets']}", f"targets:{told}")
        self.by_name = {t["name"]: t for t in self.targets}

    def get(self, oid, what):
        if not isinstance(oid, str) or oid not in self.objects:
            raise vf.Bad(f"{self.told}: {what} is {oid!r}, which is not in the file", f"dangling:{self.told}")
        return self.objects[oid]

    def full(self, oid):
        """Path of a file reference, through its groups, relative to the directory of the build file."""
        o = self.objects[oid]
        p = o.get("path", "")
        tree = o.get("sourceTree", "<group>")
        if tree == "<group>":
            up = self.owner.get(oid)
            if up and up != "projectReferences" and self.objects[up[0]]["isa"] in ("PBXGroup", "PBXVariantGroup"):
                return os.path.join(self.full(up[0]), p) if p else self.full(up[0])
            return p
        if tree == "SOURCE_ROOT":
            return p
        if tree == "<absolute>":
            return p
        return f"$({tree})/{p}" if p else f"$({tree})"

    def phase(self, target, isa):
        ps = [self.objects[p] for p in target.get("buildPhases", []) if self.objects[p]["isa"] == isa]
        if len(ps) > 1:
            raise vf.Bad(f"{self.told}: {len(ps)} {isa} in {target['name']}", f"phases:{self.told}")
        return [self.objects[f]["fileRef"] for f in ps[0]["files"]] if ps else []

    def configs(self, owner):
        cl = self.objects[owner["buildConfigurationList"]]
        return {self.objects[c]["name"]: self.objects[c] for c in cl["buildConfigurations"]}, cl.get("defaultConfigurationName")


def generate(d, files, args, told, ok=True):
    r = gypdrv.run(files, args=args, fmt="xcode", root=d, env=ENV)
    if ok and not r.ok:
        raise vf.Bad(f"{told}: not generated: {r.stderr[-400:]}", f"gen:{told}")
    return r


def again(d, args, projects, told):
    """Generating again gives the same files, unwritten."""
    def state():
        return {p: (open(os.path.join(p, "project.pbxproj"), "rb").read(), os.stat(os.path.join(p, "project.pbxproj")).st_ino, os.stat(os.path.join(p, "project.pbxproj")).st_mtime_ns) for p in projects}
    for p in projects:
        os.utime(os.path.join(p, "project.pbxproj"), ns=(10 ** 18, 10 ** 18))
    a = state()
    generate(d, {}, args, told)
    if state() != a:
        raise vf.Bad(f"{told}: generating again changes or rewrites a project", f"again:{told}")
    for p in projects:
        if [n for n in os.listdir(p) if n not in ("project.pbxproj",) and not n.endswith(".make")]:
            raise vf.Bad(f"{told}: {os.listdir(p)} in {p}", f"left:{told}")


def expansion(s):
    return any(x in s for x in ("<(", ">(", "^(", "<@", ">@", "^@", "<!", ">!", "^!", "<|", ">|", "^|"))


def strings():
    out = [""] + list(ALPHA) + ["".join(p) for p in itertools.product(ALPHA, repeat=2)]
    out += ["".join(p) for p in itertools.product(ALPHA if vf.THOROUGH else HARD, repeat=3)]
    out += [chr(i) for i in range(1, 32) if i != 13] + [f"a{chr(i)}b" for i in range(1, 32) if i != 13] + [f"a{chr(i)}" for i in range(1, 32) if i != 13]
    out += ["___", "a___b", "__", "a//b", "//", "/*", "*/", "/* x */", "a/*b*/c", "$(SRCROOT)/x", "é中😀", "\x7f"]
    return [s for s in dict.fromkeys(out) if not expansion(s)]


def settings_job(part, where, group):
    """Build settings, of a target, a configuration and the project, as text, and in lists."""
    told = f"settings of the {where}: {group[0]!r}.."
    d = vf.scratch("x")
    try:
        xs = {}
        for i, s in enumerate(group):
            xs[f"S{i}"] = s
            xs[f"L{i}"] = [s, "x"]
            xs[f"M{i}"] = [s]
            if s[-1:] not in KEYSYNTAX:
                xs[f"K{s}"] = "v"
        t = {"target_name": "t", "type": "executable", "sources": ["a.c"]}
        doc = {"targets": [t]}
        if where == "target":
            t["xcode_settings"] = xs
        elif where == "configuration":
            t["configurations"] = {"Default": {"xcode_settings": xs}, "Other": {}}
        else:
            doc["xcode_settings"] = xs
        generate(d, {"a.gyp": doc}, ("a.gyp",), told)
        p = Project(d + "/a.xcodeproj", told)
        confs, _ = p.configs(p.by_name["t"] if where != "project" else p.root)
        got = confs["Default"]["buildSettings"]
        for i, s in enumerate(group):
            part.add()
            part.seen((where, s))
            for k, want in ((f"S{i}", s), (f"L{i}", [s, "x"]), (f"M{i}", s), ("K" + s, "v")):
                if k in xs and got.get(k) != want and [got.get(k)] != want:
                    part.violation(f"{where} setting {xs.get(k, 'v')!r} is {got.get(k)!r} in the project", f"setting:{where}:{k[0]}:{s!r}")
        again(d, ("a.gyp",), [d + "/a.xcodeproj"], told)
    finally:
        vf.rmtree(d)


def unescape_define(s):
    """How Xcode splits a definition: backslash takes the next character as it is, blanks separate."""
    out, i = "", 0
    while i < len(s):
        if s[i] == "\\":
            i += 1
        elif s[i] in "\"' ":
            return None
        out += s[i:i + 1]
        i += 1
    return out


def lists_job(part, where, group):
    """Defines, include directories, arguments of actions, names."""
    told = f"lists in {where}: {group[0]!r}.."
    d = vf.scratch("x")
    try:
        words = ["A%d%s" % (i, s) for i, s in enumerate(group)]
        args = [w for w in words if not re.search(r"\$[A-Za-z_({0-9*@#?$!-]", w)]  # variables in commands are meant
        paths = [f"p{i}/{s}q" for i, s in enumerate(group) if "/" not in s and "$(" not in s]
        t = {"target_name": "t", "type": "executable", "sources": ["a.c"], "defines": words, "include_dirs": paths,
             "actions": [{"action_name": "n", "inputs": paths, "outputs": ["o"], "action": ["run"] + args}],
             "copies": [{"destination": f"/abs/{i}/c", "files": [x]} for i, x in enumerate(paths)],
             "postbuilds": [{"postbuild_name": "p", "action": ["post"] + args}]}
        gyp = os.path.join(where, "a.gyp")
        generate(d, {gyp: {"targets": [t]}}, (gyp,), told)
        p = Project(os.path.join(d, where, "a.xcodeproj"), told)
        confs, _ = p.configs(p.by_name["t"])
        got = confs["Default"]["buildSettings"]
        defs = got["GCC_PREPROCESSOR_DEFINITIONS"]
        defs = [unescape_define(x) for x in (defs if isinstance(defs, list) else [defs])]
        for i, (w, g) in enumerate(itertools.zip_longest(words, defs)):
            part.add()
            part.seen((where, "list", group[i] if i < len(group) else None))
            if w != g and "\t" not in w:
                part.violation(f"define {w!r} is {g!r}", f"define:{group[min(i, len(group) - 1)]!r}")
        inc = got.get("HEADER_SEARCH_PATHS", [])
        inc = inc if isinstance(inc, list) else [inc]
        if [os.path.normpath(x) for x in inc] != [os.path.normpath(x) for x in paths]:
            part.violation(f"include directories {paths} are {inc}", f"include:{told}")
        scripts = {o["name"]: o for o in p.objects.values() if o["isa"] == "PBXShellScriptBuildPhase"}
        for name, first in (('Action "n"', "run"), ('Postbuild "p"', "post")):
            o = scripts[name]
            lines = o["shellScript"]
            if not lines.startswith("exec ") or not lines.endswith("\nexit 1\n"):
                part.violation(f"script {lines!r}", f"script:{told}")
            want = [first] + args
            have = sh_words(lines[5:-8])
            if have != want:
                for w, h in itertools.zip_longest(want, have):
                    if w != h:
                        part.violation(f"{name}: argument {w!r} reaches it as {h!r}", f"argument:{w!r}")
                        break
        o = scripts['Action "n"']
        if o.get("inputPaths") != paths or o.get("outputPaths") != ["o"]:
            part.violation(f"the action's inputs {paths} are {o.get('inputPaths')}", f"inputs:{told}")
        copies = [o for o in p.objects.values() if o["isa"] == "PBXCopyFilesBuildPhase"]
        have = sorted((("/" if o["dstSubfolderSpec"] == "0" else "") + o["dstPath"], tuple(p.full(p.objects[f]["fileRef"]) for f in o["files"])) for o in copies)
        want = sorted((f"/abs/{i}/c", (x,)) for i, x in enumerate(paths))
        if have != want:
            part.violation(f"copies {[w for w in want if w not in have][:2]} are {[h for h in have if h not in want][:2]}", f"copies:{told}")
        again(d, (gyp,), [os.path.join(d, where, "a.xcodeproj")], told)
    finally:
        vf.rmtree(d)


def sh_words(s):
    """Words of a command as sh reads them, without running it."""
    out, cur, i = [], None, 0
    while i < len(s):
        c = s[i]
        if c in " \t\n":
            if cur is not None:
                out.append(cur)
                cur = None
        elif c == "'":
            j = s.index("'", i + 1)
            cur = (cur or "") + s[i + 1:j]
            i = j
        elif c == '"':
            cur = cur or ""
            i += 1
            while s[i] != '"':
                if s[i] == "\\" and s[i + 1] in '$`"\\\n':
                    i += 1
                elif s[i] in "`":
                    cur += "<substituted>"
                elif s[i] == "$" and s[i + 1] not in '" ' and s[i + 1].isascii() and (s[i + 1].isalpha() or s[i + 1] in "_{(*@#?-$!0123456789"):
                    cur += "<expanded>"
                cur += s[i]
                i += 1
        elif c == "\\":
            i += 1
            cur = (cur or "") + s[i]
        else:
            cur = (cur or "") + ("<special>" if c in "|&;<>()$`*?[#~{}" and not (c in "#~" and cur) else "") + c
        i += 1
    return out + ([cur] if cur is not None else [])


def names_job(part, what, group):
    """Names of targets, products, configurations, files."""
    told = f"{what}: {group[0]!r}.."
    d = vf.scratch("x")
    try:
        names = [f"n{i}{s}" for i, s in enumerate(group)]
        if what == "targets":
            doc = {"targets": [{"target_name": n, "type": "executable", "sources": ["a.c"]} for n in names]}
        elif what == "products":
            doc = {"targets": [{"target_name": f"t{i}", "product_name": n, "type": "executable", "sources": ["a.c"]} for i, n in enumerate(names)]}
        elif what == "configurations":
            doc = {"targets": [{"target_name": "t", "type": "executable", "sources": ["a.c"], "default_configuration": names[0], "configurations": {n: {"defines": ["D"]} for n in names}}]}
        elif what == "sources":
            doc = {"targets": [{"target_name": "t", "type": "executable", "sources": [n + ".c" for n in names]}]}
        elif what == "directories":
            doc = {"targets": [{"target_name": "t", "type": "executable", "sources": [f"{n}/b.c" for n in names] + [f"{n}/u/c.c" for n in names] + [f"x/{n}/d.c" for n in names]}]}
        elif what == "others":
            doc = {"targets": [{"target_name": "t", "type": "none", "sources": [f"y/{n}" for n in names]}]}
        elif what == "resources":
            doc = {"targets": [{"target_name": "t", "type": "executable", "mac_bundle": 1, "sources": ["a.c"], "mac_bundle_resources": [f"r/{n}.x" for n in names]}]}
        generate(d, {"a.gyp": doc}, ("a.gyp",), told)
        p = Project(d + "/a.xcodeproj", told)
        for s in group:
            part.add()
            part.seen((what, s))
        if what == "targets":
            got = [t["name"] for t in p.targets if t["isa"] == "PBXNativeTarget"]
            want = names
        elif what == "products":
            got = [p.objects[t["productReference"]]["path"] for t in p.targets if t["isa"] == "PBXNativeTarget"]
            want = names
        elif what == "configurations":
            got = sorted(p.configs(p.by_name["t"])[0])
            want = sorted(names)
            if p.configs(p.by_name["t"])[1] != names[0]:
                part.violation(f"the default configuration {names[0]!r} is {p.configs(p.by_name['t'])[1]!r}", f"default:{told}")
        elif what in ("sources", "directories"):
            got = [p.full(f) for f in p.phase(p.by_name["t"], "PBXSourcesBuildPhase")]
            want = doc["targets"][0]["sources"]
        elif what == "others":
            every = {p.full(k) for k, o in p.objects.items() if o["isa"] == "PBXFileReference"}
            want = doc["targets"][0]["sources"]
            got = [w for w in want if w in every]
        else:
            want = doc["targets"][0]["mac_bundle_resources"]
            got = [p.full(f) for f in p.phase(p.by_name["t"], "PBXResourcesBuildPhase")]
        if got != want:
            diff = [(w, g) for w, g in itertools.zip_longest(want, got) if w != g][0]
            part.violation(f"{what}: {diff[0]!r} is {diff[1]!r} in the project", f"name:{what}:{diff[0]!r}")
        again(d, ("a.gyp",), [d + "/a.xcodeproj"], told)
    finally:
        vf.rmtree(d)


def graph_job(part, kinds, edges, layout, libs):
    told = f"{'+'.join(kinds)} edges {edges} {layout}{' libraries' if libs else ''}"
    d = vf.scratch("x")
    try:
        part.add()
        part.seen((kinds, tuple(edges), layout, libs))
        n = len(kinds)
        home = {"one": ["a.gyp"] * n, "each": [f"d{i}/a.gyp" for i in range(n)], "same dir": [f"g{i}.gyp" for i in range(n)], "nested": ["a.gyp", "s/b.gyp", "s/t/c.gyp"][:n],
                "two": ["a.gyp", "s/b.gyp", "a.gyp"][:n]}[layout]
        docs = {}
        for i, k in enumerate(kinds):
            t = {"target_name": f"t{i}", "type": k}
            if k != "none":
                t["sources"] = ["x.c", f"y{i}.cc", "h.h"]
                if libs:
                    t["libraries"] = ["$(SDKROOT)/usr/lib/libz.dylib", "libs/libq.a"]
            else:
                t["actions"] = [{"action_name": "n", "inputs": ["i"], "outputs": ["$(BUILT_PRODUCTS_DIR)/o"], "action": ["run"]}]
            if i == n - 1 and k != "none":
                t["actions"] = [{"action_name": "n", "inputs": ["i"], "outputs": ["$(INTERMEDIATE_DIR)/gen.c"], "action": ["run"], "process_outputs_as_sources": 1}]
            deps = [os.path.relpath(home[j], os.path.dirname(home[i]) or ".") + f":t{j}" for a, j in edges if a == i]
            if deps:
                t["dependencies"] = deps
            docs.setdefault(home[i], {"targets": []})["targets"].append(t)
        roots = tuple(docs)
        generate(d, docs, roots, told)
        ps = {h: Project(os.path.join(d, h[:-4] + ".xcodeproj"), told) for h in docs}
        for h, doc in docs.items():
            p = ps[h]
            want = [t["target_name"] for t in doc["targets"]]
            got = [t["name"] for t in p.targets if t["name"] in want]
            if got != want:
                raise vf.Bad(f"{told}: {h} has targets {[t['name'] for t in p.targets]}", f"targets:{told}")
        for i, k in enumerate(kinds):
            p = ps[home[i]]
            t = p.by_name[f"t{i}"]
            if (t["isa"], t.get("productType")) != (("PBXAggregateTarget", None) if k == "none" else ("PBXNativeTarget", PRODUCT[k])):
                raise vf.Bad(f"{told}: t{i} is {t['isa']} {t.get('productType')}", f"kind:{told}:{i}")
            deps = set()
            for x in t.get("dependencies", []):
                o = p.objects[x]
                proxy = p.objects[o["targetProxy"]]
                if proxy["containerPortal"] == p.root_id:
                    if o.get("target") != proxy["remoteGlobalIDString"]:
                        raise vf.Bad(f"{told}: dependency {o} of t{i} through {proxy}", f"proxy:{told}:{i}")
                    name = p.get(o["target"], "dependency")["name"]
                    if proxy["remoteInfo"] != name:
                        raise vf.Bad(f"{told}: {proxy} for {name}", f"proxy:{told}:{i}")
                    deps.add((home[i], name))
                else:
                    ref = p.objects[proxy["containerPortal"]]
                    other = os.path.normpath(os.path.join(d, os.path.dirname(home[i]), p.full(proxy["containerPortal"])))
                    hs = [h for h, q in ps.items() if os.path.normpath(q.path) == other]
                    if len(hs) != 1:
                        raise vf.Bad(f"{told}: t{i} depends on something of {ref.get('path')}", f"portal:{told}:{i}")
                    q = ps[hs[0]]
                    name = q.get(proxy["remoteGlobalIDString"], "remote dependency")["name"]
                    if proxy["remoteInfo"] != name or proxy["remoteGlobalIDString"] not in q.root["targets"]:
                        raise vf.Bad(f"{told}: {proxy} for {name}", f"proxy:{told}:{i}")
                    deps.add((hs[0], name))
            support = {x for x in deps if x[1] == f"t{i} Support"}
            want = {(home[j], f"t{j}") for a, j in edges if a == i and not (k == kinds[j] == "static_library")}
            more = set()  # what a static library or a target without product needs is passed on to what depends on it
            todo = [j for a, j in edges if a == i]
            while todo:
                j = todo.pop()
                if kinds[j] in ("static_library", "none"):
                    for a, b in edges:
                        if a == j:
                            more.add((home[b], f"t{b}"))
                            todo.append(b)
            if not want <= deps - support <= want | more or bool(support) != (k != "none" and i == n - 1):
                raise vf.Bad(f"{told}: t{i} depends on {sorted(deps)}", f"deps:{told}:{i}")
            for s in support:
                st = p.by_name[s[1]]
                names = set()
                for x in st.get("dependencies", []):
                    proxy = p.objects[p.objects[x]["targetProxy"]]
                    names.add(proxy["remoteInfo"])
                if names != {n_ for _, n_ in deps - support}:
                    raise vf.Bad(f"{told}: the support of t{i} depends on {names}", f"support:{told}:{i}")
            if k == "none":
                continue
            src = [p.full(f) for f in p.phase(t, "PBXSourcesBuildPhase")]
            w = (["$(INTERMEDIATE_DIR)/gen.c"] if i == n - 1 else []) + ["x.c", f"y{i}.cc"]
            if sorted(src) != sorted(w) or [s for s in src if s in w[-2:]] != w[-2:]:
                raise vf.Bad(f"{told}: t{i} compiles {src}", f"sources:{told}:{i}")
            linked = []
            for f in p.phase(t, "PBXFrameworksBuildPhase"):
                o = p.objects[f]
                if o["isa"] == "PBXReferenceProxy":
                    proxy = p.objects[o["remoteRef"]]
                    other = os.path.normpath(os.path.join(d, os.path.dirname(home[i]), p.full(proxy["containerPortal"])))
                    q = next(q for q in ps.values() if os.path.normpath(q.path) == other)
                    prod = proxy["remoteGlobalIDString"]
                    names = [x["name"] for x in q.targets if x.get("productReference") == prod]
                    if names != [proxy["remoteInfo"]] or q.objects[prod]["path"] != o["path"]:
                        raise vf.Bad(f"{told}: {o} {proxy}", f"product:{told}:{i}")
                    linked.append(names[0])
                else:
                    names = [x["name"] for x in p.targets if x.get("productReference") == f]
                    linked.append(names[0] if names else p.full(f))
            want = [] if k == "static_library" else [f"t{j}" for a, j in edges if a == i and kinds[j] in ("static_library", "shared_library")]
            indirect = set()
            if k != "static_library":
                todo = [j for a, j in edges if a == i]
                while todo:
                    j = todo.pop()
                    if kinds[j] in ("static_library", "none"):
                        for a, b in edges:
                            if a == j and kinds[b] in ("static_library", "shared_library") and f"t{b}" not in want:
                                indirect.add(f"t{b}")
                                todo.append(b)
            lw = ["$(SDKROOT)/usr/lib/libz.dylib", "libs/libq.a"] if libs else []
            lt = [x for x in linked if x.startswith("t")]
            if [x for x in linked if x in lw] != lw or not set(want) <= set(lt) <= set(want) | indirect or len(set(linked)) != len(linked) or set(linked) - set(lt) - set(lw):
                raise vf.Bad(f"{told}: t{i} links {linked}, should {want} and {lw}", f"links:{told}:{i}")
        again(d, roots, [q.path for q in ps.values()], told)
        part.count("graphs")
        part.sample({"targets": kinds, "depends": edges, "files": home, "objects": {h: len(p.objects) for h, p in ps.items()}})
    finally:
        vf.rmtree(d)


def pair_job(part, a, b, how):
    """Two things with related names in one project stay two."""
    told = f"{how}: {a!r} and {b!r}"
    d = vf.scratch("x")
    try:
        part.add()
        part.seen((a, b, how))
        one = {"target_name": "t", "type": "executable", "sources": ["m.c"]}
        if how == "sources":
            one["sources"] = [a, b]
            doc = {"targets": [one]}
        elif how == "two targets":
            one["sources"] = [a]
            doc = {"targets": [one, {"target_name": "u", "type": "executable", "sources": [b]}]}
        elif how == "libraries":
            one["libraries"] = [a, b]
            doc = {"targets": [one]}
        elif how == "copies":
            one["copies"] = [{"destination": "/x", "files": [a]}, {"destination": "/x", "files": [b]}, {"destination": "/y", "files": [a, b]}]
            doc = {"targets": [one]}
        elif how == "actions":
            one["actions"] = [{"action_name": "same", "inputs": [a], "outputs": ["o1"], "action": ["x"]}, {"action_name": "other", "inputs": [b], "outputs": ["o2"], "action": ["x"]}]
            doc = {"targets": [one]}
        elif how == "excluded":
            one["sources"] = [a]
            one["sources_excluded"] = [b]
            doc = {"targets": [one]}
        generate(d, {"a.gyp": doc}, ("a.gyp",), told)
        p = Project(d + "/a.xcodeproj", told)
        every = {p.full(k) for k, o in p.objects.items() if o["isa"] == "PBXFileReference"}
        want = {os.path.normpath(x) if not x.endswith("/") else x for x in (a, b)}
        t = p.by_name["t"]
        if not want <= every:
            raise vf.Bad(f"{told}: the project has {sorted(every)}", f"files:{told}")
        src = [p.full(f) for f in p.phase(t, "PBXSourcesBuildPhase")]
        lib = [p.full(f) for f in p.phase(t, "PBXFrameworksBuildPhase")]
        ok = {"sources": src == [os.path.normpath(a), os.path.normpath(b)], "two targets": src == [os.path.normpath(a)],
              "libraries": lib == [os.path.normpath(a), os.path.normpath(b)]}.get(how, True)
        if not ok:
            raise vf.Bad(f"{told}: sources {src}, libraries {lib}", f"phase:{told}")
        again(d, ("a.gyp",), [d + "/a.xcodeproj"], told)
    finally:
        vf.rmtree(d)


SETTINGS = {  # of the build file -> of the project
    "defines": "GCC_PREPROCESSOR_DEFINITIONS", "include_dirs": "HEADER_SEARCH_PATHS", "library_dirs": "LIBRARY_SEARCH_PATHS",
    "mac_framework_dirs": "FRAMEWORK_SEARCH_PATHS", "xcode_settings S": "S", "xcode_settings L": "L", "xcode_config_file": None}
PLACES = ((), ("target",), ("Debug",), ("Release",), ("target", "Debug"), ("target", "Debug", "Release"), ("Debug", "Release"))


def configs_job(part, keys, first):
    """Each configuration of a target has what the target and that configuration set, and no other."""
    told = f"configurations differ in {keys}, {first}"
    d = vf.scratch("x")
    try:
        targets, expect = [], []
        for n, places in enumerate(itertools.product([PLACES[first]], PLACES, PLACES if vf.THOROUGH else PLACES[:5])):
            t = {"target_name": f"t{n}", "type": "executable", "sources": ["a.c"], "default_configuration": "Release",
                 "configurations": {"Debug": {}, "Release": {}, "Other": {}}}
            want = {c: {} for c in t["configurations"]}
            for key, where in zip(keys, places):
                for w in where:
                    if key == "xcode_config_file" and w == "target":
                        continue
                    o = t if w == "target" else t["configurations"][w]
                    v = f"{w}{n}/v"
                    if key.startswith("xcode_settings"):
                        o.setdefault("xcode_settings", {})[key[-1]] = v if key[-1] == "S" else [v, "w"]
                    else:
                        o[key] = v if key == "xcode_config_file" else [v]
                    for c in want if w == "target" else [w]:
                        old = want[c].get(key, [])
                        want[c][key] = [v] if key in ("xcode_settings S", "xcode_config_file") else old + [v]
                    # a list already holding "w" gets no second one, and keeps it where it was
                    if key == "xcode_settings L":
                        for c in want if w == "target" else [w]:
                            vs = [x for x in want[c][key] if x != "w"]
                            want[c][key] = [vs[0], "w"] + vs[1:]
            targets.append(t)
            expect.append(want)
        generate(d, {"a.gyp": {"targets": targets}}, ("a.gyp",), told)
        p = Project(d + "/a.xcodeproj", told)
        for t, want in zip(targets, expect):
            part.add()
            part.seen((keys, str(t)))
            confs, default = p.configs(p.by_name[t["target_name"]])
            if default != "Release" or set(confs) != set(want):
                raise vf.Bad(f"{told}: configurations {sorted(confs)}, default {default}", f"configurations:{told}")
            for c, w in want.items():
                for k in keys:
                    if k == "xcode_config_file":
                        got = [p.full(confs[c]["baseConfigurationReference"])] if "baseConfigurationReference" in confs[c] else []
                    else:
                        got = confs[c]["buildSettings"].get(SETTINGS[k], [])
                        got = got if isinstance(got, list) else [got]
                    if got != w.get(k, []):
                        part.violation(f"{told}: {t}: {c} has {k} {got}, should {w.get(k, [])}", f"config:{keys}:{k}:{t['target_name']}")
        again(d, ("a.gyp",), [d + "/a.xcodeproj"], told)
    finally:
        vf.rmtree(d)


PRODUCTS = {  # kind, flag: product type, prefix, extension, what the extension is a setting of
    ("executable", None): ("tool", "", "", "EXECUTABLE"), ("static_library", None): ("library.static", "lib", "a", "EXECUTABLE"),
    ("shared_library", None): ("library.dynamic", "lib", "dylib", "EXECUTABLE"), ("loadable_module", None): ("library.dynamic", "", "so", "EXECUTABLE"),
    ("executable", "mac_bundle"): ("application", "", "app", "WRAPPER"), ("shared_library", "mac_bundle"): ("framework", "", "framework", "WRAPPER"),
    ("loadable_module", "mac_bundle"): ("bundle", "", "bundle", "WRAPPER"), ("loadable_module", "mac_xctest_bundle"): ("bundle.unit-test", "", "xctest", "WRAPPER"),
    ("executable", "ios_app_extension"): ("app-extension", "", "appex", "WRAPPER"), ("executable", "ios_watch_app"): ("application.watchapp", "", "app", "WRAPPER"),
    ("executable", "ios_watchkit_extension"): ("watchkit-extension", "", "appex", "WRAPPER"), ("mac_kernel_extension", "mac_bundle"): ("kernel-extension", "", "kext", "WRAPPER")}


def products_job(part, kind, flag):
    told = f"products of {kind} {flag}"
    d = vf.scratch("x")
    try:
        kindname, prefix0, ext0, what = PRODUCTS[kind, flag]
        targets, expect = [], []
        for i, (name, prefix, ext, out) in enumerate(itertools.product((None, "p", "libp", "p.q", "a b"), (None, "", "q", "lib"), (None, "e", "node"), (None, "/o/d"))):
            t = {"target_name": f"t{i}", "type": kind, "sources": ["a.c"]}
            if flag:
                t[flag] = 1
                t["mac_bundle"] = 1
            for k, v in (("product_name", name), ("product_prefix", prefix), ("product_extension", ext), ("product_dir", out)):
                if v is not None:
                    t[k] = f"{v}{i}" if k == "product_name" else v
            pre = prefix0 if prefix is None else prefix
            n = t.get("product_name", t["target_name"])
            n = n[len(pre):] if pre and n.startswith(pre) else n
            e = ext0 if ext is None else ext
            targets.append(t)
            expect.append((pre, n, e, out, ext is not None))
        generate(d, {"a.gyp": {"targets": targets}}, ("a.gyp",), told)
        p = Project(d + "/a.xcodeproj", told)
        for t, (pre, n, e, out, forced) in zip(targets, expect):
            part.add()
            part.seen((kind, flag, str(t)))
            x = p.by_name[t["target_name"]]
            ref = p.objects[x["productReference"]]
            want = pre + n + ("." + e if e else "")
            if x["productType"] != "com.apple.product-type." + kindname or (ref["path"], ref["sourceTree"]) != (want, "BUILT_PRODUCTS_DIR"):
                part.violation(f"{t} is {x['productType']} {ref}", f"product:{t}")
            group = p.objects[p.root["productRefGroup"]] if "productRefGroup" in p.root else None
            if group is not None and x["productReference"] not in group["children"]:
                part.violation(f"{t}: its product is not among the products", f"productgroup:{t}")
            st = p.configs(x)[0]["Default"]["buildSettings"]
            made = st["PRODUCT_NAME"] if kindname == "tool" and forced else st["PRODUCT_NAME"] + ("." + st.get(what + "_EXTENSION", ext0) if st.get(what + "_EXTENSION", ext0) else "")
            made = st.get(what + "_PREFIX", prefix0) + made
            if made != want or st.get("TARGET_BUILD_DIR") != out or (st.get("MACH_O_TYPE") == "mh_bundle") != (kind == "loadable_module" and flag is None):
                part.violation(f"{t}: settings {st} make {made}, should {want}", f"productsettings:{t}")
        again(d, ("a.gyp",), [d + "/a.xcodeproj"], told)
    finally:
        vf.rmtree(d)


def sh(script, cwd, env):
    r = subprocess.run(["sh", "-c", script.replace("/usr/sbin/sysctl", TOOLS + "/sysctl")], cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, text=True)
    return r.returncode, r.stdout


def tools():
    """A tool that says what it was given and makes the files after -o, and what scripts expect of a Mac."""
    global TOOLS
    TOOLS = vf.scratch("xtools")
    for name, text in (("tool", '{ printf "%s\\0" "$PWD" "$@"; } > "$TOOL_LOG.$$"; n=; for a; do if [ "$n" ]; then printf x > "$a" || exit 1; fi; [ "$a" = -o ] && n=1; [ "$a" = -- ] && n=; done; true\n'),
                       ("xcrun", 'exec "$@"\n'), ("sysctl", "echo 2\n")):
        with open(f"{TOOLS}/{name}", "w") as f:
            f.write("#!/bin/sh\n" + text)
        os.chmod(f"{TOOLS}/{name}", 0o755)


def calls(log):
    """What the tool was called with since the last time (every call has its own file: several run at once)."""
    out = []
    for f in sorted(os.listdir(os.path.dirname(log))):
        if f.startswith(os.path.basename(log) + "."):
            with open(os.path.join(os.path.dirname(log), f)) as g:
                out.append(g.read().split("\0")[:-1])
            os.unlink(os.path.join(os.path.dirname(log), f))
    return out


def script_job(part, kind, sources, outs, extra, arg, message, flags):
    """Runs the scripts of a project as Xcode would and looks at what they call."""
    told = f"scripts of {kind} {sources} {outs} {extra} {arg!r} {message!r} {flags}"
    d = vf.scratch("x")
    try:
        part.add()
        part.seen((kind, sources, outs, extra, arg, message, flags))
        where, process, two = flags
        base = os.path.normpath(os.path.join(d, where))
        gyp = os.path.join(where, "a.gyp")
        rule = {"rule_name": "r-1", "extension": "x", "inputs": list(extra), "outputs": list(outs), "action": ["tool", arg, "<(RULE_INPUT_PATH)", "<(RULE_INPUT_ROOT)", "<(RULE_INPUT_EXT)", "<(RULE_INPUT_NAME)", "<(RULE_INPUT_DIRNAME)", "-o"] + list(outs)}
        action = {"action_name": "a", "inputs": ["i"] + list(extra), "outputs": ["<(SHARED_INTERMEDIATE_DIR)/o.h", "rel/p.h"], "action": ["tool", arg, "<(PRODUCT_DIR)", "-o", "<(SHARED_INTERMEDIATE_DIR)/o.h", "rel/p.h"]}
        if process:
            rule["process_outputs_as_sources"] = 1
        if message:
            rule["message"] = action["message"] = message
        t = {"target_name": "t", "type": kind, "sources": list(sources) + ["m.c"], "rules": [rule], "actions": [action]}
        if two:
            t["rules"].append({"rule_name": "s", "extension": "y", "outputs": ["<(INTERMEDIATE_DIR)/<(RULE_INPUT_ROOT).2"], "action": ["tool", "second", "<(RULE_INPUT_PATH)", "-o", "<@(_outputs)"]})
        generate(d, {gyp: {"targets": [t]}}, (gyp,), told)
        proj = os.path.join(base, "a.xcodeproj")
        p = Project(proj, told)
        dirs = {"SRCROOT": base, "BUILT_PRODUCTS_DIR": d + "/build/Default", "INTERMEDIATE_DIR": d + "/inter", "SHARED_INTERMEDIATE_DIR": d + "/shared"}
        env = dict(dirs, PATH=TOOLS + ":" + os.environ["PATH"], TOOL_LOG=d + "/log", PROJECT_FILE_PATH=proj, CONFIGURATION="Default", TARGET_NAME="t")
        var = {"PRODUCT_DIR": dirs["BUILT_PRODUCTS_DIR"], "INTERMEDIATE_DIR": dirs["INTERMEDIATE_DIR"], "SHARED_INTERMEDIATE_DIR": dirs["SHARED_INTERMEDIATE_DIR"]}
        for s in [*sources, *extra, "i", "m.c"]:
            os.makedirs(os.path.dirname(os.path.join(base, s)), exist_ok=True)
            with open(os.path.join(base, s), "w") as f:
                f.write("x")
        holder = p.by_name["t"] if kind == "none" else p.by_name["t Support"]
        scripts = [p.objects[x] for x in holder["buildPhases"] if p.objects[x]["isa"] == "PBXShellScriptBuildPhase"]

        def fill(s, source=None):
            root, ext = os.path.splitext(os.path.basename(source or ""))
            v = dict(var, RULE_INPUT_PATH=source, RULE_INPUT_ROOT=root, RULE_INPUT_EXT=ext, RULE_INPUT_NAME=root + ext, RULE_INPUT_DIRNAME=os.path.dirname(source or ""))
            return re.sub(r"<\((\w+)\)", lambda m: v[m.group(1)], s)

        def wanted(only=None):
            w = []
            for s in sources:
                if s.endswith(".x") and (only is None or s in only):
                    w.append([base] + [fill(x, s) for x in rule["action"][1:-len(outs) - 1]] + ["-o"] + [fill(x, s) for x in outs])
                if s.endswith(".y") and two and (only is None or s in only):
                    w.append([base, "second", s, "-o", fill("<(INTERMEDIATE_DIR)/<(RULE_INPUT_ROOT).2", s)])
            return sorted(w)

        def expand(s):
            return re.sub(r"\$\((\w+)\)", lambda m: dirs[m.group(1)], s)

        rules = [o for o in scripts if o["name"].startswith("Rule")]
        acts = [o for o in scripts if o["name"].startswith("Action")]
        xs = [s for s in sources if s.endswith(".x")]
        ys = [s for s in sources if s.endswith(".y") and two]
        if len(acts) != 1 or len(rules) != bool(xs) + bool(ys) or len(scripts) != len(rules) + len(acts):
            raise vf.Bad(f"{told}: scripts {[o['name'] for o in scripts]}", f"scripts:{told}")
        o = acts[0]
        if [expand(x) for x in o["outputPaths"]] != [fill(x) for x in action["outputs"]] or o["inputPaths"] != action["inputs"]:
            raise vf.Bad(f"{told}: the action has {o['inputPaths']} and {o['outputPaths']}", f"paths:{told}")
        for x in o["outputPaths"]:
            os.makedirs(os.path.dirname(os.path.join(base, expand(x))), exist_ok=True)  # Xcode makes these
        rc, text = sh(o["shellScript"], base, env)
        got = calls(d + "/log")
        want = [[base] + [fill(x) for x in action["action"][1:]]]
        if rc or got != want or bool(message) != ("note: " + message in text if message else "note:" in text):
            raise vf.Bad(f"{told}: the action ended {rc} {text[-300:]!r}, called {got}, should {want}", f"action:{told}")

        def run(want, why):
            got = []
            for o in rules:
                rc, text = sh(o["shellScript"], base, env)
                if rc:
                    raise vf.Bad(f"{told}: {why}: {o['name']} ended {rc}: {text[-400:]}", f"rule:{told}")
                got += calls(d + "/log")
                if message and o["name"] == 'Rule "r-1"' and any(g[1] == arg for g in got) and "note: " + message not in text:
                    raise vf.Bad(f"{told}: {why}: no message in {text[-400:]}", f"message:{told}")
            if sorted(got) != want:
                raise vf.Bad(f"{told}: {why}: rules call {sorted(got)}, should {want}", f"rules:{told}")

        def touch(path):
            for top, _, names in os.walk(d):
                for n in names:
                    os.utime(os.path.join(top, n), (1000, 1000))
            os.utime(path, (2000, 2000))

        run(wanted(), "the first time")
        run([], "nothing changed")
        for s in sources:
            touch(os.path.join(base, s))
            run(wanted([s]), f"{s} changed")
        for e in extra:
            touch(os.path.join(base, e))
            run(wanted(xs), f"{e} changed")
        if xs:
            for n, out in enumerate(outs[:1]):
                os.unlink(os.path.join(base, fill(out, xs[0])))
                run(wanted([xs[0]]), f"{out} removed")
        if kind != "none":
            src = [expand(p.full(f)) for f in p.phase(p.by_name["t"], "PBXSourcesBuildPhase")]
            gen = [fill(o, s) for s in xs for o in outs if o.endswith(".c")] if process else []
            if sorted(src) != sorted(gen + ["m.c"]):
                raise vf.Bad(f"{told}: compiles {src}, should {gen + ['m.c']}", f"compiled:{told}")
        part.count("script_runs", 4 + len(sources))
    finally:
        vf.rmtree(d)


def all_job(part, wild, runs, custom, suites):
    """What "All" builds, and the targets that run something."""
    told = f"suppressed {wild} run {runs} custom {custom} suites {suites}"
    d = vf.scratch("x")
    try:
        part.add()
        part.seen((wild, runs, custom, suites))
        n = len(wild)
        ts = []
        for i in range(n):
            t = {"target_name": f"t{i}", "type": "executable", "sources": ["a.c"]}
            if wild[i]:
                t["suppress_wildcard"] = 1
            if runs[i]:
                t["run_as"] = {"action": ["tool", "a b", f"$(BUILT_PRODUCTS_DIR)/t{i}"], "working_directory": "$(SRCROOT)/w", "environment": {"E": "$(SRCROOT)/e", "F": "f"}}
            ts.append(t)
        if custom:
            ts.append({"target_name": custom, "type": "none", "dependencies": ["t0"]})
        if suites:
            ts.append({"target_name": "suite", "type": "none", "dependencies": [f"t{i}" for i in suites], "xcode_create_dependents_test_runner": 1})
        generate(d, {"a.gyp": {"targets": ts}}, ("a.gyp",), told)
        p = Project(d + "/a.xcodeproj", told)

        def deps(name):
            return [p.objects[p.objects[x]["target"]]["name"] for x in p.by_name[name].get("dependencies", [])]

        got = [t["name"] for t in p.targets]
        plain = [t["target_name"] for t in ts]
        if [g for g in got if g in plain] != plain:
            raise vf.Bad(f"{told}: targets {got}", f"order:{told}")
        want = [f"t{i}" for i in range(n) if not wild[i]] + ["suite"] * bool(suites)
        ran = [f"Run t{i}" for i in range(n) if runs[i]]
        more = set(ran)
        if not custom and len(want) > 1:
            more.add("All")
            if got[0] != "All" or deps("All") != want:
                raise vf.Bad(f"{told}: targets {got}, All builds {deps('All') if 'All' in got else None}, should {want}", f"all:{told}")
        if len(ran) > 1:
            more.add("Run All Tests")
            if "Run All Tests" not in got or deps("Run All Tests") != ran:
                raise vf.Bad(f"{told}: targets {got}", f"runall:{told}")
        if any(f"Run t{i}" in ran for i in suites):
            more.add("Run suite Tests")
            if "Run suite Tests" not in got or deps("Run suite Tests") != [f"Run t{i}" for i in suites if runs[i]]:
                raise vf.Bad(f"{told}: targets {got}", f"suite:{told}")
        if sorted(got) != sorted(plain + list(more)):
            raise vf.Bad(f"{told}: targets {got}", f"extra:{told}")
        for i in range(n):
            if runs[i]:
                x = p.by_name[f"Run t{i}"]
                if deps(x["name"]) != [f"t{i}"]:
                    raise vf.Bad(f"{told}: Run t{i} builds {deps(x['name'])}", f"runs:{told}")
                os.makedirs(d + "/w", exist_ok=True)
                script, = [p.objects[o]["shellScript"] for o in x["buildPhases"]]
                env = {"SRCROOT": d, "BUILT_PRODUCTS_DIR": d + "/b", "TMPDIR": d, "PATH": TOOLS + ":" + os.environ["PATH"], "TOOL_LOG": d + "/log"}
                rc, text = sh(script.replace("python -c", "python3 -c").replace('exec ', 'echo "$E $F" > "$TMPDIR/env"\nexec ', 1), d, env)
                with open(d + "/env") as f:
                    e = f.read()
                if rc or calls(d + "/log") != [[d + "/w", "a b", f"{d}/b/t{i}"]] or e != f"{d}/e f\n":
                    raise vf.Bad(f"{told}: Run t{i} ended {rc} {text[-300:]}, environment {e!r}", f"ran:{told}")
        again(d, ("a.gyp",), [d + "/a.xcodeproj"], told)
    finally:
        vf.rmtree(d)


def project_job(part, top, configs, names, out):
    """Settings of the project, and a project somewhere else than its build file."""
    told = f"project settings {top} {configs} of {names} in {out}"
    d = vf.scratch("x")
    try:
        part.add()
        part.seen((top, configs, names, out))
        doc = {"targets": [{"target_name": "t", "type": "executable", "sources": ["a.c", "e/b.c"], "default_configuration": names[-1], "configurations": {n: {} for n in names}}]}
        want = {n: {"S": None, "L": None, "file": None} for n in names}
        if "settings" in top:
            doc["xcode_settings"] = {"S": "top", "L": ["a", "b"]}
            for n in names:
                want[n].update(S="top", L=["a", "b"])
        if "file" in top:
            doc["xcode_config_file"] = "top.xcconfig"
            for n in names:
                want[n]["file"] = "top.xcconfig"
        for n, c in zip(names, configs):
            x = {}
            if "settings" in c:
                x["xcode_settings"] = {"S": "of " + n, "L": ["c"]}
                want[n].update(S="of " + n, L="c")
            if "file" in c:
                x["xcode_config_file"] = f"e/{n}.xcconfig"
                want[n]["file"] = f"e/{n}.xcconfig"
            if c:
                doc.setdefault("configurations", {})[n] = x
        args = ("s/a.gyp",) + ((f"--generator-output={out}",) if out else ())
        generate(d, {"s/a.gyp": doc}, args, told)
        p = Project(os.path.join(d, out or ".", "s/a.xcodeproj"), told)
        confs, default = p.configs(p.root)
        if default != names[-1] or sorted(confs) != sorted(names):
            raise vf.Bad(f"{told}: configurations {sorted(confs)}, default {default}", f"projectconfigs:{told}")
        for n, w in want.items():
            o = confs[n]
            got = {"S": o["buildSettings"].get("S"), "L": o["buildSettings"].get("L"), "file": p.full(o["baseConfigurationReference"]) if "baseConfigurationReference" in o else None}
            if got != w:
                raise vf.Bad(f"{told}: {n} has {got}, should {w}", f"project:{told}:{n}")
        home = os.path.normpath(os.path.join(p.path, "..", p.root.get("projectDirPath", "")))
        if home != d + "/s":
            raise vf.Bad(f"{told}: files are looked for in {home}", f"home:{told}")
        if [p.full(f) for f in p.phase(p.by_name["t"], "PBXSourcesBuildPhase")] != ["a.c", "e/b.c"]:
            raise vf.Bad(f"{told}: compiles {[p.full(f) for f in p.phase(p.by_name['t'], 'PBXSourcesBuildPhase')]}", f"projectsources:{told}")
        again(d, args, [p.path], told)
    finally:
        vf.rmtree(d)


def job(part, item):
    {"settings": settings_job, "lists": lists_job, "names": names_job, "graph": graph_job, "pair": pair_job, "configs": configs_job, "products": products_job, "script": script_job, "all": all_job, "project": project_job}[item[0]](part, *item[1:])


def main():
    c = vf.Check("C25", "model_checking",
                 "every string up to length 3 over the characters the format treats specially, as a setting of a target, a configuration or the project, as define, include directory, argument, path, and name of everything that has one; "
                 "every typed DAG on up to 3 targets x file layout; every shape of rules and actions, its scripts run; every set of targets left out of All, run, or collected in suites; every pair of related file names x how a target uses them; every placement of three kinds of settings over a target and its configurations; every naming of every kind of product - "
                 "each project read back by an independent reader, its objects all present, owned once and reachable, and generated a second time",
                 ["carriage returns are written as line feeds on purpose, and are left out", "variables in commands are expanded by the shell on purpose, and are left out",
                  "product names that differ from the target's by the prefix only are cleaned up on purpose",
                  "a file name that is also a directory, a library listed twice, and two projects that make the same product are refused by design"])
    ENV["PATH"] = macstub.path() + ":" + os.environ["PATH"]
    tools()
    S = strings()
    todo = []
    for where in ("target", "configuration", "project"):
        for i in range(0, len(S), 150):
            todo.append(("settings", where, S[i:i + 150]))
    short = [s for s in S if len(s) <= (3 if vf.THOROUGH else 2)]
    L = [s for s in short if not any(ord(ch) < 32 and ch != "\t" for ch in s)]
    for where in (".", "d/e"):
        for i in range(0, len(L), 150):
            todo.append(("lists", where, L[i:i + 150]))
    for what in ("targets", "products", "configurations", "sources", "directories", "others", "resources"):
        bad = {"targets": "#:/\t", "products": "/\t", "configurations": "/\t", "sources": "/\t", "directories": "/\t", "others": "/\t", "resources": "/\t"}[what]
        N = [s for s in short if not any(ch in bad or ord(ch) < 32 for ch in s) and not (what == "configurations" and s[-1:] in KEYSYNTAX)]
        if what in ("sources", "directories", "others", "resources"):
            N = [s for s in N if "$(" not in s]
        for i in range(0, len(N), 60):
            todo.append(("names", what, N[i:i + 60]))
    kinds5 = ["executable", "static_library", "shared_library", "loadable_module", "none"]
    for keys in itertools.permutations(SETTINGS, 3):
        if list(keys) == sorted(keys) or vf.THOROUGH and keys[0] < keys[1]:
            for first in range(len(PLACES)):
                todo.append(("configs", keys, first))
    shapes = [("<(INTERMEDIATE_DIR)/<(RULE_INPUT_ROOT).c",), ("<(PRODUCT_DIR)/o/<(RULE_INPUT_NAME).c", "<(SHARED_INTERMEDIATE_DIR)/<(RULE_INPUT_ROOT).h"), ("<(RULE_INPUT_DIRNAME)/<(RULE_INPUT_ROOT)<(RULE_INPUT_EXT).c",), ("g/<(RULE_INPUT_DIRNAME)/<(RULE_INPUT_ROOT).h", "g2/<(RULE_INPUT_ROOT).c")]
    for kind in ("none", "executable"):
        for sources in (("d/a.x",), ("d/a.x", "e/b.x"), ("d/a.x", "d/f/c.b.x", "e/g.y"), ("e/g.y",), ("z.y", "d/a.x", "d/b.x")):
            for outs in shapes:
                for extra in ((), ("e1",), ("e1", "k/e2")):
                    for arg, message in (("plain", None), ("a b", "say it"), ("it's", "it's \"so\" & <on>"), ('"q" \\ ;', "#1; done|"), ("*", "")):
                        for flags in itertools.product((".", "s/u"), (0, 1), (0, 1)):
                            if vf.THOROUGH or (not extra or arg in ("plain", "a b")) and (flags[0] == ".") == (flags[1] == flags[2]):
                                todo.append(("script", kind, sources, outs, extra, arg, message, flags))
    for n in (1, 2, 3):
        for wild in itertools.product((0, 1), repeat=n):
            for runs in itertools.product((0, 1), repeat=n):
                for custom in (None, "All", "all", "ALL"):
                    for suites in [()] + [s for k in range(1, n + 1) for s in itertools.permutations(range(n), k)]:
                        if vf.THOROUGH or custom in (None, "all") and list(suites) == sorted(suites):
                            todo.append(("all", wild, runs, custom, suites))
    what = ((), ("settings",), ("file",), ("settings", "file"))
    for names in (("Default",), ("Debug", "Release"), ("Release", "Debug", "Other")):
        for top in what:
            for configs in itertools.product(what, repeat=len(names)):
                for out in (None, "out", "out/two", "../x") if vf.THOROUGH else (None, "out"):
                    todo.append(("project", top, configs, names, out))
    for kind, flag in PRODUCTS:
        todo.append(("products", kind, flag))
    for n in (1, 2, 3):
        ps = [(a, b) for a in range(n) for b in range(a + 1, n)]
        for kinds in itertools.product(kinds5, repeat=n):
            for m in range(2 ** len(ps)):
                edges = [p for k, p in enumerate(ps) if m >> k & 1]
                for layout in ("one", "each", "same dir", "nested", "two"):
                    if n == 1 and layout not in ("one", "each") or (n == 3 and not vf.THOROUGH and (len(edges) < 2 or layout in ("same dir",) or sum(map(ord, "".join(kinds) + layout)) % 2)):
                        continue
                    if layout == "two" and (0, 1) in edges and (1, 2) in edges:
                        continue  # build files may not depend on each other in a circle
                    todo.append(("graph", kinds, edges, layout, layout in ("one", "nested")))
    names = ["a.c", "b.c", "d/a.c", "d/b.c", "../a.c", "../d/a.c", "d/d/a.c", "D/a.c", "A.c", "d/a.cc", "a.c/a.c", "/abs/a.c", "$(INTERMEDIATE_DIR)/a.c", "$(SHARED_INTERMEDIATE_DIR)/a.c", "d.c", "e/../a.c/b.c", "a..c", "./q.c"]
    for a, b in itertools.permutations(names, 2):
        x, y = os.path.normpath(a), os.path.normpath(b)
        if x.startswith(y + "/") or y.startswith(x + "/"):
            continue  # no file is also a directory
        for how in ("sources", "two targets", "copies", "actions"):
            todo.append(("pair", a, b, how))
    libs = ["liba.a", "d/liba.a", "libb.a", "$(SDKROOT)/usr/lib/liba.dylib", "$(SDKROOT)/usr/lib/libb.dylib", "$(SDKROOT)/System/Library/Frameworks/A.framework", "../liba.a", "/l/liba.a"]
    for a, b in itertools.permutations(libs, 2):
        todo.append(("pair", a, b, "libraries"))
    if os.environ.get("VF_ONLY"):
        todo = [t for t in todo if t[0] in os.environ["VF_ONLY"].split(",") or t[0] == "graph" and "graph2" in os.environ["VF_ONLY"] and len(t[1]) < 3]
    vf.pmap(c, job, todo, chunk=2)
    return c.finish()


vf.main(main)
