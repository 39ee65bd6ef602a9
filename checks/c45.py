"""C45: a Visual Studio project gives each configuration exactly its own settings, products, actions and rules, for every combination within the bounds."""
import ctypes  # noqa: F401  (before the platform changes)
import itertools
import multiprocessing.pool  # noqa: F401
import os
import re
import sys
import xml.dom.minidom
import xml.etree.ElementTree as ET
import xml.sax.saxutils  # noqa: F401

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import gypdrv  # noqa: E402
import macstub  # noqa: E402
import vf  # noqa: E402

KINDS = ["executable", "shared_library", "loadable_module", "static_library", "none"]
TYPE = {"executable": "Application", "shared_library": "DynamicLibrary", "loadable_module": "DynamicLibrary", "static_library": "StaticLibrary", "none": "Utility"}
# configuration name -> (settings, as Visual Studio calls it)
CONFIGS = {
    "two": {"Debug": ({}, "Debug|Win32"), "Release": ({}, "Release|Win32")},
    "platforms": {"Debug": ({}, "Debug|Win32"), "Debug_x64": ({"msvs_configuration_platform": "x64"}, "Debug|x64"), "Release_x64": ({"msvs_configuration_platform": "x64"}, "Release|x64")},
    "underscores": {"Debug_Static": ({}, "Debug_Static|Win32"), "Debug_Shared": ({}, "Debug_Shared|Win32"), "Debug": ({}, "Debug|Win32")},
    "mixed": {"Debug_Static": ({"msvs_configuration_platform": "x64"}, "Debug_Static|x64"), "Debug_x64": ({"msvs_configuration_platform": "x64"}, "Debug|x64"), "x64": ({}, "x64|Win32")},
}


def settings(tool, name, value):
    return {"msvs_settings": {tool: {name: value}}}


def merge(a, b):
    for k, v in b.items():
        if isinstance(v, dict):
            merge(a.setdefault(k, {}), v)
        elif isinstance(v, list):
            a[k] = a.get(k, []) + v
        else:
            a[k] = v
    return a


# what a configuration can say: key -> two values, and what each means: {(tool or None, setting): text or list}
def plain(tool, setting, msbuild_tool, msbuild_setting, pairs):
    return [(settings(tool, setting, raw), {(msbuild_tool, msbuild_setting): want}) for raw, want in pairs]


def both(name, *values):
    return [({name: v}, {("", name): v}) for v in values]


KEYS = {
    "defines": [({"defines": v}, {("ClCompile", "PreprocessorDefinitions"): v, ("ResourceCompile", "PreprocessorDefinitions"): v}) for v in (["A"], ["B=1", "C=x y", "A;B"])],
    "include_dirs": [({"include_dirs": v}, {("ClCompile", "AdditionalIncludeDirectories"): v, ("ResourceCompile", "AdditionalIncludeDirectories"): v}) for v in (["i"], ["../j", "i/k", "$(Dir)/m"])],
    "msvs_system_include_dirs": [({"msvs_system_include_dirs": v}, {("ClCompile", "AdditionalIncludeDirectories"): v, ("Midl", "AdditionalIncludeDirectories"): v, ("ResourceCompile", "AdditionalIncludeDirectories"): v}) for v in (["$(Sys)/s"], ["$(Sys)/t", "$(Sys)/u"])],
    "midl_include_dirs": [({"midl_include_dirs": v}, {("Midl", "AdditionalIncludeDirectories"): v}) for v in (["m"], ["n", "o"])],
    "library_dirs": [({"library_dirs": v}, {("Link", "AdditionalLibraryDirectories"): v}) for v in (["l"], ["../l", "m/n"])],
    "msvs_disabled_warnings": [({"msvs_disabled_warnings": v}, {("ClCompile", "DisableSpecificWarnings"): [str(x) for x in v]}) for v in ([4018], [4244, 4267])],
    "msvs_prebuild": [({"msvs_prebuild": v}, {("PreBuildEvent", "Command"): v}) for v in ("echo 1", "echo two")],
    "msvs_postbuild": [({"msvs_postbuild": v}, {("PostBuildEvent", "Command"): v}) for v in ("echo 3", "echo 4 & rem")],
    "optimization": plain("VCCLCompilerTool", "Optimization", "ClCompile", "Optimization", [("0", "Disabled"), ("2", "MaxSpeed")]),
    "runtime": plain("VCCLCompilerTool", "RuntimeLibrary", "ClCompile", "RuntimeLibrary", [("0", "MultiThreaded"), ("3", "MultiThreadedDebugDLL")]),
    "warnings": plain("VCCLCompilerTool", "WarningLevel", "ClCompile", "WarningLevel", [("3", "Level3"), ("4", "Level4")]),
    "rtti": plain("VCCLCompilerTool", "RuntimeTypeInfo", "ClCompile", "RuntimeTypeInfo", [("true", "true"), ("false", "false")]),
    "exceptions": plain("VCCLCompilerTool", "ExceptionHandling", "ClCompile", "ExceptionHandling", [("1", "Sync"), ("2", "Async")]),
    "debug": plain("VCCLCompilerTool", "DebugInformationFormat", "ClCompile", "DebugInformationFormat", [("3", "ProgramDatabase"), ("1", "OldStyle")]),
    "options": plain("VCCLCompilerTool", "AdditionalOptions", "ClCompile", "AdditionalOptions", [(["/std:c++20"], ["/std:c++20"]), (["/a", "/b"], ["/a", "/b"])]),
    "clincludes": [(settings("VCCLCompilerTool", "AdditionalIncludeDirectories", v), {("ClCompile", "AdditionalIncludeDirectories"): v}) for v in (["$(S)\\p"], ["$(S)\\q", "$(S)\\r"])],
    "subsystem": plain("VCLinkerTool", "SubSystem", "Link", "SubSystem", [("1", "Console"), ("2", "Windows")]),
    "linkdebug": plain("VCLinkerTool", "GenerateDebugInformation", "Link", "GenerateDebugInformation", [("true", "true"), ("false", "false")]),
    "linkoptions": plain("VCLinkerTool", "AdditionalOptions", "Link", "AdditionalOptions", [(["/ig"], ["/ig"]), (["/x", "/y"], ["/x", "/y"])]),
    "linkdeps": plain("VCLinkerTool", "AdditionalDependencies", "Link", "AdditionalDependencies", [(["ws2_32.lib"], ["ws2_32.lib"]), (["p.lib", "q.lib"], ["p.lib", "q.lib"])]),
    "incremental": plain("VCLinkerTool", "LinkIncremental", None, "LinkIncremental", [("1", "false"), ("2", "true")]),
    "charset": [({"msvs_configuration_attributes": {"CharacterSet": raw}}, {(None, "CharacterSet"): want}) for raw, want in (("1", "Unicode"), ("2", "MultiByte"))],
    "outdir": [({"msvs_configuration_attributes": {"OutputDirectory": raw}}, {(None, "OutDir"): want}) for raw, want in (("$(SolutionDir)o/$(ConfigurationName)", "$(SolutionDir)o\\$(Configuration)\\"), ("$(SolutionDir)p", "$(SolutionDir)p\\"))],
    "intdir": [({"msvs_configuration_attributes": {"IntermediateDirectory": raw}}, {(None, "IntDir"): want}) for raw, want in (("$(OutDir)\\obj\\$(ProjectName)", "$(OutDir)obj\\$(ProjectName)\\"), ("$(SolutionDir)q/r", "$(SolutionDir)q\\r\\"))],
}
DEFAULTS = {(None, "OutDir"): "$(SolutionDir)$(Configuration)\\", (None, "IntDir"): "$(Configuration)\\obj\\$(ProjectName)\\"}
WHERE = [t for v in KEYS.values() for _, m in v for t in m]


class Project:
    """What one .vcxproj says, read for one configuration."""

    def __init__(self, path):
        self.root = ET.parse(path).getroot()
        self.names = [e.get("Include") for e in self.root.iter() if tag(e) == "ProjectConfiguration"]

    def holds(self, e, cfg):
        c = e.get("Condition")
        if c is None:
            return True
        m = re.match(r"^\s*'\$\(Configuration\)\|\$\(Platform\)'\s*==\s*'([^']*)'\s*$", c)
        if not m:
            return "other"
        return m[1] == cfg

    def read(self, cfg):
        props, tools, items = {}, {}, []
        for g in self.root:
            if self.holds(g, cfg) is not True:
                continue
            if tag(g) == "PropertyGroup":
                for e in g:
                    if self.holds(e, cfg) is True:
                        props[tag(e)] = e.text or ""
            elif tag(g) == "ItemDefinitionGroup":
                for e in g:
                    for s in e:
                        if self.holds(s, cfg) is True:
                            tools.setdefault(tag(e), {})[tag(s)] = s.text or ""
            elif tag(g) == "ItemGroup" and g.get("Label") is None:
                for e in g:
                    if self.holds(e, cfg) is True:
                        meta = {}
                        for s in e:
                            if self.holds(s, cfg) is True:
                                meta[tag(s)] = s.text or ""
                        items.append((tag(e), e.get("Include"), meta))
        return props, tools, items


def tag(e):
    return e.tag.split("}", 1)[-1]


def unescape(s):
    return re.sub(r"%([0-9A-Fa-f]{2})", lambda m: chr(int(m[1], 16)), s)


def items_of(text, setting, sep=";"):
    """The items of a list setting, without the inherited value."""
    return [unescape(i) for i in text.split(sep) if i.strip() and i.strip() != f"%({setting})"]


def native(p):
    """A path with slashes and without needless parts; the directories variables stand for end in a separator."""
    p = p.replace("\\", "/")
    return p.replace(")/", ")") if p.startswith("$(") else os.path.normpath(p)


def generate(files, args=()):
    root = vf.scratch("c45")

    def pre():
        sys.platform = "win32"
    env = {"GYP_MSVS_VERSION": "2015", "GYP_MSVS_OVERRIDE_PATH": "/nonexistent", "GYP_LINK_CONCURRENCY": "4", "PATH": macstub.path() + ":" + os.environ["PATH"]}
    r = gypdrv.run(files, fmt="msvs", pre=pre, env=env, root=root, args=tuple(args))
    if not r.ok:
        raise vf.Bad(f"not generated: {r.stderr[-500:]}", "gen:" + (r.exc[0] if r.exc else str(r.stderr)[-80:]), project=str(files)[:1500])
    return root


def value(setting, text, where):
    """A setting's text in comparable form; paths relative to the project's directory become relative to the build file's."""
    if text is None:
        return None
    if "Options" in setting:
        return items_of(text, setting, " ")
    if "Directories" in setting:
        return [native(i if i.startswith("$(") else os.path.relpath(os.path.join(where["proj"], native(i)), where["gyp"])) for i in items_of(text, setting)]
    if setting in ("PreprocessorDefinitions", "DisableSpecificWarnings", "AdditionalDependencies"):
        return items_of(text, setting)
    return text


def expected(setting, want):
    if want is not None and "Directories" in setting:
        return [native(i) for i in want]
    return want


def check(part, told, key, files, name, gypfile, confs, want, gen=None, extra=None):
    """want: {configuration: {(tool or None, setting): value}} - every setting of WHERE not named there must be absent or inherit."""
    part.add()
    root = generate(files, (gypfile,) + ((f"--generator-output={gen}",) if gen else ()))
    try:
        where = {"gyp": os.path.dirname(gypfile), "proj": os.path.join(gen or "", os.path.dirname(gypfile))}
        p = Project(os.path.join(root, where["proj"], name + ".vcxproj"))
        if sorted(p.names) != sorted(v for _, v in confs.values()):
            raise vf.Bad(f"{told}: configurations {p.names}, want {[v for _, v in confs.values()]}", f"configurations:{key}")
        for c, (_, vs) in confs.items():
            props, tools, items = p.read(vs)
            for t, s in sorted(set(WHERE) | set(want[c]), key=str):
                if t == "":
                    continue
                text = (props if t is None else tools.get(t, {})).get(s)
                got = value(s, text, where)
                w = expected(s, want[c].get((t, s)))
                if w is None and s in ("AdditionalDependencies",):
                    w = []
                if (got or None) != (w or None):
                    raise vf.Bad(f"{told}: {c} has {t or 'property'} {s} {text!r}, should say {w!r}", f"setting:{s}:{key}")
            if extra:
                extra(c, props, tools, items, where)
        part.count("configurations", len(confs))
    finally:
        vf.rmtree(root)


PATTERNS = [(1, 0, 0), (0, 1, 0), (1, 1, 0), (1, 2, 0), (1, 2, 1), (1, 1, 1), (2, 1, 1), (0, 0, 1)]


def sources(kind):
    return ["a.c", "b.cc", "s/c.cpp", "h.h", "r.rc", "x.txt"]


def order(keys):
    """The places of a list several keys speak of: msvs_settings' own first, then include_dirs, then system ones."""
    rank = {"clincludes": 0, "linkdeps": 0, "include_dirs": 1, "midl_include_dirs": 1, "msvs_system_include_dirs": 2}
    return sorted(keys, key=lambda k: (rank.get(k, 1), k))


def settings_job(part, kind, where, conf, picks, gen=None):
    """picks: {key: (which value in each configuration)}; value 0: none."""
    confs = CONFIGS[conf]
    doc, want = {}, {}
    for i, (c, (base, _)) in enumerate(confs.items()):
        d = merge({}, base)
        w = dict(DEFAULTS)
        for k in order(picks):
            n = picks[k][i]
            if n:
                raw, mean = KEYS[k][n - 1]
                merge(d, raw)
                for t, v in mean.items():
                    w[t] = w[t] + v if isinstance(v, list) and t in w else v
        doc[c] = d
        want[c] = w
        w[(None, "ConfigurationType")] = TYPE[kind]
        w[(None, "TargetName")] = "$(ProjectName)"
    t = {"target_name": "t", "type": kind, "sources": sources(kind), "configurations": doc, "default_configuration": list(confs)[0]}
    told = f"{kind} in {where}, configurations {list(confs)}, {picks}" + (f", output in {gen}" if gen else "")
    part.seen(told)
    f = os.path.join(where, "a.gyp")

    def kinds(c, props, tools, items, w):
        got = {}
        for tg, inc, meta in items:
            if meta.get("ExcludedFromBuild") != "true":
                got.setdefault(tg, []).append(os.path.relpath(os.path.join(w["proj"], native(inc)), w["gyp"] or "."))
        if sorted(got.get("ClCompile", [])) != ["a.c", "b.cc", "s/c.cpp"] or got.get("ResourceCompile") != ["r.rc"] or got.get("ClInclude") != ["h.h"]:
            raise vf.Bad(f"{told}: {c} builds {got}", f"items:{conf}")
    check(part, told, f"{conf}:{'+'.join(picks)}:{kind}", {f: {"targets": [t]}}, "t", f, confs, want, gen, kinds)


PRODUCTS = {"product_name": "pn", "product_prefix": "pre", "product_extension": "ext", "product_dir": "$(OutDir)pd"}
SUFFIX = {"executable": ".exe", "shared_library": ".dll", "loadable_module": ".dll", "static_library": ".lib"}


def product_job(part, kind, picks, standalone, libs, deffile):
    confs = CONFIGS["platforms"]
    spec = {k: PRODUCTS[k] for k in picks}
    t = {"target_name": "t", "type": kind, "sources": ["a.c"] + (["d/m.def"] if deffile else []), "configurations": {c: dict(b) for c, (b, _) in confs.items()}, "default_configuration": "Debug", **spec}
    if standalone:
        t["standalone_static_library"] = 1
    if libs:
        t["libraries"] = list(libs)
    told = f"{kind} with {spec}{' standalone' if standalone else ''}, libraries {libs}{', a definition file' if deffile else ''}"
    part.seen(told)
    w = dict(DEFAULTS)
    name = spec.get("product_prefix", "") + spec.get("product_name", "$(ProjectName)")
    w[(None, "ConfigurationType")] = TYPE[kind]
    w[(None, "TargetName")] = name
    w[(None, "TargetExt")] = "." + spec["product_extension"] if "product_extension" in spec else None
    if libs:
        last = []
        for x in reversed(libs):
            x = x[2:] if x.startswith("-l") else x
            x = x if os.path.splitext(x)[1] else x + ".lib"
            if x not in last:
                last.insert(0, x)
        w[("Link", "AdditionalDependencies")] = [x.replace("/", "\\") for x in last]

    def made(c, props, tools, items, where):
        tool = {"static_library": "Lib", "none": None}.get(kind, "Link")
        out = tools.get(tool, {}).get("OutputFile") if tool else None
        if tool:
            ext = "." + spec["product_extension"] if "product_extension" in spec else "$(TargetExt)"
            d = spec.get("product_dir", "$(OutDir)lib\\" if kind == "static_library" and not standalone else "$(OutDir)")
            full = d + ("" if d.endswith(("\\", ")")) else "\\") + name + ext
            if out is None or out.replace("/", "\\").replace(")\\", ")") != full.replace("/", "\\"):
                raise vf.Bad(f"{told}: {c} makes {out}, should {full}", f"output:{kind}:{'+'.join(picks)}")
            if props.get("TargetPath", "").replace(")\\", ")") != out.replace("/", "\\").replace(")\\", ")"):
                raise vf.Bad(f"{told}: {c} has target path {props.get('TargetPath')} and output {out}", f"targetpath:{kind}:{'+'.join(picks)}")
        d = tools.get("Link", {}).get("ModuleDefinitionFile")
        if (native(d) if d else None) != ("d/m.def" if deffile and tool == "Link" else None):
            raise vf.Bad(f"{told}: {c} has definition file {d}", f"def:{kind}")
        if (props.get("IgnoreImportLibrary") == "true") != (kind == "loadable_module"):
            raise vf.Bad(f"{told}: {c} has IgnoreImportLibrary {props.get('IgnoreImportLibrary')}", f"import:{kind}")
    check(part, told, f"product:{kind}", {"a.gyp": {"targets": [t]}}, "t", "a.gyp", confs, {c: w for c in confs}, None, made)


# -- steps

def words(command):
    """The words of each command line of a batch text, but for the error checks between them."""
    out = []
    for line in command.replace("\r", "").split("\n"):
        line = line.strip()
        if not line or line.startswith("if %errorlevel%") or line.startswith(("set INPUTDIR=", "if NOT DEFINED INPUTDIR")):
            continue
        ws, cur, q, any_ = [], "", False, False
        for ch in line:
            if ch == '"':
                q, any_ = not q, True
            elif ch in " \t" and not q:
                if any_:
                    ws.append(cur)
                cur, any_ = "", False
            else:
                cur += ch
                any_ = True
        if any_:
            ws.append(cur)
        while ws and ws[0] == "call":
            ws = ws[1:]
        out.append(ws)
    return out


def places(text, where):
    return sorted(i if i.startswith("$(") else os.path.relpath(os.path.join(where["proj"], native(i)), where["gyp"] or ".") for i in (native(x) for x in items_of(text, "AdditionalInputs")))


def steps_job(part, where, actions, copies, conf, gen=None):
    """actions: (inputs, outputs, as sources); copies: (destination, files)."""
    confs = CONFIGS[conf]
    t = {"target_name": "t", "type": "static_library", "sources": ["a.c"], "msvs_cygwin_shell": 0, "configurations": {c: dict(b) for c, (b, _) in confs.items()}, "default_configuration": list(confs)[0], "actions": [], "copies": []}
    for n, (ins, outs, assrc) in enumerate(actions):
        t["actions"].append({"action_name": f"act{n}", "inputs": list(ins), "outputs": list(outs), "action": ["tool", f"--number={n}", "in p.txt", *outs], "message": f"doing {n}", "process_outputs_as_sources": assrc})
    for d, fs in copies:
        t["copies"].append({"destination": d, "files": list(fs)})
    told = f"static_library in {where} with actions {actions}, copies {copies}" + (f", output in {gen}" if gen else "")
    key = f"{actions}:{copies}"
    part.seen(told)
    f = os.path.join(where, "a.gyp")

    def rel(p, w):
        return p if p.startswith("$(") else os.path.relpath(os.path.join(w["proj"], p), w["gyp"] or ".")

    def look(c, props, tools, items, w):
        runs, copied = {}, []
        for tg, inc, meta in items:
            if tg != "CustomBuild" or "Command" not in meta:
                continue
            if meta.get("ExcludedFromBuild") == "true":
                raise vf.Bad(f"{told}: {c} does not run what is attached to {inc}", f"excluded:{key}")
            ins = set(places(meta.get("AdditionalInputs", ""), w)) | {rel(native(inc), w)}
            outs = set(places(meta.get("Outputs", ""), w))
            names = meta.get("Message", "").split(", and also ")
            for ws in words(meta["Command"]):
                if ws[:1] == ["tool"]:
                    n = int(ws[1].split("=")[1])
                    if n in runs:
                        raise vf.Bad(f"{told}: {c} runs action {n} twice", f"twice:{key}")
                    runs[n] = ws
                    ains, aouts, _ = actions[n]
                    if [rel(native(x), w) for x in ws[2:]] != ["in p.txt", *map(native, aouts)]:
                        raise vf.Bad(f"{told}: {c} runs {ws} as action {n}", f"words:{key}")
                    if not {native(x) for x in ains} <= ins or not {native(x) for x in aouts} <= outs:
                        raise vf.Bad(f"{told}: {c} runs action {n} with inputs {ins} and outputs {outs}", f"files:{key}")
                    if f"doing {n}" not in names:
                        raise vf.Bad(f"{told}: {c} announces action {n} as {names}", f"message:{key}")
                elif "copy" in ws:
                    k = ws.index("copy")
                    s, d = ws[k + 2:k + 4]
                    copied.append((rel(native(s), w), rel(native(d), w)))
                    if "mkdir" not in ws or native(rel(native(ws[ws.index("mkdir") + 1]), w) + "/" + os.path.basename(d.replace("\\", "/").rpartition(")")[2])) != copied[-1][1]:
                        raise vf.Bad(f"{told}: {c} copies by {ws}", f"mkdir:{key}")
                    if copied[-1][0] not in ins or copied[-1][1] not in outs:
                        raise vf.Bad(f"{told}: {c} copies {copied[-1]} with inputs {ins} and outputs {outs}", f"copyfiles:{key}")
                else:
                    raise vf.Bad(f"{told}: {c} runs {ws}", f"other:{key}")
        if sorted(runs) != list(range(len(actions))):
            raise vf.Bad(f"{told}: {c} runs actions {sorted(runs)}", f"missing:{key}")
        want = sorted((native(x), native(os.path.join(d, os.path.basename(x)))) for d, fs in copies for x in fs)
        if sorted(copied) != want:
            raise vf.Bad(f"{told}: {c} copies {sorted(copied)}, should {want}", f"copies:{key}")
        compiled = sorted(rel(native(inc), w) for tg, inc, meta in items if tg == "ClCompile" and meta.get("ExcludedFromBuild") != "true")
        src = {"a.c"} | {native(o) for _, outs, assrc in actions if assrc for o in outs if o.endswith((".c", ".cc"))}
        src -= {native(i) for ins, _, _ in actions for i in ins} | {native(x) for _, fs in copies for x in fs}
        got = [x for x in compiled if x in src]
        if sorted(got) != sorted(src) or [x for x in compiled if x not in src | {native(i) for ins, _, _ in actions for i in ins} | {native(x) for _, fs in copies for x in fs}]:
            raise vf.Bad(f"{told}: {c} compiles {compiled}, should {sorted(src)}", f"compiled:{key}")
    check(part, told, "steps:" + key, {f: {"targets": [t]}}, "t", f, confs, {c: dict(DEFAULTS) for c in confs}, gen, look)


def excluded_job(part, picks, pch, conf):
    """Sources taken out, with a precompiled header in some configurations."""
    confs = CONFIGS[conf]
    doc = {}
    for i, (c, (b, _)) in enumerate(confs.items()):
        doc[c] = dict(b)
        if pch and pch[i]:
            doc[c].update({"msvs_precompiled_header": "p/pch.h", "msvs_precompiled_source": "p/pch" + pch[i]})
    srcs = ["a.c", "s/b.cc", "p/pch.cc", "p/pch.c", "s/c.cpp"]
    t = {"target_name": "t", "type": "static_library", "sources": list(srcs), "sources!": list(picks), "configurations": doc, "default_configuration": list(confs)[0]}
    told = f"sources without {picks}, configurations {list(confs)}, precompiled header by {pch}"
    part.seen(told)
    key = f"{picks}:{pch}:{conf}"

    def look(c, props, tools, items, w):
        ext = pch and pch[list(confs).index(c)]
        made = [native(inc) for tg, inc, meta in items if tg == "ClCompile" and meta.get("ExcludedFromBuild") != "true"]
        src = sorted(s for s in srcs if s not in picks or (ext and s == "p/pch" + ext))
        if sorted(made) != src:
            raise vf.Bad(f"{told}: {c} compiles {sorted(made)}, should {src}", f"excluded:{key}")
        objs = [meta.get("ObjectFileName") for tg, inc, meta in items if tg == "ClCompile" and meta.get("ExcludedFromBuild") != "true" and not inc.replace("\\", "/").startswith("p/pch")]
        if None not in objs and len(set(objs)) != len(objs):
            raise vf.Bad(f"{told}: {c} makes {objs}", f"objects:{key}")
        cl = tools.get("ClCompile", {})
        if (cl.get("PrecompiledHeader") == "Use") != bool(ext) or (ext and cl.get("PrecompiledHeaderFile") != "pch.h"):
            raise vf.Bad(f"{told}: {c} has {cl}", f"pch:{key}")
        for tg, inc, meta in items:
            if tg == "ClCompile" and ext:
                create = native(inc) == "p/pch" + ext
                mode = meta.get("PrecompiledHeader", cl.get("PrecompiledHeader"))
                other = (inc.endswith(".c")) != (ext == ".c")
                want = "Create" if create else "" if other else "Use"
                if mode != want:
                    raise vf.Bad(f"{told}: {c} compiles {inc} with precompiled header {mode!r}, should {want!r}", f"use:{key}")
    check(part, told, "excluded:" + key, {"a.gyp": {"targets": [t]}}, "t", "a.gyp", confs, {c: dict(DEFAULTS) for c in confs}, None, look)


RULEVARS = {"RULE_INPUT_PATH": lambda s: s, "RULE_INPUT_ROOT": lambda s: os.path.splitext(os.path.basename(s))[0], "RULE_INPUT_NAME": os.path.basename,
            "RULE_INPUT_EXT": lambda s: os.path.splitext(s)[1], "RULE_INPUT_DIRNAME": os.path.dirname}


def macro(text, source):
    """MSBuild's item metadata, for a source."""
    root, ext = os.path.splitext(os.path.basename(source))
    d = os.path.dirname(source)
    for k, v in {"Filename": root, "Extension": ext, "Identity": source, "FullPath": source, "RelativeDir": d + "/" if d else ""}.items():
        text = text.replace(f"%({k})", v)
    return text


def rules_job(part, where, srcs, outs, inputs, assrc, conf, two):
    confs = CONFIGS[conf]
    rules = []
    for n in range(2 if two else 1):
        ext = ["in", "xin"][n]
        rules.append({"rule_name": f"make {ext}", "extension": ext, "inputs": list(inputs), "outputs": [o + ("" if n == 0 else "2.cc") for o in outs],
                      "action": ["tool", f"--rule={n}", "<(RULE_INPUT_PATH)", *[o + ("" if n == 0 else "2.cc") for o in outs], *inputs], "message": f"making {n}", "process_outputs_as_sources": assrc})
    t = {"target_name": "t", "type": "static_library", "sources": ["a.c", *srcs], "msvs_cygwin_shell": 0, "configurations": {c: dict(b) for c, (b, _) in confs.items()}, "default_configuration": list(confs)[0], "rules": rules}
    told = f"static_library in {where} with rules for {srcs} making {outs} from {inputs}{' as sources' if assrc else ''}"
    key = f"{srcs}:{outs}:{inputs}:{assrc}:{two}"
    part.seen(told + str(two))
    f = os.path.join(where, "a.gyp")

    def sub(text, s):
        for k, fn in RULEVARS.items():
            text = text.replace(f"<({k})", fn(s))
        return text
    part.add()
    root = generate({f: {"targets": [t]}}, (f,))
    try:
        here = os.path.join(root, where)
        p = Project(os.path.join(here, "t.vcxproj"))
        props = ET.parse(os.path.join(here, "t.props")).getroot()
        targets = ET.parse(os.path.join(here, "t.targets")).getroot()
        templates = {}
        for g in props:
            if tag(g) == "ItemDefinitionGroup":
                for e in g:
                    templates[tag(e)] = {tag(s): s.text or "" for s in e}
        imported = [e.get("Project") for e in p.root.iter() if tag(e) == "Import"]
        if "t.props" not in imported or "t.targets" not in imported:
            raise vf.Bad(f"{told}: imports {imported}", f"imports:{key}")
        run = {e.get("Name") for e in targets.iter() if tag(e) == "Target"}
        execs = {c.get("Include") or c.get("CommandLineTemplate") for c in targets.iter() if tag(c) not in ("Target",)}
        for c, (_, vs) in confs.items():
            _, _, items = p.read(vs)
            for s in srcs:
                n = 0 if s.endswith(".in") else 1
                if n == 1 and not two:
                    if any(tg in templates and native(inc) == s for tg, inc, _ in items):
                        raise vf.Bad(f"{told}: {c} applies a rule to {s}", f"applied:{key}")
                    continue
                mine = [(tg, meta) for tg, inc, meta in items if native(inc) == native(s)]
                if len(mine) != 1 or mine[0][0] not in templates or mine[0][1].get("ExcludedFromBuild") == "true":
                    raise vf.Bad(f"{told}: {c} holds {s} as {mine}, rules {sorted(templates)}", f"item:{key}")
                tm = templates[mine[0][0]]
                if "_" + mine[0][0] not in run:
                    raise vf.Bad(f"{told}: no target runs {mine[0][0]}: {sorted(run)}", f"target:{key}")
                ws = words(macro(tm["CommandLineTemplate"].replace("%INPUTDIR%", os.path.dirname(s) or "."), s))
                outsn = [native(sub(o, s)) for o in rules[n]["outputs"]]
                want = ["tool", f"--rule={n}", native(s), *outsn, *[native(i) for i in inputs]]
                if [ws[0][:2] + [native(x) for x in ws[0][2:]]] != [want] or len(ws) != 1:
                    raise vf.Bad(f"{told}: {c} runs {ws} for {s}, should {want}", f"words:{key}")
                o = [native(x) for x in macro(tm["Outputs"], s).split(";") if x]
                if o != outsn:
                    raise vf.Bad(f"{told}: {c} makes {o} of {s}, should {outsn}", f"outputs:{key}")
                if [native(x) for x in tm["AdditionalDependencies"].split(";") if x] != [native(i) for i in inputs]:
                    raise vf.Bad(f"{told}: {c} watches {tm['AdditionalDependencies']}", f"inputs:{key}")
                if tm["ExecutionDescription"] != f"making {n}":
                    raise vf.Bad(f"{told}: announced as {tm['ExecutionDescription']}", f"message:{key}")
            src = {"a.c"} | {native(sub(o, s)) for s in srcs for n in [0 if s.endswith(".in") else 1] if n < len(rules) and assrc for o in rules[n]["outputs"] if o.endswith((".c", ".cc"))}
            got = sorted(native(inc) for tg, inc, meta in items if tg == "ClCompile" and meta.get("ExcludedFromBuild") != "true")
            if got != sorted(src):
                raise vf.Bad(f"{told}: {c} compiles {got}, should {sorted(src)}", f"compiled:{key}")
        del execs
    finally:
        vf.rmtree(root)


def job(part, item):
    {"settings": settings_job, "product": product_job, "steps": steps_job, "excluded": excluded_job, "rules": rules_job}[item[0]](part, *item[1:])


def todo():
    for k in KEYS:
        for conf, kind in itertools.product(CONFIGS, KINDS):
            n = len(CONFIGS[conf])
            for pat in itertools.product((0, 1, 2), repeat=n):
                if any(pat) and (vf.THOROUGH or kind in KINDS[:1] or sum(map(bool, pat)) == n):
                    yield ("settings", kind, "d" if sum(pat) % 2 else ".", conf, {k: pat})
        for where in (".", "d", "d/e"):
            yield ("settings", "executable", where, "two", {k: (1, 2)}, "out")
    for a, b in itertools.combinations(KEYS, 2):
        for pa, pb in itertools.product(PATTERNS, repeat=2) if vf.THOROUGH else (((1, 0, 0), (1, 0, 0)), ((1, 0, 0), (0, 1, 0)), ((1, 2, 0), (1, 1, 1)), ((1, 1, 1), (0, 1, 2))):
            yield ("settings", "executable", ".", "platforms", {a: pa, b: pb})
    yield ("settings", "shared_library", "d", "platforms", {k: (1, 2, 1) for k in KEYS})
    libs = ["-la", "b.lib", "../c/d.lib", "-le.lib", "-la", "f"]
    for kind in KINDS:
        for r in range(5):
            for picks in itertools.combinations(PRODUCTS, r):
                for standalone, deffile in itertools.product((0, 1) if kind == "static_library" else (0,), (0, 1)):
                    yield ("product", kind, picks, standalone, (), deffile)
        for r in (1, 2, 3):
            for ls in itertools.product(libs, repeat=r):
                if r < 3 or vf.THOROUGH or kind == "executable":
                    yield ("product", kind, (), 0, ls, 0)
    acts = [(("i.txt",), ("o.txt",), 0), (("i.txt", "j.txt"), ("p.c",), 1), (("j.txt", "i.txt"), ("$(OutDir)/q.txt", "r.h"), 0), (("s/k.txt",), ("g/u.cc", "g/u.h"), 1), (("l.txt",), ("$(IntDir)/v.txt",), 0)]
    cps = [("out", ("i.txt",)), ("$(OutDir)", ("x.txt", "s/y.txt")), ("o/p", ("s/k.txt", "l.txt"))]
    for r in range(3 + vf.THOROUGH):
        for aa in itertools.permutations(acts, r):
            for q in range(3):
                for cc in itertools.combinations(cps, q):
                    for where, gen in ((".", None), ("d", None), ("d", "out")):
                        if gen is None or (r, q) in ((1, 0), (0, 1), (2, 0), (1, 1)):
                            yield ("steps", where, aa, cc, "two", gen)
    for r in range(4):
        for picks in itertools.combinations(["a.c", "s/b.cc", "p/pch.cc", "p/pch.c"], r):
            for conf in ("two", "platforms", "underscores"):
                for pch in [None, *itertools.product(("", ".cc", ".c"), repeat=len(CONFIGS[conf]))]:
                    if pch is None or (any(pch) and len(set(x for x in pch if x)) == 1):
                        yield ("excluded", picks, pch, conf)
    for where, srcs, outs, inputs, assrc, two in itertools.product((".", "d"), (("m.in",), ("m.in", "s/n.in"), ("s/n.in", "k.xin"), ("s/n.in", "m.in", "k.xin", "s/t/j.xin")),
                                                                   (("<(RULE_INPUT_ROOT).cc",), ("g/<(RULE_INPUT_ROOT).c", "g/<(RULE_INPUT_ROOT).h"), ("$(OutDir)/<(RULE_INPUT_ROOT)<(RULE_INPUT_EXT).cc",), ("o_<(RULE_INPUT_NAME).txt",)),
                                                                   ((), ("w.txt",), ("w.txt", "../v.txt")), (0, 1), (False, True)):
        yield ("rules", where, srcs, outs, inputs, assrc, "two", two)


def main():
    c = vf.Check("C45", "model_checking",
                 "every setting with every assignment of its values to the configurations x target kinds x sets of configurations; every pair of settings; every set of product attributes x kinds; library lists up to 3; "
                 "actions and copies up to 2 (3 at the thorough tier) each in every order; exclusions x precompiled headers; rules - each .vcxproj evaluated for every configuration",
                 ["the project's conditions and properties are read by the rules MSBuild documents; the Windows generator is run on Linux (sys.platform set)", "a source that is also an action's input or a copied file may be left out of the compilation, as Visual Studio attaches the step to it",
                  "one precompiled header language in a project"])
    macstub.path()
    work = list(todo())
    if os.environ.get("VF_ONLY"):
        work = [w for w in work if w[0] == os.environ["VF_ONLY"]]
    vf.pmap(c, job, work, chunk=8)
    return c.finish()


vf.main(main)
