"""C24: Visual Studio solutions and projects are complete, self-consistent and stable, for every small graph and layout."""
import ctypes  # noqa: F401  (before the platform changes)
import hashlib
import itertools
import json
import multiprocessing.pool  # noqa: F401
import os
import re
import subprocess
import sys
import xml.dom.minidom
import xml.etree.ElementTree as ET
import xml.sax.saxutils  # noqa: F401

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import gypdrv  # noqa: E402
import macstub  # noqa: E402
import vf  # noqa: E402

FILES = ["a.gyp", "d/b.gyp", "d/e/c.gyp", "d/x.gyp"]
TYPES = ["executable", "loadable_module", "none", "executable"]
SRC = [["m.c", "s/n.cc", "s/q/p.c", "z/h.h"], ["../up/o.c", "k.rc"], ["one/two/three.c", "one/two/four.txt"], ["s/only.c", "s/also.c"]]
CONFIGS = {
    "plain": {"Default": {}},
    "two": {"Debug": {}, "Release": {}},
    "x64": {"Debug": {}, "Debug_x64": {"msvs_configuration_platform": "x64"}, "Release": {}},
}
GUID = re.compile(r"^\{[0-9A-F]{8}-[0-9A-F]{4}-[0-9A-F]{4}-[0-9A-F]{4}-[0-9A-F]{12}\}$")
PROJECT = "{8BC9CEB8-8B4A-11D0-8D11-00A0C91BC942}"
FOLDER = "{2150E333-8FDC-42A3-9474-1A3956D46DE8}"
GUID0 = "B1A00000-0000-4000-8000-00000000000B"


def cfgname(n, c):
    p = c.get("msvs_configuration_platform", "Win32")
    base = n[:-len("_" + p)] if n.endswith("_" + p) else n
    return f"{base}|{p}"


def project(case):
    """gyp files, and what they mean: {name: (file, deps, sources, type)}."""
    place, edges, conf = case["place"], case["edges"], case["conf"]
    n = len(place)
    names = [case.get("names", "")[i:i + 1] or f"t{i}" for i in range(n)]
    if case.get("samename"):
        names = ["d" if "d/" in FILES[p] else "a" for p in place]
    files, mean = {}, {}
    for i, p in enumerate(place):
        f = FILES[p]
        deps = [j for j in range(n) if (i, j) in edges]
        t = {"target_name": names[i], "type": TYPES[i], "sources": list(SRC[i])}
        if deps:
            t["dependencies"] = [f"{os.path.relpath(FILES[place[j]], os.path.dirname(f))}:{names[j]}" for j in deps]
        if case.get("guid") == i:
            t["msvs_guid"] = GUID0
        if case.get("shard") and i == case["shard"][0]:
            t["msvs_shard"] = case["shard"][1]
        d = files.setdefault(f, {"target_defaults": {"default_configuration": sorted(CONFIGS[conf])[0], "configurations": CONFIGS[conf]}, "targets": []})
        d["targets"].append(t)
        mean[i] = {"file": f, "name": names[i], "deps": deps, "sources": SRC[i], "type": TYPES[i]}
    for f in files.values():
        if not case.get("sharded"):
            f["targets"].sort(key=lambda t: t["target_name"], reverse=case.get("rev", False))
    return files, mean


def loaded(mean):
    """Targets reachable from those of a.gyp, with every target of each file reached."""
    files, done = ["a.gyp"], []
    while files:
        f = files.pop()
        done.append(f)
        for m in mean.values():
            if m["file"] == f:
                for j in m["deps"]:
                    if mean[j]["file"] not in done + files:
                        files.append(mean[j]["file"])
    return done


def parse_sln(path, bad):
    with open(path, "rb") as f:
        raw = f.read()
    text = raw.decode("utf-8")
    if "\n" in text.replace("\r\n", ""):
        bad("line ends", "bare newline")
    lines = text.split("\r\n")
    if lines and lines[-1] == "":
        lines.pop()
    if not lines[0].startswith("Microsoft Visual Studio Solution File, Format Version"):
        bad("header", lines[0])
    i, entries, sections = 1, [], {}
    while i < len(lines) and not lines[i].startswith("Project("):
        if lines[i] == "Global":
            break
        i += 1
    while i < len(lines) and lines[i].startswith("Project("):
        m = re.match(r'Project\("(.*?)"\) = "(.*?)", "(.*?)", "(.*?)"$', lines[i])
        if not m:
            bad("entry", lines[i])
        e = {"type": m[1], "name": m[2], "path": m[3], "guid": m[4], "deps": []}
        i += 1
        while lines[i] != "EndProject":
            if lines[i].startswith("\tProjectSection(ProjectDependencies)"):
                i += 1
                while lines[i] != "\tEndProjectSection":
                    a, b = lines[i].strip().split(" = ")
                    if a != b:
                        bad("dependency line", lines[i])
                    e["deps"].append(a)
                    i += 1
            elif lines[i].startswith("\tProjectSection"):
                while lines[i] != "\tEndProjectSection":
                    i += 1
            else:
                bad("entry body", lines[i])
            i += 1
        entries.append(e)
        i += 1
    if lines[i] != "Global" or lines[-1] != "EndGlobal":
        bad("global", repr(lines[i]))
    i += 1
    while lines[i] != "EndGlobal":
        m = re.match(r"\tGlobalSection\((\w+)\) = (pre|post)Solution$", lines[i])
        if not m:
            bad("section", lines[i])
        i += 1
        body = []
        while lines[i] != "\tEndGlobalSection":
            body.append(tuple(lines[i].strip().split(" = ")))
            i += 1
        sections.setdefault(m[1], []).extend(body)
        i += 1
    return entries, sections


def strip(tag):
    return tag.split("}", 1)[-1]


def parse_project(path, vcx):
    root = ET.parse(path).getroot()
    out = {"sources": [], "refs": []}
    if vcx:
        for e in root.iter():
            t = strip(e.tag)
            if t == "ProjectGuid":
                out["guid"] = e.text.strip()
            elif t == "ProjectConfiguration":
                kids = {strip(k.tag): (k.text or "").strip() for k in e}
                out.setdefault("configs", []).append(e.get("Include"))
                if f'{kids.get("Configuration")}|{kids.get("Platform")}' != e.get("Include"):
                    out["odd"] = e.get("Include")
            elif t == "ProjectReference":
                kids = {strip(k.tag): (k.text or "").strip() for k in e}
                out["refs"].append((e.get("Include"), kids.get("Project")))
        for g in root:
            if strip(g.tag) == "ItemGroup" and not g.get("Label"):
                for e in g:
                    if strip(e.tag) not in ("ProjectConfiguration", "ProjectReference"):
                        out["sources"].append((e.get("Include"), strip(e.tag)))
    else:
        out["guid"] = root.get("ProjectGUID")
        for e in root.iter("Configuration"):
            out.setdefault("configs", []).append(e.get("Name"))

        def walk(e, filters):
            for k in e:
                if k.tag == "File":
                    out["sources"].append((k.get("RelativePath"), "/".join(filters)))
                elif k.tag == "Filter":
                    walk(k, filters + [k.get("Name")])
        for e in root.iter("Files"):
            walk(e, [])
    return out


def ntpath_join(base, win):
    return os.path.normpath(os.path.join(base, win.replace("\\", "/")))


def snapshot(root):
    out = {}
    for d, dirs, names in os.walk(root):
        for n in names:
            p = os.path.join(d, n)
            st = os.stat(p)
            with open(p, "rb") as f:
                out[os.path.relpath(p, root)] = (f.read(), st.st_mtime_ns, st.st_ino)
    return out


def one(part, case):
    files, mean = project(case)
    want_files = loaded(mean)
    if set(files) - set(want_files) or "a.gyp" not in files:
        return
    version, gen = case["version"], case.get("gen")
    vcx = version != "2008"
    root = vf.scratch("c24")
    for i, m in mean.items():
        for s in m["sources"]:
            p = os.path.normpath(os.path.join(root, os.path.dirname(m["file"]), s))
            if p.startswith(root + "/"):
                os.makedirs(os.path.dirname(p), exist_ok=True)
                open(p, "w").close()

    def bad(kind, what):
        raise vf.Bad(f"{kind}: {what}", f"{kind}:{case}", case=str(case))

    def pre():
        sys.platform = "win32"

    env = {"GYP_MSVS_VERSION": version, "GYP_MSVS_OVERRIDE_PATH": "/nonexistent", "GYP_LINK_CONCURRENCY": "4",
           "PATH": macstub.path() + ":" + os.environ["PATH"]}

    def generate():
        r = gypdrv.run(files, fmt="msvs", pre=pre, env=env, root=root, args=("a.gyp", "--no-circular-check") + (("--generator-output=" + gen,) if gen else ()))
        if not r.ok:
            bad("not generated", r.stderr[-500:])
    generate()
    part.add()
    part.seen(str(case))
    first = snapshot(root)
    if "digest" in case:
        what = hashlib.sha256(repr(sorted((n, v[0]) for n, v in first.items())).encode()).hexdigest()
        case["digest"][str({k: v for k, v in case.items() if k != "digest"})] = what
        vf.rmtree(root)
        return
    out = os.path.join(root, gen) if gen else root
    ext = ".vcxproj" if vcx else ".vcproj"
    # shards: target k of shard pair becomes name_0..name_{m-1}
    units, expand = {}, {}
    for i, m in mean.items():
        if case.get("shard") and case["shard"][0] == i:
            k = case["shard"][1]
            expand[i] = [(i, s) for s in range(k)]
            for s in range(k):
                units[(i, s)] = dict(m, name=f"{m['name']}_{s}", sources=m["sources"][s::k])
        else:
            expand[i] = [i]
            units[i] = dict(m)
    for u in units.values():
        u["deps"] = [x for j in u["deps"] for x in expand[j]]
        u["path"] = os.path.normpath(os.path.join(out, os.path.dirname(u["file"]), u["name"] + ext))
    bypath = {u["path"]: k for k, u in units.items()}
    if len(bypath) != len(units):
        vf.rmtree(root)
        return
    # every project
    want_cfg = sorted(cfgname(n, c) for n, c in CONFIGS[case["conf"]].items())
    made = {os.path.join(d, n) for d, _, ns in os.walk(root) for n in ns if n.endswith(ext)}
    if made != set(bypath):
        bad("project files", f"made {sorted(made)}, want {sorted(bypath)}")
    guids = {}
    for k, u in units.items():
        p = parse_project(u["path"], vcx)
        u["proj"] = p
        g = p.get("guid")
        if not g or not GUID.match(g):
            bad("identifier", f"{u['path']}: {g!r}")
        if g in guids:
            bad("identifier shared", f"{u['path']} and {guids[g]}")
        guids[g] = u["path"]
        if case.get("guid") == k and g != "{" + GUID0 + "}":
            bad("given identifier", f"{g} instead of {GUID0}")
        if sorted(p.get("configs", [])) != want_cfg or "odd" in p:
            bad("configurations", f"{u['path']} has {p.get('configs')}, want {want_cfg}")
        here = os.path.dirname(u["path"])
        srcdir = os.path.join(root, os.path.dirname(u["file"]))
        want = sorted([os.path.normpath(os.path.join(srcdir, s)) for s in u["sources"]] + [os.path.join(root, u["file"])])
        got = sorted(ntpath_join(here, s) for s, _ in p["sources"])
        if got != want:
            bad("sources", f"{u['path']} lists {got}, want {want}")
        kinds = {"c": "ClCompile", "cc": "ClCompile", "h": "ClInclude", "rc": "ResourceCompile", "txt": "None", "gyp": "None"}
        if vcx:
            for s, tag in p["sources"]:
                if kinds[s.rsplit(".", 1)[1]] != tag:
                    bad("source kind", f"{s} is {tag}")
            filters = u["path"] + ".filters"
            if os.path.exists(filters):
                fl = ET.parse(filters).getroot()
                declared = {e.get("Include") for e in fl.iter() if strip(e.tag) == "Filter" and e.get("Include")}
                named, listed = {}, []
                for e in fl.iter():
                    if strip(e.tag) in kinds.values():
                        listed.append(ntpath_join(here, e.get("Include")))
                        for kid in e:
                            if strip(kid.tag) == "Filter":
                                named[e.get("Include")] = kid.text.strip()
                if set(named.values()) - declared:
                    bad("filter not declared", f"{sorted(set(named.values()) - declared)}")
                if sorted(listed) != want:
                    bad("filtered sources", f"{filters}: {sorted(listed)}, want {want}")
                for s, f in named.items():
                    if not os.path.dirname(s.replace("\\", "/")).endswith(f.replace("\\", "/")):
                        bad("filter", f"{s} in {f}")
        else:
            for s, f in p["sources"]:
                if f and not os.path.dirname(s.replace("\\", "/")).endswith(f):
                    bad("filter", f"{s} in {f}")
        part.count("projects")
    for u in units.values():
        if vcx:
            here = os.path.dirname(u["path"])
            got = sorted((ntpath_join(here, inc), g) for inc, g in u["proj"]["refs"])
            want = sorted((units[j]["path"], units[j]["proj"]["guid"]) for j in u["deps"])
            if got != want:
                bad("references", f"{u['path']}: {got}, want {want}")
    # every solution
    slns = {os.path.join(d, n) for d, _, ns in os.walk(root) for n in ns if n.endswith(".sln")}
    want = {os.path.normpath(os.path.join(out, f[:-4] + ".sln")) for f in files}
    if slns != want:
        bad("solutions", f"{sorted(slns)}, want {sorted(want)}")
    for f in files:
        sln = os.path.normpath(os.path.join(out, f[:-4] + ".sln"))
        entries, sections = parse_sln(sln, bad)
        here = os.path.dirname(sln)
        members = {k for k, u in units.items() if u["file"] == f}
        todo = list(members)
        while todo:
            for j in units[todo.pop()]["deps"]:
                if j not in members:
                    members.add(j)
                    todo.append(j)
        ids = [e["guid"] for e in entries]
        if len(set(ids)) != len(ids):
            bad("solution identifiers", f"{sln}: {ids}")
        projects = [e for e in entries if e["type"] == PROJECT]
        folders = [e for e in entries if e["type"] == FOLDER]
        if len(projects) + len(folders) != len(entries):
            bad("entry type", str(entries))
        got = {}
        for e in projects:
            p = ntpath_join(here, e["path"])
            if p not in bypath:
                bad("solution entry", f"{sln}: {e['path']}")
            k = bypath[p]
            got[k] = e
            u = units[k]
            if e["guid"] != u["proj"]["guid"] or e["name"] != u["name"]:
                bad("solution entry", f"{sln}: {e}, project {u['proj']['guid']}")
            if sorted(e["deps"]) != sorted(units[j]["proj"]["guid"] for j in u["deps"]):
                bad("solution dependencies", f"{sln}: {e['name']} on {e['deps']}")
            if set(e["deps"]) - set(ids):
                bad("undefined dependency", f"{sln}: {e}")
        if set(got) != members or len(projects) != len(members):
            bad("solution members", f"{sln}: {sorted(map(str, got))}, want {sorted(map(str, members))}")
        variants = sections.get("SolutionConfigurationPlatforms", [])
        if sorted(a for a, b in variants) != want_cfg or any(a != b for a, b in variants):
            bad("variants", f"{sln}: {variants}")
        pcp = sections.get("ProjectConfigurationPlatforms", [])
        wanted = sorted((f"{e['guid']}.{v}.{kind}", v) for e in projects for v in want_cfg for kind in ("ActiveCfg", "Build.0"))
        if sorted(pcp) != wanted:
            bad("project configurations", f"{sln}: {pcp[:6]}")
        # folders form a forest whose leaves sit in their own directories
        nest = sections.get("NestedProjects", [])
        parent = dict(nest)
        if len(parent) != len(nest):
            bad("two folders", f"{sln}: {nest}")
        if set(parent) - set(ids) or set(parent.values()) - {e["guid"] for e in folders}:
            bad("nesting undefined", f"{sln}: {nest}")
        byid = {e["guid"]: e for e in entries}
        for e in folders:
            if e["guid"] not in parent.values():
                bad("empty folder", f"{sln}: {e}")
        for e in projects:
            chain, g = [], e["guid"]
            while g in parent:
                g = parent[g]
                chain.insert(0, byid[g]["name"].strip("()"))
                if len(chain) > 20:
                    bad("nesting loop", sln)
            parts = os.path.dirname(units[bypath[ntpath_join(here, e["path"])]]["file"]).split("/")
            # A folder holding nothing but the project of its own name is left out.
            if parts[len(parts) - len(chain):] != chain and (parts[-1] != e["name"] or parts[len(parts) - 1 - len(chain):-1] != chain):
                bad("folder", f"{sln}: {e['path']} in {chain}")
        part.count("solutions")
        part.count("entries", len(entries))
    # again: nothing changes, nothing is even rewritten
    generate()
    second = snapshot(root)
    skip = {n for n in first if n.endswith(".gyp")}
    for n in sorted(set(first) | set(second)):
        if n in skip:
            continue
        if n not in first or n not in second or first[n][0] != second[n][0]:
            bad("second generation differs", n)
        if first[n][1:] != second[n][1:]:
            bad("rewritten for nothing", n)
    vf.rmtree(root)
    part.sample({"case": str(case), "projects": len(units)})


def job(part, cases):
    for case in cases:
        try:
            one(part, case)
        except (IndexError, KeyError, ET.ParseError, UnicodeError, ValueError) as e:
            raise vf.Bad(f"cannot be read back: {type(e).__name__} {e}", f"parse:{case}", case=str(case)) from e


def cases(full):
    n = 3
    pairs = list(itertools.combinations(range(n), 2))
    graphs = [tuple(c) for k in range(len(pairs) + 1) for c in itertools.combinations(pairs, k)]
    # reversed numbering as well, so dependencies point to earlier targets too
    graphs += [tuple(sorted((n - 1 - a, n - 1 - b) for a, b in g)) for g in graphs if g]
    for place in itertools.product(range(len(FILES)), repeat=n):
        if 0 not in place:
            continue
        for g in graphs:
            for version in ("2008", "2015"):
                confs = list(CONFIGS) if full else ["x64" if len(g) % 2 else "two"]
                for conf in confs:
                    base = {"place": place, "edges": g, "conf": conf, "version": version}
                    yield base
                    if full or conf == "two":
                        yield dict(base, gen="out")
    for place in itertools.product(range(len(FILES)), repeat=n):
        if 0 not in place:
            continue
        for g in graphs:
            for version in ("2008", "2015"):
                if len(set(place)) == n:
                    if not {1, 3} <= set(place):
                        yield {"place": place, "edges": g, "conf": "plain", "version": version, "samename": True}
                    yield {"place": place, "edges": g, "conf": "plain", "version": version, "names": "dea"}
                if full or place in ((0, 0, 0), (0, 1, 2), (1, 0, 0), (2, 1, 0)):
                    for i in range(n):
                        yield {"place": place, "edges": g, "conf": "plain", "version": version, "guid": i}
                        for k in (2, 3):
                            yield {"place": place, "edges": g, "conf": "plain", "version": version, "shard": (i, k)}
    if full:
        n = 4
        pairs = list(itertools.combinations(range(n), 2))
        for k in range(len(pairs) + 1):
            for c in itertools.combinations(pairs, k):
                for place in ((0, 0, 0, 0), (0, 1, 2, 3), (0, 1, 1, 2), (0, 3, 2, 1), (0, 0, 1, 1), (0, 2, 2, 2)):
                    for version in ("2008", "2015"):
                        yield {"place": place, "edges": tuple(c), "conf": "two", "version": version}


def digests():
    """{case: what it generates}, for the cases of one graph per placement, in this process's hash order."""
    out, seen = {}, set()
    for case in cases(False):
        k = (case["place"], case["version"], case["conf"], tuple(sorted(set(case) - {"edges"})))
        if len(case["edges"]) != 2 or k in seen:
            continue
        seen.add(k)
        one(vf.Part(), dict(case, digest=out))
    return out


def seeded_job(part, seed):
    r = subprocess.run([sys.executable, os.path.abspath(__file__), "--digests"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=dict(os.environ, PYTHONHASHSEED=str(seed)))
    if r.returncode:
        raise vf.Bad(f"hash seed {seed}: {r.stderr[-600:].decode(errors='replace')}", f"seed{seed}")
    with open(os.path.join(vf.scratch_root(), f"digest{seed}"), "wb") as f:
        f.write(r.stdout)


def main():
    if sys.argv[1:] == ["--digests"]:
        print(json.dumps(digests(), indent=0))
        return 0
    c = vf.Check("C24", "model_checking",
                 "every DAG on 3 targets (4 at the thorough tier) x every placement in 4 build files of 3 directories x configurations x "
                 "Visual Studio 2008 and 2015 project formats, shared names, sharded targets, given identifiers and a separate output "
                 "directory; every generated solution, project and filter file parsed back against the graph, then generated again",
                 ["the Windows generator is run on Linux (sys.platform set); directory separators of written paths are read as backslashes"])
    macstub.path()
    todo = list(cases(vf.THOROUGH))
    vf.pmap(c, job, [todo[i:i + 8] for i in range(0, len(todo), 8)])
    if not c.nviol:
        seeds = range(8 if vf.THOROUGH else 4)
        vf.pmap(c, seeded_job, seeds, chunk=1)
        got = []
        for seed in seeds if not c.nviol else ():
            with open(os.path.join(vf.scratch_root(), f"digest{seed}")) as f:
                got.append(json.load(f))
        for seed, g in enumerate(got):
            c.add(len(g))
            for k in g:
                if g[k] != got[0].get(k):
                    c.violation(f"hash order {seed} and hash order 0 generate different files for {k}", f"hash:{k}")
    return c.finish()


vf.main(main)
