"""C46: for every project of a grammar, what cmake and ninja run for the generated CMakeLists.txt is what the build files say."""
import itertools
import os
import re
import shlex
import subprocess
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import buildlab as B  # noqa: E402
import gypdrv  # noqa: E402
import vf  # noqa: E402

LANG = {"c": "cc", "s": "cc", "S": "cc", "cc": "cxx", "cpp": "cxx", "cxx": "cxx"}
KINDS = ["executable", "static_library", "shared_library", "loadable_module"]


def product(spec):
    kind, name = spec["type"], spec["target_name"]
    lib = kind in ("static_library", "shared_library", "loadable_module")
    prefix = spec.get("product_prefix", "lib" if lib else "")
    if "product_name" in spec:
        name = spec["product_name"]
    elif lib and name.startswith("lib"):
        name = name[3:]
    ext = spec.get("product_extension")
    ext = "." + ext if ext else {"static_library": ".a", "shared_library": ".so", "loadable_module": ".so"}.get(kind, "")
    return prefix + name + ext


def short(root):
    return lambda p: os.path.relpath(p, root)


def configure(root, config, env=None):
    """cmake over the generated project, once. -> error text or None"""
    out = os.path.join(root, "out", config)
    e = {k: v for k, v in os.environ.items() if k not in ("MAKEFLAGS", "MAKELEVEL", "CFLAGS", "CXXFLAGS", "LDFLAGS")}
    if env is None:
        e.update(B.toolenv())
    else:
        e.update(env)
    cmd = ["cmake", "-G", "Ninja", "-DCMAKE_C_COMPILER_FORCED=1", "-DCMAKE_CXX_COMPILER_FORCED=1", "-DCMAKE_C_COMPILER_ID=GNU", "-DCMAKE_CXX_COMPILER_ID=GNU", "-DCMAKE_ASM_COMPILER_ID=GNU",
           "-DCMAKE_ASM_COMPILER=" + B.tools() + "/cc", "-DCMAKE_RANLIB=/bin/true", "-Wno-dev", "."]
    p = subprocess.Popen(cmd, cwd=out, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, env=e, start_new_session=True)
    try:
        o = p.communicate(timeout=120)[0]
    except subprocess.TimeoutExpired:
        gypdrv.killgroup(p.pid)
        return "cmake does not end"
    return o.decode("utf-8", "replace")[-600:] if p.returncode else None


def words_of(cwd, argv):
    out, i = [], 1
    while i < len(argv):
        if argv[i].startswith("@"):
            with open(os.path.join(cwd, argv[i][1:])) as f:
                out += shlex.split(f.read())
        else:
            out.append(argv[i])
        i += 1
    return out


def observe(calls, told):
    """-> (compiles {source: [(tool, defines, includes, flags, object)]}, links {output: (tool, inputs, flags, dirs, libs, shared)}, archives {output: members}, acts [argv])"""
    compiles, links, archives, acts = {}, {}, {}, []
    for cwd, argv in calls:
        tool = os.path.basename(argv[0])

        def full(p, cwd=cwd):
            return os.path.normpath(os.path.join(cwd, p))

        if tool in ("cc", "cxx"):
            plain, words, outp, it = [], [], None, iter(words_of(cwd, argv))
            for a in it:
                if a in ("-o", "-MF", "-MT"):
                    v = next(it)
                    if a == "-o":
                        outp = full(v)
                elif a == "-isystem":
                    words.append("-I" + next(it))
                elif a.startswith("-"):
                    words.append(a)
                else:
                    plain.append(a)
            if "-c" in words:
                if len(plain) != 1:
                    raise vf.Bad(f"{told}: compile of {plain}", f"inputs:{told}")
                compiles.setdefault(full(plain[0]), []).append((tool, [w[2:] for w in words if w.startswith("-D")], [full(w[2:]) for w in words if w.startswith("-I")],
                                                               [w for w in words if re.match(r"-[fmO]", w)], outp))
            else:
                links[outp] = (tool, [full(p) for p in plain], [w for w in words if re.match(r"-[fmO]|-Wl,-z", w)], [full(w[2:]) for w in words if w.startswith("-L")],
                               [w for w in words if w.startswith("-l")], "-shared" in words)
        elif tool == "ar":
            w = words_of(cwd, argv)
            archives.setdefault(full(w[1]), []).extend(full(m) for m in w[2:])
        elif tool == "act":
            acts.append((cwd, argv))
    return compiles, links, archives, acts


class Bench:
    """One generated and configured project."""

    def __init__(self, told, files, gyps, configs=("Default",), env=None, part=None):
        self.told, self.part = told, part
        self.root = vf.scratch("c46")
        self.env = env
        r = B.generate(self.root, "cmake", files, args=tuple(gyps), env=env or {})
        if not r.ok:
            raise vf.Bad(f"{told}: not generated: {r.stderr[-400:]}", f"gen:{told}")

    def build(self, config, jobs=1):
        x = B.build(self.root, "ninja", config=config, env=self.env, jobs=jobs, extra=("-d", "keeprsp"))
        self.part.count("builds")
        if x.rc:
            raise vf.Bad(f"{self.told}: the build ends with {x.rc}: {x.out[-500:]}", f"rc:{self.told}")
        return x

    def first(self, config, jobs=1):
        err = configure(self.root, config)
        if err:
            raise vf.Bad(f"{self.told}: cmake fails: {err}", f"cmake:{self.told}")
        return self.build(config, jobs)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        vf.rmtree(self.root)


def bench(told, *a, **k):
    b = Bench.__new__(Bench)
    try:
        b.__init__(told, *a, **k)
    except BaseException:
        if hasattr(b, "root"):
            vf.rmtree(b.root)
        raise
    return b


def subsequence(a, b):
    it = iter(b)
    return all(x in it for x in a)


def needed(project, n):
    """Targets whose products the link of n must take: static libraries reached through static libraries and targets of no product; shared libraries likewise."""
    out, seen = set(), set()

    def walk(x):
        for d in project[x]["deps"]:
            k = project[d]["spec"]["type"]
            if k in ("static_library", "shared_library"):
                out.add(d)
            if d not in seen:
                seen.add(d)
                if k in ("static_library", "none"):
                    walk(d)
    walk(n)
    return out


def uniq(xs):
    return list(dict.fromkeys(xs))


def check(told, root, config, project, got):
    compiles, links, archives, _ = got
    wanted = {}
    for n, p in project.items():
        spec, here = p["spec"], os.path.join(root, p["dir"])
        conf = spec.get("configurations", {}).get(config, {})

        def path(x, here=here):
            return os.path.normpath(os.path.join(here, x))

        for s in spec.get("sources", []) if spec["type"] != "none" else []:
            ext = s.rsplit(".", 1)[-1]
            if ext not in LANG:
                continue
            tool = LANG[ext]
            own = {"c": "cflags_c", "cc": "cflags_cc", "cpp": "cflags_cc", "cxx": "cflags_cc"}.get(ext)
            flags = conf.get("cflags", []) + (conf.get(own, []) if own else [])
            wanted.setdefault(path(s), []).append((n, tool, conf.get("defines", []), uniq(path(i) for i in conf.get("include_dirs", [])), flags))
    if set(wanted) != set(compiles):
        raise vf.Bad(f"{told}: compiles {sorted(map(short(root), compiles))}, should {sorted(map(short(root), wanted))}", f"set:{told}")
    obj = {}
    for s, ws in wanted.items():
        left = list(compiles[s])
        for n, tool, defines, includes, flags in ws:
            spec = project[n]["spec"]
            lib = spec["type"] in ("shared_library", "loadable_module")
            for g in left:
                gd = [d for d in g[1] if not (lib and d.endswith("_EXPORTS"))]
                gf = [f for f in g[3] if not (lib and f == "-fPIC")]
                if g[0] == tool and sorted(gd) == sorted(set(defines)) and g[2] == includes and gf == flags:
                    break
            else:
                raise vf.Bad(f"{told}: {short(root)(s)} of {n} is compiled with {left}, should be {(tool, sorted(set(defines)), includes, flags)}", f"compile:{told}:{n}")
            left.remove(g)
            obj.setdefault(n, {})[s] = g[4]
        if left:
            raise vf.Bad(f"{told}: {short(root)(s)} is compiled {len(ws) + len(left)} times for {len(ws)} targets", f"times:{told}")
    made, found = set(links) | set(archives), {}
    for n, p in project.items():
        spec = p["spec"]
        if spec["type"] == "none":
            continue
        name = product(spec)
        mine = [obj[n][os.path.normpath(os.path.join(root, p["dir"], s))] for s in spec["sources"] if s.rsplit(".", 1)[-1] in LANG]
        cand = [o for o in made if os.path.basename(o) == name and set(mine) <= set(archives[o] if o in archives else links[o][1])]
        if len(cand) != 1 or (cand[0] in archives) != (spec["type"] == "static_library"):
            raise vf.Bad(f"{told}: product {name} of {n} ({spec['type']}): made are {sorted(map(short(root), made))}", f"product:{told}:{n}")
        found[n] = cand[0]
        place = os.path.join(root, "out", config)
        if "product_dir" in spec:
            place = os.path.normpath(os.path.join(place, os.path.relpath(spec["product_dir"], "<(PRODUCT_DIR)")))
        if (spec["type"] in ("executable", "loadable_module") or "product_dir" in spec or "standalone_static_library" in spec) and os.path.dirname(found[n]) != place:
            raise vf.Bad(f"{told}: {n} is made as {short(root)(found[n])}", f"place:{told}:{n}")
    if set(found.values()) != made or len(made) != len(found):
        raise vf.Bad(f"{told}: makes {sorted(map(short(root), made))}", f"products:{told}")
    for n, p in project.items():
        spec = p["spec"]
        if spec["type"] == "none":
            continue
        conf = spec.get("configurations", {}).get(config, {})
        mine = {obj[n][os.path.normpath(os.path.join(root, p["dir"], s))] for s in spec["sources"] if s.rsplit(".", 1)[-1] in LANG}
        extra = {os.path.normpath(os.path.join(root, p["dir"], s)) for s in spec["sources"] if s.endswith(".o")}
        o = found[n]
        if o in archives:
            if set(archives[o]) != mine | extra or len(archives[o]) != len(mine | extra):
                raise vf.Bad(f"{told}: archive of {n} holds {sorted(map(short(root), archives[o]))}, should {sorted(map(short(root), mine | extra))}", f"archive:{told}:{n}")
            continue
        tool, inputs, flags, dirs, libs, shared = links[o]
        if shared != (spec["type"] != "executable"):
            raise vf.Bad(f"{told}: {n}, {spec['type']}: -shared is {shared}", f"shared:{told}:{n}")
        taken = set(inputs)
        need = {found[d] for d in needed(project, n)}
        for d in need:
            if d not in taken:
                raise vf.Bad(f"{told}: link of {n} misses {short(root)(d)}", f"deps:{told}:{n}")
        if not (mine | extra) <= taken or any(x not in made and x not in mine | extra for x in taken):
            raise vf.Bad(f"{told}: link of {n} takes {sorted(map(short(root), taken))}, should take {sorted(map(short(root), mine | extra | need))}", f"objects:{told}:{n}")
        lf = [f for f in flags if not (shared and f == "-fPIC")]
        if [f for f in lf if f in conf.get("ldflags", [])] != conf.get("ldflags", []) or any(f not in conf.get("ldflags", []) for f in lf):
            raise vf.Bad(f"{told}: link of {n} has flags {flags}, should {conf.get('ldflags', [])}", f"ldflags:{told}:{n}")
        wd = uniq(os.path.normpath(os.path.join(root, p["dir"], d)) for d in conf.get("library_dirs", []))
        if not subsequence(wd, dirs) or (len(project) == 1 and dirs != wd):
            raise vf.Bad(f"{told}: link of {n} has directories {list(map(short(root), dirs))}, should {list(map(short(root), wd))}", f"dirs:{told}:{n}")
        wl = uniq(spec.get("libraries", []))
        if not subsequence(wl, libs) or (len(project) == 1 and libs != wl):
            raise vf.Bad(f"{told}: link of {n} has libraries {libs}, should {wl}", f"libs:{told}:{n}")


def documents(project):
    docs, text = {}, {}
    for p in project.values():
        doc = docs.setdefault(os.path.join(p["dir"], "a.gyp"), {"targets": []})
        t = dict(p["spec"])
        if p["deps"]:
            t["dependencies"] = [os.path.join(os.path.relpath(project[d]["dir"], p["dir"]), "a.gyp") + ":" + project[d]["spec"]["target_name"] for d in p["deps"]]
        doc["targets"].append(t)
        for s in p["spec"].get("sources", []):
            text[os.path.normpath(os.path.join(p["dir"], s))] = "EXPORT f%s\n" % re.sub(r"\W", "_", s)
    return {**text, **docs}, sorted(docs)


def case(part, told, project, configs=("Default",), jobs=1, gyps=None):
    try:
        files, all_gyps = documents(project)
        with bench(told, files, gyps or all_gyps, part=part) as b:
            for c in configs:
                part.add()
                part.seen((told, c))
                x = b.first(c, jobs)
                check(f"{told} ({c})", b.root, c, project, observe(x.calls, told))
                again = b.build(c)
                if again.calls:
                    raise vf.Bad(f"{told} ({c}): building again runs {again.calls[:3]}", f"again:{told}")
    except vf.Bad as e:
        part.violation(str(e), e.key)


SOURCES = ["a.c", "b.cc", "c.cpp", "s/d.cxx", "../e.c", "f.s", "g.S", "h.h", "s/a.c", "r.txt"]
CONF_VALUES = {
    "defines": [[], ["A"], ["B=2", "A"], ["A", "B=2", "A=3"], ['Q="x"', "R=a b", "S=a;b", "T=c\\d", "E="]],
    "include_dirs": [[], ["i"], ["../j", "i"], ["/abs", ".", "i/k"]],
    "cflags": [[], ["-fa"], ["-fb", "-fa"], ["-O2", "-fa", "-fa"]],
    "cflags_c": [[], ["-fc"], ["-O1", "-fc"]],
    "cflags_cc": [[], ["-fx"], ["-mx", "-fy"]],
    "ldflags": [[], ["-mld"], ["-Wl,-z,now", "-mld"]],
    "library_dirs": [[], ["l"], ["../m", "/abs/l"]],
}
SPEC_VALUES = {
    "libraries": [[], ["-lm"], ["-lz", "-lm", "-lz"]],
    "product_name": [None, "pn", "libq"],
    "product_prefix": [None, "", "pp"],
    "product_extension": [None, "node", "xy"],
    "product_dir": [None, "<(PRODUCT_DIR)/sub"],
    "target_name": ["t", "libt", "t-1", "t.2"],
    "standalone_static_library": [None, 1],
    "sources": [["a.c", "b.cc"], SOURCES, ["b.cc", "s/a.c", "a.c"], ["f.s"], ["a.c", "g.S"], ["c.cpp", "b.cc"], ["a.c", "p.o"], ["h.h", "p.o", "s/q.o"], ["b.cc", "f.s", "h.h"]],
}


def features(full):
    allv = {**CONF_VALUES, **SPEC_VALUES}
    for a, b in itertools.combinations(allv, 2):
        if not full and not ("sources" in (a, b) and set((a, b)) & {"cflags", "cflags_c", "cflags_cc"}) and not {a, b} <= {"cflags", "cflags_c", "cflags_cc"} \
                and not {a, b} <= {"product_name", "product_prefix", "product_extension", "target_name"}:
            continue
        for x in allv[a][1:]:
            for y in allv[b][1:]:
                yield ((a, x), (b, y))
    for src in SPEC_VALUES["sources"]:
        yield (("sources", src), ("cflags", ["-fa"]), ("cflags_c", ["-fc"]), ("cflags_cc", ["-fx"]))
    for a in allv:
        for x in allv[a]:
            yield ((a, x),)


def feature_job(part, kind, where, choice):
    d = dict(choice)
    if "standalone_static_library" in d and kind != "static_library":
        return
    spec, conf = {"target_name": "t", "type": kind, "sources": ["a.c", "b.cc"]}, {}
    for k, v in choice:
        if k in CONF_VALUES:
            conf[k] = v
        elif v is not None:
            spec[k] = v
    spec["configurations"] = {"Default": conf}
    case(part, f"{kind} in {where} with {d}", {"t": {"dir": where, "spec": spec, "deps": []}})


def dag_job(part, kinds, edges, layout, names):
    project = {}
    for i, k in enumerate(kinds):
        d = {"one": ".", "each": f"d{i}"}[layout]
        spec = {"target_name": "t" if names == "same" else f"t{i}", "type": k, "configurations": {"Default": {"defines": [f"T{i}"]}}}
        if names == "same":
            spec["product_name"] = f"p{i}"
        if k != "none":
            spec["sources"] = [f"s{i}.c" if i % 2 else f"s{i}.cc", f"u{i}.c"]
        project[f"t{i}"] = {"dir": d, "spec": spec, "deps": [f"t{j}" for a, j in edges if a == i]}
    case(part, f"{'+'.join(kinds)} edges {edges} {layout} names {names}", project)


def config_job(part, kind, pick):
    conf = {"Default": {}, "Other": {}}
    for k in pick:
        conf["Default"][k] = CONF_VALUES[k][1]
        conf["Other"][k] = CONF_VALUES[k][2]
    spec = {"target_name": "t", "type": kind, "sources": ["a.c", "b.cc", "f.s"], "configurations": conf, "default_configuration": "Default"}
    case(part, f"{kind}, configurations differ in {pick}", {"t": {"dir": "d", "spec": spec, "deps": []}}, configs=("Default", "Other"))


def reach_job(part, edges, given):
    """Only what the given build files define, and what that needs, is built by default."""
    project = {}
    for i in range(4):
        project[f"t{i}"] = {"dir": f"d{i // 2}", "spec": {"target_name": f"t{i}", "type": "static_library" if i else "executable", "sources": [f"s{i}.c"], "configurations": {"Default": {}}},
                            "deps": [f"t{j}" for a, j in edges if a == i]}
    told = f"files {given} of edges {edges}"
    try:
        files, _ = documents(project)
        with bench(told, files, [f"d{g}/a.gyp" for g in given], part=part) as b:
            part.add()
            part.seen((told,))
            x = b.first("Default")
            want, todo = set(), [f"t{i}" for i in range(4) if i // 2 in given]
            while todo:
                n = todo.pop()
                if n not in want:
                    want.add(n)
                    todo += project[n]["deps"]
            compiled = {os.path.basename(s) for s in observe(x.calls, told)[0]}
            if compiled != {"s" + n[1:] + ".c" for n in want}:
                raise vf.Bad(f"{told}: compiles {sorted(compiled)}, should those of {sorted(want)}", f"reach:{told}")
    except vf.Bad as e:
        part.violation(str(e), e.key)


def step_job(part, steps, kind, where, outdir, consumer):
    """Actions, rules and copies: run once each, after what they need; not again; and again, with all that depends on them, when an input changes."""
    told = f"{kind} in {where} with {'+'.join(steps)} into {outdir}, {consumer}"
    act = B.tools() + "/act"
    t = {"target_name": "t", "type": kind, "configurations": {"Default": {"include_dirs": [outdir], "cflags": ["-fa"], "cflags_c": ["-fc"], "defines": ["A"]}}}
    if kind != "none":
        t["sources"] = ["m.c"]
    files = {f"{where}/m.c": "EXPORT m\n"}
    inputs = [f"{where}/m.c"] if kind != "none" else []
    outs, compiled = [], ["m.c"] if kind != "none" else []
    placed = []
    if "action" in steps or "chain" in steps:
        o = f"{outdir}/g.c"
        t["actions"] = [{"action_name": "first one", "inputs": ["a.in", "../b.in"], "outputs": [o], "action": [act, "x", "--out", o, "--in", "a.in", "../b.in"], "process_outputs_as_sources": 1, "message": "making g"}]
        files.update({f"{where}/a.in": "1\n", "b.in": "2\n"})
        inputs += [f"{where}/a.in", "b.in"]
        compiled.append("g.c")
        outs.append("g.c")
    if "chain" in steps:
        o2 = f"{outdir}/k.txt"
        t["actions"].append({"action_name": "second", "inputs": [o], "outputs": [o2], "action": [act, "--out", o2, "--in", o]})
        outs.append("k.txt")
    if "rule" in steps:
        o = f"{outdir}/<(RULE_INPUT_ROOT).gen.c"
        o2 = f"{outdir}/<(RULE_INPUT_NAME).h"
        t.setdefault("sources", []).extend(["r1.x", "s/r2.x"])
        t["rules"] = [{"rule_name": "r", "extension": "x", "inputs": ["tool.py"], "outputs": [o, o2], "action": [act, "--out", o, o2, "--in", "<(RULE_INPUT_PATH)", "tool.py"], "process_outputs_as_sources": 1}]
        files.update({f"{where}/r1.x": "1\n", f"{where}/s/r2.x": "2\n", f"{where}/tool.py": "3\n"})
        inputs += [f"{where}/r1.x", f"{where}/s/r2.x", f"{where}/tool.py"]
        if kind != "none":
            compiled += ["r1.gen.c", "r2.gen.c"]
        outs += ["r1.gen.c", "r1.x.h", "r2.gen.c", "r2.x.h"]
    if "copy" in steps:
        t["copies"] = [{"destination": "<(PRODUCT_DIR)/cp", "files": ["c1.txt", "../c2.txt"]}, {"destination": "<(PRODUCT_DIR)/cq", "files": ["c1.txt"]}]
        files.update({f"{where}/c1.txt": "c1\n", "c2.txt": "c2\n"})
        inputs += [f"{where}/c1.txt", "c2.txt"]
        placed += [("cp/c1.txt", f"{where}/c1.txt"), ("cp/c2.txt", "c2.txt"), ("cq/c1.txt", f"{where}/c1.txt")]
    doc = {"targets": [t]}
    if consumer == "used by an action":
        o = "<(PRODUCT_DIR)/u.txt"
        src = {"action": f"{outdir}/g.c", "chain": f"{outdir}/k.txt", "copy": "<(PRODUCT_DIR)/cp/c1.txt"}.get(steps[0])
        if src is None or "INTERMEDIATE_DIR" in src and "SHARED" not in src:
            return
        doc["targets"].append({"target_name": "u", "type": "none", "dependencies": ["t"], "actions": [{"action_name": "use", "inputs": [src], "outputs": [o], "action": [act, "--out", o, "--in", src]}]})
        outs.append("u.txt")
    if kind == "none":
        compiled = []
    try:
        with bench(told, {**files, f"{where}/a.gyp": doc}, [f"{where}/a.gyp"], part=part) as b:
            part.add()
            part.seen((told,))
            x = b.first("Default", 1)

            def verify(x, whole, note):
                compiles, links, archives, acts = observe(x.calls, told)
                if whole:
                    if sorted(os.path.basename(s) for s in compiles) != sorted(compiled):
                        raise vf.Bad(f"{told}: compiles {sorted(map(short(b.root), compiles))}, should {compiled}", f"set:{told}")
                    for s, gs in compiles.items():
                        for g in gs:
                            gf = [f for f in g[3] if f != "-fPIC"]
                            if len(gs) != 1 or gf != ["-fa", "-fc"] or "A" not in g[1] or len(g[2]) != 1:
                                raise vf.Bad(f"{told}: {short(b.root)(s)} is compiled with {gs}", f"compile:{told}")
                    made = sorted(os.path.basename(w) for _, ws in x.rw for w in ws if os.path.basename(w) in outs)
                    if made != sorted(outs):
                        raise vf.Bad(f"{told}: {made} are made, should {sorted(outs)}", f"made:{told}")
                for to, frm in placed:
                    p = os.path.join(b.root, "out/Default", to)
                    if not os.path.exists(p) or open(p).read() != open(os.path.join(b.root, frm)).read():
                        raise vf.Bad(f"{told}{note}: {to} is not the copy of {frm}", f"copy:{told}")

            verify(x, True, "")
            again = b.build("Default")
            if again.calls:
                raise vf.Bad(f"{told}: building again runs {again.calls[:3]}", f"again:{told}")
            for n, i in enumerate(inputs):
                p = os.path.join(b.root, i)
                st = os.stat(p)
                with open(p, "a") as f:
                    f.write("EXPORT changed%d\n" % n)
                os.utime(p, ns=(st.st_atime_ns, st.st_mtime_ns + (n + 1) * 10 ** 9 + 10 ** 10))
                x = b.build("Default")
                verify(x, False, f" after a change of {i}")
                inc = snapshot(b.root)
                out, sav = b.root + "/out", b.root + "/sav"  # the same place, as paths are part of what tools see
                os.rename(out, sav)
                B.generate(b.root, "cmake", {}, args=(f"{where}/a.gyp",))
                b.first("Default")
                fresh = snapshot(b.root)
                vf.rmtree(out)
                os.rename(sav, out)
                diff = sorted(k for k in set(inc) | set(fresh) if inc.get(k) != fresh.get(k))
                if diff:
                    raise vf.Bad(f"{told}: after a change of {i}, {diff} are not what a build from nothing makes", f"stale:{told}")
    except vf.Bad as e:
        part.violation(str(e), e.key)


def snapshot(root):
    """{path in the output directory: contents} of what the build made."""
    base, found = os.path.join(root, "out", "Default"), {}
    for dp, _, fn in os.walk(base):
        for f in fn:
            p = os.path.join(dp, f)
            rel = os.path.relpath(p, base)
            if f.endswith((".ninja", ".rsp", ".d", ".cmake", ".txt~")) or rel.startswith(("CMakeFiles", ".ninja", "CMakeCache", "CMakeLists", "cmake_install")):
                continue
            with open(p, "rb") as fh:
                found[rel] = fh.read().replace(root.encode(), b"ROOT")
    return found


def share_job(part, a, b, layout):
    """One source in two targets, each with its own flags."""
    langs = {"c": ["x.c"], "cc": ["y.cc"], "both": ["x.c", "y.cc"]}
    project = {}
    for i, k in enumerate((a, b)):
        project[f"t{i}"] = {"dir": ".", "deps": [], "spec": {"target_name": f"t{i}", "type": ("static_library", "executable")[i if layout else 1 - i], "sources": langs[k], "configurations": {"Default": {
            "cflags": [f"-fa{i}"], "cflags_c": [f"-fc{i}"], "cflags_cc": [f"-fx{i}"], "defines": [f"D{i}"], "include_dirs": [f"i{i}"]}}}}
    told = f"targets of {a} and {b} share their sources"
    try:
        files, gyps = documents(project)
        with bench(told, files, gyps, part=part) as be:
            part.add()
            part.seen((told, layout))
            x = be.first("Default")
            try:
                check(told, be.root, "Default", project, observe(x.calls, told))
            except vf.Bad as e:
                mixed = {"both"} & {a, b} and e.key.startswith("compile:")
                raise vf.Bad(str(e), "cmake-mixed-shared" if mixed else e.key) from None
    except vf.Bad as e:
        part.violation(str(e), e.key)


def order_job(part, kind, step, via, user):
    """Steps of a target find what its dependencies make, though they do not list it as an input."""
    told = f"{user} after {kind} that has {step}{' through another target' if via else ''}"
    act = B.tools() + "/act"
    t = {"target_name": "t", "type": kind}
    files = {"a.in": "1\n", "b.in": "2\n", "m.c": "EXPORT m\n", "x.x": "3\n"}
    need = {"action": "<(PRODUCT_DIR)/g.txt", "rule": "<(PRODUCT_DIR)/a.g", "copy": "<(PRODUCT_DIR)/cp/a.in", "product": "<(PRODUCT_DIR)/" + product({"type": kind, "target_name": "t"})}[step]
    if kind != "none":
        t.update(sources=["m.c"], product_dir="<(PRODUCT_DIR)")
    if step == "action":
        t["actions"] = [{"action_name": "n", "inputs": ["a.in"], "outputs": [need], "action": [act, "--out", need, "--in", "a.in"]}]
    elif step == "rule":
        t.setdefault("sources", []).append("a.in")
        t["rules"] = [{"rule_name": "n", "extension": "in", "outputs": ["<(PRODUCT_DIR)/<(RULE_INPUT_ROOT).g"], "action": [act, "--out", "<(PRODUCT_DIR)/<(RULE_INPUT_ROOT).g", "--in", "<(RULE_INPUT_PATH)"]}]
    elif step == "copy":
        t["copies"] = [{"destination": "<(PRODUCT_DIR)/cp", "files": ["a.in"]}]
    u = {"target_name": "u", "type": "none", "dependencies": ["v" if via else "t"]}
    out = "<(PRODUCT_DIR)/u.txt"
    if user == "action":
        u["actions"] = [{"action_name": "use", "inputs": ["b.in"], "outputs": [out], "action": [act, "--out", out, "--in", "b.in", need]}]
    elif user == "rule":
        u["sources"] = ["x.x"]
        u["rules"] = [{"rule_name": "use", "extension": "x", "outputs": [out], "action": [act, "--out", out, "--in", "<(RULE_INPUT_PATH)", need]}]
    else:
        u["copies"] = [{"destination": "<(PRODUCT_DIR)/cu", "files": ["b.in", need]}]
    targets = [t, u] + ([{"target_name": "v", "type": "none", "dependencies": ["t"]}] if via else [])
    try:
        with bench(told, {**files, "a.gyp": {"targets": targets}}, ["a.gyp"], part=part) as b:
            part.add()
            part.seen((told,))
            err = configure(b.root, "Default")
            if err:
                raise vf.Bad(f"{told}: cmake fails: {err}", f"cmake:{told}")
            x = B.build(b.root, "ninja", targets=("u.txt" if user != "copy" else "cu/" + os.path.basename(need),))  # alone: nothing is there by luck
            part.count("builds")
            if x.rc:
                raise vf.Bad(f"{told}: building it alone ends with {x.rc}: {x.out[-400:]}", f"order:{told}")
    except vf.Bad as e:
        part.violation(str(e), e.key)


def toolset_job(part, sets, users, where):
    """A library for each toolset has that toolset's settings and place, and its users of that toolset link it."""
    told = f"library for {sets} used by {users} in {where}"
    lib = {"target_name": "s", "type": "static_library", "toolsets": list(sets), "sources": ["s.c"], "defines": ["ALL"], "conditions": [['_toolset=="host"', {"defines": ["HOST"]}, {"defines": ["TARGET"]}]]}
    lib["target_conditions"] = lib.pop("conditions")
    targets = [lib]
    for u in users:
        targets.append({"target_name": "e" + u, "type": "executable", "toolsets": [u], "sources": [f"e{u}.c"], "dependencies": ["s#" + u]})
    try:
        with bench(told, {f"{where}/a.gyp": {"targets": targets}, f"{where}/s.c": "EXPORT s", **{f"{where}/e{u}.c": "" for u in users}}, [f"{where}/a.gyp"], part=part) as b:
            part.add()
            part.seen((told,))
            compiles, links, archives, _ = observe(b.first("Default").calls, told)
            got = sorted(g[1] for g in compiles.get(os.path.normpath(os.path.join(b.root, where, "s.c")), []))
            if got != sorted(["ALL", t.upper()] for t in sets):
                raise vf.Bad(f"{told}: the library is compiled with {got}", f"toolset:{told}")
            by = {}
            for o, ms in archives.items():
                (g,) = [g for g in compiles[os.path.normpath(os.path.join(b.root, where, "s.c"))] if g[4] in ms]
                by[g[1][-1].lower() if g[1][-1] != "ALL" else g[1][0].lower()] = o
            for u in users:
                (link,) = [v for k, v in links.items() if os.path.basename(k) == "e" + u]
                if [i for i in link[1] if i.endswith(".a")] != [by[u]]:
                    raise vf.Bad(f"{told}: e{u} links {link[1]}", f"toolset:{told}")
    except vf.Bad as e:
        part.violation(str(e), e.key)


ARGS = ["plain", "a b", 'q"q', "it's", "a;b", "back\\slash", "#hash", "(p)", "", "a=b", "*", "~", "!", "&", "a|b", "<in", "[[x]]", "tab\there", "%d", "@f@", "end\\"]


def args_job(part, words, how):
    """Each command runs with exactly the words of the build file."""
    told = f"{how} with words {words}"
    act = B.tools() + "/act"
    t = {"target_name": "t", "type": "none"}
    out = "<(PRODUCT_DIR)/o.txt"
    cmd = [act, "--out", out, "--in", "a.x", "--args", *words]
    if how == "action":
        t["actions"] = [{"action_name": "n", "inputs": ["a.x"], "outputs": [out], "action": cmd}]
    else:
        t["sources"] = ["a.x"]
        t["rules"] = [{"rule_name": "n", "extension": "x", "outputs": [out], "action": cmd}]
    try:
        with bench(told, {"a.gyp": {"targets": [t]}, "a.x": "1"}, ["a.gyp"], part=part) as b:
            part.add()
            part.seen((told,))
            x = b.first("Default")
            acts = observe(x.calls, told)[3]
            got = acts[0][1][acts[0][1].index("--args") + 1:] if acts else None
            if len(acts) != 1 or got != list(words):
                raise vf.Bad(f"{told}: the command gets {got}", f"args:{told}")
    except vf.Bad as e:
        part.violation(str(e), e.key)


def tools_job(part, how, keys):
    """The tools of the environment (or make_global_settings) are those that run."""
    told = f"{', '.join(keys) or 'nothing'} from {how}"
    root = vf.scratch("c46")
    try:
        part.add()
        part.seen((told,))
        os.makedirs(root + "/my")
        os.makedirs(root + "/bin")
        for k in ("CC", "CXX", "AR"):
            os.link(B.tools() + "/" + k.lower(), f"{root}/my/{k.lower()}")
        for n in ("cc", "gcc", "c++", "g++", "ar"):
            os.link(B.tools() + "/cc", f"{root}/bin/{n}")
        doc = {"targets": [{"target_name": "t", "type": "static_library", "sources": ["a.c", "b.cc", "f.s"], "standalone_static_library": 1}]}
        env = {"PATH": root + "/bin:" + os.environ["PATH"]}
        genv = dict(env)
        if how == "settings":
            doc["make_global_settings"] = [[k, "my/" + k.lower()] for k in keys]
        else:
            for k in keys:
                genv[k + ("_target" if how == "environment, _target" else "")] = f"{root}/my/{k.lower()}"
        r = B.generate(root, "cmake", {"d/a.gyp": doc, "d/a.c": "", "d/b.cc": "", "d/f.s": ""}, args=("d/a.gyp",), bare=True, env=genv)
        if not r.ok:
            raise vf.Bad(f"{told}: not generated: {r.stderr[-300:]}", f"gen:{told}")
        err = configure(root, "Default", {**env, "CC": root + "/bin/gcc", "CXX": root + "/bin/g++"})
        if err:
            raise vf.Bad(f"{told}: cmake fails: {err}", f"cmake:{told}")
        x = B.build(root, "ninja", bare=True, env=env)
        seen = set()
        for cwd, argv in x.calls:
            tool = "CC" if any(a.endswith(("/a.c", "/f.s")) for a in argv) else "CXX" if any(a.endswith("/b.cc") for a in argv) else "AR" if os.path.basename(argv[0]) == "ar" else None
            if tool is None:
                continue
            seen.add(tool)
            mine = os.path.dirname(os.path.normpath(os.path.join(cwd, argv[0]))) == root + "/my"
            if mine != (tool in keys) and not any(a.endswith("/f.s") for a in argv):
                raise vf.Bad(f"{told}: runs {argv}", f"tool:{told}:{tool}")
        if not seen >= {"CC", "CXX"}:
            raise vf.Bad(f"{told}: runs {x.calls}, {x.out[-300:]}", f"runs:{told}")
    except vf.Bad as e:
        part.violation(str(e), e.key)
    finally:
        vf.rmtree(root)


def job(part, item):
    {"feature": feature_job, "dag": dag_job, "config": config_job, "reach": reach_job, "step": step_job, "share": share_job, "toolset": toolset_job, "order": order_job, "args": args_job, "tools": tools_job}[item[0]](part, *item[1:])


def main():
    c = vf.Check("C46", "model_checking",
                 "every value of every related pair of settings (thorough: of every pair) x 4 target kinds; every typed DAG on up to 3 targets x file layout; every set of settings that differ between two configurations; every reachable "
                 "subset of a project of two files; every kind of generated input x target kind x every single input changed; every set of named tools - each configured by cmake and built by ninja for real",
                 ["one source compiled by two mixed-language targets with different flags is not judged: cmake keeps such flags per file, as the generator says", "the order of static libraries on a link line is not judged (documented mismatch)",
                  "a word that is a lone shell operator (&& or |) is cmake's to interpret", "the order and repetition of defines are not judged: cmake sorts them"])
    B.tools()
    todo = []
    for ch in features(vf.THOROUGH):
        for kind in KINDS:
            if vf.THOROUGH or len(ch) != 2 or kind in KINDS[:2] or any(k.startswith("product") for k, _ in ch):
                todo.append(("feature", kind, "d" if len(ch) != 1 else ".", ch))
                if len(ch) == 1:
                    todo.append(("feature", kind, "d", ch))
    kinds5 = [*KINDS, "none"]
    pairs = [(a, b) for a in range(3) for b in range(a + 1, 3)]
    for n in (2, 3):
        ps = [p for p in pairs if p[1] < n]
        for kinds in itertools.product(kinds5, repeat=n):
            for m in range(1, 2 ** len(ps)):
                edges = [p for k, p in enumerate(ps) if m >> k & 1]
                if any(kinds[b] in ("executable", "loadable_module") and kinds[a] != "none" for a, b in edges):
                    continue
                for layout, names in (("one", "own"), ("each", "own"), ("each", "same")):
                    if vf.THOROUGH or n == 2 or m in (5, 7) and layout == "each":
                        todo.append(("dag", kinds, edges, layout, names))
    for r in (1, 2, len(CONF_VALUES)):
        for pick in itertools.combinations(CONF_VALUES, r):
            for kind in KINDS if vf.THOROUGH or r != 2 else KINDS[:1]:
                todo.append(("config", kind, pick))
    for m in range(32):
        edges = [e for k, e in enumerate([(0, 2), (0, 1), (1, 2), (2, 3), (1, 3)]) if m >> k & 1]
        for given in ((0,), (1,), (0, 1)):
            todo.append(("reach", edges, given))
    for steps in (("action",), ("chain",), ("rule",), ("copy",), ("chain", "rule"), ("action", "copy"), ("chain", "rule", "copy")):
        for kind in [*KINDS, "none"]:
            for where in ("d", "e/f") if vf.THOROUGH else ("d",):
                for outdir in ("<(INTERMEDIATE_DIR)", "<(SHARED_INTERMEDIATE_DIR)", "<(PRODUCT_DIR)/gen"):
                    for consumer in ("alone", "used by an action"):
                        todo.append(("step", steps, kind, where, outdir, consumer))
    for a, b, layout in itertools.product(("c", "cc", "both"), ("c", "cc", "both"), (0, 1)):
        todo.append(("share", a, b, layout))
    for kind, step, via, user in itertools.product([*KINDS, "none"], ("action", "rule", "copy", "product"), (0, 1), ("action", "rule", "copy")):
        if (kind, step) != ("none", "product"):
            todo.append(("order", kind, step, via, user))
    for sets in (("target",), ("host",), ("target", "host"), ("host", "target")):
        for r in range(len(sets) + 1):
            for users in itertools.combinations(sets, r):
                todo += [("toolset", sets, users, w) for w in (".", "d")]
    for how in ("action", "rule"):
        for a in ARGS:
            todo.append(("args", (a,), how))
            todo += [("args", (a, b), how) for b in ARGS] if not os.environ.get("VF_ONE") else []
    for how in ("environment", "environment, _target", "settings"):
        for r in range(4):
            for keys in itertools.combinations(("CC", "CXX", "AR"), r):
                todo.append(("tools", how, keys))
    if os.environ.get("VF_ONLY"):
        todo = [t for t in todo if t[0] == os.environ["VF_ONLY"]]
    vf.pmap(c, job, todo, chunk=4)
    return c.finish()


vf.main(main)
