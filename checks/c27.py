"""C27: build files do not depend on hash seeds or earlier runs: every iteration order of every set is under control."""
import os
import subprocess
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import setctl  # noqa: E402
import macstub  # noqa: E402
import vf  # noqa: E402

sys.path.insert(0, os.path.join(vf.REPO, "gyp", "pylib"))
setctl.install()
import ctypes, multiprocessing.pool, plistlib, urllib.request, xml.dom.minidom, xml.sax.saxutils  # noqa: E401,E402,F401  (before the platform changes)
import gypdrv  # noqa: E402

INT, SHARED = "<(INTERMEDIATE_DIR)", "<(SHARED_INTERMEDIATE_DIR)"


def action(n, outs, ins=(), **kw):
    return {"action_name": n, "inputs": list(ins), "outputs": list(outs), "action": ["python3", "x.py", *ins, *outs], **kw}


def projects():
    """{name: (files, args, env)}"""
    out = {}
    common = {"variables": {"v%": ["x", "y", "z"]},
              "target_defaults": {"default_configuration": "Debug", "defines": ["D1", "D2"], "cflags": ["-f1", "-f2"],
                                  "configurations": {"Debug": {"defines": ["DEBUG", "E"]}, "Release": {"defines": ["NDEBUG"]}, "Base": {"abstract": 1}}}}
    out["libs"] = ({
        "common.gypi": common,
        "a.gyp": {"includes": ["common.gypi"], "targets": [
            {"target_name": "exe", "type": "executable", "sources": ["m.c", "n.cc", "o.cpp", "q.S", "r.m"],
             "dependencies": ["s1", "s2", "h1", "h2", "sub/b.gyp:*", "l1"], "libraries": ["-lm", "-lz"]},
            {"target_name": "s1", "type": "shared_library", "sources": ["s1.c"], "dependencies": ["l1", "l2", "h1"], "export_dependent_settings": ["l1", "l2"]},
            {"target_name": "s2", "type": "shared_library", "sources": ["s2.cc"], "dependencies": ["l2", "l3"]},
            {"target_name": "l1", "type": "static_library", "sources": ["l1.c"], "dependencies": ["h1", "h2"],
             "direct_dependent_settings": {"include_dirs": ["i1", "i2"], "defines": ["L1A", "L1B"]}},
            {"target_name": "l2", "type": "static_library", "sources": ["l2.c"], "dependencies": ["h2", "h3"], "all_dependent_settings": {"defines": ["L2"]}},
            {"target_name": "l3", "type": "static_library", "sources": ["l3.c"], "link_settings": {"libraries": ["-lx", "-ly"]}},
            {"target_name": "mod", "type": "loadable_module", "sources": ["mod.c"], "dependencies": ["s1", "l3", "h3"]}] + [
            {"target_name": h, "type": "none", "hard_dependency": 1,
             "actions": [action("gen", [SHARED + f"/{h}/a.h", SHARED + f"/{h}/b/c.h"])]} for h in ("h1", "h2", "h3")]},
        "sub/b.gyp": {"includes": ["../common.gypi"], "targets": [
            {"target_name": t, "type": "static_library", "sources": [t + ".c"]} for t in ("w1", "w2", "w3")]},
    }, ("a.gyp",))
    out["acts"] = ({
        "a.gyp": {"targets": [
            {"target_name": "t", "type": "static_library", "sources": ["p.x", "q.x", "r.y", "plain.c"],
             "actions": [action("one", [INT + "/d1/a.c", INT + "/d2/b.cc", INT + "/d3/c.h"], ["i1", "i2"], process_outputs_as_sources=1),
                         action("two", ["<(PRODUCT_DIR)/e1/a", "<(PRODUCT_DIR)/e2/b"], [])],
             "rules": [{"rule_name": "rx", "extension": "x", "inputs": ["tool1", "tool2"], "process_outputs_as_sources": 1,
                        "outputs": [INT + "/x1/<(RULE_INPUT_ROOT).c", INT + "/x2/<(RULE_INPUT_ROOT).cc", INT + "/x3/<(RULE_INPUT_ROOT).h"],
                        "action": ["python3", "x.py", "<(RULE_INPUT_PATH)", "<(RULE_INPUT_NAME)"]},
                       {"rule_name": "ry", "extension": "y", "outputs": [INT + "/y1/<(RULE_INPUT_ROOT)", INT + "/y2/<(RULE_INPUT_DIRNAME)/<(RULE_INPUT_EXT)"],
                        "action": ["python3", "x.py", "<(RULE_INPUT_PATH)"]}],
             "copies": [{"destination": "<(PRODUCT_DIR)/c1", "files": ["f1", "f2"]}, {"destination": "<(PRODUCT_DIR)/c2", "files": ["f1", "f3"]}]}]},
    }, ("a.gyp",))
    out["tools"] = ({
        "a.gyp": {"make_global_settings": [["CC", "cc"], ["CXX", "cxx"], ["CC.host", "hcc"]], "targets": [
            {"target_name": "gen", "type": "executable", "toolsets": ["host", "target"], "sources": ["g.c", "k.cc"], "dependencies": ["base#host", "base#target"]},
            {"target_name": "base", "type": "static_library", "toolsets": ["target", "host"], "sources": ["b.c"], "conditions": [["_toolset=='host'", {"defines": ["H"]}]]},
            {"target_name": "app", "type": "executable", "sources": ["a.c"], "dependencies": ["gen#host", "base"],
             "actions": [action("run", [SHARED + "/o.h"], ["<(PRODUCT_DIR)/gen"])]}]},
    }, ("a.gyp",))
    out["files"] = ({
        "a.gyp": {"targets": [{"target_name": "a1", "type": "none", "dependencies": ["b.gyp:*", "d/c.gyp:c1"]}, {"target_name": "a2", "type": "none"}]},
        "b.gyp": {"includes": ["x.gypi", "y.gypi"], "targets": [{"target_name": "b1", "type": "executable", "sources": ["b.c"], "dependencies": ["d/c.gyp:c2", "d/c.gyp:c1"]},
                                                              {"target_name": "b2", "type": "static_library", "sources": ["b.c"]}]},
        "d/c.gyp": {"includes": ["../x.gypi"], "targets": [{"target_name": "c1", "type": "static_library", "sources": ["c.c"], "defines": ["<@(xs)"]},
                                                          {"target_name": "c2", "type": "shared_library", "sources": ["c.c"], "dependencies": ["c1"]}]},
        "x.gypi": {"variables": {"xs": ["1", "2"]}}, "y.gypi": {"variables": {"ys": ["1"]}},
    }, ("a.gyp", "b.gyp", "d/c.gyp"))
    out["roots"] = (out["libs"][0], ("a.gyp", "-R", "s1", "-R", "mod"))
    return out


FORMATS = [("make", "linux"), ("ninja", "linux"), ("compile_commands_json", "linux"), ("xcode", "darwin"), ("msvs", "win32"), ("cmake", "linux"),
           ("make", "darwin"), ("ninja", "darwin"), ("ninja", "win32"), ("gypd", "linux"), ("xcode-ninja", "darwin")]
MAIN = {("make", "linux"), ("ninja", "linux"), ("gypd", "linux")}  # the others do not vary the walks of the loader again
ENV = {"GYP_MSVS_VERSION": "2015", "GYP_MSVS_OVERRIDE_PATH": "/nonexistent", "GYP_LINK_CONCURRENCY": "4", "CC": "cc", "CXX": "cxx", "AR": "ar", "LINK": "cxx"}


def tree(root, skip):
    out = {}
    for dp, dn, fn in os.walk(root):
        dn.sort()
        for f in fn:
            rel = os.path.relpath(os.path.join(dp, f), root)
            if rel not in skip:
                with open(os.path.join(dp, f), "rb") as fh:
                    out[rel] = fh.read()
    return out


def generate(root, files, args, fmt, plat, mode="up", moves=(), clean=True):
    if clean:
        if os.path.exists(root):
            vf.rmtree(root)
        os.makedirs(root)

    def pre():
        sys.platform = plat
        sys.argv[:] = ["gyp"]
        if plat != "linux":
            for n in ("CC", "CXX", "AR", "LINK"):
                os.environ.pop(n, None)
        setctl.reset(mode, moves)

    r = gypdrv.run(files, args=args, fmt=fmt, root=root, pre=pre, env=ENV, post=lambda: list(setctl.events),
                   flags=("output_dir=out", "ninja_use_custom_environment_files=1"))
    return r


def differs(a, b):
    for n in sorted(set(a) | set(b)):
        if a.get(n) != b.get(n):
            if n not in a or n not in b:
                return f"{n} {'missing' if n not in b else 'extra'}"
            la, lb = a[n].decode("utf-8", "replace").split("\n"), b[n].decode("utf-8", "replace").split("\n")
            for i, (x, y) in enumerate(zip(la, lb)):
                if x != y:
                    return f"{n}:{i + 1}: {x[:200]!r} / {y[:200]!r}"
            return f"{n}: {len(la)} / {len(lb)} lines"
    return None


def orders(n):
    return setctl.permutations(n, 4 if vf.THOROUGH else 3, vf.THOROUGH)


def walks(events, fmt, plat):
    """The walks to vary: quickly, only the first of those at one place over the same elements."""
    seen = set()
    for k, (site, size, elements) in enumerate(events):
        if site.startswith("input.py") and (fmt, plat) not in MAIN:
            continue
        if not vf.THOROUGH and (site, elements) in seen:
            continue
        seen.add((site, elements))
        yield k, site, size


def job(part, item):
    pname, fmt, plat, what = item
    files, args = projects()[pname]
    where = f"{pname} {fmt} {plat}"
    root = vf.scratch("c27") + "/w"
    skip = set(files)
    base = generate(root, files, args, fmt, plat)
    if not base.ok:
        raise vf.Bad(f"{where}: not generated: {base.stderr[-300:]}", f"{where}:gen")
    want = tree(root, skip)
    part.add()

    def compare(got, how):
        d = differs(want, got)
        if d:
            raise vf.Bad(f"{where}: {how}: {d}", f"{where}:{d.split(':')[0]}", project=files)

    try:
        if what == "modes":
            if not want and fmt != "dump_dependency_json":
                raise vf.Bad(f"{where}: nothing was written", f"{where}:empty")
            part.count("build_files_compared", len(want))
            generate(root, files, args, fmt, plat, clean=False)
            compare(tree(root, skip), "generated a second time")
            for mode in ("down", "rot"):
                part.add()
                part.seen((where, mode))
                r = generate(root, files, args, fmt, plat, mode)
                compare(tree(root, skip), f"every set walked {mode}")
                if fmt == "dump_dependency_json" and r.stdout != base.stdout:
                    raise vf.Bad(f"{where}: output {r.stdout} / {base.stdout}", where)
        elif what == "real":  # the unmodified code under real hash seeds: binds the instrumented runs to it
            for seed in range(12 if vf.THOROUGH else 5):
                part.add()
                part.count("real_hash_seeds")
                vf.rmtree(root)
                os.makedirs(root)
                gypdrv.write_files(root, files)
                code = ("import sys, ctypes, multiprocessing.pool, plistlib, urllib.request, xml.dom.minidom, xml.sax.saxutils; sys.path.insert(0, %r); sys.platform=%r; import gyp; args=sys.argv[1:]; sys.argv[:]=['gyp']; sys.exit(gyp.main(args))"
                        % (os.path.join(vf.REPO, "gyp", "pylib"), plat))
                p = subprocess.run([sys.executable, "-B", "-c", code, "--depth=.", "-f", fmt, "--no-parallel", "-Goutput_dir=out",
                                    "-Gninja_use_custom_environment_files=1", *args], cwd=root, env=dict(os.environ, PYTHONHASHSEED=str(seed), **{k: v for k, v in ENV.items() if plat == "linux" or k[:3] in ("GYP", "PAT")}),
                                   stdout=subprocess.PIPE, stderr=subprocess.PIPE)
                if p.returncode:
                    raise vf.Bad(f"{where}: seed {seed}: {p.stderr.decode()[-500:]}", where + ":real")
                compare(tree(root, skip), f"hash seed {seed}")
        else:
            lo, hi = what
            n = 0
            part.count("set_walks", len(base.extra) if lo == 0 else 0)
            for k, site, size in walks(base.extra, fmt, plat):
                for p in orders(size):
                    n += 1
                    if not lo <= n - 1 < hi:
                        continue
                    part.add()
                    part.count("deviations")
                    part.seen((where, site, p))
                    generate(root, files, args, fmt, plat, moves=[(k, p)])
                    compare(tree(root, skip), f"the set walked at {site} in order {p}")
    finally:
        vf.rmtree(root)


def count(part, item):
    pname, fmt, plat = item
    files, args = projects()[pname]
    root = vf.scratch("c27") + "/w"
    r = generate(root, files, args, fmt, plat)
    vf.rmtree(root)
    n = sum(len(orders(size)) for _, _, size in walks(r.extra, fmt, plat)) if r.ok else 0
    part.d["samples"].append((item, n))


def main():
    ENV["PATH"] = macstub.path() + ":" + os.environ["PATH"]
    c = vf.Check("C27", "model_checking",
                 "a distinct (project, back end, program point that walks a set, order of its elements); each walk of each set (quick: the first at one place over the same elements) is moved to every order "
                 "(all permutations up to 3 elements, 4 thorough; beyond that reversal, rotation and swaps of neighbours, thorough: all rotations and swaps) with the others fixed, plus every walk reversed and rotated at once",
                 ["hash seeds act only through the iteration order of sets; orders of several sets are varied one at a time or all alike"])
    combos = [(p, f, pl) for p in projects() for f, pl in FORMATS if os.environ.get("VF_ONLY", f + pl) == f + pl]
    probe = vf.Check("C27", "model_checking", "")
    probe.sample = lambda s, limit=None: probe.samples.append(s)
    vf.pmap(probe, count, combos)
    items = []
    for combo, n in probe.samples:
        items.append((*combo, "modes"))
        items.append((*combo, "real"))
        items += [(*combo, (i, i + 24)) for i in range(0, n, 24)]
    vf.pmap(c, job, items, chunk=1)
    c.count("program_points", len({x[1] for x in c.nontrivial if len(x) == 3}))
    c.sample("project libs, make: the set of include files walked in every order")
    return c.finish()


vf.main(main)
