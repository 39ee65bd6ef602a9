"""C29: a project with any one structural fault is refused and nothing of an existing (or absent) build is touched, by every generator."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import ctypes, multiprocessing.pool, plistlib, urllib.request, xml.dom.minidom, xml.sax.saxutils  # noqa: E401,E402,F401  (before the platform changes)
import gypdrv  # noqa: E402
import macstub  # noqa: E402
import vf  # noqa: E402

FORMATS = [("make", "linux"), ("ninja", "linux"), ("cmake", "linux"), ("compile_commands_json", "linux"), ("gypd", "linux"), ("xcode", "darwin"), ("make", "darwin"), ("ninja", "darwin"), ("msvs", "win32"), ("ninja", "win32")]
QUICK = {("make", "linux"), ("ninja", "linux"), ("xcode", "darwin"), ("msvs", "win32"), ("cmake", "linux")}
ENV = {"GYP_MSVS_VERSION": "2015", "GYP_MSVS_OVERRIDE_PATH": "/nonexistent"}


def action(n, **kw):
    return {"action_name": n, "inputs": ["in.txt"], "outputs": [f"<(INTERMEDIATE_DIR)/{n}.h"], "action": ["python3", "x.py", "<@(_outputs)"], **kw}


def rule(n, ext, **kw):
    return {"rule_name": n, "extension": ext, "outputs": [f"<(INTERMEDIATE_DIR)/{n}-<(RULE_INPUT_ROOT).c"], "action": ["python3", "x.py", "<(RULE_INPUT_PATH)"], **kw}


def target(name, kind, **kw):
    return {"target_name": name, "type": kind, "sources": [name + ".c", "p.xx", "q.yy"], "rules": [rule("rx", "xx"), rule("ry", ".yy")], "actions": [action("one"), action("two")],
            "copies": [{"destination": "<(PRODUCT_DIR)/c", "files": ["f1", "f2"]}, {"destination": "<(PRODUCT_DIR)/d", "files": ["f3"]}],
            "conditions": [["OS!='none'", {"defines": ["A"], "conditions": [["1==1", {"defines": ["N"]}]]}, {"defines": ["B"]}], ["OS=='no'", {}, "OS=='yes'", {"defines": ["C"]}]],
            "target_conditions": [["_type=='executable'", {"defines": ["E"]}]],
            "configurations": {"Debug": {"defines": ["DEBUG"], "conditions": [["OS=='z'", {"defines": ["Z"]}]]}, "Release": {"defines": ["NDEBUG"]}},
            "run_as": {"action": ["./run"], "working_directory": "w", "environment": {"K": "V"}}, **kw}


def base():
    return {
        "a.gyp": {"includes": ["common.gypi"], "targets": [
            target("first", "static_library"),
            target("app", "executable", dependencies=["first", "gen", "sub/b.gyp:low", "late.gyp:l"], export_dependent_settings=["first"]),
            target("gen", "none"),
            target("last", "shared_library", dependencies=["first"])], "conditions": [["OS!='none'", {"variables": {"w": "1"}}]]},
        "late.gyp": {"includes": ["common.gypi"], "targets": [target("l", "loadable_module")]},
        "sub/b.gyp": {"includes": ["../common.gypi", "c.gypi"], "targets": [target("low", "static_library"), target("high", "executable", dependencies=["low", "../a.gyp:first"])]},
        "common.gypi": {"variables": {"v": "1"}, "target_defaults": {"default_configuration": "Debug", "configurations": {"Debug": {}, "Release": {}}}},
        "sub/c.gypi": {"variables": {"u": "1"}},
    }


PLACES = [("a.gyp", 0), ("a.gyp", 1), ("a.gyp", 2), ("a.gyp", 3), ("late.gyp", 0), ("sub/b.gyp", 0)]


def faults():
    """(label, edit(files)) for every fault at every place; the edit changes the parsed files, or puts text in place of one."""
    def at(place, f):
        return lambda files: f(files[place[0]]["targets"][place[1]], files)

    for p in PLACES:
        n = f"{p[0]}/{p[1]}"

        def put(label, f):
            return f"{n} {label}", at(p, f)
        for kind in ("", "nope", "Executable", "executable ", "none,none", "lib"):
            yield put(f"type {kind!r}", lambda t, _, kind=kind: t.update(type=kind))
        yield put("no type", lambda t, _: t.pop("type"))
        yield put("no name", lambda t, _: t.pop("target_name"))
        for dep in ("missing", "missing.gyp:x", "sub/b.gyp:none", "sub/missing.gyp:*", "nowhere/x.gyp:y", "a.gyp", ":", "sub/b.gyp"):
            yield put(f"dependency {dep}", lambda t, _, dep=dep: t.setdefault("dependencies", []).append(dep))
        yield put("itself", lambda t, _: t.setdefault("dependencies", []).append(t["target_name"]))
        yield put("wildcard on its file", lambda t, _, p=p: t.setdefault("dependencies", []).append(os.path.basename(p[0]) + ":*"))
        yield put("itself by toolset", lambda t, _: t.setdefault("dependencies", []).append(t["target_name"] + "#target"))
        yield put("exports a stranger", lambda t, _: t.setdefault("export_dependent_settings", []).append("stranger"))
        for i in (0, 1):
            for key in ("action_name", "inputs", "outputs", "action"):
                yield put(f"action {i} without {key}", lambda t, _, i=i, key=key: t["actions"][i].pop(key))
            yield put(f"action {i} named ''", lambda t, _, i=i: t["actions"][i].update(action_name=""))
            yield put(f"action {i} empty command", lambda t, _, i=i: t["actions"][i].update(action=[""]))
            for key in ("rule_name", "extension", "outputs", "action"):
                yield put(f"rule {i} without {key}", lambda t, _, i=i, key=key: t["rules"][i].pop(key))
            yield put(f"rule {i} with sources", lambda t, _, i=i: t["rules"][i].update(rule_sources=["p.xx"]))
            for key in ("destination", "files"):
                yield put(f"copy {i} without {key}", lambda t, _, i=i, key=key: t["copies"][i].pop(key))
        yield put("rule twice", lambda t, _: t["rules"].append(rule("rx", "zz")))
        yield put("rule twice later", lambda t, _: t["rules"].append(rule("ry", "zz")))
        for e in ("xx", ".xx", "yy", ".yy"):
            yield put(f"extension {e} twice", lambda t, _, e=e: t["rules"].append(rule("rz", e)))
        for r in ({}, {"working_directory": "x"}, {"action": "x"}, {"action": []}, {"action": ["x"], "working_directory": ["x"]}, {"action": ["x"], "environment": ["x"]}, ["x"], "x"):
            if r:
                yield put(f"run_as {r}", lambda t, _, r=r: t.update(run_as=r))
        for where in ("conditions", "target_conditions", "nested", "configuration"):
            for c in (["1==1"], [["1==1", {}]], ["1==1", []], ["1==1", "1==1"], ["1==1", {}, {}, {}], ["1==1", {}, {}, "1==2"], ["nope==1", {}], ["1==", {}], ["'", {}], ["v(", {}], ["OS=='x'", {}, "nope", {}],
                      [], "1==1", {"1==1": {}}, ["1==1", {}, "1==2"], ["1==1", {}, []], ["__import__('os')", {}], ["1 1", {}]):
                def bad(t, _, where=where, c=c):
                    if where == "nested":
                        t["conditions"][0][1]["conditions"].append(c)
                    elif where == "configuration":
                        t["configurations"]["Debug"]["conditions"].append(c)
                    else:
                        t[where].append(c)
                yield put(f"{where} {c}", bad)
        for form in ("<", ">", "^"):
            for key in ("sources", "defines"):
                yield put(f"{form}(nope) in {key}", lambda t, _, form=form, key=key: t.setdefault(key, []).append(f"{form}(nope)"))
        yield put("failing command", lambda t, _: t.setdefault("defines", []).append("<!(exit 3)"))
        yield put("twice the same", lambda t, files, p=p: files[p[0]]["targets"].append(target(t["target_name"], "none")))
        yield put("the same name next door", lambda t, files, p=p: (files.update({os.path.dirname(p[0]) + ("/" if "/" in p[0] else "") + "twin.gyp": {"targets": [dict(target(t["target_name"], "none"), configurations={"Debug": {}, "Release": {}})]}}),
                                                                   files["a.gyp"]["targets"][1]["dependencies"].append((os.path.dirname(p[0]) + "/" if "/" in p[0] else "") + "twin.gyp:" + t["target_name"])))
        yield put("unknown parent configuration", lambda t, _: t["configurations"]["Debug"].update(inherit_from=["Nope"]))
        for key in ("type", "dependencies", "actions", "target_name", "sources", "libraries", "link_settings"):
            yield put(f"configuration with {key}", lambda t, _, key=key: t["configurations"]["Debug"].update({key: "x" if key in ("type", "target_name") else []}))
    def two_cycle(files):
        files["a.gyp"]["targets"][0]["dependencies"] = ["last"]

    def three_cycle(files):
        files["a.gyp"]["targets"][0]["dependencies"] = ["gen"]
        files["a.gyp"]["targets"][2]["dependencies"] = ["last"]

    def far_cycle(files):
        files["sub/b.gyp"]["targets"][0]["dependencies"] = ["../a.gyp:app"]
    yield "two targets in a cycle", two_cycle
    yield "three targets in a cycle", three_cycle
    yield "two files in a cycle", far_cycle
    for f in base():
        yield f"no {f}", lambda files, f=f: files.pop(f)
        for text in ("", "[]", "'x'", "1", "{", "{}}", "{'a': }", "{'a': nope}", "{'targets': [", "import os", "{1/0: 2}", "{'a' 'b'}", "\x00", "# nothing"):
            yield f"{f} is {text!r}", lambda files, f=f, text=text: files.update({f: text})
        yield f"{f} is not UTF-8", lambda files, f=f: files.update({f: b"{'a': '\xff\xfe'}"})
        yield f"{f} includes nothing there", lambda files, f=f: files[f].setdefault("includes", []).append("missing.gypi")
    for f in ("a.gyp", "late.gyp", "sub/b.gyp"):
        yield f"{f} no targets", lambda files, f=f: files[f].pop("targets")
        yield f"{f} says what it includes", lambda files, f=f: files[f].update(included_files=[])
        yield f"{f} bad condition", lambda files, f=f: files[f].update(conditions=[["1=="]])


def truncations():
    for f, d in base().items():
        text = gypdrv.render(d)
        end = len(text.rstrip())
        for k in range(end):
            if vf.THOROUGH or k % 8 == 0 or k > end - 12:
                yield f"{f} cut at {k}", lambda files, f=f, t=text[:k]: files.update({f: t})


def snapshot(root, skip):
    out = {}
    for dp, dn, fn in os.walk(root):
        for n in fn + dn:
            p = os.path.join(dp, n)
            r = os.path.relpath(p, root)
            if r in skip:
                continue
            st = os.lstat(p)
            if os.path.islink(p):
                out[r] = os.readlink(p)
            elif os.path.isdir(p):
                out[r] = "dir"
            else:
                with open(p, "rb") as f:
                    out[r] = (f.read(), st.st_mtime_ns, st.st_ino)
    return out


def generate(root, files, fmt, plat):
    def pre():
        sys.platform = plat
        sys.argv[:] = ["gyp"]
        if plat != "linux":
            for n in ("CC", "CXX", "AR", "LINK"):
                os.environ.pop(n, None)
    return gypdrv.run(files, fmt=fmt, pre=pre, env=ENV, root=root, flags=("output_dir=out", "ninja_use_custom_environment_files=1"), args=("a.gyp", "--no-circular-check"))


def job(part, item):
    fmt, plat, group = item
    where = f"{fmt} on {plat}"
    root = vf.scratch("w")
    for over in (False, True):
        if over:
            r = generate(root, base(), fmt, plat)
            if not r.ok:
                raise vf.Bad(f"{where}: the valid project is refused: {r.status} {r.stderr[-800:]}", f"valid:{where}")
            if len(snapshot(root, set(base()))) < 1:
                raise vf.Bad(f"{where}: nothing is generated", f"empty:{where}")
        for label, edit in group:
            files = base()
            edit(files)
            for f in base():
                if f not in files:
                    if os.path.exists(os.path.join(root, f)):
                        os.unlink(os.path.join(root, f))
            gypdrv.write_files(root, files)
            sources = set(base()) | set(files) | {"sub"}
            before = snapshot(root, sources)
            r = generate(root, {}, fmt, plat)
            after = snapshot(root, sources)
            part.add()
            part.seen((fmt, plat, label, over))
            part.count("over_a_build" if over else "afresh")
            optional = "without outputs" in label and " rule " in label
            if optional and r.status == 0:
                continue  # Visual Studio and Xcode make do without
            if r.status == 0:
                part.violation(f"{where}: {label}: accepted", f"accepted:{fmt}:{plat}:{label}")
            elif r.status in ("hang", "died"):
                part.violation(f"{where}: {label}: gyp {r.status}", f"{r.status}:{fmt}:{plat}:{label}")
            elif after != before:
                what = [n for n in sorted(set(before) | set(after)) if before.get(n) != after.get(n)]
                part.violation(f"{where}: {label}: refused ({(r.stderr.strip().splitlines() or [''])[-1][:200]}), but {'rewrote' if over else 'left'} {what[:6]}", f"rule-outputs:{fmt}" if optional else f"touched:{fmt}:{plat}:{label}")
            for n in set(files) - set(base()):
                os.unlink(os.path.join(root, n))
        if not over:
            vf.rmtree(root)
            os.makedirs(root)
    vf.rmtree(root)


def main():
    ENV["PATH"] = macstub.path() + ":" + os.environ["PATH"]
    c = vf.Check("C29", "model_checking", "every single fault of the stated kinds at every place (six targets of three files, each action, rule, copy and condition, each file) of a project that uses all of them, and every truncation of each file "
                 "(quick: each eighth position and the last ones, by make), by every generator (quick: make; the last target, one of another file and the file faults by four more), in a fresh directory and over an existing build",
                 ["list files written while a project is read ('<|') are not used"])
    all_faults, cuts = list(faults()), list(truncations())
    labels = [x for x, _ in all_faults]
    assert len(labels) == len(set(labels)), [x for x in labels if labels.count(x) > 1]
    c.sample({"faults": len(all_faults), "truncations": len(cuts)})
    items = []
    for fmt, plat in FORMATS:
        some = all_faults if vf.THOROUGH or fmt == "make" else [x for x in all_faults if (fmt, plat) in QUICK and not x[0].startswith(("a.gyp/0", "a.gyp/1", "a.gyp/2", "late.gyp/0"))]
        if vf.THOROUGH or (fmt, plat) in QUICK:
            items += [(fmt, plat, some[k:k + 30]) for k in range(0, len(some), 30)]
    for fmt, plat in FORMATS if vf.THOROUGH else FORMATS[:1]:
        items += [(fmt, plat, cuts[k:k + 60]) for k in range(0, len(cuts), 60)]
    vf.pmap(c, job, items, chunk=1)
    return c.finish()


vf.main(main)
