"""Project shapes for the edit/build histories: each is a function from the set of toggles that are on to {path: content}."""

ACT = "act"


def S1(T):
    """Static libraries in a subdirectory, headers (direct and indirect), an executable; thin and standalone archives."""
    app_src = ["main.c", "sub/util.cc"]
    if "app+src" in T:
        app_src.append("extra.c")
    if "app-src" in T:
        app_src.remove("sub/util.cc")
    lib_src = ["foo.c", "bar.c"] + (["new.c"] if "lib+src" in T else [])
    if "lib-src" in T:
        lib_src.remove("bar.c")
    app = {"target_name": "app", "type": "executable", "sources": app_src,
           "dependencies": ["lib/lib.gyp:foo"] + (["solo"] if "dep+" in T else []),
           "defines": ["APP=%d" % ("app-define" in T)], "cflags": ["-fapp%d" % ("app-cflag" in T)],
           "ldflags": ["-Wl,app%d" % ("app-ldflag" in T)], "libraries": ["-lm"] + (["-ldl"] if "libs+" in T else [])}
    f = {
        "a.gyp": {"targets": [app, {"target_name": "solo", "type": "static_library", "standalone_static_library": 1, "sources": ["solo.c"]}]},
        "lib/lib.gyp": {"targets": [
            {"target_name": "foo", "type": "static_library", "sources": lib_src, "include_dirs": ["inc"],
             "dependencies": ["base"], "defines": ["FOO=%d" % ("lib-define" in T)],
             "direct_dependent_settings": {"include_dirs": ["inc"], "defines": ["USES_FOO=%d" % ("dds" in T)]}},
            {"target_name": "base", "type": "static_library", "sources": ["base.c"]}]},
        "main.c": '#include "foo.h"\nmain %d' % ("main" in T),
        "sub/util.cc": ('' if "drop-include" in T else '#include "old.h"\n') + "util",
        "extra.c": "extra", "solo.c": "solo %d" % ("solo" in T),
        "lib/foo.c": '#include "foo.h"\nfoo %d' % ("foo" in T), "lib/bar.c": "bar", "lib/new.c": "new",
        "lib/base.c": "base %d" % ("base" in T),
        "lib/inc/foo.h": '#include "inner.h"\nfoo.h %d' % ("foo.h" in T), "lib/inc/inner.h": "inner %d" % ("inner.h" in T),
    }
    if "drop-include" not in T:
        f["sub/old.h"] = "old"
    return f


S1.toggles = ["main", "foo", "base", "solo", "foo.h", "inner.h", "drop-include", "app+src", "app-src", "lib+src", "lib-src",
              "dep+", "app-define", "app-cflag", "app-ldflag", "lib-define", "dds", "libs+"]
S1.alone = {"make": ("lib-src",)}


def S2(T):
    """Generated headers and sources across directories, chained actions, an action that uses a built program."""
    gen = {"target_name": "gen", "type": "none", "hard_dependency": 1, "actions": [
        {"action_name": "hdr", "inputs": ["in.txt"] + (["in2.txt"] if "input+" in T else []), "outputs": ["<(SHARED_INTERMEDIATE_DIR)/g/gen.h"],
         "action": [ACT, "--out", "<@(_outputs)", "--in", "<@(_inputs)", "--args", "h%d" % ("arg" in T)]}],
        "direct_dependent_settings": {"include_dirs": ["<(SHARED_INTERMEDIATE_DIR)/g"]}}
    chain = {"target_name": "chain", "type": "none", "hard_dependency": 1, "dependencies": ["gen"], "export_dependent_settings": ["gen"], "actions": [
        {"action_name": "second", "inputs": ["<(SHARED_INTERMEDIATE_DIR)/g/gen.h", "mix.txt"],
         "outputs": ["<(SHARED_INTERMEDIATE_DIR)/g/chained.h"],
         "action": [ACT, "--out", "<(SHARED_INTERMEDIATE_DIR)/g/chained.h", "--in", "<@(_inputs)", "--args", "c%d" % ("chain-arg" in T)]}]}
    lib = {"target_name": "lib", "type": "static_library", "sources": ["l.c"], "dependencies": ["../gen/gen.gyp:chain"]}
    # actions of one program run after the tool they use is built; one output is compiled
    app = {"target_name": "app", "type": "executable", "sources": ["main.c"], "dependencies": ["c/lib.gyp:lib", "tool", "gen/gen.gyp:chain"],
           "include_dirs": ["<(INTERMEDIATE_DIR)"], "actions": [
        {"action_name": "two", "inputs": ["two.txt"], "outputs": ["<(INTERMEDIATE_DIR)/two.c"],
         "process_outputs_as_sources": 1, "action": [ACT, "--out", "<@(_outputs)", "--in", "two.txt", "--args", "t%d" % ("two-arg" in T)] + (["y", "x", "x"] if "two-order" in T else ["x", "y"])},
        {"action_name": "noinput", "inputs": [], "outputs": ["<(INTERMEDIATE_DIR)/none.h"],
         "action": [ACT, "--out", "<(INTERMEDIATE_DIR)/none.h", "--args", "n%d" % ("none-arg" in T)]},
        {"action_name": "viatool", "inputs": ["<(PRODUCT_DIR)/tool", "data.txt"], "outputs": ["<(INTERMEDIATE_DIR)/via.h"],
         "action": [ACT, "--out", "<(INTERMEDIATE_DIR)/via.h", "--in", "<@(_inputs)"]}]}
    tool = {"target_name": "tool", "type": "executable", "sources": ["tool.c"]}
    return {
        "a.gyp": {"targets": [app, tool]}, "gen/gen.gyp": {"targets": [gen, chain]}, "c/lib.gyp": {"targets": [lib]},
        "gen/in.txt": "in %d" % ("in" in T), "gen/in2.txt": "in2", "gen/mix.txt": "mix %d" % ("mix" in T),
        "c/l.c": '#include "chained.h"\nlib', "tool.c": "tool %d" % ("tool" in T), "two.txt": "two %d" % ("two" in T),
        "data.txt": "data %d" % ("data" in T),
        "main.c": '#include "via.h"\n#include "none.h"\n' + ('#include "gen.h"\n' if "include+" in T else "") + "main",
    }


S2.toggles = ["in", "mix", "tool", "two", "data", "arg", "chain-arg", "two-arg", "none-arg", "two-order", "input+", "include+"]


def S3(T):
    """Rules, with extra inputs, several outputs and outputs compiled; copies of sources and of products; stamps."""
    app = {"target_name": "app", "type": "executable", "sources": ["main.c", "one.x", "d/two.x"] + (["three.x"] if "rule+src" in T else []),
           "include_dirs": ["<(INTERMEDIATE_DIR)", "<(INTERMEDIATE_DIR)/y"],
           "rules": [
               {"rule_name": "x2c", "extension": "x", "inputs": ["x.cfg"], "outputs": ["<(INTERMEDIATE_DIR)/<(RULE_INPUT_ROOT).c"],
                "process_outputs_as_sources": 1,
                "action": [ACT, "--out", "<(INTERMEDIATE_DIR)/<(RULE_INPUT_ROOT).c", "--in", "<(RULE_INPUT_PATH)", "x.cfg", "--args", "x%d" % ("rule-arg" in T)]},
               {"rule_name": "y2h", "extension": "y", "outputs": ["<(INTERMEDIATE_DIR)/y/<(RULE_INPUT_ROOT).h", "<(INTERMEDIATE_DIR)/y/<(RULE_INPUT_ROOT).aux"],
                "action": [ACT, "--out", "<(INTERMEDIATE_DIR)/y/<(RULE_INPUT_ROOT).h", "<(INTERMEDIATE_DIR)/y/<(RULE_INPUT_ROOT).aux",
                           "--in", "<(RULE_INPUT_PATH)", "--args", "y%d" % ("rule2-arg" in T)]}]}
    app["sources"].append("p.y")
    stage = {"target_name": "stage", "type": "none", "dependencies": ["app"], "copies": [
        {"destination": "<(PRODUCT_DIR)/stage", "files": ["readme.txt", "<(PRODUCT_DIR)/app"] + (["more.txt"] if "copy+" in T else [])},
        {"destination": "<(PRODUCT_DIR)/hdrs", "files": ["h/api.h"]}]}
    user = {"target_name": "user", "type": "static_library", "dependencies": ["stage"], "sources": ["user.c"], "include_dirs": ["<(PRODUCT_DIR)/hdrs"]}
    use = {"target_name": "post", "type": "none", "dependencies": ["stage"], "actions": [
        {"action_name": "sum", "inputs": ["<(PRODUCT_DIR)/stage/readme.txt", "<(PRODUCT_DIR)/stage/app"], "outputs": ["<(PRODUCT_DIR)/sum.txt"],
         "action": [ACT, "--out", "<(PRODUCT_DIR)/sum.txt", "--in", "<@(_inputs)"]}]}
    return {
        "a.gyp": {"targets": [app, stage, user, use]},
        "main.c": '#include "p.h"\nmain', "one.x": "one %d" % ("one" in T), "d/two.x": "two %d" % ("two" in T), "three.x": "three",
        "x.cfg": "cfg %d" % ("cfg" in T), "p.y": "p %d" % ("p" in T), "readme.txt": "readme %d" % ("readme" in T), "more.txt": "more",
        "h/api.h": "api %d" % ("api" in T), "user.c": '#include "api.h"\nuser',
    }


S3.toggles = ["one", "two", "cfg", "p", "readme", "api", "rule-arg", "rule2-arg", "rule+src", "copy+"]


def S4(T):
    """Shared libraries (whose users need relinking only when the interface changes), a module, products in other places."""
    return {
        "a.gyp": {"targets": [
            {"target_name": "app", "type": "executable", "sources": ["main.c", "more.c"][::-1 if "link-order" in T else 1],
             "defines": ["D=1", "U=2", "D=3"][::-1 if "define-order" in T else 1], "dependencies": ["s/s.gyp:shlib", "inner"] + (["mod"] if "dep-mod" in T else [])},
            {"target_name": "mod", "type": "loadable_module", "sources": ["mod.c"], "product_extension": "node", "product_prefix": "",
             "dependencies": ["s/s.gyp:shlib"], "ldflags": ["-Wl,mod%d" % ("mod-ldflag" in T)]},
            {"target_name": "inner", "type": "static_library", "sources": ["inner.c"]},
            {"target_name": "placed", "type": "shared_library", "product_name": "where", "product_dir": "<(PRODUCT_DIR)/place", "sources": ["placed.c"]},
            {"target_name": "uses", "type": "executable", "sources": ["uses.c"], "dependencies": ["placed"]}]},
        "s/s.gyp": {"targets": [
            {"target_name": "shlib", "type": "shared_library", "sources": ["s.c"] + (["t.c"] if "sh+src" in T else []), "dependencies": ["deep"],
             "ldflags": ["-Wl,sh%d" % ("sh-ldflag" in T)]},
            {"target_name": "deep", "type": "static_library", "sources": ["deep.c"]}]},
        "main.c": "main %d" % ("main" in T), "more.c": "more", "mod.c": "mod %d" % ("mod" in T), "inner.c": "inner %d" % ("inner" in T),
        "s/s.c": "EXPORT s%d\nbody %d" % ("s-api" in T, "s-body" in T), "s/t.c": "EXPORT t\n", "s/deep.c": "deep %d" % ("deep" in T),
        "placed.c": "EXPORT p%d\nplaced" % ("placed-api" in T), "uses.c": "uses",
    }


S4.toggles = ["main", "mod", "inner", "s-api", "s-body", "deep", "placed-api", "sh-ldflag", "mod-ldflag", "link-order", "define-order", "sh+src", "dep-mod"]
S1.noback = {"make": ("lib+src",)}  # taking it back is the same finding
S3.alone = {"make": ("rule2-arg",)}
S4.loose = ("dep-mod",)


def S5(T):
    """A host tool used by a target-toolset action, a library built for both toolsets, per-configuration settings."""
    return {
        "a.gyp": {
            "target_defaults": {"default_configuration": "Debug", "configurations": {
                "Debug": {"defines": ["DBG=%d" % ("dbg" in T)]}, "Release": {"cflags": ["-O%d" % (2 + ("rel" in T))]}}},
            "targets": [
                {"target_name": "both", "type": "static_library", "toolsets": ["host", "target"], "sources": ["both.c"],
                 "target_conditions": [["_toolset=='host'", {"defines": ["HOST=%d" % ("host-define" in T)]}]]},
                {"target_name": "tool", "type": "executable", "toolsets": ["host"], "sources": ["tool.c"], "dependencies": ["both#host"]},
                {"target_name": "app", "type": "executable", "sources": ["app.c"], "dependencies": ["both", "tool#host"], "include_dirs": ["<(INTERMEDIATE_DIR)"],
                 "actions": [{"action_name": "run", "inputs": ["<(PRODUCT_DIR)/tool"], "outputs": ["<(INTERMEDIATE_DIR)/run.h"],
                              "action": [ACT, "--out", "<@(_outputs)", "--in", "<@(_inputs)", "--args", "r%d" % ("run-arg" in T)]}]}]},
        "both.c": "both %d" % ("both" in T), "tool.c": "tool %d" % ("tool" in T), "app.c": '#include "run.h"\napp %d' % ("app" in T),
    }


S5.toggles = ["both", "tool", "app", "dbg", "rel", "host-define", "run-arg"]
S5.configs = ("Debug", "Release")



def S6(T):
    """An action and a rule with several outputs, some compiled and some included."""
    return {
        "a.gyp": {"targets": [{"target_name": "app", "type": "executable", "sources": ["main.c"], "include_dirs": ["<(INTERMEDIATE_DIR)"], "actions": [
            {"action_name": "two", "inputs": ["two.txt"], "outputs": ["<(INTERMEDIATE_DIR)/two.c", "<(INTERMEDIATE_DIR)/two.h"],
             "process_outputs_as_sources": 1, "action": [ACT, "--out", "<@(_outputs)", "--in", "two.txt", "--args", "t%d" % ("two-arg" in T)]}]},
            {"target_name": "lib", "type": "static_library", "sources": ["p.y"], "rules": [
                {"rule_name": "many", "extension": "y", "process_outputs_as_sources": 1,
                 "outputs": ["<(INTERMEDIATE_DIR)/<(RULE_INPUT_ROOT).c", "<(INTERMEDIATE_DIR)/<(RULE_INPUT_ROOT).h", "<(INTERMEDIATE_DIR)/<(RULE_INPUT_ROOT)2.c"],
                 "action": [ACT, "--out", "<(INTERMEDIATE_DIR)/<(RULE_INPUT_ROOT).c", "<(INTERMEDIATE_DIR)/<(RULE_INPUT_ROOT).h",
                            "<(INTERMEDIATE_DIR)/<(RULE_INPUT_ROOT)2.c", "--in", "<(RULE_INPUT_PATH)"]}]}]},
        "two.txt": "two %d" % ("two" in T), "main.c": '#include "two.h"\nmain %d' % ("main" in T), "p.y": "p %d" % ("p" in T),
    }


S6.toggles = ["two", "main", "two-arg", "p"]
S6.reruns = ("make",)  # known finding: an action with several outputs runs in every build



def S7(T):
    """Several rules over many sources in a target whose dependency generates what the rules' commands read."""
    def rule(n, ext, **kw):
        return {"rule_name": n, "extension": ext, "outputs": ["<(INTERMEDIATE_DIR)/<(RULE_INPUT_ROOT)_%s.c" % ext],
                "action": [ACT, "--out", "<(INTERMEDIATE_DIR)/<(RULE_INPUT_ROOT)_%s.c" % ext, "--in", "<(RULE_INPUT_PATH)", "<(SHARED_INTERMEDIATE_DIR)/table"] + (["u1.cfg", "u2.cfg"] if ext == "u" else []) + ["--args",
                           "%s%d" % (n, (n + "-arg") in T)], "inputs": ["<(SHARED_INTERMEDIATE_DIR)/table"] + (["u1.cfg", "u2.cfg"] if ext == "u" else []), **kw}
    names = ["a", "b", "c", "d"]
    loose = rule("w", "w")  # reads what its target's dependency makes without naming it as an input
    loose["inputs"] = ["w.cfg"]
    loose["action"] = [ACT, "--out", loose["outputs"][0], "--in", "<(RULE_INPUT_PATH)", "<(SHARED_INTERMEDIATE_DIR)/fixed", "w.cfg"]
    full = rule("z", "z")  # the same, with more sources and more inputs
    full["inputs"] = ["z1.cfg", "z2.cfg", "z3.cfg"]
    full["action"] = [ACT, "--out", full["outputs"][0], "--in", "<(RULE_INPUT_PATH)", "<(SHARED_INTERMEDIATE_DIR)/fixed", *full["inputs"]]
    return {
        "a.gyp": {"targets": [
            {"target_name": "table", "type": "none", "hard_dependency": 1, "actions": [
                {"action_name": "t", "inputs": ["t.txt"], "outputs": ["<(SHARED_INTERMEDIATE_DIR)/table"],
                 "action": [ACT, "--out", "<@(_outputs)", "--in", "t.txt"]},
                {"action_name": "f", "inputs": ["plain.c"], "outputs": ["<(SHARED_INTERMEDIATE_DIR)/fixed"],
                 "action": [ACT, "--out", "<@(_outputs)", "--in", "plain.c"]}]},
            {"target_name": "lib", "type": "static_library", "dependencies": ["table"],
             "sources": ["%s.%s" % (n, e) for e in "uvwz" for n in names] + ["plain.c"],
             "rules": [rule("u", "u", process_outputs_as_sources=1), loose, full, rule("v", "v")]}]},
        **{"%s.%s" % (n, e): "%s.%s %d" % (n, e, (n + "." + e) in T) for e in "uvwz" for n in names},
        "plain.c": "plain", "t.txt": "t %d" % ("t" in T), "w.cfg": "w %d" % ("w.cfg" in T), "z1.cfg": "z", "z2.cfg": "z%d" % ("z2.cfg" in T), "z3.cfg": "", "u1.cfg": "u1", "u2.cfg": "u2 %d" % ("u2.cfg" in T),
    }


S7.toggles = ["t", "a.u", "d.v", "b.w", "u-arg", "v-arg", "w.cfg", "u2.cfg", "z2.cfg"]

SHAPES = {f.__name__: f for f in (S1, S2, S3, S4, S5, S6, S7)}
