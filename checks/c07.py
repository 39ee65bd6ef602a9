"""C07: dependent settings vs the reference closures, over all small graphs."""
import itertools
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import gypdrv  # noqa: E402
import graphs  # noqa: E402
import vf  # noqa: E402
from graphs import G  # noqa: E402

BATCH = 60


def body(g, i):
    n = g.names[i]
    return {
        "defines": ["OWN_" + n], "vals": [["own"]],
        "all_dependent_settings": {"defines": ["A_" + n], "vals": [["A" + n]], "last_all": n},
        "direct_dependent_settings": {"defines": ["D_" + n], "vals": [["D" + n]], "last_direct": n, "sources": ["d" + n + ".c"]},
        "link_settings": {"defines": ["L_" + n], "vals": [["L" + n]], "last_link": n, "libraries": ["-l" + n]},
    }


def want(g, i):
    nm = g.names
    a = [nm[j] for j in g.deep(i)]
    d = [nm[j] for j in g.imported(i)]
    shared = bool(g.ex(i, "allow_sharedlib_linksettings_propagation", 1))
    lk = [nm[j] for j in g.linked(i, shared)]
    own_link = [nm[i]] if g.types[i] in graphs.LINKABLE else []  # a linked target takes its own link settings
    lk = own_link + lk
    return {
        "defines": ["OWN_" + nm[i]] + ["A_" + x for x in a] + ["D_" + x for x in d] + ["L_" + x for x in lk],
        "vals": [["own"]] + [["A" + x] for x in a] + [["D" + x] for x in d] + [["L" + x] for x in lk],
        "sources": ["d" + x + ".c" for x in d],
        "libraries": ["-l" + x for x in lk],
        "last_all": a[-1] if a else None, "last_direct": d[-1] if d else None, "last_link": lk[-1] if lk else None,
    }


def judge(part, g, tds, prefix):
    for i, td in enumerate(tds):
        cfg = td["configurations"]["Default"]
        w = want(g, i)
        got = {k: td.get(k, []) if k in ("sources", "libraries") else cfg.get(k) for k in w}
        if got != w:
            diff = {k: (got[k], w[k]) for k in w if got[k] != w[k]}
            part.violation(f"{g!r}: target {g.names[i]} got/want {diff}", f"{g!r}", target=g.names[i], got=got, want=w)
            return
        for k in ("all_dependent_settings", "direct_dependent_settings", "link_settings"):
            if k in td or k in cfg:
                part.violation(f"{g!r}: {k} left in {g.names[i]}", f"left:{k}")
    part.count("propagations", sum(len(want(g, i)["defines"]) - 1 for i in range(len(tds))))


def job(part, gs):
    graphs.run_batch(gs, body, judge, part)
    part.sample(repr(gs[len(gs) // 2]), 1)


def universe():
    # n <= 3: everything, every naming order, both orders of dependency lists
    for n in (1, 2, 3):
        for deps, exps in graphs.dags(n, True):
            for types in itertools.product(graphs.TYPES, repeat=n):
                for names in itertools.permutations("abc"[:n]):
                    if names != tuple("abc"[:n]) and n == 3 and types[0] == "loadable_module" and not vf.THOROUGH:
                        continue
                    yield G(types, deps, exps, None, names)
                if any(len(d) > 1 for d in deps):
                    yield G(types, [d[::-1] for d in deps], [e[::-1] for e in exps])
    # flags
    for deps, exps in graphs.dags(3):
        for types in itertools.product(graphs.TYPES[:4], repeat=3):
            for fl in itertools.product((0, 1), repeat=3):
                extra = [{} if not f else ({"dependencies_traverse": 0} if t == "none" else {"allow_sharedlib_linksettings_propagation": 0})
                         for f, t in zip(fl, types)]
                if any(fl):
                    yield G(types, deps, None, extra)
    # n = 4
    types4 = graphs.TYPES if vf.THOROUGH else ("none", "static_library", "shared_library")
    for deps, exps in graphs.dags(4, True):
        if not vf.THOROUGH and sum(map(len, exps)) > 2:
            continue
        for types in itertools.product(types4, repeat=3):
            yield G(("executable",) + types, deps, exps)
            if vf.THOROUGH:
                yield G(("static_library",) + types, [d[::-1] for d in deps], [e[::-1] for e in exps], None, "dbca")


# Settings that merge with operators or live in another file arrive with the same reach.
def special(part, item):
    tag, files, checks = item
    part.add()
    part.seen(("special", tag))
    r = gypdrv.run(files)
    if not r.ok:
        raise vf.Bad(f"{tag}: gyp failed: {r.stderr[-300:]}", tag)
    for tgt, key, w in checks:
        td = r.targets[tgt]
        got = td.get(key, td["configurations"]["Default"].get(key))
        if got != w:
            raise vf.Bad(f"{tag}: {key} of {tgt} is {got}, want {w}", tag, files=files)


def specials():
    yield ("operators", {"a.gyp": {"targets": [
        {"target_name": "a", "type": "none", "dependencies": ["b"], "defines": ["x", "y"], "s": "mine", "q": "mine"},
        {"target_name": "b", "type": "none", "direct_dependent_settings": {"defines+": ["first"], "q": "yes", "l?": ["set"]}}]}},
        [("a.gyp:a#target", "defines", ["first", "x", "y"]), ("a.gyp:a#target", "s", "mine"), ("a.gyp:a#target", "q", "yes"), ("a.gyp:a#target", "l", ["set"])])
    yield ("late values", {"a.gyp": {"targets": [
        {"target_name": "a", "type": "none", "dependencies": ["b"], "variables": {"v": "av"}},
        {"target_name": "b", "type": "none", "variables": {"v": "bv"}, "direct_dependent_settings": {"defines": ["early=<(v)", "late=>(v)"],
         "target_conditions": [["_target_name=='a'", {"defines": ["is_a"]}]]}}]}},
        [("a.gyp:a#target", "defines", ["early=bv", "late=av", "is_a"])])
    yield ("other file", {"a.gyp": {"targets": [
        {"target_name": "a", "type": "none", "dependencies": ["s/b.gyp:b"]}, {"target_name": "z", "type": "none", "dependencies": ["a"]}]},
        "s/b.gyp": {"targets": [{"target_name": "b", "type": "none", "dependencies": ["../c.gyp:c"], "export_dependent_settings": ["../c.gyp:c"],
                                 "direct_dependent_settings": {"include_dirs": ["inc"]}, "all_dependent_settings": {"include_dirs": ["all"]}}]},
        "c.gyp": {"targets": [{"target_name": "c", "type": "none", "direct_dependent_settings": {"include_dirs": ["cinc"]}, "all_dependent_settings": {"include_dirs": ["call"]}}]}},
        [("a.gyp:a#target", "include_dirs", ["call", "s/all", "s/inc", "cinc"]), ("a.gyp:z#target", "include_dirs", ["call", "s/all"]),
         ("s/b.gyp:b#target", "include_dirs", ["../call", "../cinc"]), ("c.gyp:c#target", "include_dirs", None)])
    yield ("configurations", {"a.gyp": {"targets": [
        {"target_name": "a", "type": "none", "dependencies": ["b"], "configurations": {"X": {"defines": ["ax"]}, "Y": {}}},
        {"target_name": "b", "type": "none", "direct_dependent_settings": {"configurations": {"X": {"defines": ["bx"]}}}}]}},
        [])
    yield ("filters apply", {"a.gyp": {"targets": [
        {"target_name": "a", "type": "none", "dependencies": ["b"], "defines": ["x", "y"]},
        {"target_name": "b", "type": "none", "direct_dependent_settings": {"defines!": ["x"]}}]}},
        [("a.gyp:a#target", "defines", ["y"])])
    # toolsets: settings travel between same-toolset copies only
    yield ("toolsets", {"a.gyp": {"targets": [
        {"target_name": "a", "type": "none", "toolsets": ["host", "target"], "dependencies": ["b"]},
        {"target_name": "b", "type": "none", "toolsets": ["host", "target"], "target_conditions": [],
         "direct_dependent_settings": {"defines": ["from_<(_toolset)"]}}]}},
        [("a.gyp:a#target", "defines", ["from_target"]), ("a.gyp:a#host", "defines", ["from_host"])])
    yield ("dependency filtered out", {"a.gyp": {"targets": [
        {"target_name": "a", "type": "none", "dependencies": ["b", "c"], "dependencies!": ["b"]},
        {"target_name": "b", "type": "none", "direct_dependent_settings": {"defines": ["B"]}, "all_dependent_settings": {"defines": ["BA"]}},
        {"target_name": "c", "type": "none", "direct_dependent_settings": {"defines": ["C"]}}]}},
        [("a.gyp:a#target", "defines", ["C"])])


def run():
    ck = vf.Check("C07", "model_checking",
                  "every DAG of the universe (1-3 targets over five kinds with every export subset and naming order; 4 targets within the tier's kinds); "
                  "distinct graphs counted by their full description")
    seen = {}
    for g in universe():
        seen.setdefault(g.key(), g)
    gs = list(seen.values())
    ck.nontrivial_n = len(gs)
    vf.pmap(ck, job, [gs[i:i + BATCH] for i in range(0, len(gs), BATCH)], chunk=1)
    vf.pmap(ck, special, list(specials()))
    ck.extra["states"] = len(gs)
    ck.extra["transitions"] = ck.extra.get("propagations", 0)
    return ck.finish()


if __name__ == "__main__":
    vf.main(run)
