"""C05: list filters vs a direct reading of their documentation."""
import itertools
import os
import re
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import gypdrv  # noqa: E402
import vf  # noqa: E402

BATCH = 400


def model(items, excl, pats):
    """(kept, removed): the last action that matches an item decides; exclusions come first."""
    kept, gone = [], []
    for it in items:
        keep = it not in (excl or [])
        for action, pat in pats or []:
            if re.search(pat, it):
                keep = action == "include"
        (kept if keep else gone).append(it)
    return kept, gone


def prog(key, items, excl, pats):
    d = {key: list(items)}
    if excl is not None:
        d[key + "!"] = list(excl)
    if pats is not None:
        d[key + "/"] = [list(p) for p in pats]
    return d


def expect(key, items, excl, pats):
    k, g = model(items, excl, pats)
    d = {key: k}
    if g:
        d[key + "_excluded"] = g
    return d


# Where a filtered list can live: (wrap the filtered dict into a target, pick it out of the result)
PLACES = {
    "target": ("sources", lambda d: dict(d), lambda t: t),
    "config": ("defines", lambda d: dict(d), lambda t: t["configurations"]["Default"]),
    "own config": ("defines", lambda d: {"configurations": {"Default": d}}, lambda t: t["configurations"]["Default"]),
    "action": ("inputs", lambda d: {"actions": [dict(d, action_name="n", outputs=["o"], action=["x"])]}, lambda t: t["actions"][0]),
    "second copy": ("files", lambda d: {"copies": [{"destination": "q", "files": ["z"]}, dict(d, destination="p")]}, lambda t: t["copies"][1]),
    "nested dict": ("L", lambda d: {"xcode_settings": {"M": d}}, lambda t: t["configurations"]["Default"]["xcode_settings"]["M"]),
    "list in list": ("L", lambda d: {"mac_bundle_resources_x": [["y", [d]]]}, lambda t: t["configurations"]["Default"]["mac_bundle_resources_x"][0][1][0]),
}


def job(part, item):
    place, cases = item
    key, wrap, pick = PLACES[place]
    targets = [dict(wrap(prog(key, *c)), target_name=f"t{i}", type="none") for i, c in enumerate(cases)]
    r = gypdrv.run({"a.gyp": {"targets": targets}})
    if not r.ok:
        if len(cases) == 1:
            part.add()
            raise vf.Bad(f"{place}: gyp failed on {targets[0]}: {r.stderr[-300:]}", f"fail:{place}:{cases[0]!r}", target=targets[0])
        for h in (cases[:len(cases) // 2], cases[len(cases) // 2:]):
            job(part, (place, h))
        return
    for i, c in enumerate(cases):
        part.add()
        got = pick(r.targets[f"a.gyp:t{i}#target"])
        got = {k: v for k, v in got.items() if k.startswith(key)}
        want = expect(key, *c)
        if got != want:
            part.violation(f"{place}: {prog(key, *c)} gave {got}, want {want}", f"{place}:{c!r}", target=targets[i], got=got, want=want)
    part.count("with_removed", sum(1 for c in cases if model(*c)[1]))
    part.count("brought_back", sum(1 for c in cases if any(x in (c[1] or []) for x in model(*c)[0])))
    part.sample({"place": place, "filter": prog(key, *cases[len(cases) // 2]), "result": expect(key, *cases[len(cases) // 2])})


ITEMS = ["a.cc", "b.cc", "a.h"]
PATS = [("exclude", "a"), ("include", "a"), ("exclude", "^b"), ("include", r"\.cc$"), ("exclude", "."),
        ("include", ""), ("exclude", r"^.\.h$"), ("include", "b"), ("exclude", "z")]


def seqs(alpha, lo, hi):
    return [s for n in range(lo, hi + 1) for s in itertools.product(alpha, repeat=n)]


def cases():
    pats = PATS[:6] if not vf.THOROUGH else PATS
    lists = seqs(ITEMS, 0, 3) + ([] if not vf.THOROUGH else seqs(ITEMS, 4, 4))
    excls = [None] + seqs(ITEMS + ["no"], 0, 2 if vf.THOROUGH else 1) + ([] if vf.THOROUGH else [("a.cc", "b.cc"), ("b.cc", "a.cc"), ("a.cc", "a.cc")])
    plist = [None] + seqs(pats, 0, 2)
    plist3 = seqs(pats[:8], 3, 3)
    main = list(itertools.product(lists, excls, plist))
    deep = list(itertools.product([l for l in lists if l == tuple(ITEMS[:len(l)]) or len(l) == 4 and len(set(l)) == 3], [None, ("a.cc",), ("a.cc", "a.h")], plist3))
    out = [("target", c) for c in main + deep]
    # Integers (a list item that looks like one is one to the loader) and specials.
    odd = ["1", "11", "-1", "a b", "a\\b", "A.CC"]
    oddp = [("exclude", "1"), ("include", "^1$"), ("exclude", "-"), ("include", r"\\"), ("exclude", " "), ("exclude", "a"), ("include", "(?i)a")]
    oddl = seqs(odd, 1, 2)
    out += [("target", c) for c in itertools.product(oddl, [None] + seqs(odd, 1, 1), [None] + seqs(oddp, 1, 2))]
    uniq = [l for l in seqs(ITEMS, 0, 3) if len(set(l)) == len(l)]
    small = list(itertools.product(uniq, [None, (), ("a.cc",), ("b.cc", "a.h"), ("no",)], [None] + seqs(PATS[:6], 0, 2)))
    for place in PLACES:
        if place != "target":
            out += [(place, c) for c in small if place not in ("action", "list in list") or len(c[0])]
    return out


# --- filters that arrive by merging, and expansion inside filters -------------------------------
def channels():
    L = ["a.cc", "b.cc", "a.h"]
    yield ("defaults filter", {"a.gyp": {"target_defaults": {"sources/": [["exclude", "a"]], "sources!": ["b.cc"]}, "targets": [
        {"target_name": "t", "type": "none", "sources": L, "sources/": [["include", "h$"]], "sources!": ["a.h"]}]}},
        {"sources": ["a.h"], "sources_excluded": ["a.cc", "b.cc"]})
    yield ("prepended filter", {"a.gyp": {"targets": [
        {"target_name": "t", "type": "none", "sources": L, "sources/": [["include", "h$"]],
         "conditions": [["1==1", {"sources/+": [["exclude", "a"]]}]]}]}},
        {"sources": ["b.cc", "a.h"], "sources_excluded": ["a.cc"]})
    yield ("appended filter", {"a.gyp": {"targets": [
        {"target_name": "t", "type": "none", "sources": L, "sources/": [["include", "h$"]],
         "conditions": [["1==1", {"sources/": [["exclude", "a"]]}]]}]}},
        {"sources": ["b.cc"], "sources_excluded": ["a.cc", "a.h"]})
    yield ("replaced filter", {"a.gyp": {"targets": [
        {"target_name": "t", "type": "none", "sources": L, "sources!": ["a.h"], "sources/": [["exclude", "c"]],
         "conditions": [["1==1", {"sources/=": [["include", "h$"]], "sources!=": ["b.cc"]}]]}]}},
        {"sources": ["a.cc", "a.h"], "sources_excluded": ["b.cc"]})
    yield ("target_conditions filter", {"a.gyp": {"targets": [
        {"target_name": "t", "type": "none", "sources": L,
         "target_conditions": [["_type=='none'", {"sources/": [["exclude", "a"]], "sources": ["a.mm", "d.cc"]}]]}]}},
        {"sources": ["b.cc", "d.cc"], "sources_excluded": ["a.cc", "a.h", "a.mm"]})
    yield ("expansion in filters", {"a.gyp": {"variables": {"p": "^b", "x": ["a.h", "q"], "act": "exclude"}, "targets": [
        {"target_name": "t", "type": "none", "sources": L, "sources!": ["<@(x)"], "sources/": [["<(act)", "<(p)"]]}]}},
        {"sources": ["a.cc"], "sources_excluded": ["b.cc", "a.h"]})
    yield ("late expansion in filters", {"a.gyp": {"targets": [
        {"target_name": "t", "type": "none", "variables": {"p": "^b", "x": ["a.h"]}, "sources": L, "sources!": [">@(x)"], "sources/": [["exclude", ">(p)"]]}]}},
        {"sources": ["a.cc"], "sources_excluded": ["b.cc", "a.h"]})
    yield ("no base list", {"a.gyp": {"targets": [
        {"target_name": "t", "type": "none", "sources!": ["a"], "sources/": [["exclude", "b"]]}]}}, {})
    yield ("cascade is not applied", {"a.gyp": {"targets": [
        {"target_name": "t", "type": "none", "sources": ["x"], "sources!": ["x"], "sources!!": ["x"]}]}}, None)
    dep = {"target_name": "d", "type": "none"}
    dep2 = {"target_name": "e", "type": "none"}
    for ex, pats, kept, gone in [
        (["d"], None, ["e"], ["d"]), (None, [["exclude", "e"]], None, None), (["d", "e"], None, [], ["d", "e"]),
    ]:
        t = {"target_name": "t", "type": "none", "dependencies": ["d", "e"]}
        if ex is not None:
            t["dependencies!"] = ex
        if kept is None:
            continue
        want = {"dependencies": [f"a.gyp:{x}#target" for x in kept]}
        if gone:
            want["dependencies_excluded"] = [f"a.gyp:{x}#target" for x in gone]
        yield ("dependency filter", {"a.gyp": {"targets": [t, dep, dep2]}}, want)
    # a filter in direct-dependent settings acts on the receiver's list
    yield ("dependent settings filter", {"a.gyp": {"targets": [
        {"target_name": "t", "type": "none", "sources": L, "dependencies": ["d"]},
        {"target_name": "d", "type": "none", "direct_dependent_settings": {"sources!": ["b.cc"], "sources/": [["exclude", "h$"]]}}]}},
        {"sources": ["a.cc"], "sources_excluded": ["b.cc", "a.h"]})
    # configurations: target filter and configuration filter act on the merged list
    yield ("configuration filter", {"a.gyp": {"targets": [
        {"target_name": "t", "type": "none", "defines": L, "defines!": ["a.h"], "configurations": {
            "D": {"defines": ["n"], "defines/": [["exclude", "cc"]]}, "R": {"defines!": ["b.cc"], "defines/": [["include", "h"]]}}}]}},
        ("configs", {"D": {"defines": ["n"], "defines_excluded": ["a.cc", "b.cc", "a.h"]}, "R": {"defines": ["a.cc", "a.h"], "defines_excluded": ["b.cc"]}}))


BAD = [
    {"sources": ["a"], "sources!": "a"}, {"sources": ["a"], "sources/": "a"}, {"sources": ["a"], "sources/": [["drop", "a"]]},
    {"sources": ["a"], "sources/": [["exclude"]]}, {"sources": ["a"], "sources/": [["exclude", "a", "b"]]},
    {"sources": ["a"], "sources/": [["exclude", "("]]}, {"defines": ["a"], "defines!": ["a"], "defines_excluded": ["b"]},
    {"defines": ["a"], "defines/": [["exclude", "a"]], "defines_excluded": ["c"]}, {"sources": "a", "sources!": ["a"]},
    {"xcode_settings": {"S": "a", "S!": ["a"]}}, {"xcode_settings": {"S": {"a": 1}, "S/": [["exclude", "a"]]}},
]


def channel(part, item):
    tag, files, want = item
    part.add()
    r = gypdrv.run(files)
    part.seen(("channel", tag, repr(files)))
    if want is None:
        return
    if not r.ok:
        raise vf.Bad(f"{tag}: gyp failed on {files}: {r.stderr[-300:]}", "channel:" + tag)
    t = r.targets["a.gyp:t#target"]
    if isinstance(want, tuple):
        got = {c: {k: v for k, v in d.items() if k.startswith("defines")} for c, d in t["configurations"].items()}
        want = want[1]
    else:
        keys = set(want) | {k for k in t if k.startswith("sources")}
        both = dict(t["configurations"]["Default"], **t)
        got = {k: both[k] for k in keys if k in both}
    if got != want:
        raise vf.Bad(f"{tag}: {files} gave {got}, want {want}", "channel:" + tag, files=files, got=got, want=want)


def bad(part, d):
    part.add()
    part.seen(("bad", repr(d)))
    r = gypdrv.run({"a.gyp": {"targets": [dict(d, target_name="t", type="none")]}})
    if r.ok:
        raise vf.Bad(f"{d} was accepted", f"bad:{d!r}")


def run():
    ck = vf.Check("C05", "exploration",
                  "every (list, exclusion list, pattern list) triple within the bounds at target level, and smaller sets at every nesting place; "
                  "a triple counts as non-trivial by its distinct text")
    by = {}
    for place, c in cases():
        by.setdefault(place, []).append(c)
    jobs = []
    for place, cs in by.items():
        cs = list(dict.fromkeys(cs))
        ck.nontrivial_n += len(cs)
        ck.count("cases_" + place.replace(" ", "_"), len(cs))
        jobs += [(place, cs[i:i + BATCH]) for i in range(0, len(cs), BATCH)]
    vf.pmap(ck, job, jobs, chunk=1)
    vf.pmap(ck, channel, list(channels()))
    vf.pmap(ck, bad, BAD)
    return ck.finish()


if __name__ == "__main__":
    vf.main(run)
