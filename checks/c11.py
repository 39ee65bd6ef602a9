"""C11: resolution of dependency references, toolset copies and wildcards vs a reference resolver."""
import itertools
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import c01  # noqa: E402
import gypdrv  # noqa: E402
import vf  # noqa: E402


class Err(Exception):
    pass


class Model:
    """files: {path: [(name, toolsets or None, suppress)]}."""

    def __init__(self, files, multi=True):
        self.files, self.multi = files, multi

    def copies(self, f):
        return [(n, t, s) for n, ts, s in self.files[f] for t in ((ts if ts is not None else ["target"]) if self.multi else ["target"])]

    def resolve(self, fro, me, toolset, ref):
        """The (file, name, toolset) a reference written in file fro by target me denotes."""
        f, _, rest = ref.rpartition(":")
        f = os.path.normpath(os.path.join(os.path.dirname(fro), f)) if f else fro
        name, _, ts = rest.partition("#")
        if not self.multi:
            ts = toolset
        ts = ts or toolset
        if f not in self.files:
            raise Err("file")
        if name == "*" or ts == "*":
            if f == fro:
                raise Err("own file")
            if name != "*" and not any(n == name for n, _, _ in self.files[f]):
                return None  # an unknown name under a toolset wildcard: not judged
            return [(f, n, t) for n, t, s in self.copies(f) if not s and name in ("*", n) and ts in ("*", t)]
        if not any((n, t) == (name, ts) for n, t, s in self.copies(f)):
            raise Err("unknown")
        return [(f, name, ts)]


def project(files, root_file, deps, export=False, cond=False):
    out = {}
    for f, ts in files.items():
        tl = []
        for name, toolsets, suppress in ts:
            d = {"target_name": name, "type": "none", "list": ["l"], "defines": ["in_<(_toolset)"]}
            if toolsets is not None:
                if cond:
                    d["conditions"] = [["1==1", {"toolsets": toolsets}]]
                else:
                    d["toolsets"] = toolsets
            if suppress is not None:
                d["suppress_wildcard"] = suppress
            if (f, name) == (root_file, "A") and deps:
                d["dependencies"] = list(deps)
                if export:
                    d["export_dependent_settings"] = list(deps)
            tl.append(d)
        out[f] = {"targets": tl}
    return out


def runs(deps):
    """The order, but for that of a target's own toolset copies next to one another."""
    return [sorted(g) for _, g in itertools.groupby(deps, lambda d: d.rsplit("#", 1)[0])]


def job(part, item):
    layout, root_file, refs, multi, export = item
    part.add()
    files = {f: [tuple(x) for x in ts] for f, ts in layout}
    m = Model(files, multi)
    key = repr(item)
    part.seen(key)
    doc = project(files, root_file, refs, export)
    r = gypdrv.run(doc, args=[root_file], flags=("toolsets=1",) if multi else ("toolsets=",))
    want, err = {}, None
    loaded = {root_file}
    for n, t, s in m.copies(root_file):
        want[(root_file, n, t)] = []
    try:
        for t in [t for n, t, s in m.copies(root_file) if n == "A"]:
            for ref in refs:
                got = m.resolve(root_file, "A", t, ref)
                if got is None:
                    return
                if (root_file, "A", t) in got:
                    raise Err("self")
                mine = want[(root_file, "A", t)]
                mine.extend(x for x in got if x not in mine)
                part.count("resolved", len(got))
        for ref in refs if any(n == "A" for n, ts, s in files[root_file]) and m.copies(root_file) and want else []:
            f = ref.rpartition(":")[0]
            if f and any(k[1] == "A" for k in want):
                f = os.path.normpath(os.path.join(os.path.dirname(root_file), f))
                loaded.add(f)
        for f in loaded:
            for n, t, s in m.copies(f):
                want.setdefault((f, n, t), [])
    except Err as e:
        err = str(e)
    # a cycle through A's other copy
    if err is None and any((root_file, "A", t) in d for d in want.values() for t in ("target", "host")):
        ts = [t for n, t, s in m.copies(root_file) if n == "A"]
        edges = {t: {x[2] for x in want.get((root_file, "A", t), ()) if x[:2] == (root_file, "A")} for t in ts}
        if all(edges[t] for t in ts):
            err = "cycle"
    where = f"{refs} from {root_file}, layout {layout}, toolsets {'on' if multi else 'off'}"
    if err:
        part.count("errors")
        if r.ok:
            raise vf.Bad(f"{where}: accepted, want an error ({err})", "accepted:" + key, files=doc)
        return
    if not r.ok:
        raise vf.Bad(f"{where}: rejected: {r.stderr[-300:]}", "rejected:" + key, files=doc)
    q = {f"{f}:{n}#{t}": [f"{a}:{b}#{c}" for a, b, c in d] for (f, n, t), d in want.items()}
    if sorted(r.flat) != sorted(q):
        raise vf.Bad(f"{where}: targets {sorted(r.flat)}, want {sorted(q)}", "targets:" + key, files=doc)
    ids = {}
    for t, d in q.items():
        td = r.targets[t]
        got = td.get("dependencies", [])
        if runs(got) != runs(d):
            raise vf.Bad(f"{where}: {t} depends on {got}, want {d}", "deps:" + key, files=doc)
        if export and d and runs(td.get("export_dependent_settings", td["configurations"]["Default"].get("export_dependent_settings", []))) != runs(d):
            raise vf.Bad(f"{where}: {t} exports {td.get('export_dependent_settings')}, want {d}", "exports:" + key, files=doc)
        if td["toolset"] != t.rsplit("#", 1)[1] or td["configurations"]["Default"]["defines"] != ["in_" + td["toolset"]]:
            raise vf.Bad(f"{where}: the copy {t} has toolset {td['toolset']}, defines {td['configurations']['Default']['defines']}", "copy:" + key, files=doc)
        c01.shared(part, ids, t, td, "toolset copies")
    part.sample({"refs": refs, "from": root_file, "deps": {k: sorted(v) for k, v in q.items()}}, 1)


TS = [None, ["host"], ["target", "host"], ["host", "target"]]


def universe():
    for root_file, other in (("a.gyp", "s/b.gyp"), ("s/b.gyp", "a.gyp"), ("s/a.gyp", "u/b.gyp")):
        rel = os.path.relpath(other, os.path.dirname(root_file) or ".")
        me = os.path.basename(root_file)
        fforms = ["", me + ":", "./" + me + ":", rel + ":", (os.path.dirname(rel) + "/./" if os.path.dirname(rel) else "./") + os.path.basename(rel) + ":", "none.gyp:"]
        for ff in fforms:
            for name in ("x", "y", "m", "A", "*", "nosuch"):
                for tt in ("", "#target", "#host", "#*", "#zz"):
                    star = name == "*" or tt == "#*"
                    for ta, tb in itertools.product(TS, TS):
                        if root_file == "s/a.gyp" and not vf.THOROUGH and (ta, tb) not in ((None, TS[2]), (TS[2], TS[2]), (TS[1], None)):
                            continue
                        for ty, sup in itertools.product(TS[:3], (None, 1, 0)) if star and ff.startswith(rel[:2]) else [(None, None)]:
                            if not vf.THOROUGH and star and (ty == TS[1] or sup == 0) and ta != TS[2]:
                                continue
                            layout = ((root_file, (("A", ta, None), ("m", ta, None))), (other, (("x", tb, None), ("y", ty, sup))))
                            yield layout, root_file, (ff + name + tt,), True, False
                            if star and ta == TS[2]:
                                yield layout, root_file, (ff + name + tt,), False, False
                                yield layout, root_file, (ff + name + tt,), True, True
    # two references together: duplicates collapse
    layout = (("a.gyp", (("A", ["target", "host"], None), ("m", ["target", "host"], None))), ("s/b.gyp", (("x", ["target", "host"], None), ("y", None, None))))
    refs = ["m", "a.gyp:m", "m#target", "m#host", "s/b.gyp:x", "s/b.gyp:*", "s/b.gyp:x#*", "s/b.gyp:*#*", "s/b.gyp:y#target", "s/./b.gyp:x#target"]
    for pair in itertools.product(refs, repeat=2):
        for multi in (True, False):
            yield layout, "a.gyp", pair, multi, False
            yield layout, "a.gyp", pair, multi, True
    # several wildcards in one list, some of which stand for nothing
    refs = ["s/b.gyp:*", "u/c.gyp:*", "u/c.gyp:*#host", "s/b.gyp:*#*", "m", "s/b.gyp:x", "u/c.gyp:y"]
    for sup, ty in itertools.product((None, 1), TS[:3]):
        layout = (("a.gyp", (("A", None, None), ("m", None, None))), ("s/b.gyp", (("x", None, 1),)), ("u/c.gyp", (("y", ["target", "host"], sup), ("z", ty, None))))
        for n in (2, 3) if vf.THOROUGH or (sup, ty) == (None, None) else (2,):
            for tup in itertools.product(refs, repeat=n):
                yield layout, "a.gyp", tup, True, False
    for ta, tb in itertools.product(TS + [[]], repeat=2):
        yield (("a.gyp", (("A", ta, None),)), ("s/b.gyp", (("x", tb, None),))), "a.gyp", (), True, False
        yield (("a.gyp", (("A", ta, None),)), ("s/b.gyp", (("x", tb, None),))), "a.gyp", ("s/b.gyp:x",), True, False


def t(name, **kw):
    return dict({"target_name": name, "type": "none"}, **kw)


NAMES = [
    # (tag, files, roots, accepted, expected flat set or None)
    ("duplicate in one file", {"a.gyp": {"targets": [t("x"), t("x")]}}, ["a.gyp"], False, None),
    ("duplicate far apart", {"a.gyp": {"targets": [t("x"), t("y"), t("z"), t("x")]}}, ["a.gyp"], False, None),
    ("duplicate by condition", {"a.gyp": {"targets": [t("x")], "conditions": [["1==1", {"targets": [t("x")]}]]}}, ["a.gyp"], False, None),
    ("same name, toolsets apart", {"a.gyp": {"targets": [t("x", toolsets=["host"]), t("x")]}}, ["a.gyp"], True, {"a.gyp:x#host", "a.gyp:x#target"}),
    ("same name, toolsets overlap", {"a.gyp": {"targets": [t("x", toolsets=["host", "target"]), t("x")]}}, ["a.gyp"], False, None),
    ("same name in one directory", {"a.gyp": {"targets": [t("x", dependencies=["b.gyp:y"])]}, "b.gyp": {"targets": [t("y"), t("x")]}}, ["a.gyp"], False, None),
    ("same name in one subdirectory", {"s/a.gyp": {"targets": [t("x", dependencies=["b.gyp:y"])]}, "s/b.gyp": {"targets": [t("y"), t("x")]}}, ["s/a.gyp"], False, None),
    ("same name in one directory, two roots", {"a.gyp": {"targets": [t("x")]}, "b.gyp": {"targets": [t("x")]}}, ["a.gyp", "b.gyp"], False, None),
    ("same name in two directories", {"a.gyp": {"targets": [t("x", dependencies=["s/b.gyp:x"])]}, "s/b.gyp": {"targets": [t("x")]}}, ["a.gyp"], True, {"a.gyp:x#target", "s/b.gyp:x#target"}),
    ("toolsets repeated", {"a.gyp": {"targets": [t("x", toolsets=["target", "target"])]}}, ["a.gyp"], False, None),
    ("toolsets by condition", {"a.gyp": {"targets": [t("x", conditions=[["1==1", {"toolsets": ["host", "target"]}]])]}}, ["a.gyp"], True, {"a.gyp:x#host", "a.gyp:x#target"}),
    ("whole target by condition with toolsets", {"a.gyp": {"conditions": [["1==1", {"targets": [t("x", toolsets=["host", "target"])]}]], "targets": []}}, ["a.gyp"], True, {"a.gyp:x#host", "a.gyp:x#target"}),
    ("file named twice", {"a.gyp": {"targets": [t("x")]}}, ["a.gyp", "./a.gyp"], True, {"a.gyp:x#target"}),
    ("export not in dependencies", {"a.gyp": {"targets": [t("x", export_dependent_settings=["y"], dependencies=[]), t("y")]}}, ["a.gyp"], False, None),
    ("exclusion not in dependencies", {"a.gyp": {"targets": [t("x", dependencies=["z"], **{"dependencies!": ["y"]}), t("y"), t("z")]}}, ["a.gyp"], False, None),
    ("qualified forms of one target", {"a.gyp": {"targets": [t("x", dependencies=["y", "a.gyp:y", "y#target", "./a.gyp:y#target"]), t("y")]}}, ["a.gyp"], True, {"a.gyp:x#target", "a.gyp:y#target"}),
]


def names(part, item):
    tag, files, roots, ok, flat = item
    part.add()
    part.seen(("names", tag))
    r = gypdrv.run(files, args=roots)
    if r.ok != ok:
        raise vf.Bad(f"{tag}: gyp {'rejected' if ok else 'accepted'} it: {r.stderr[-300:]}", tag, files=files)
    if ok and (set(r.flat) != flat or len(r.flat) != len(flat)):
        raise vf.Bad(f"{tag}: targets {r.flat}, want {sorted(flat)}", tag, files=files)


def run():
    ck = vf.Check("C11", "exploration",
                  "every reference form (file spelling x name x toolset) x toolset lists x suppression x file layout of the bounded universe; distinct by text")
    items = list({repr(i): i for i in universe()}.values())
    vf.pmap(ck, job, items)
    vf.pmap(ck, names, NAMES)
    return ck.finish()


if __name__ == "__main__":
    vf.main(run)
