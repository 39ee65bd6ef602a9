"""C06: flattening order and cycle detection on every small dependency graph."""
import itertools
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import gypdrv  # noqa: E402
import graphs  # noqa: E402
import vf  # noqa: E402

FILES = ["a.gyp", "b.gyp", "s/c.gyp"]


def rel(fro, to):
    return os.path.relpath(to, os.path.dirname(fro) or ".")


def project(deps, place, names, order, key="dependencies"):
    """place[i] = file index of target i; order = declaration order."""
    files = {}
    for i in order:
        f = FILES[place[i]]
        d = {"target_name": names[i], "type": "none"}
        dl = [(names[j] if place[j] == place[i] else rel(f, FILES[place[j]]) + ":" + names[j]) for j in deps[i]]
        if dl:
            d["dependencies"] = dl
        files.setdefault(f, {"targets": []})["targets"].append(d)
    return files


def cyclic(deps, n):
    """A cycle exists iff repeatedly removing sinks leaves something."""
    left = set(range(n))
    while True:
        gone = {i for i in left if not any(j in left for j in deps[i])}
        if not gone:
            return bool(left)
        left -= gone


def file_cyclic(deps, place):
    fs = sorted(set(place))
    fd = {f: {place[j] for i in range(len(deps)) if place[i] == f for j in deps[i]} - {f} for f in fs}
    ix = {f: k for k, f in enumerate(fs)}
    return cyclic([[ix[x] for x in fd[f]] for f in fs], len(fs))


def loaded(deps, place, roots):
    """Files read: the ones named on the command line and, transitively, those their targets refer to."""
    got, todo = set(), list(roots)
    while todo:
        f = todo.pop()
        if f in got:
            continue
        got.add(f)
        for i in range(len(deps)):
            if place[i] == f:
                todo += [place[j] for j in deps[i] if place[j] not in got]
    return got


def job(part, item):
    deps, place, names, order, check, roots = item
    n = len(deps)
    part.add()
    files = project(deps, place, names, order)
    args = [FILES[r] for r in roots] + ([] if check else ["--no-circular-check"])
    r = gypdrv.run(files, args=args)
    where = f"deps={deps} files={place} names={names} order={order} file-check={check} roots={roots}"
    key = f"{deps}{place}{names}{order}{check}{roots}"
    part.seen(key)
    lf = loaded(deps, place, roots)
    live = [i for i in range(n) if place[i] in lf]
    ix = {i: k for k, i in enumerate(live)}
    ldeps = [[ix[j] for j in deps[i]] for i in live]
    tc = cyclic(ldeps, len(live))
    fc = check and file_cyclic(ldeps, [place[i] for i in live])
    if tc or fc:
        part.count("cyclic")
        if r.ok:
            raise vf.Bad(f"a {'target' if tc else 'file'} cycle was accepted: {where}", "accepted:" + key, files=files, args=args)
        if r.status in ("hang", "died", "exc"):
            raise vf.Bad(f"a cycle was not reported as an error ({r.status}): {where}: {r.stderr[-300:]}", "crash:" + key, files=files, args=args)
        if "ycle" not in r.stderr and "ircular" not in r.stderr:
            raise vf.Bad(f"the error for a cycle does not say so: {where}: {r.stderr[-300:]}", "message:" + key, files=files, args=args)
        return
    if not r.ok:
        raise vf.Bad(f"an acyclic graph was rejected: {where}: {r.stderr[-400:]}", "rejected:" + key, files=files, args=args)
    part.count("acyclic")
    q = [f"{FILES[place[i]]}:{names[i]}#target" for i in range(n)]
    if sorted(r.flat) != sorted(q[i] for i in live):
        raise vf.Bad(f"flat list {r.flat} is not each target once: {where}", "set:" + key, files=files, args=args)
    pos = {t: k for k, t in enumerate(r.flat)}
    for i in live:
        for j in deps[i]:
            if pos[q[j]] >= pos[q[i]]:
                raise vf.Bad(f"{q[j]} comes after its dependent {q[i]} in {r.flat}: {where}", "order:" + key, files=files, args=args)
    part.sample({"deps": deps, "files": place, "flat": r.flat}, 1)


def universe():
    N = "abcd"
    for n in (1, 2, 3):
        for deps in graphs.digraphs(n, loops=True):
            orders = list(itertools.permutations(range(n)))
            for order in orders if not cyclic(deps, n) else orders[:1]:
                yield deps, (0,) * n, N[:n], order, True, (0,)
    for deps in graphs.digraphs(4):
        if not cyclic(deps, 4):
            yield deps, (0,) * 4, N, (0, 1, 2, 3), True, (0,)
            yield [d[::-1] for d in deps], (0,) * 4, N, (3, 1, 0, 2), True, (0,)
        elif vf.THOROUGH or sum(map(len, deps)) <= 5:
            yield deps, (0,) * 4, N, (0, 1, 2, 3), True, (0,)
    # several files: every placement, with and without the file-level check, from one or all roots
    for n in (2, 3):
        for deps in graphs.digraphs(n):
            for place in itertools.product(range(3 if n == 3 else 2), repeat=n):
                if place[0] != 0 or len(set(place)) == 1:
                    continue
                for check in (True, False):
                    yield deps, place, N[:n], tuple(range(n)), check, (0,)
                yield deps, place, N[:n][::-1], tuple(range(n))[::-1], True, tuple(sorted(set(place)))
    for deps, _ in graphs.dags(4):
        for place in itertools.product(range(3), repeat=4):
            if len(set(place)) == 1 or (not vf.THOROUGH and place[0] != 0):
                continue
            for check in (True, False) if vf.THOROUGH else (True,):
                yield deps, place, N, (0, 1, 2, 3), check, tuple(sorted(set(place)))
    # long chains and cycles far from any sink
    for n in (6, 12):
        names = [f"t{i:02d}" for i in range(n)]
        chain = [[i + 1] if i + 1 < n else [] for i in range(n)]
        for back in range(n):
            c = [list(d) for d in chain]
            c[n - 1] = [back]
            yield c, (0,) * n, names, tuple(range(n)), True, (0,)
        yield chain, (0,) * n, names, tuple(range(n)), True, (0,)
        yield [[j for j in range(i + 1, n)] for i in range(n)], (0,) * n, names, tuple(range(n)), True, (0,)
    if vf.THOROUGH:
        for deps, _ in graphs.dags(5):
            for perm in ((0, 1, 2, 3, 4), (4, 2, 0, 3, 1), (1, 4, 3, 0, 2)):
                names = ["abcde"[p] for p in perm]
                yield deps, (0,) * 5, names, (0, 1, 2, 3, 4), True, (0,)
                for k in range(1, 5):
                    place = tuple(0 if i < k else 1 for i in range(5))
                    yield deps, place, names, (4, 3, 2, 1, 0), True, (0, 1)


def extras(part, item):
    tag, files, ok = item
    part.add()
    part.seen(("extra", tag))
    r = gypdrv.run(files)
    if r.ok != ok or (not ok and r.status in ("exc", "hang", "died")):
        raise vf.Bad(f"{tag}: gyp {'rejected' if ok else 'accepted'} {files}: {r.status} {r.stderr[-300:]}", tag, files=files)


def t(name, *deps, **kw):
    return dict({"target_name": name, "type": "none", "dependencies": list(deps)}, **kw)


EXTRA = [
    ("self dependency", {"a.gyp": {"targets": [t("a", "a")]}}, False),
    ("pruned self dependency", {"a.gyp": {"targets": [t("a", "a", variables={"prune_self_dependency": 1})]}}, True),
    ("pruned self but cycle", {"a.gyp": {"targets": [t("a", "a", "b", variables={"prune_self_dependency": 1}), t("b", "a")]}}, False),
    ("cycle by condition", {"a.gyp": {"targets": [t("a", "b"), dict(t("b"), conditions=[["1==1", {"dependencies": ["a"]}]])]}}, False),
    ("cycle excluded by filter", {"a.gyp": {"targets": [t("a", "b"), t("b", "a", **{"dependencies!": ["a"]})]}}, True),
    ("cycle across toolsets", {"a.gyp": {"targets": [t("a", "b#host", toolsets=["target"]), t("b", "a#target", toolsets=["host"])]}}, False),
    ("no cycle across toolsets", {"a.gyp": {"targets": [t("a", "b", toolsets=["target", "host"]), t("b", toolsets=["target", "host"])]}}, True),
    ("same name different toolset", {"a.gyp": {"targets": [t("a", "a#host"), t("a", toolsets=["host"])]}}, True),
    ("wildcard cycle", {"a.gyp": {"targets": [t("a", "b.gyp:*")]}, "b.gyp": {"targets": [t("b"), t("c", "a.gyp:a")]}}, False),
    ("static cycle", {"a.gyp": {"targets": [t("a", "b", type="static_library"), t("b", "c", type="static_library"), t("c", "a", type="static_library")]}}, False),
    ("file cycle without target cycle", {"a.gyp": {"targets": [t("a", "b.gyp:b"), t("c")]}, "b.gyp": {"targets": [t("b", "a.gyp:c")]}}, False),
]


def run():
    ck = vf.Check("C06", "model_checking",
                  "every digraph (with self loops) on up to 3 targets in every declaration order, digraphs on 4 targets, every placement in up to 3 files with the "
                  "file-level check on and off; non-trivial = distinct (graph, placement, names, order, option)")
    items = list(universe())
    vf.pmap(ck, job, items)
    vf.pmap(ck, extras, EXTRA)
    ck.extra["states"] = len(ck.nontrivial)
    ck.extra["transitions"] = sum(sum(map(len, it[0])) for it in items)
    return ck.finish()


if __name__ == "__main__":
    vf.main(run)
