"""Small dependency graphs of gyp targets: enumeration, rendering and the reference closures."""
import itertools

import gypdrv

LINKABLE = ("executable", "shared_library", "loadable_module")
TYPES = ("none", "static_library", "executable", "shared_library", "loadable_module")


class G:
    """types[i], deps[i] (ordered indices), exports[i] (ordered subset of deps[i]), extra[i] (more target keys),
    names[i] (order of names is independent of order of declaration)."""
    __slots__ = ("types", "deps", "exports", "extra", "names")

    def __init__(self, types, deps, exports=None, extra=None, names=None):
        n = len(types)
        self.types, self.deps = tuple(types), tuple(tuple(d) for d in deps)
        self.exports = tuple(tuple(e) for e in exports) if exports else ((),) * n
        self.extra = tuple(tuple(sorted(e.items())) if isinstance(e, dict) else tuple(e) for e in extra) if extra else ((),) * n
        self.names = tuple(names) if names else tuple("abcdefgh"[:n])

    def key(self):
        return (self.types, self.deps, self.exports, self.extra, self.names)

    def __repr__(self):
        return "G" + "; ".join(
            f"{self.names[i]}:{self.types[i]}->{[self.names[j] for j in self.deps[i]]}"
            + (f" exports {[self.names[j] for j in self.exports[i]]}" if self.exports[i] else "")
            + (f" {dict(self.extra[i])}" if self.extra[i] else "")
            for i in range(len(self.types)))

    def targets(self, prefix="", body=None):
        out = []
        for i, t in enumerate(self.types):
            d = {"target_name": prefix + self.names[i], "type": t}
            if self.deps[i]:
                d["dependencies"] = [prefix + self.names[j] for j in self.deps[i]]
            if self.exports[i]:
                d["export_dependent_settings"] = [prefix + self.names[j] for j in self.exports[i]]
            d.update(self.extra[i])
            if body:
                d.update(body(self, i))
            out.append(d)
        return out

    # --- reference closures -------------------------------------------------
    def ex(self, i, k, default=None):
        return dict(self.extra[i]).get(k, default)

    def deep(self, i):
        """Every transitive dependency, dependencies before dependents, depth first."""
        out = []

        def go(k):
            for j in self.deps[k]:
                if j not in out:
                    go(j)
                    out.append(j)
        go(i)
        return out

    def imported(self, i):
        """Direct dependencies, each followed by what it re-exports."""
        out = list(dict.fromkeys(self.deps[i]))
        k = 0
        while k < len(out):
            at = k + 1
            for j in self.exports[out[k]]:
                if j not in out:
                    out.insert(at, j)
                    at += 1
            k += 1
        return out

    def linked(self, i, shared=True):
        """What i's link step draws on (itself excluded), nearest first."""
        if self.types[i] not in LINKABLE:
            return []
        out = []

        def go(k):
            t = self.types[k]
            if t == "none" and not self.ex(k, "dependencies_traverse", 1):
                out.append(k) if k not in out else None
                return
            if t in ("executable", "loadable_module") or (t == "shared_library" and not shared):
                return
            if k in out:
                return
            out.append(k)
            if t not in LINKABLE:
                for j in self.deps[k]:
                    go(j)
        seen_self = [i]
        out.append(i)
        for j in self.deps[i]:
            go(j)
        return [k for k in out if k not in seen_self]

    def acyclic(self):
        n = len(self.types)
        reach = [set(self.deps[i]) for i in range(n)]
        for _ in range(n):
            for i in range(n):
                for j in list(reach[i]):
                    reach[i] |= reach[j]
        return all(i not in reach[i] for i in range(n))


def upper_edges(n):
    return [(i, j) for i in range(n) for j in range(i + 1, n)]


def dags(n, exports=False):
    """Every DAG on n nodes up to relabelling (edges go from lower to higher index); with exports, every
    choice of re-exported edges as well."""
    es = upper_edges(n)
    for states in itertools.product(range(3 if exports else 2), repeat=len(es)):
        deps = [[] for _ in range(n)]
        exps = [[] for _ in range(n)]
        for (i, j), s in zip(es, states):
            if s:
                deps[i].append(j)
            if s == 2:
                exps[i].append(j)
        yield deps, exps


def digraphs(n, loops=False):
    es = [(i, j) for i in range(n) for j in range(n) if loops or i != j]
    for states in itertools.product((0, 1), repeat=len(es)):
        deps = [[] for _ in range(n)]
        for (i, j), s in zip(es, states):
            if s:
                deps[i].append(j)
        yield deps


def run_batch(graphs, body, judge, part, flags=(), fail=None):
    """Loads many independent graphs as one project; judge(part, g, result-of) per graph. Bisects on failure."""
    targets = []
    for k, g in enumerate(graphs):
        targets += g.targets(f"x{k}_", body)
    r = gypdrv.run({"a.gyp": {"targets": targets}}, flags=flags)
    if not r.ok:
        if len(graphs) == 1:
            part.add()
            part.violation(f"gyp failed on {graphs[0]!r}: {r.stderr[-400:]}", f"fail:{graphs[0]!r}", targets=targets)
            return
        h = len(graphs) // 2
        run_batch(graphs[:h], body, judge, part, flags)
        run_batch(graphs[h:], body, judge, part, flags)
        return
    for k, g in enumerate(graphs):
        part.add()
        tds = [r.targets[f"a.gyp:x{k}_{nm}#target"] for nm in g.names]
        judge(part, g, tds, f"a.gyp:x{k}_")
