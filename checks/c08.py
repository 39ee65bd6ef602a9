"""C08: link dependencies after static-library adjustment vs reference closures."""
import itertools
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import gypdrv  # noqa: E402,F401
import graphs  # noqa: E402
import vf  # noqa: E402
from graphs import G  # noqa: E402

BATCH = 60


def want(g, i):
    """The adjusted dependency list of target i (unsorted mode)."""
    t = g.types[i]
    if t == "static_library":
        return [j for j in g.imported(i)
                if (g.types[j] == "static_library" and g.ex(j, "hard_dependency", 0)) or (g.types[j] != "static_library" and j in g.deps[i])]
    deps = list(g.deps[i])
    if t in graphs.LINKABLE:
        deps += [j for j in g.linked(i) if j not in deps]
    return deps


def judge_mode(mode):
    def judge(part, g, tds, prefix):
        for i, td in enumerate(tds):
            got = td.get("dependencies", [])
            names = {f"{prefix}{g.names[j]}#target": j for j in range(len(tds))}
            try:
                got = [names[x] for x in got]
            except KeyError:
                part.violation(f"{g!r}: foreign dependency in {got}", f"foreign:{g!r}")
                return
            w = want(g, i) if mode != "raw" else list(g.deps[i])
            where = f"{g!r} ({mode}): target {g.names[i]} depends on {[g.names[j] for j in got]}, want {[g.names[j] for j in w]}"
            if sorted(got) != sorted(w):
                part.violation(where, f"{mode}:{g!r}", target=g.names[i])
                return
            if mode == "sorted" and g.types[i] in graphs.LINKABLE:
                for a in range(len(got)):
                    for b in range(a):
                        if got[b] in g.deep(got[a]):
                            part.violation(where + ": a dependency precedes its dependent", f"{mode}:{g!r}", target=g.names[i])
                            return
            elif got != w:
                part.violation(where + " (order)", f"{mode}:{g!r}", target=g.names[i])
                return
            if g.types[i] == "static_library" and mode != "raw" and g.deps[i]:
                orig = [names.get(x) for x in td.get("dependencies_original", [])]
                if orig != list(g.deps[i]):
                    part.violation(f"{g!r}: original dependencies of {g.names[i]} recorded as {orig}", f"orig:{g!r}")
                    return
            part.count("edges", len(got))
    return judge


FLAGS = {"unsorted": ("adjust=1", "sorted=0"), "sorted": ("adjust=1", "sorted=1"), "raw": ("adjust=",)}


def body(g, i):
    return {}


def job(part, item):
    mode, gs = item
    graphs.run_batch(gs, body, judge_mode(mode), part, flags=FLAGS[mode])
    part.sample({"mode": mode, "graph": repr(gs[len(gs) // 2])}, 1)


def universe():
    for n in (1, 2, 3):
        for deps, exps in graphs.dags(n, True):
            for types in itertools.product(graphs.TYPES, repeat=n):
                yield "unsorted", G(types, deps, exps)
                for hard in itertools.product((0, 1), repeat=n):
                    if any(hard) and all(t == "static_library" or not h for t, h in zip(types, hard)):
                        yield "unsorted", G(types, deps, exps, [{"hard_dependency": 1} if h else {} for h in hard])
                if n == 3 and not any(exps):
                    for names in itertools.permutations("abc"):
                        yield "sorted", G(types, deps, exps, None, names)
                        if any(len(d) > 1 for d in deps):
                            yield "sorted", G(types, [d[::-1] for d in deps], exps, None, names)
                    yield "raw", G(types, deps, exps)
                    if any(len(d) > 1 for d in deps):
                        yield "unsorted", G(types, [d[::-1] for d in deps], exps, None, "cab")
                    for fl in itertools.product((0, 1), repeat=3):
                        if any(fl) and all(t == "none" or not f for t, f in zip(types, fl)):
                            yield "unsorted", G(types, deps, None, [{"dependencies_traverse": 0} if f else {} for f in fl])
    t4 = graphs.TYPES if vf.THOROUGH else ("none", "static_library", "shared_library")
    for deps, exps in graphs.dags(4, True):
        ne = sum(map(len, exps))
        if ne and not vf.THOROUGH:
            continue
        for types in itertools.product(t4, repeat=3):
            for top in ("executable", "shared_library") if not ne else ("executable",):
                yield "unsorted", G((top,) + types, deps, exps)
            if not ne:
                yield "sorted", G(("executable",) + types, deps, None, None, "cadb")
                yield "sorted", G(("executable",) + types, [d[::-1] for d in deps], None, None, "bdac")
            if ne <= 2 and types.count("static_library") >= 2:
                for hard in itertools.product((0, 1), repeat=3):
                    if any(hard) and all(t == "static_library" or not h for t, h in zip(types, hard)):
                        yield "unsorted", G(("static_library",) + types, deps, exps, [{}] + [{"hard_dependency": 1} if h else {} for h in hard])
    # chains of five libraries below an executable, every intermediate kind
    for types in itertools.product(("none", "static_library", "shared_library"), repeat=4):
        deps = [[1], [2], [3], [4], []]
        yield "unsorted", G(("executable",) + types, deps)
        yield "sorted", G(("executable",) + types, deps, None, None, "ecadb")
        deps = [[1, 2], [3], [3, 4], [4], []]
        yield "unsorted", G(("loadable_module",) + types, deps)
        yield "sorted", G(("loadable_module",) + types, deps, None, None, "abcde")


def run():
    ck = vf.Check("C08", "model_checking",
                  "every DAG of the universe over five target kinds, with export and hard-dependency subsets, under unsorted, sorted and unadjusted "
                  "generators; distinct by graph and mode")
    by = {}
    for mode, g in universe():
        by.setdefault(mode, {})[g.key()] = g
    jobs = []
    for mode, d in by.items():
        gs = list(d.values())
        ck.nontrivial_n += len(gs)
        ck.count("graphs_" + mode, len(gs))
        jobs += [(mode, gs[i:i + BATCH]) for i in range(0, len(gs), BATCH)]
    vf.pmap(ck, job, jobs, chunk=1)
    ck.extra["states"] = ck.nontrivial_n
    ck.extra["transitions"] = ck.extra.get("edges", 0)
    return ck.finish()


if __name__ == "__main__":
    vf.main(run)
