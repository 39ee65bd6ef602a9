"""C12: root-target selection vs graph closure and vs the unpruned load."""
import itertools
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import gypdrv  # noqa: E402
import graphs  # noqa: E402
import vf  # noqa: E402

FILES = ["a.gyp", "s/b.gyp"]
KINDS = [("executable", "static_library", "none", "static_library"), ("none",) * 4, ("shared_library", "static_library", "static_library", "none"),
         ("static_library", "executable", "static_library", "shared_library")]


def project(deps, place, kinds, names, exports):
    files = {}
    for i, ds in enumerate(deps):
        f = FILES[place[i]]
        base = os.path.dirname(f) or "."
        q = [(names[j] if place[j] == place[i] else os.path.relpath(FILES[place[j]], base) + ":" + names[j]) for j in ds]
        d = {"target_name": names[i], "type": kinds[i], "dependencies": q, "defines": [f"own{i}"],
             "all_dependent_settings": {"defines": [f"A{i}"]}, "direct_dependent_settings": {"defines": [f"D{i}"], "include_dirs": [f"i{i}"]},
             "link_settings": {"libraries": [f"-l{i}"]}, "hard_dependency": i % 2}
        if exports:
            d["export_dependent_settings"] = q
        files.setdefault(f, {"targets": []})["targets"].append(d)
    return files


def closure(deps, roots):
    out, todo = set(), list(roots)
    while todo:
        i = todo.pop()
        if i not in out:
            out.add(i)
            todo += deps[i]
    return out


def job(part, item):
    deps, place, kinds, names, exports = item
    files = project(deps, place, kinds, names, exports)
    args = [FILES[p] for p in sorted(set(place))]
    root = vf.scratch("c12")
    try:
        n = len(deps)
        qual = [f"{FILES[place[i]]}:{names[i]}#target" for i in range(n)]
        full = gypdrv.run(files, args=args, root=root)
        if not full.ok or sorted(full.flat) != sorted(qual):
            raise vf.Bad(f"without a selection: {full.status} {full.flat} for {item}: {full.stderr[-300:]}", f"full:{item}", files=files)
        part.add()
        choices = sorted(set(names)) + ["nosuch", qual[0].split("#")[0], " " + names[0] + " "]
        sels = [c for k in range(1, n + 1) for c in itertools.combinations(sorted(set(names)), k)]
        sels += [("nosuch",), (names[0], "nosuch"), ("nosuch", names[-1]), (names[0], names[0]), (names[-1], names[0]), (f" {names[-1]} ",)]
        if n == 1:
            sels += [("",)]
        for sel in dict.fromkeys(sels):
            part.add()
            part.seen((str(deps), place, kinds, names, exports, sel))
            r = gypdrv.run({}, args=["--root-target=" + s for s in sel] + args, root=root)
            where = f"roots {sel} of deps={deps} files={place} names={names} kinds={kinds} exports={exports}"
            key = f"{deps}{place}{names}{sel}{kinds}{exports}"
            roots = [i for i in range(n) if names[i] in [s.strip() for s in sel]]
            if any(s.strip() not in names for s in sel):
                if r.ok:
                    raise vf.Bad(f"an unknown root was accepted: {where}", "unknown:" + key, files=files)
                if r.status in ("exc", "hang", "died"):
                    raise vf.Bad(f"an unknown root was not reported as an error: {where}: {r.stderr[-200:]}", "unknown-msg:" + key, files=files)
                continue
            want = [qual[i] for i in closure(deps, roots)]
            if not r.ok or sorted(r.flat) != sorted(want):
                raise vf.Bad(f"{where}: kept {r.flat}, want {sorted(want)} {r.stderr[-300:]}", "kept:" + key, files=files)
            if sorted(r.targets) != sorted(want):
                raise vf.Bad(f"{where}: target dictionaries {sorted(r.targets)}, want {sorted(want)}", "dicts:" + key, files=files)
            pos = {t: k for k, t in enumerate(r.flat)}
            for i in closure(deps, roots):
                if any(pos[qual[j]] >= pos[qual[i]] for j in deps[i]):
                    raise vf.Bad(f"{where}: order {r.flat}", "order:" + key, files=files)
                if r.targets[qual[i]] != full.targets[qual[i]]:
                    raise vf.Bad(f"{where}: settings of {qual[i]} changed: {r.targets[qual[i]]}, unpruned {full.targets[qual[i]]}", "settings:" + key, files=files)
            in_data = [f"{bf}:{t['target_name']}#{t['toolset']}" for bf in r.data["target_build_files"] for t in r.data[bf]["targets"]]
            if sorted(in_data) != sorted(want):
                raise vf.Bad(f"{where}: build file data still hold {sorted(in_data)}, want {sorted(want)}", "data:" + key, files=files)
        part.sample({"deps": deps, "files": place, "names": names, "selections": len(sels)}, 1)
    finally:
        vf.rmtree(root)


def universe():
    for n in (1, 2, 3, 4):
        for deps, _ in graphs.dags(n):
            for k, kinds in enumerate(KINDS if n < 4 or vf.THOROUGH else KINDS[:2]):
                yield deps, (0,) * n, kinds[:n], tuple("abcd"[:n]), k % 2 == 1
                if n > 1 and (k == 0 or vf.THOROUGH):
                    yield deps, (0,) * n, kinds[:n], tuple("dacb"[:n]), False
    for n in (2, 3) if not vf.THOROUGH else (2, 3, 4):
        for deps, _ in graphs.dags(n):
            for place in itertools.product((0, 1), repeat=n):
                if len(set(place)) == 1:
                    continue
                fdep = {(place[i], place[j]) for i in range(n) for j in deps[i] if place[i] != place[j]}
                if len(fdep) > 1:
                    continue
                yield deps, place, KINDS[0][:n], tuple("abcd"[:n]), False
                # the same name in both files
                for a, b in itertools.combinations(range(n), 2):
                    if place[a] != place[b]:
                        nm = list("abcd"[:n])
                        nm[b] = nm[a]
                        yield deps, place, KINDS[1][:n], tuple(nm), False


def run():
    ck = vf.Check("C12", "model_checking",
                  "every DAG on up to 4 targets (several kind assignments and name orders, up to 2 files, names shared between files) x every "
                  "non-empty root subset and unknown names; distinct (graph, selection) pairs")
    vf.pmap(ck, job, list(universe()), chunk=4)
    ck.extra["states"] = len(ck.nontrivial)
    ck.extra["transitions"] = ck.evaluations
    return ck.finish()


if __name__ == "__main__":
    vf.main(run)
