"""C18: change analysis of every small target graph, every set of changed files and every request, against reachability."""
import itertools
import json
import os
import posixpath
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import gypdrv  # noqa: E402
import vf  # noqa: E402

TYPES = ("none", "stamp", "static_library", "executable", "shared_library")  # stamp: type none with an action
FOUND, NONE, ALL = "Found dependency", "No dependencies", "Found dependency (all)"
NAMES = "abcdefg"


class Sink:
    def write(self, _):
        return 0

    def flush(self):
        pass


def explore(files, body, args=("a.gyp",), cwd=".", extra=(), depth="."):
    """Loads the project once for the analyzer; body(ask) is called where it generates; ask(config, order) gives its answer."""
    root = vf.scratch("an")

    def pre():
        import gyp.generator.analyzer as analyzer
        real = analyzer.GenerateOutput
        order = {}
        cls = getattr(analyzer, "Target", None)
        if cls is not None:  # sets of targets are iterated in the order this gives, rather than by address
            cls.__hash__ = lambda self: order.get(self.name.split(":")[-1].split("#")[0], 7)

        def generate(target_list, target_dicts, data, params):
            def ask(config, given=None):
                order.clear()
                order.update(given or {})
                with open(root + "/config.json", "w") as f:
                    json.dump(config, f)
                params["generator_flags"]["config_path"] = root + "/config.json"
                params["generator_flags"]["analyzer_output_path"] = root + "/answer.json"
                so, sys.stdout = sys.stdout, Sink()
                try:
                    real(list(target_list), target_dicts, data, params)
                finally:
                    sys.stdout = so
                with open(root + "/answer.json") as f:
                    return json.load(f)
            generate.result = body(ask)
        analyzer.GenerateOutput = generate
        pre.generate = generate

    r = gypdrv.run(files, args=tuple(args) + ("--no-circular-check",) + tuple(extra), fmt="analyzer", cwd=cwd, depth=depth, root=root, pre=pre, post=lambda: getattr(pre.generate, "result", None), timeout=600)
    vf.rmtree(root)
    if not r.ok or r.extra is None:
        raise vf.Bad(f"analyzer on a valid project: {r.status} {r.stderr[-800:]}", "load")
    return r.extra


def closure(n, edges):
    """reach[i] = everything i depends on, itself included (edges point to lower or higher indices, acyclic)."""
    reach = [0] * n

    def visit(i):
        if not reach[i]:
            m = 1 << i
            for j in edges[i]:
                m |= visit(j)
            reach[i] = m
        return reach[i]
    for i in range(n):
        visit(i)
    return reach


def bits(m):
    return {i for i in range(10) if m >> i & 1}


def judge(answer, types, reach, built, roots, changed, tests, extra, hit):
    """What is wrong with an answer; changed, tests, extra, roots: bit masks, hit: the 'all' names ('t', 'x') used."""
    n = len(types)
    wrong = []
    if "error" in answer:
        return [f"error {answer['error']}"]
    affected = sum(1 << i for i in range(n) if reach[i] & changed)
    want = {NAMES[i] for i in bits(tests & affected)}
    if "t" in hit and roots & affected:
        want.add("all")
    got = answer.get("test_targets", [])
    if sorted(got) != sorted(want):
        wrong.append(f"test targets {sorted(got)}, should be {sorted(want)}")
    out = answer.get("compile_targets", [])
    if len(set(out)) != len(out):
        wrong.append(f"compile targets repeat: {out}")
    requested = tests | extra | (roots if hit else 0)
    scope = 0
    for i in bits(requested):
        scope |= reach[i]
    names = set(out) - ({"all"} if "all" in want else set())
    unknown = names - set(NAMES[:n])
    if unknown:
        return wrong + [f"compile targets name {unknown}"]
    c = sum(1 << NAMES.index(x) for x in names)
    may = affected & scope
    if c & ~may:
        wrong.append(f"compile targets {sorted(names)} hold {[NAMES[i] for i in bits(c & ~may)]}, which no request needs rebuilt")
    if tests & affected & ~c:
        wrong.append(f"compile targets {sorted(names)} lack test targets {[NAMES[i] for i in bits(tests & affected & ~c)]}")
    made = under = 0
    for i in bits(c | (roots if "all" in want else 0)):
        made |= built[i]
        under |= reach[i]
    exe = sum(1 << i for i in range(n) if types[i] == "executable")
    needs = sum(1 << i for i in range(n) if types[i] != "none")
    if may & exe & ~c:
        wrong.append(f"compile targets {sorted(names)} lack executables {[NAMES[i] for i in bits(may & exe & ~c)]}")
    if may & needs & ~under:
        wrong.append(f"compile targets {sorted(names)} neither hold nor depend on {[NAMES[i] for i in bits(may & needs & ~under)]}")
    archives = sum(1 << i for i in range(n) if types[i] == "static_library")
    if changed & scope & archives & ~made:
        wrong.append(f"building {sorted(names)} does not build {[NAMES[i] for i in bits(changed & scope & archives & ~made)]}, which changed")
    status = FOUND if out or got else NONE
    if answer.get("status") != status:
        wrong.append(f"status {answer.get('status')!r}, should be {status!r}")
    if "invalid_targets" in answer:
        wrong.append(f"invalid targets {answer['invalid_targets']}")
    return wrong


def spec(i, t, deps):
    d = {"target_name": NAMES[i], "type": "none" if t == "stamp" else t, "dependencies": deps}
    if t == "stamp":
        d["actions"] = [{"action_name": "act", "inputs": [f"{NAMES[i]}.c"], "outputs": [f"{NAMES[i]}.out"], "action": ["true"]}]
    else:
        d["sources"] = [f"{NAMES[i]}.c", f"{NAMES[i]}2.c"]
    return d


def built_by(types, edges):
    """What building a target builds: a static library does not build the static libraries below it; whatever links does."""
    n = len(types)
    below = closure(n, edges)
    archive = [[j for j in bits(below[i]) if types[j] == "static_library"] for i in range(n)]
    e = []
    for i in range(n):
        if types[i] == "static_library":
            e.append([j for j in edges[i] if types[j] != "static_library"])
        elif types[i] in ("executable", "shared_library"):
            e.append(sorted(set(edges[i]) | set(archive[i])))
        else:
            e.append(list(edges[i]))
    return closure(n, e)


def orders(n, full):
    ps = list(itertools.permutations(range(n))) if full else [tuple(range(n)), tuple(reversed(range(n)))][:2 if n < 4 or vf.THOROUGH else 1]
    return [{NAMES[i]: p[i] for i in range(n)} for p in ps]


def requests(n, modes):
    """(test mask, additional mask) for every assignment of {nothing, test, additional, both}, or every set in three modes."""
    if modes == "all":
        for r in itertools.product(range(4), repeat=n):
            yield sum((v & 1) << i for i, v in enumerate(r)), sum((v >> 1) << i for i, v in enumerate(r))
    else:
        for m in range(1 << n):
            yield m, 0
            if modes == "pure":
                yield 0, m


def graph_job(part, item):
    n, edges, kinds, modes, full = item
    for types in kinds:
        files = {"a.gyp": {"targets": [spec(i, types[i], [NAMES[j] for j in edges[i]]) for i in range(n)]}}
        reach, built = closure(n, edges), built_by(types, edges)
        roots = sum(1 << i for i in range(n) if not any(i in e for e in edges))

        def body(ask, types=types):
            bad, count = [], 0
            for order in orders(n, full):
                for changed in range(1 << n):
                    names = [f"{NAMES[i]}.c" if (types[i] == "stamp" or i % 2) else f"{NAMES[i]}2.c" for i in bits(changed)] + ["other.c"]
                    for tests, extra in requests(n, modes):
                        config = {"files": names, "test_targets": [NAMES[i] for i in bits(tests)], "additional_compile_targets": [NAMES[i] for i in bits(extra)]}
                        answer = ask(config, order)
                        count += 1
                        for w in judge(answer, types, reach, built, roots, changed, tests, extra, ""):
                            if len(bad) < 3:
                                bad.append(f"{config}, targets visited by {order}: {w}")
            return count, bad
        count, bad = explore(files, body)
        part.add(count)
        part.count("graphs")
        part.seen((edges, types))
        what = "; ".join(f"{NAMES[i]}:{types[i]}->{''.join(NAMES[j] for j in edges[i])}" for i in range(n))
        for b in bad:
            part.violation(f"{what}: {b}", f"graph:{what}")


# ---------------------------------------------------------------------------- 'all', build files, names
def files_job(part, item):
    """Targets over two files, either or both given to gyp, 'all' asked for, build files and what they include changed."""
    edges, types, place, given, spelling, shared = item
    n = len(types)
    reach, built = closure(n, edges), built_by(types, edges)
    paths = ["a.gyp", "sub/b.gyp"]
    own = [[], []]
    for i in range(n):
        deps = []
        for j in edges[i]:
            if place[i] == place[j]:
                deps.append(NAMES[j])
            else:
                deps.append(("../a.gyp:" if place[i] else "sub/b.gyp:") + NAMES[j])
        own[place[i]].append(spec(i, types[i], deps))
    files = {"inc.gypi": {"variables": {"x": "1"}}, "both.gypi": {"variables": {"y": "1"}}, "forced.gypi": {"variables": {"z": "1"}}}
    for f in (0, 1):
        files[paths[f]] = {"targets": own[f] or [{"target_name": f"empty{f}", "type": "none"}], "includes": (["inc.gypi"] if f == 0 else []) + (["both.gypi" if f == 0 else "../both.gypi"] if f in shared else [])}
    loaded = set(given)
    while True:
        more = {place[b] for a in range(n) if place[a] in loaded for b in edges[a]} | loaded
        if more == loaded:
            break
        loaded = more
    live = [i for i in range(n) if place[i] in loaded]
    inside = sum(1 << i for i in live)
    roots = sum(1 << i for i in live if place[i] in given and not any(i in edges[a] for a in live))

    def run(cwd_args, forced):
        def body(ask):
            bad, count = [], 0
            changes = [[], ["a.gyp"], ["sub/b.gyp"], ["inc.gypi"], ["both.gypi"], ["forced.gypi"], ["a.c", "nothing.c"], ["sub/a.c"], ["sub/nothing.gyp", "b.gyp"]] + [[("sub/" if place[i] else "") + f"{NAMES[i]}.c"] for i in range(n)]
            for names in changes:
                changed = 0
                for i in live:
                    mine = ("sub/" if place[i] else "") + f"{NAMES[i]}.c"
                    if mine in names or paths[place[i]] in names or ("inc.gypi" in names and place[i] == 0) or ("both.gypi" in names and place[i] in shared) or ("forced.gypi" in names and forced):
                        changed |= 1 << i
                for tests in [m for m in range(1 << n) if m & ~inside == 0]:
                    for hit in ("", "t", "x", "tx"):
                        if not names:
                            continue
                        config = {"files": names, "test_targets": [NAMES[i] for i in bits(tests)] + (["all"] if "t" in hit else []), "additional_compile_targets": ["all"] if "x" in hit else []}
                        answer = ask(config, {x: k for k, x in enumerate(NAMES[:n])})
                        count += 1
                        if forced and "forced.gypi" in names and answer.get("status") == ALL:
                            ok = set(answer["test_targets"]) == set(config["test_targets"]) and set(answer["compile_targets"]) == set(config["test_targets"]) | set(config["additional_compile_targets"])
                            wrong = [] if ok else [f"everything changed, but {answer}"]
                        elif forced and "forced.gypi" in names:
                            wrong = [f"an include forced on every file changed, but {answer}"]
                        elif not loaded_empty and changed == 0:
                            wrong = [] if answer.get("status") == NONE and not answer["test_targets"] and not answer["compile_targets"] else [f"nothing changed, but {answer}"]
                        else:
                            wrong = judge(answer, types, reach, built, roots, changed, tests, 0, hit)
                        for w in wrong:
                            if len(bad) < 3:
                                bad.append(f"{config}: {w}")
            return count, bad
        return explore(files, body, args=cwd_args, extra=("-Iforced.gypi",) if forced else ())
    loaded_empty = any(not own[f] for f in loaded)
    if loaded_empty:
        return
    for forced in (False, True):
        args = [("./" if spelling == "dot" else "") + paths[f] for f in given]
        count, bad = run(tuple(args), forced)
        part.add(count)
        part.count("two_file_projects")
        part.seen((edges, types, place, given, spelling, shared, forced))
        what = "; ".join(f"{NAMES[i]}:{types[i]}@{paths[place[i]]}->{''.join(NAMES[j] for j in edges[i])}" for i in range(n))
        for b in bad:
            part.violation(f"{what}, gyp given {args}{' -Iforced.gypi' if forced else ''}: {b}", f"files:{what}:{given}:{spelling}:{forced}")


def names_job(part, item):
    """Unknown names are told, whatever else is asked for."""
    known, unknown, split, changed = item

    def body(ask):
        asked = list(known) + list(unknown)
        config = {"files": [changed], "test_targets": [x for k, x in enumerate(asked) if split >> k & 1], "additional_compile_targets": [x for k, x in enumerate(asked) if not split >> k & 1]}
        return config, ask(config)
    config, answer = explore({"a.gyp": {"targets": [spec(0, "executable", ["b"]), spec(1, "static_library", [])]}}, body)
    part.add()
    part.seen(item)
    if sorted(answer.get("invalid_targets", [])) != sorted(unknown):
        part.violation(f"{config}: invalid targets {answer.get('invalid_targets')}, should be {sorted(unknown)}; {answer}", f"names:{item}")
    hit = {"a.c": {"a"}, "b2.c": {"a", "b"}}.get(changed, set())
    if set(answer.get("test_targets", [])) != hit & set(config["test_targets"]):
        part.violation(f"{config}: {answer}", f"names:{item}")


def bad_config_job(part, item):
    def body(ask):
        return ask(item)
    answer = explore({"a.gyp": {"targets": [spec(0, "executable", [])]}}, body)
    part.add()
    part.seen(str(item))
    if "error" not in answer or answer.get("test_targets") or answer.get("compile_targets"):
        part.violation(f"configuration {item}: {answer}, not an error", f"config:{item}")


# ---------------------------------------------------------------------------- the forms of paths
def spellings(longest):
    for k in range(1, longest + 1):
        for mid in itertools.product(("x", "..", ".", "d", ""), repeat=k - 1):
            if mid and mid[0] == "":
                continue  # an absolute path
            yield "/".join(mid + ("s.c",))


def paths_job(part, item):
    where, key, longest, via = item
    base = where + "/" if where else ""
    forms = list(spellings(longest))
    targets, expect = [], {}
    include = {"": "", "same": base + "i.gypi", "up": "up.gypi", "other": "other/i.gypi"}[via]
    for k, s in enumerate(forms):
        t = {"target_name": f"t{k}", "type": "static_library" if key == "sources" else "none"}
        body = {"sources": [s]} if key == "sources" else {"actions": [{"action_name": "x", "inputs": ["first.in", s], "outputs": ["o"], "action": ["true"]}]} if key == "action" else {"sources": ["q.zz"], "rules": [{"rule_name": "r", "extension": "zz", "inputs": [s], "outputs": ["o"], "action": ["true"]}]}
        t.update(body)
        targets.append(t)
        p = posixpath.normpath(base + s)
        if not p.startswith("../"):
            expect.setdefault(p, set()).add(f"t{k}")
    files = {base + "a.gyp": {"targets": targets}}
    if include:  # the same targets, by way of a file included from elsewhere, whose paths are its own
        files = {base + "a.gyp": {"includes": [posixpath.relpath(include, where or ".")]}, include: {"targets": targets}}
        home = posixpath.dirname(include)
        expect = {}
        for k, s in enumerate(forms):
            p = posixpath.normpath(posixpath.join(home, s))
            if not p.startswith("../"):
                expect.setdefault(p, set()).add(f"t{k}")
    universe = sorted(set(expect) | {"s.c", "x/s.c", "d/s.c", base + "s.c", "a.gyp/s.c", "nothing.c", "s", "../s.c", "/s.c"})
    names = [t["target_name"] for t in targets]

    def body(ask):
        return [(f, ask({"files": [f], "test_targets": names})) for f in universe]
    for f, answer in explore(files, body, args=(base + "a.gyp",)):
        part.add()
        part.seen((where, key, via, f))
        got = set(answer.get("test_targets", []))
        if f in ("../s.c", "/s.c"):
            continue  # outside the tree: any target naming it may or may not be found
        if "error" in answer or got != expect.get(f, set()):
            miss, more = sorted(expect.get(f, set()) - got), sorted(got - expect.get(f, set()))
            part.violation(f"{key} in {include or base + 'a.gyp'}: changed {f}: missed {[forms[int(x[1:])] for x in miss][:5]}, invented {[forms[int(x[1:])] for x in more][:5]} {answer.get('error', '')}", f"paths:{key}:{where}:{via}:{(miss + more)[:1]}")


def odd_job(part, item):
    """Sources whose place is only known to the build are no source file's; names with slashes do not move their sources."""
    label, target, file, hit = item
    for where in ("", "sub/"):
        def body(ask):
            return ask({"files": [where + file], "test_targets": [target["target_name"]]})
        answer = explore({where + "a.gyp": {"targets": [dict(target, type="none")]}}, body, args=(where + "a.gyp",))
        part.add()
        part.seen((label, where, file))
        if answer.get("test_targets") != ([target["target_name"]] if hit else []):
            part.violation(f"{label}: changed {where + file}: {answer}", f"odd:{label}:{where}:{file}")


def dags(n, labelled):
    pairs = [(i, j) for i in range(n) for j in range(n) if i != j] if labelled else [(i, j) for i in range(n) for j in range(i)]
    for m in range(1 << len(pairs)):
        e = [[] for _ in range(n)]
        for k, (i, j) in enumerate(pairs):
            if m >> k & 1:
                e[i].append(j)
        if labelled:
            seen, done = set(), set()

            def cyclic(i):
                if i in done:
                    return False
                if i in seen:
                    return True
                seen.add(i)
                r = any(cyclic(j) for j in e[i])
                done.add(i)
                return r
            if any(cyclic(i) for i in range(n)):
                continue
        yield tuple(tuple(x) for x in e)


def main():
    c = vf.Check("C18", "model_checking", "every graph of up to three targets of five kinds, declared in every order, with every set of changed targets and every assignment of them to the test and additional compile targets, sets of targets iterated "
                 "in every order (quick: two orders and pure requests on three targets); every graph of four targets (quick: none, static, executable in one order, requested as tests; thorough: shared and stamp too) with every change and request; two-file projects with 'all' and changed build files; "
                 "every spelling of a path up to four components in sources, action and rule inputs, in three directories and by way of included files; unknown names and malformed configurations",
                 ["target names are unique", "absolute source paths are not judged"])
    items = []
    for n in (1, 2, 3):
        for e in dags(n, True):
            kinds = list(itertools.product(TYPES, repeat=n))
            full = n < 3 or vf.THOROUGH
            for k in range(0, len(kinds), 8 if full else 25):
                items.append((n, e, kinds[k:k + (8 if full else 25)], "all" if full else "pure", full))
    four = TYPES if vf.THOROUGH else ("none", "static_library", "executable")
    for e in dags(4, False):
        kinds = list(itertools.product(four, repeat=4))
        for k in range(0, len(kinds), 9):
            items.append((4, e, kinds[k:k + 9], "pure" if vf.THOROUGH else "tests", False))
    c.count("four_target_graphs", len(list(dags(4, False))) * len(four) ** 4)
    vf.pmap(c, graph_job, items, chunk=1)
    some = ("none", "static_library", "executable")
    two = [(e, types, place, given, spelling, shared)
           for n in (2, 3) for e in dags(n, False) for types in itertools.product(some, repeat=n) for place in itertools.product((0, 1), repeat=n)
           for given in ((0,), (0, 1), (1, 0)) for spelling in ("plain", "dot") for shared in ((), (0, 1), (1,))
           if 0 in place and (1 in place) and (vf.THOROUGH or n == 2 or (spelling == "plain" and shared == (0, 1) and given == (0,)))]
    vf.pmap(c, files_job, two, chunk=4)
    vf.pmap(c, names_job, [(k, u, s, f) for k in ((), ("a",), ("a", "b")) for u in ((), ("zz",), ("zz", "A", "a.gyp:a")) for s in range(1 << (len(k) + len(u))) for f in ("a.c", "b2.c", "none.c")], chunk=4)
    vf.pmap(c, bad_config_job, [{}, {"files": []}, [], "x", 1, {"test_targets": ["a"]}], chunk=2)
    longest = 5 if vf.THOROUGH else 4
    vf.pmap(c, paths_job, [(w, k, longest, v) for w in ("", "x", "x/d", "w/v") for k in ("sources", "action", "rule") for v in ("", "same", "up", "other")], chunk=1)
    odd = [(f"{key} {s}", {"target_name": "t", **({"sources": [s]} if key == "sources" else {"actions": [{"action_name": "a", "inputs": [s], "outputs": ["o"], "action": ["true"]}]})}, f, False)
           for key in ("sources", "inputs") for s in ("<(PRODUCT_DIR)/s.c", "<(INTERMEDIATE_DIR)/s.c", "<(SHARED_INTERMEDIATE_DIR)/d/s.c", "$(V)/s.c", "$V/s.c") for f in ("s.c", "d/s.c", "!!!/s.c")]
    odd += [(f"target named {name}", {"target_name": name, "sources": ["s.c", "../r.c"]}, f, hit) for name in ("t/u", "a/b/c", "x.gyp", "t.u", "../t", "sub/t") for f, hit in (("s.c", True), ("t/s.c", False), ("a/b/s.c", False), ("r.c", False), ("a.gyp", True))]
    vf.pmap(c, odd_job, odd, chunk=4)
    return c.finish()


vf.main(main)
