"""C28: actions, rules and copies run once per input, in the right place, with the right substitutions (real make and ninja)."""
import itertools
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import buildlab as B  # noqa: E402
import vf  # noqa: E402

INT, SHARED = "<(INTERMEDIATE_DIR)", "<(SHARED_INTERMEDIATE_DIR)"
VARS = ["path=<(RULE_INPUT_PATH)", "root=<(RULE_INPUT_ROOT)", "dir=<(RULE_INPUT_DIRNAME)", "ext=<(RULE_INPUT_EXT)", "name=<(RULE_INPUT_NAME)",
        "all=<(RULE_INPUT_ROOT)/<(RULE_INPUT_NAME)", "pct=%d%%<(RULE_INPUT_ROOT)"]


def run(fmt, gypdir, doc, files, where, config="Default"):
    root = vf.scratch("c28")
    gyp = os.path.join(gypdir, "a.gyp")
    fs = {os.path.normpath(os.path.join(gypdir, k)): v for k, v in files.items()}
    fs[gyp] = doc
    r = B.generate(root, fmt, fs, args=(gyp,))
    if not r.ok:
        vf.rmtree(root)
        raise vf.Bad(f"{where}: not generated: {r.status} {r.stderr[-500:]}", f"{where}:gen", project=doc)
    x = B.build(root, fmt, config)
    if x.rc != 0:
        vf.rmtree(root)
        raise vf.Bad(f"{where}: the build fails: {x.out[-700:]}", f"{where}:build", project=doc)
    return root, x


def acts(x):
    """[(cwd, {flag: [values]})] of every action tool call."""
    out = []
    for cwd, argv in x.of("act"):
        d, cur = {}, None
        for a in argv[1:]:
            if a.startswith("--") and cur != "--args":
                cur = a
                d.setdefault(cur, [])
            else:
                d.setdefault(cur, []).append(a)
        out.append((cwd, d))
    return out


def real(cwd, p):
    return os.path.realpath(os.path.join(cwd, p))


def compiled(x):
    return sorted(real(cwd, a) for cwd, argv in x.of("cc", "cxx") if "-c" in argv for a in argv[1:]
                  if a.endswith((".c", ".cc")) and not a.startswith("-"))


def linked_objects(x):
    """Sources whose objects some archive or link step read."""
    src = {}
    for reads, writes in x.rw:
        for w in writes:
            if w.endswith(".o"):
                src[w] = [r for r in reads if r.endswith((".c", ".cc"))]
    got = set()
    for reads, writes in x.rw:
        if any(not w.endswith((".o", ".c", ".h")) for w in writes):
            for r in reads:
                got.update(src.get(r, ()))
    return {os.path.realpath(p) for p in got}


# --- rules -------------------------------------------------------------------
SOURCES = ["p.x", "sub/q.x", "two.dots.x", "./n.x", "../up/r.x", SHARED + "/made/g.x"]
TEMPLATES = {
    "root": [INT + "/<(RULE_INPUT_ROOT).c"],
    "dirname": [INT + "/<(RULE_INPUT_DIRNAME)/<(RULE_INPUT_ROOT).c"],
    "two": [INT + "/<(RULE_INPUT_ROOT)_1.c", INT + "/o/<(RULE_INPUT_ROOT)_2.c"],
}


def rule_cases():
    for gypdir in ("", "d/e"):
        pool = [s for s in SOURCES if gypdir or not s.startswith("..")]
        for n in (1, 2, 3) if vf.THOROUGH else (1, 2):
            for srcs in itertools.combinations(pool, n):
                for tmpl in TEMPLATES:
                    if tmpl == "dirname" and any(s.startswith(("..", "<")) for s in srcs):
                        continue  # such directories do not lie under the intermediate directory
                    for process in (0, 1):
                        for ext, ninp in itertools.product(("x", ".x"), (0, 1, 3)) if n == 1 else (("x", 3), (".x", 0)):
                            yield gypdir, srcs, tmpl, process, ext, ninp


def rule_job(part, fmt, case):
    gypdir, srcs, tmpl, process, ext, ninp = case
    where = f"{fmt} rule {gypdir or '.'}:{'+'.join(srcs)}:{tmpl}:{process}:{ext}:{ninp}"
    extra = ["i%d.txt" % i for i in range(ninp)]
    lib = {"target_name": "lib", "type": "static_library", "sources": ["plain.c", *srcs, "other.y"], "dependencies": ["made"],
           "rules": [{"rule_name": "r", "extension": ext, "outputs": TEMPLATES[tmpl], "inputs": extra, "process_outputs_as_sources": process,
                      "action": [B.tools() + "/act", "--in", "<(RULE_INPUT_PATH)", *extra, "--out", *TEMPLATES[tmpl], "--args", *VARS]}]}
    doc = {"targets": [lib, {"target_name": "made", "type": "none", "hard_dependency": 1, "actions": [
        {"action_name": "m", "inputs": [], "outputs": [SHARED + "/made/g.x"], "action": [B.tools() + "/act", "--out", SHARED + "/made/g.x"]}]}]}
    files = {s: s for s in srcs if not s.startswith("<")}
    files.update({"plain.c": "plain", "other.y": "y", **{e: e for e in extra}})
    root, x = run(fmt, gypdir, doc, files, where)
    try:
        calls = [(cwd, d) for cwd, d in acts(x) if "--in" in d]
        base = os.path.realpath(os.path.join(root, gypdir))
        made = [real(cwd, d["--out"][0]) for cwd, d in acts(x) if "--in" not in d][0]
        want = {made if s.startswith("<") else real(base, s): s for s in srcs}
        got = sorted(real(cwd, d["--in"][0]) for cwd, d in calls)
        if got != sorted(want):
            raise vf.Bad(f"{where}: ran for {got}, not {sorted(want)}", where, project=doc)
        outs = []
        for cwd, d in calls:
            path = real(cwd, d["--in"][0])
            if os.path.realpath(cwd) != base:
                raise vf.Bad(f"{where}: ran in {cwd}", where, project=doc)
            b = os.path.basename(path)
            r, e = os.path.splitext(b)
            a = dict(v.split("=", 1) for v in d["--args"])
            if (real(cwd, a["path"]), a["root"], a["ext"], a["name"], a["all"], a["pct"]) != (path, r, e, b, r + "/" + b, "%d%%" + r) \
                    or real(cwd, a["dir"] or ".") != os.path.dirname(path):
                raise vf.Bad(f"{where}: for {path}: {a}", where, project=doc)
            if [real(cwd, i) for i in d["--in"][1:]] != [real(base, i) for i in extra]:
                raise vf.Bad(f"{where}: inputs {d['--in']}", where, project=doc)
            for o, t in zip(d["--out"], TEMPLATES[tmpl]):
                o = real(cwd, o)
                tail = t.replace(INT + "/", "").replace("<(RULE_INPUT_ROOT)", r).replace("<(RULE_INPUT_DIRNAME)", os.path.dirname(want[path]))
                if not o.startswith(os.path.realpath(os.path.join(root, "out")) + "/") or not o.endswith(os.path.normpath("/" + tail.lstrip("/"))):
                    raise vf.Bad(f"{where}: output {o} for {t}", where, project=doc)
                if not os.path.exists(o):
                    raise vf.Bad(f"{where}: {o} missing", where, project=doc)
                outs.append(o)
        if len(set(outs)) != len(outs):
            raise vf.Bad(f"{where}: outputs {outs}", where, project=doc)
        sources = sorted([os.path.join(base, "plain.c")] + (outs if process else []))
        if compiled(x) != sources or linked_objects(x) != set(sources):
            raise vf.Bad(f"{where}: compiled {compiled(x)}, archived {sorted(linked_objects(x))}, wanted {sources}", where, project=doc)
    finally:
        vf.rmtree(root)


# --- actions -----------------------------------------------------------------
def action_cases():
    for gypdir in ("", "d/e"):
        for inputs in ((), ("in.txt",), ("in.txt", "sub/in2.txt"), ("../up.txt",) if gypdir else ("sub/in2.txt",), (SHARED + "/made.txt",)):
            for outputs in ((INT + "/o.c",), (INT + "/deep/er/o.c",), (INT + "/o.c", INT + "/o.h", SHARED + "/p.c"), ("<(PRODUCT_DIR)/o.cc",), ("gen/here.c",)):
                for process in (0, 1):
                    for target in ("t", "t-x.y") if vf.THOROUGH else ("t",):
                        yield gypdir, inputs, outputs, process, target


def action_job(part, fmt, case):
    gypdir, inputs, outputs, process, target = case
    where = f"{fmt} action {gypdir or '.'}:{'+'.join(inputs)}:{'+'.join(outputs)}:{process}:{target}"
    doc = {"targets": [
        {"target_name": target, "type": "static_library", "sources": ["plain.c"], "dependencies": ["made"], "actions": [
            {"action_name": "act it", "inputs": list(inputs), "outputs": list(outputs), "process_outputs_as_sources": process, "message": "Doing it",
             "action": [B.tools() + "/act", "--in", "<@(_inputs)", "--out", "<@(_outputs)", "--args", "x", "<(_target_name)"]}]},
        {"target_name": "made", "type": "none", "actions": [
            {"action_name": "m", "inputs": [], "outputs": [SHARED + "/made.txt"], "action": [B.tools() + "/act", "--out", SHARED + "/made.txt"]}]}]}
    files = {i: i for i in inputs if not i.startswith("<")}
    root, x = run(fmt, gypdir, doc, {**files, "plain.c": "plain"}, where)
    try:
        base = os.path.realpath(os.path.join(root, gypdir))
        calls = [(cwd, d) for cwd, d in acts(x) if "--args" in d]
        made = [real(cwd, d["--out"][0]) for cwd, d in acts(x) if "--args" not in d]
        if len(calls) != 1 or len(made) != 1:
            raise vf.Bad(f"{where}: ran {len(calls)}+{len(made)} times", where, project=doc)
        cwd, d = calls[0]
        if os.path.realpath(cwd) != base:
            raise vf.Bad(f"{where}: ran in {cwd}", where, project=doc)
        if d["--args"] != ["x", target] or [real(cwd, i) for i in d.get("--in", [])] != [made[0] if i.startswith("<") else real(base, i) for i in inputs]:
            raise vf.Bad(f"{where}: ran {d}", where, project=doc)
        outs = [real(cwd, o) for o in d["--out"]]
        if len(outs) != len(outputs) or not all(os.path.exists(o) for o in outs):
            raise vf.Bad(f"{where}: outputs {outs}", where, project=doc)
        if outputs[0].startswith("gen/") and outs != [os.path.join(base, "gen/here.c")]:
            raise vf.Bad(f"{where}: outputs {outs}", where, project=doc)
        if outputs[0].startswith("<(PRODUCT_DIR)") and outs != [os.path.realpath(os.path.join(root, "out/Default/o.cc"))]:
            raise vf.Bad(f"{where}: outputs {outs}", where, project=doc)
        sources = sorted([os.path.join(base, "plain.c")] + ([o for o in outs if o.endswith((".c", ".cc"))] if process else []))
        if compiled(x) != sources or linked_objects(x) != set(sources):
            raise vf.Bad(f"{where}: compiled {compiled(x)}, archived {sorted(linked_objects(x))}, wanted {sources}", where, project=doc)
    finally:
        vf.rmtree(root)


# --- copies ------------------------------------------------------------------
FILES = ["f.txt", "sub/g.txt", "sub/", "tree", "../up.txt", SHARED + "/made.txt", "<(PRODUCT_DIR)/libdep.a"]
DESTS = ["<(PRODUCT_DIR)", "<(PRODUCT_DIR)/c/d", SHARED + "/inc", "here", "<(PRODUCT_DIR)/c/"]


def copy_cases():
    for gypdir in ("", "d/e"):
        pool = [f for f in FILES if gypdir or not f.startswith("..")]
        for n in (1, 2):
            for fs in itertools.combinations(pool, n):
                if "sub/" in fs and "sub/g.txt" in fs:
                    continue
                for dest in DESTS:
                    if dest == "<(PRODUCT_DIR)" and "<(PRODUCT_DIR)/libdep.a" in fs:
                        continue  # onto itself
                    if n == 1 or vf.THOROUGH or dest == DESTS[1]:
                        yield gypdir, fs, dest


def tree_of(p):
    out = {}
    for dp, dn, fn in os.walk(p):
        for f in fn:
            with open(os.path.join(dp, f), "rb") as fh:
                out[os.path.relpath(os.path.join(dp, f), p)] = fh.read()
    return out


def copy_job(part, fmt, case):
    gypdir, fs, dest = case
    where = f"{fmt} copy {gypdir or '.'}:{'+'.join(fs)}->{dest}"
    doc = {"targets": [
        {"target_name": "t", "type": "none", "dependencies": ["made", "dep"], "copies": [{"destination": dest, "files": list(fs)}]},
        {"target_name": "dep", "type": "static_library", "standalone_static_library": 1, "sources": ["dep.c"], "product_dir": "<(PRODUCT_DIR)"},
        {"target_name": "made", "type": "none", "actions": [
            {"action_name": "m", "inputs": [], "outputs": [SHARED + "/made.txt"], "action": [B.tools() + "/act", "--out", SHARED + "/made.txt"]}]}]}
    files = {"f.txt": "f", "sub/g.txt": "g", "sub/deeper/h.txt": "h", "tree/1": "1", "tree/n/2": "2", "../up.txt": "up", "dep.c": "dep"}
    if not gypdir:
        files.pop("../up.txt")
    root, x = run(fmt, gypdir, doc, files, where)
    try:
        base = os.path.join(root, gypdir)
        made = [real(cwd, d["--out"][0]) for cwd, d in acts(x)][0]
        prod = os.path.join(root, "out/Default")
        d = dest.replace("<(PRODUCT_DIR)", prod).replace(SHARED, os.path.dirname(made))
        d = os.path.normpath(os.path.join(base, d))
        for f in fs:
            src = made if f.startswith(SHARED) else os.path.normpath(os.path.join(base, f.replace("<(PRODUCT_DIR)", prod)))
            dst = os.path.join(d, os.path.basename(src))
            if os.path.isdir(src):
                if not tree_of(src) or tree_of(src) != tree_of(dst):
                    raise vf.Bad(f"{where}: {dst} has {sorted(tree_of(dst))}", where, project=doc)
            elif not os.path.isfile(dst) or open(dst, "rb").read() != open(src, "rb").read():
                raise vf.Bad(f"{where}: {dst} is missing or differs", where, project=doc)
    finally:
        vf.rmtree(root)


# --- names that differ only in characters a makefile or ninja name cannot hold ----------
NAMES = ["a-b", "a_b", "a b", "a.b", "a/b", "A_b", "a__b", "é_b"]


def name_cases():
    for kind in ("actions", "rules", "targets", "files", "straddle"):
        if kind == "straddle":
            yield kind, ("t", "target_x"), ("t_target", "x")
            yield kind, ("t", "copies"), ("t_copies", "c")
            continue
        pool = [n for n in NAMES if kind in ("actions", "rules") or ("/" not in n and " " not in n)]
        for a, b in itertools.combinations(pool, 2):
            yield kind, a, b
        if kind == "actions":
            yield kind, "same", "same"
            yield "both", "r_0", "r"
            yield "both", "r", "r"
            yield "both", "r_outputs", "r"
    yield "files2", "p/q.gyp", "p_q.gyp"
    yield "files2", "p-q.gyp", "p_q.gyp"
    yield "files2", "p/q.gyp", "p-q.gyp"


def name_job(part, fmt, case):
    kind, a, b = case
    where = f"{fmt} names {kind}:{a}:{b}"
    act = B.tools() + "/act"

    def action(n, out, arg):
        return {"action_name": n, "inputs": [], "outputs": [out], "action": [act, "--out", out, "--args", arg]}

    files, args = {"s.c": "s"}, ("a.gyp",)
    if kind == "actions":
        doc = {"targets": [{"target_name": "t", "type": "none", "actions": [action(a, INT + "/1", "one"), action(b, INT + "/2", "two")]}]}
    elif kind == "rules":
        def rule(n, e, arg):
            o = INT + "/<(RULE_INPUT_ROOT)." + arg
            return {"rule_name": n, "extension": e, "outputs": [o], "action": [act, "--in", "<(RULE_INPUT_PATH)", "--out", o, "--args", arg]}
        doc = {"targets": [{"target_name": "t", "type": "none", "sources": ["i.x", "j.y"], "rules": [rule(a, "x", "one"), rule(b, "y", "two")]}]}
        files.update({"i.x": "", "j.y": ""})
    elif kind == "both":
        o = INT + "/<(RULE_INPUT_ROOT).two"
        doc = {"targets": [{"target_name": "t", "type": "none", "sources": ["i.x"], "actions": [action(a, INT + "/1", "one")],
                            "rules": [{"rule_name": b, "extension": "x", "outputs": [o], "action": [act, "--in", "<(RULE_INPUT_PATH)", "--out", o, "--args", "two"]}]}]}
        files["i.x"] = ""
    elif kind == "targets":
        doc = {"targets": [{"target_name": n, "type": "none", "actions": [action("n", INT + "/1", arg)]} for n, arg in ((a, "one"), (b, "two"))]}
    elif kind == "straddle":
        doc = {"targets": [{"target_name": t, "type": "none", "actions": [action(n, INT + "/1", arg)], "copies": [{"destination": "<(PRODUCT_DIR)/" + t, "files": ["s.c"]}]}
                           for (t, n), arg in ((a, "one"), (b, "two"))]}
    elif kind in ("files", "files2"):
        fa, fb = (a, b) if kind == "files2" else (a + ".gyp", b + ".gyp")
        doc = {"targets": [{"target_name": "all_of_it", "type": "none", "dependencies": [fa + ":t1", fb + ":" + ("t1" if "/" in fa else "t2")]}]}
        for f, arg, t in ((fa, "one", "t1"), (fb, "two", "t1" if "/" in fa else "t2")):
            files[f] = {"targets": [{"target_name": t, "type": "none", "actions": [action("n", SHARED + "/" + arg, arg)],
                                     "copies": [{"destination": "<(PRODUCT_DIR)/" + arg, "files": [os.path.relpath("s.c", os.path.dirname(f) or ".")]}]}]}
    root, x = run(fmt, "", doc, files, where)
    try:
        ran = sorted(d["--args"][0] for _, d in acts(x))
        if ran != ["one", "two"]:
            raise vf.Bad(f"{where}: ran {ran}", where, project=doc)
        for cwd, d in acts(x):
            if not os.path.exists(real(cwd, d["--out"][0])):
                raise vf.Bad(f"{where}: {d['--out'][0]} missing", where, project=doc)
        if kind in ("files", "files2", "straddle"):
            for n in ("one", "two") if kind != "straddle" else (a[0], b[0]):
                if not os.path.exists(os.path.join(root, "out/Default", n, "s.c")):
                    raise vf.Bad(f"{where}: copy {n}/s.c missing", where, project=doc)
        again = B.build(root, fmt)
        if again.rc or again.calls:
            raise vf.Bad(f"{where}: a second build runs {len(again.calls)} commands", where, project=doc)
    finally:
        vf.rmtree(root)


KINDS = {"rule": (rule_cases, rule_job), "action": (action_cases, action_job), "copy": (copy_cases, copy_job), "name": (name_cases, name_job)}


def job(part, item):
    kind, fmt, case = item
    part.add()
    part.seen(item)
    part.count(kind + "_projects")
    KINDS[kind][1](part, fmt, case)


def main():
    c = vf.Check("C28", "model_checking",
                 "a distinct project of the grammar (rule sources x output templates x extensions x inputs; action inputs x outputs; copies; pairs of "
                 "look-alike names), generated, built by the real make or ninja, every tool call compared with what the project says")
    B.tools()
    items = [(k, f, case) for k in KINDS for case in KINDS[k][0]() for f in ("make", "ninja")]
    vf.pmap(c, job, items, chunk=8)
    c.sample("rule over [p.x, sub/q.x] into INTERMEDIATE_DIR/DIRNAME/ROOT.c, outputs compiled, gyp file in d/e")
    return c.finish()


vf.main(main)
