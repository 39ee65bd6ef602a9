"""C44: generated file lists: every list of a bounded alphabet in every form and place reaches the file item by item, through the loader and through real builds."""
import itertools
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import buildlab as B  # noqa: E402
import gypdrv  # noqa: E402
import vf  # noqa: E402

CHARS = list(" \t#$%&'()*;<=>?[]{|}~\"\\`,:@!^+-/.a0é") + ["😀"]
GEN = os.path.join(vf.VERIF, "lib", "capgen_lists.py")


def items_all():
    one = [c for c in CHARS]
    two = ["".join(p) for p in itertools.product(CHARS, repeat=2)]
    three = [f"a{c}b" for c in CHARS] + [f"{c}ab" for c in CHARS] + [f"ab{c}" for c in CHARS]
    return one + two + three + ["", "a  b", "-x=y z", "p/q r/s.c", "C:\\a b\\c.c", "\\\\host\\x", "it's \"q\"", "12", "007", "a" * 2000]


def usable(s):
    """Not an expansion, not a path to tidy and not something a list of gyp treats in its own way."""
    return not any(x in s for x in ("<(", ">(", "^(", "<@", ">@", "^@", "<!", ">!", "^!", "<|", ">|", "^|"))


# name -> (files for a list L in a file at D, name of the gyp file)
def forms():
    def t(expr, **kw):
        return {"target_name": "t", "type": "none", "v": expr, **kw}
    for ph in "<>^":
        if ph == "<":
            yield f"{ph} file variable", lambda L, ph=ph: {"a.gyp": {"variables": {"items": L}, "targets": [t(f"{ph}|(n.list {ph}@(items))")]}}, "a.gyp", lambda L: L
        yield f"{ph} target variable", lambda L, ph=ph: {"d/a.gyp": {"targets": [t(f"{ph}|(n.list {ph}@(items))", variables={"items": L})]}}, "d/a.gyp", lambda L: L
    yield "among words", lambda L: {"a.gyp": {"variables": {"items": L}, "targets": [t("<|(n.list p <@(items) q  r)")]}}, "a.gyp", lambda L: ["p", *L, "q", "r"]
    yield "twice", lambda L: {"a.gyp": {"variables": {"items": L}, "targets": [t("<|(n.list <@(items) <@(items))")]}}, "a.gyp", lambda L: [*L, *L]
    yield "own key", lambda L: {"a.gyp": {"targets": [t(">|(n.list >@(_more))", more=L)]}}, "a.gyp", lambda L: L
    yield "joined", lambda L: {"a.gyp": {"variables": {"items": L}, "targets": [t("<|(n.list <(items))")]}}, "a.gyp", lambda L: L
    yield "from a variable's", lambda L: {"a.gyp": {"variables": {"variables": {"items": L}, "all": ["x", "<@(items)"]}, "targets": [t("<|(n.list <@(all))")]}}, "a.gyp", lambda L: ["x", *L]
    yield "list item", lambda L: {"a.gyp": {"variables": {"items": L}, "targets": [t(["<|(n.list <@(items))"])]}}, "a.gyp", lambda L: L
    yield "part of a word", lambda L: {"a.gyp": {"variables": {"items": L}, "targets": [t("@<|(n.list <@(items))")]}}, "a.gyp", lambda L: L
    yield "named by a variable", lambda L: {"a.gyp": {"variables": {"items": L, "name": "n"}, "targets": [t("<|(<(name).list <@(items))")]}}, "a.gyp", lambda L: L
    yield "deeper", lambda L: {"d/e/a.gyp": {"variables": {"items": L}, "targets": [t("<|(s/n.list <@(items))")]}}, "d/e/a.gyp", lambda L: L


# Expanded one after another inside the brackets of the list: a bracket in an item ends it.
SEVERAL = ("twice", "named by a variable")


def read(path):
    with open(path, encoding="utf-8", newline="") as f:
        s = f.read()
    return s.split("\n")[:-1] if s.endswith("\n") else ([] if not s else ["NO END", s])


def load(d, files, name, mode):
    r = gypdrv.run(files, args=(name,), root=d, fmt=GEN, flags=("lists=1",) if mode == "out" else (), post=lambda: [m.captured[-1] for n, m in list(sys.modules.items()) if n == "capgen_lists"])
    if not r.ok:
        return None, f"{r.status} {r.stderr[-300:]}", None
    targets = r.extra[0][1]
    t = targets[f"{name}:t#target"]
    v = t.get("v", t["configurations"]["Default"].get("v"))
    v = v[0] if isinstance(v, list) else v
    return os.path.normpath(os.path.join(d, os.path.dirname(name), v.lstrip("@"))), None, v


def list_job(part, item):
    form, mode, lists = item
    _, build, name, want = {f[0]: f for f in forms()}[form]
    if mode == "beside" and form == "deeper":
        return
    for L in lists:
        if form in SEVERAL and any(c in x for x in L for c in "()[]{}"):
            continue
        d = vf.scratch("l")
        try:
            part.add()
            part.seen((form, mode, tuple(L)))
            told = f"{form}, {mode}: list {L}"
            path, err, v = load(d, build(L), name, mode)
            if err:
                part.violation(f"{told}: {err}", f"refused:{told}")
                continue
            try:
                got = read(path)
            except OSError as e:
                part.violation(f"{told}: the value {v!r} names no file: {e}", f"nofile:{told}")
                continue
            w = want(L)
            if got != w:
                if [g.replace("\\`", "`") for g in got] == w:
                    part.violation(f"a list item with a backquote and a character that needs quoting has '\\`' for '`' in the file ({told}: {got})", "backquote")
                else:
                    part.violation(f"{told}: the file holds {got}, should hold {w}", f"lines:{told}")
                continue
            left = [n for p, _, ns in os.walk(d) for n in ns if ".gyp." in n or n.endswith(".tmp")]
            if left:
                part.violation(f"{told}: leaves {left}", f"left:{told}")
            part.count("lists")
        finally:
            vf.rmtree(d)


def history_job(part, item):
    """Loading again writes the file only if the list is another."""
    mode, a, b = item
    d = vf.scratch("l")
    try:
        part.add()
        part.seen((mode, "history", tuple(a), tuple(b)))
        build = next(f for f in forms() if f[0] == "< file variable")[1]
        path, err, _ = load(d, build(a), "a.gyp", mode)
        st = os.stat(path)
        os.utime(path, ns=(10 ** 18, 10 ** 18))
        path2, err2, _ = load(d, build(b), "a.gyp", mode)
        if err or err2 or path != path2:
            raise vf.Bad(f"{mode}: list {a} then {b}: {err} {err2} {path2}", f"history:{mode}:{a}:{b}")
        now = os.stat(path)
        if a == b and (now.st_ino != st.st_ino or now.st_mtime_ns != 10 ** 18):
            part.violation(f"{mode}: list {a} loaded again: the file is written again", f"rewritten:{mode}:{a}")
        if read(path) != b:
            part.violation(f"{mode}: list {a} then {b}: the file holds {read(path)}", f"stale:{mode}:{a}:{b}")
    finally:
        vf.rmtree(d)


def two_job(part, item):
    """Lists of one name in two files are two lists."""
    mode, n1, n2, a, b = item
    d = vf.scratch("l")
    try:
        part.add()
        part.seen(item[:3])
        files = {n1: {"variables": {"items": a}, "targets": [{"target_name": "t", "type": "none", "v": "<|(n.list <@(items))", "dependencies": [os.path.relpath(n2, os.path.dirname(n1) or ".") + ":u"]}]},
                 n2: {"variables": {"items": b}, "targets": [{"target_name": "u", "type": "none", "v": "<|(n.list <@(items))"}]}}
        path, err, _ = load(d, files, n1, mode)
        if err or read(path) != a:
            part.violation(f"{mode}: {n1} and {n2} each with a list of one name: {err or read(path)}", f"two:{mode}:{n1}:{n2}")
    finally:
        vf.rmtree(d)


def build_job(part, item):
    """Through a real build: what an action that is handed the list finds in it."""
    fmt, where, L, phase = item
    root = vf.scratch("lb")
    try:
        part.add()
        part.seen((fmt, where, tuple(L), phase))
        ACT = B.tools() + "/act"
        pre = where + "/" if where != "." else ""
        gyp = {"targets": [{"target_name": "t", "type": "none", "variables": {"items": L}, "actions": [{
            "action_name": "n", "inputs": [f"{phase}|(n.list {phase}@(items))"], "outputs": ["<(PRODUCT_DIR)/o"],
            "action": [ACT, "--out", "<(PRODUCT_DIR)/o", "--in", f"{phase}|(n.list {phase}@(items))"]}]}]}
        told = f"{fmt} in {where}, {phase}: list {L}"
        r = B.generate(root, fmt, {pre + "a.gyp": gyp}, args=(pre + "a.gyp",))
        if not r.ok:
            raise vf.Bad(f"{told}: not generated: {r.stderr[-300:]}", f"gen:{told}")
        x = B.build(root, fmt, targets=["t"])
        calls = x.of("act")
        if x.rc or len(calls) != 1:
            raise vf.Bad(f"{told}: the build ends with {x.rc}, {len(calls)} runs: {x.out[-300:]}", f"build:{told}")
        cwd, argv = calls[0]
        got = read(os.path.join(cwd, argv[-1]))
        if got != L:
            raise vf.Bad(f"{told}: the action finds {got}", f"lines:{told}")
        if B.build(root, fmt, targets=["t"]).calls:
            raise vf.Bad(f"{told}: a second build runs it again", f"again:{told}")
        B.generate(root, fmt, {}, args=(pre + "a.gyp",))
        if B.build(root, fmt, targets=["t"]).calls:
            raise vf.Bad(f"{told}: generating again runs it again", f"regen:{told}")
        gyp["targets"][0]["variables"]["items"] = L + ["new"]
        B.generate(root, fmt, {pre + "a.gyp": gyp}, args=(pre + "a.gyp",))
        x = B.build(root, fmt, targets=["t"])
        if len(x.of("act")) != 1 or read(os.path.join(x.calls[0][0], x.calls[0][1][-1])) != L + ["new"]:
            raise vf.Bad(f"{told}: after the list grew the build runs {x.calls}", f"grown:{told}")
        part.count("builds")
    finally:
        vf.rmtree(root)


def bad_job(part, item):
    d = vf.scratch("l")
    try:
        part.add()
        part.seen(item)
        out = os.path.join(d, "outside.list")
        path, err, v = load(os.path.join(d, "p"), {"a.gyp": {"targets": [{"target_name": "t", "type": "none", "v": item[1].replace("@", out)}]}}, "a.gyp", item[0])
        if not err or os.path.exists(out):
            part.violation(f"{item[0]}: {item[1]!r} is accepted, as {v!r}", f"accepted:{item}")
    finally:
        vf.rmtree(d)


def job(part, item):
    {"list": list_job, "history": history_job, "two": two_job, "build": build_job, "bad": bad_job}[item[0]](part, item[1:])


def main():
    c = vf.Check("C44", "model_checking",
                 f"every list of one item of up to 2 characters (and each character inside, first and last of 3) over {len(CHARS)}, every pair of special items, in every form and place of a file list, beside its file and in the output directory; "
                 "every history of two loads over 12 lists; real make and ninja builds of actions handed the list, regenerated and changed",
                 ["items with line breaks (or ending in white space other than a blank or tab) cannot be told apart in such a file", "text that is itself an expansion is not used as an item", "a list that takes several expansions is given items without brackets: their end is looked for in the text after each"])
    B.tools()
    todo = []
    singles = [[s] for s in items_all() if usable(s)]
    special = ["", "a b", "'", '"', "\\", "$X", "#", "a", "-", "é"]
    pairs = [list(p) for p in itertools.product(special, repeat=2)] + [[], ["a", "b", "c"], ["a", "a"], ["b", "a", "b"]]
    for f in forms():
        for mode in ("out", "beside"):
            whole = vf.THOROUGH or f[0] in ("< file variable", "> target variable", "among words")
            ls = (singles if whole else [x for x in singles if len(x[0]) != 2]) + pairs
            for i in range(0, len(ls), 40):
                todo.append(("list", f[0], mode, ls[i:i + 40]))
    lists = [[], [""], ["a"], ["a "], ["b"], ["a", "b"], ["b", "a"], ["a b"], ["a", ""], ["ab"], ["é"], ["a", "b", "c"]]
    for mode in ("out", "beside"):
        todo += [("history", mode, a, b) for a, b in itertools.product(lists, repeat=2)]
        for n1, n2 in (("a.gyp", "d/b.gyp"), ("d/a.gyp", "e/b.gyp"), ("d/e/a.gyp", "d/b.gyp"), ("d/s/a.gyp", "e/s/b.gyp"), ("d/a.gyp", "a.gyp")):
            todo.append(("two", mode, n1, n2, ["a"], ["b", "c"]))
        for e in ("<|(@ a)", "<|(@)"):
            todo.append(("bad", mode, e))
    for fmt, where, ph in itertools.product(("make", "ninja"), (".", "d", "d/e"), "<>"):
        for L in ([], ["a"], ["a b", "c"], ["it's", '"q"', "\\x", "$(Y)", "#"], ["é", "-n", "100%"]):
            todo.append(("build", fmt, where, L, ph))
    c.sample({"case": ["a b", "'"], "file": "a b\\n'\\n"})
    vf.pmap(c, job, todo, chunk=2)
    return c.finish()


vf.main(main)
