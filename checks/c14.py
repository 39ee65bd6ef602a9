"""C14: every define / action argument / rule argument reaches the command verbatim, through real make, ninja and sh."""
import itertools
import json
import os
import re
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import buildlab as B  # noqa: E402
import vf  # noqa: E402

ALPHA = "aB0 \t!\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~é"
HARD = " \"#$'()*;<=\\`|~a:"
EXPANSION = re.compile(r"[<>^](!?@?|\|)?\(")  # gyp's own expansion syntax, not data


def strings():
    s = [""] + list(ALPHA) + [a + b for a in ALPHA for b in ALPHA]
    s += ["".join(t) for t in itertools.product(ALPHA if vf.THOROUGH else HARD, repeat=3)]
    if vf.THOROUGH:
        s += ["".join(t) for t in itertools.product("\\#$\"' a", repeat=4)]
    return [x for x in dict.fromkeys(s) if not EXPANSION.search(x)]


def longs():
    """Strings around the line-wrapping width, with every gap of up to 3 blanks at every offset."""
    for n in range(1, 100):
        for gap in (1, 2, 3):
            yield "w" * n + " " * gap + "y" * 70 + " " * gap + "z$"[: 1 + (n % 2)]


def compdb_split(command):
    """Splits a compilation-database command: blanks separate, '"' quotes and '\\' escapes are the only special characters
    (every other shell character, having been quoted, stands for itself)."""
    out, cur, quoted, i = [], None, False, 0
    while i < len(command):
        c = command[i]
        if c == "\\":
            i += 1
            cur = (cur or "") + command[i]
        elif c == '"':
            quoted = not quoted
            cur = cur or ""
        elif c in " \t" and not quoted:
            if cur is not None:
                out.append(cur)
            cur = None
        else:
            cur = (cur or "") + c
        i += 1
    if quoted:
        raise ValueError("unterminated quote in " + command)
    return out + ([cur] if cur is not None else [])


def check(where, want, got, part):
    if got == want:
        return
    for i, w in enumerate(want):
        if i >= len(got) or got[i] != w:
            raise vf.Bad(f"{where}: argument {w!r} arrived as {got[i] if i < len(got) else None!r} "
                         f"({len(got)} of {len(want)} arguments)", f"{where}:{w!r}", argument=w)
    raise vf.Bad(f"{where}: extra arguments {got[len(want):]}", f"{where}:extra")


def job(part, item):
    fmt, kind, group = item
    root = vf.scratch("c14")
    try:
        act = B.tools() + "/act"
        src = "a.c"
        files = {"a.c": "", "b.cc": "", "d/in.x": ""}
        t = {"target_name": "t", "type": "static_library", "sources": ["a.c", "b.cc"]}
        if kind == "define":
            t["defines"] = [f"D{i}={s}" for i, s in enumerate(group)]
        elif kind == "confdefine":
            t["configurations"] = {"Default": {"defines": [f"D{i}={s}" for i, s in enumerate(group)]}}
        elif kind == "action":
            t = {"target_name": "t", "type": "none", "actions": [
                {"action_name": "n", "inputs": [], "outputs": ["<(INTERMEDIATE_DIR)/o"],
                 "action": [act, "--out", "<(INTERMEDIATE_DIR)/o", "--args"] + [f"A{i}{s}" for i, s in enumerate(group)]}]}
        elif kind == "bareaction":
            t = {"target_name": "t", "type": "none", "actions": [
                {"action_name": "n", "inputs": [], "outputs": ["<(INTERMEDIATE_DIR)/o"],
                 "action": [act, "--out", "<(INTERMEDIATE_DIR)/o", "--args"] + list(group)}]}
        elif kind == "rule":
            t = {"target_name": "t", "type": "none", "sources": ["in.x"], "rules": [
                {"rule_name": "r", "extension": "x", "outputs": ["<(INTERMEDIATE_DIR)/<(RULE_INPUT_ROOT).o"],
                 "action": [act, "--out", "<(INTERMEDIATE_DIR)/<(RULE_INPUT_ROOT).o", "--args"] + [f"A{i}{s}" for i, s in enumerate(group)]}]}
        gypfile = "d/a.gyp" if kind == "rule" else "a.gyp"
        files[gypfile] = {"targets": [t]}
        r = B.generate(root, fmt, files, args=(gypfile,))
        where = f"{fmt} {kind}"
        if not r.ok:
            raise vf.Bad(f"{where}: not generated for {group[:5]}...: {r.status} {r.stderr[-400:]}", f"gen:{where}")
        for s in group:
            part.add()
            part.seen((fmt, kind, s))
        if fmt == "compile_commands_json":
            with open(os.path.join(root, "out/Default/compile_commands.json"), encoding="utf-8") as f:
                db = json.load(f)
            if sorted(os.path.basename(e["file"]) for e in db) != ["a.c", "b.cc"]:
                raise vf.Bad(f"{where}: entries {[e['file'] for e in db]}", f"{where}:entries")
            for e in db:
                try:
                    argv = compdb_split(e["command"])
                except (ValueError, IndexError) as x:
                    raise vf.Bad(f"{where}: unparsable command: {x}", f"{where}:unparsable") from None
                check(where, t.get("defines") or t["configurations"]["Default"]["defines"], [a[2:] for a in argv if a.startswith("-D")], part)
                if argv[-1] != e["file"] or os.path.realpath(e["file"]) != os.path.realpath(os.path.join(root, os.path.basename(e["file"]))):
                    raise vf.Bad(f"{where}: {argv[-1]} vs file {e['file']}", f"{where}:file")
            return
        x = B.build(root, fmt, unprivileged=True)
        calls = x.of("act") if kind in ("action", "bareaction", "rule") else x.of("cc", "cxx")
        compiles = [c for c in calls if kind in ("action", "bareaction", "rule") or "-c" in c[1]]
        if len(compiles) != (1 if kind in ("action", "bareaction", "rule") else 2) or x.rc != 0:
            check(where, ["A%d%s" % (i, s) for i, s in enumerate(group)], [], part) if len(group) == 1 else None
            raise vf.Bad(f"{where}: build of {group[:4]}... exits {x.rc} after {len(compiles)} commands: {x.out[-300:]}", f"build:{where}:{group[0]!r}")
        for _, argv in compiles:
            if "define" in kind:
                check(where, [f"D{i}={s}" for i, s in enumerate(group)], [a[2:] for a in argv if a.startswith("-D")], part)
            elif kind == "bareaction":
                check(where, list(group), argv[4:], part)
            else:
                check(where, [f"A{i}{s}" for i, s in enumerate(group)], argv[4:], part)
        y = B.build(root, fmt, unprivileged=True)
        if y.calls or y.rc != 0:
            raise vf.Bad(f"{where}: a second build runs {len(y.calls)} commands again, exit {y.rc} ({group[0]!r}...)", f"{where}:again:{group[0]!r}")
        part.sample({"format": fmt, "position": kind, "arguments": [repr(s) for s in group[:3]]}, 1)
    finally:
        vf.rmtree(root)


FLAGS = ["-Wall", "-O2", "-fno-x", "-g", "-std=c++17", "-Wl,-z,now", "-m64", "-Wall"]


def flags_job(part, item):
    """Plain flags and include directories of the right language and configuration arrive, in order, once each per spelling."""
    fmt, sel = item
    root = vf.scratch("c14f")
    try:
        keys = ["cflags", "cflags_c", "cflags_cc", "include_dirs", "defines"]
        conf = {}
        for c in ("Default", "Other"):
            d = conf[c] = {}
            for k, pick in zip(keys, sel):
                if not pick:
                    continue
                tag = c[0].lower()
                d[k] = {"cflags": [f"-f{tag}1", f"-f{tag}2"], "cflags_c": [f"-c{tag}"], "cflags_cc": [f"-x{tag}"],
                        "include_dirs": [f"i{tag}", "../up" + tag, f"/abs/{tag}"], "defines": [f"{tag}=1"]}[k][:pick]
        t = {"target_name": "t", "type": "static_library", "sources": ["a.c", "b.cc", "c.cpp"], "configurations": conf, "default_configuration": "Default"}
        r = B.generate(root, fmt, {"d/a.gyp": {"targets": [t]}, "d/a.c": "", "d/b.cc": "", "d/c.cpp": ""}, args=("d/a.gyp",))
        if not r.ok:
            raise vf.Bad(f"{fmt} flags {sel}: {r.stderr[-300:]}", f"flaggen:{fmt}:{sel}")
        for c in ("Default", "Other"):
            part.add()
            part.seen((fmt, sel, c))
            cases = []
            if fmt == "compile_commands_json":
                with open(os.path.join(root, f"out/{c}/compile_commands.json")) as f:
                    cases = [(compdb_split(e["command"]), e["directory"], os.path.basename(e["file"])) for e in json.load(f)]
            else:
                x = B.build(root, fmt, config=c)
                if x.rc:
                    raise vf.Bad(f"{fmt} flags {sel} {c}: build exits {x.rc} {x.out[-300:]}", f"flagbuild:{fmt}:{sel}")
                for cwd, argv in x.of("cc", "cxx"):
                    if "-c" in argv:
                        src = [a for a in argv if a.endswith((".c", ".cc", ".cpp"))]
                        cases.append((argv, cwd, os.path.basename(src[0]) if src else None))
                        if (os.path.basename(argv[0]) == "cc") != (src[0].endswith(".c")):
                            raise vf.Bad(f"{fmt}: {src[0]} compiled by {argv[0]}", f"compiler:{fmt}")
            if sorted(n for _, _, n in cases) != ["a.c", "b.cc", "c.cpp"]:
                raise vf.Bad(f"{fmt} flags {sel} {c}: compiled {[n for _, _, n in cases]}", f"flagsrc:{fmt}:{sel}")
            for argv, cwd, name in cases:
                lang = "cflags_c" if name.endswith(".c") else "cflags_cc"
                want = conf[c].get("cflags", []) + conf[c].get(lang, [])
                got = [a for a in argv if re.match(r"-(f[do]\d|c[do]$|x[do]$)", a)]
                inc = [os.path.normpath(os.path.join(cwd, a[2:])) for a in argv if a.startswith("-I")]
                winc = [os.path.normpath(os.path.join(root, "d", i)) for i in conf[c].get("include_dirs", [])]
                dfs = [a[2:] for a in argv if a.startswith("-D")]
                if got != want or inc != winc or dfs != conf[c].get("defines", []):
                    raise vf.Bad(f"{fmt} {c} {name}: flags {got} want {want}; includes {inc} want {winc}; defines {dfs} want "
                                 f"{conf[c].get('defines', [])}", f"flags:{fmt}:{c}:{name}")
    finally:
        vf.rmtree(root)


def groups(items, n):
    items = list(items)
    return [tuple(items[i:i + n]) for i in range(0, len(items), n)]


def run():
    ck = vf.Check("C14", "model_checking",
                  f"every string of length <= 2 over {len(ALPHA)} characters and every string of length 3 over "
                  f"{len(ALPHA) if vf.THOROUGH else len(HARD)} of them, as define, configuration define, action argument (alone and glued) and rule "
                  "argument, in make, ninja and the compilation database; all lengths around the wrapping width",
                  ["/bin/sh is the shell; newlines are not part of an argument; '$' in action arguments is the generators' variable syntax"])
    B.tools()
    S, L = strings(), list(longs())
    N = [s for s in S if "$" not in s]
    items = []
    for g in groups(S, 120):
        items += [(f, "define", g) for f in ("make", "ninja", "compile_commands_json")]
    for g in groups([s for s in S if len(s) <= 2] + L, 120):
        items += [(f, "confdefine", g) for f in ("make", "ninja", "compile_commands_json")]
    for g in groups(N + [s.replace("$", "") for s in L], 120):
        items += [(f, k, g) for f in ("make", "ninja") for k in ("action", "rule")]
    for g in groups([s for s in N if s != ""], 120):
        items += [(f, "bareaction", g) for f in ("make", "ninja")]
    vf.pmap(ck, job, items, chunk=2)
    vf.pmap(ck, flags_job, [(f, sel) for f in ("make", "ninja", "compile_commands_json") for sel in itertools.product((0, 1, 2), repeat=5)
                            if vf.THOROUGH or sum(1 for v in sel if v) in (0, 1, 2, 5)], chunk=4)
    ck.extra["states"] = len(ck.nontrivial)
    ck.extra["transitions"] = ck.evaluations
    return ck.finish()


if __name__ == "__main__":
    vf.main(run)
