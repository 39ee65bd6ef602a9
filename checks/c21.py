"""C21: --check accepts exactly the plain build files, with the loader's values, over a bounded grammar of expressions and of what surrounds them."""
import contextlib
import io
import itertools
import os
import sys
import warnings

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import gypdrv  # noqa: E402
import vf  # noqa: E402
import gyp  # noqa: E402

warnings.simplefilter("ignore")

STRINGS = ["'a'", '"a"', "'''a\nb'''", "r'\\d'", "'a' 'b'", "u'x'", "''", "'\\u00e9'", "'é'", "'a\\nb'", "'\\''", "('a')", "'x' # c\n", "'a'\\\n'b'", "'100'", "'\\x41'", "'# no'", "'a\t'"]
NUMBERS = ["0", "7", "0x10", "1_0", "0o17", "0b1", "(3)", "12345678901234567890"]
EMPTY = ["[]", "{}", "[ ]", "[\n]", "{ # c\n}"]
PLAIN = STRINGS + NUMBERS + EMPTY
CANARY = "[c for c in ().__class__.__base__.__subclasses__() if c.__name__ == 'BuiltinImporter'][0].load_module('posix').mkdir(%r)"
CODE = ["1.5", "1j", "b'a'", "f'a'", "f'{1}'", "('a',)", "()", "('a', 'b')", "{'a'}", "{*[]}", "name", "...", "(lambda: 'a')", "'a' + 'b'", "'%s' % 'a'", "'a' * 2", "['a'] + []", "'a'.upper", "'a'.upper()", "str('a')",
        "[x for x in []]", "{k: 'v' for k in []}", "{x for x in []}", "(x for x in [])", "'a' if 1 else 'b'", "not 'a'", "1 < 2", "'a' and 'b'", "[*[]]", "{**{}}", "{'p': 'q', **{}}", "(x := 'a')", "['a'][0]", "'abc'[1:]", "{'k': 'v'}['k']",
        "+1", "~1", "'a' 'b' f'c'", "(yield)", "[].append", "__import__('os')", "__builtins__", "{}.keys()", "{'a': 'b'} | {}", CANARY]
BROKEN = ["'a", "[", "]", "{", "'a' 'b", "{'a'}}", "{'a': }", "{'a' 'b': }", "[,]", "{,}", "0x", "1__0", "012", "'\\x4'", "a b", "=", "if 1: 2", "'a'; 'b'", "$", "'a' = 'b'", "{'a': 'b',, }", "'\n'", "[}", "r'\\'", "import os", "pass", "'\\N{nothing}'"]
BADKEYS = ["1", "['a']", "('a',)", "b'k'", "f'k'", "name", "'a' + 'b'", "{'q': 1}['q']", "1.5", "'k'.upper()", CANARY]
KEYS = [("'k'", '"k"'), ("'k'", "'' 'k'"), ("'k'", "'\\x6b'"), ("'k'", "'k'"), ("'k='", "'k='"), ("'k+'", "'k' '+'"), ("''", '""'), ("'é'", "'\\u00e9'"), ("r'k'", "u'k'")]
DISTINCT = [("'k'", "'K'"), ("'k'", "'k '"), ("'k'", "'k='"), ("'k='", "'k+'"), ("'k'", "'kk'"), ("'é'", "'e'"), ("''", "' '")]
BEFORE = ["", " ", "\t", "\n", "\n\n", "# c\n", " # c\n", "\n ", "# c\n ", "\ufeff", "\x0c", "\\\n", "\r\n", " \n", "(", "((", "# coding: latin-1\n", ";", "x = ", "return ", "'doc'\n", "import os\n", "{}\n", "{};", "pass;", "*", "-", "not ", "await ", "\x00", "'''\n'''", "lambda: ", "@x\n", "%"]
AFTER = ["", " ", "\n", "\n\n", ";", "\n;", "; ", ";\n", " # c", "\n# c", "\n  # c", "\n  # c\n", "\n ", "\n\t", ")", "))", ",", ", {}", "\n{}", "; {}", "\\", "\\\n", "\x0c", "\x00", "\x1a", "\r\n", "\r", " # c\r\n", ".x", "[0]", "()", " or {}", " if 1 else {}", "\npass", "\n# é", ": int", " = {}", "'''"]


def shapes(e):
    """Where an expression can stand within a target's own key."""
    yield "value", f"{{'x': {e}}}"
    yield "item", f"{{'x': [{e}]}}"
    yield "second", f"{{'x': ['p', {e}, 'q',]}}"
    yield "deep", f"{{'x': [{{'y': [['p'], {e}]}}]}}"
    yield "deepkey", f"{{'x': {{'y': {{'z': {e}, 'w': 'p'}}}}}}"


def whole(part_text, kind, before="", after=""):
    """(files, file with the text) putting a dictionary text into a build file."""
    ok_target = "{'target_name': 't', 'type': 'none', 'extra': %s}"
    if kind == "target":
        return {"a.gyp": before + "{'targets': [%s]}" % (ok_target % part_text) + after}, "a.gyp"
    if kind == "include":
        return {"a.gyp": "{'includes': ['i.gypi'], 'targets': [%s]}" % (ok_target % "'-'"), "i.gypi": before + "{'target_defaults': {'more': %s}}" % part_text + after}, "i.gypi"
    if kind == "nested":
        return {"a.gyp": "{'targets': [{'includes': ['d/i.gypi'], 'target_name': 't', 'type': 'none'}]}", "d/i.gypi": "{'includes': ['../j.gypi']}", "j.gypi": before + "{'extra': %s}" % part_text + after}, "j.gypi"
    if kind == "forced":
        return {"a.gyp": "{'targets': [%s]}" % (ok_target % "'-'"), "f.gypi": before + "{'target_defaults': {'more': %s}}" % part_text + after}, "f.gypi"
    return {"a.gyp": "{'targets': [{'target_name': 'u', 'type': 'none', 'dependencies': ['b/b.gyp:t']}]}", "b/b.gyp": before + "{'targets': [%s]}" % (ok_target % part_text) + after}, "b/b.gyp"


def load(root, kind, check):
    """What gyp makes of the files, in this process."""
    sys.modules.pop("capgen", None)
    out, err = io.StringIO(), io.StringIO()
    argv = ["--depth=.", "-f", gypdrv.CAPGEN, "--no-parallel", "a.gyp"] + (["-If.gypi"] if kind == "forced" else []) + (["--check"] if check else [])
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        try:
            status, text = gyp.main(argv), ""
        except SystemExit as e:
            status, text = e.code or 1, ""
        except BaseException as e:  # noqa: BLE001
            status, text = "exc", f"{type(e).__name__}: {e} {getattr(e, 'filename', '')}"
    m = sys.modules.get("capgen")
    return status, out.getvalue() + err.getvalue() + text, m.captured[-1] if m is not None and m.captured and status == 0 else None


def case_job(part, item):
    label, kind, text, before, after, want = item
    root = vf.scratch("k")
    canary = os.path.join(root, "ran")
    text = text.replace(CANARY, CANARY % canary)
    try:
        files, bad = whole(text, kind, before, after)
        for n, s in files.items():
            os.makedirs(os.path.dirname(os.path.join(root, n)), exist_ok=True)
            with open(os.path.join(root, n), "w", encoding="utf-8", newline="") as f:
                f.write(s)
        os.chdir(root)
        part.add(2)
        part.seen((kind, before, text, after))
        checked, said, got = load(root, kind, True)
        if os.path.exists(canary):
            raise vf.Bad(f"{label} in {kind}: the code in the file was run: {files[bad]!r}", f"ran:{label}:{kind}")
        plain_status, plain_said, plain_got = load(root, kind, False)
        if want == "same":  # whatever surrounds the dictionary: what loading accepts
            want = "plain" if plain_status == 0 else "refused"
        part.count(want.split()[0])
        if want == "plain":
            if plain_status != 0:
                raise AssertionError(f"does not load: {files} {plain_said}")
            if checked != 0:
                part.violation(f"{label} in {kind}: {files[bad]!r} is refused with checking on: {said[-300:]}", f"refused:{label}:{kind}")
            elif got != plain_got or repr(got) != repr(plain_got):
                part.violation(f"{label} in {kind}: {files[bad]!r} loads as {got} with checking, {plain_got} without", f"value:{label}:{kind}")
        elif checked == 0:
            part.violation(f"{label} in {kind}: {files[bad]!r} is accepted with checking on", f"accepted:{label}:{kind}")
        elif bad not in said:
            part.violation(f"{label} in {kind}: the error does not name {bad}: {said[-300:]}", f"place:{label}:{kind}")
        elif want.startswith("at ") and want[3:] not in said:
            part.violation(f"{label} in {kind}: the error for {files[bad]!r} does not name the place {want[3:]!r}: {said[-300:]}", f"path:{label}:{kind}")
        elif want == "repeated" and "repeated" not in said:
            part.violation(f"{label} in {kind}: the error does not speak of the repeated key: {said[-300:]}", f"why:{label}:{kind}")
    finally:
        os.chdir("/")
        vf.rmtree(root)


def cases():
    kinds = ["target", "include", "nested", "forced", "dependency"]
    for e in PLAIN:
        for where, t in shapes(e):
            for k in kinds:
                yield f"{where} {e!r}", k, t, "", "", "plain"
    for a, b in itertools.product(PLAIN, repeat=2):
        yield f"pair {a!r} {b!r}", "target", f"{{'x': [{a}, {b}], 'y': {{'p': {a}, 'q': {b}}}}}", "", "", "plain"
        if vf.THOROUGH:
            for c in PLAIN:
                yield f"three {a!r} {b!r} {c!r}", "target", f"[{a}, {{'x': [{b}], 'y': {{'p': {c}}}}}]", "", "", "plain"
    for e in CODE + BROKEN:
        for where, t in shapes(e):
            for k in kinds:
                yield f"{where} {e!r}", k, t, "", "", "refused"
    for e in CODE:
        for p in PLAIN if vf.THOROUGH else ["'a'", "7", "{}"]:
            yield f"beside {p!r}: {e!r}", "target", f"{{'x': {p}, 'y': [{p}, {e}]}}", "", "", "refused"
            yield f"before {p!r}: {e!r}", "target", f"{{'x': [{e}, {p}], 'y': {p}}}", "", "", "refused"
    for e in BADKEYS:
        for k in kinds:
            for t in (f"{{{e}: 'a'}}", f"{{'x': {{{e}: 'a'}}}}", f"{{'x': [{{'p': 'q', {e}: 'a'}}]}}", f"{{'x': {{'p': 'q', {e}: {{}}}}}}"):
                yield f"key {e!r}", k, t, "", "", "refused"
    for (a, b), k in itertools.product(KEYS, kinds):
        for t in (f"{{{a}: 'p', {b}: 'p'}}", f"{{'x': {{{a}: 'p', 'm': [], {b}: 'q'}}}}", f"{{'x': [[], {{{a}: {{}}, {b}: {{}}}}]}}", f"{{'x': {{'y': {{'z': [{{{a}: 1, {b}: 1}}]}}}}}}"):
            yield f"keys {a} {b}", k, t, "", "", "repeated"
    for (a, b), k in itertools.product(DISTINCT, kinds):
        merged = "k" in a and "=" in b or "+" in b
        for t in (f"{{'x': {{{a}: 'p', {b}: 'q'}}}}", f"{{'x': [{{{a}: 'p'}}, {{{b}: 'p'}}, {{{a}: 'p'}}]}}", f"{{'x': {{{a}: {{{a}: 'p'}}}}}}"):
            if not merged or k == "target":
                yield f"keys {a} {b}", k, t, "", "", "same"
    for b, a in itertools.product(BEFORE, AFTER):
        for k in kinds if vf.THOROUGH or not b or not a else ["target", "include"]:
            code = {b, a} & {"not ", "lambda: ", "await ", "*", "-", ".x", "[0]", "()", " or {}", " if 1 else {}"}
            yield f"file {b!r} {a!r}", k, "{'x': ['a', 1]}", b, a, "refused" if code else "same"
    for n in (20, 90):
        yield f"nesting {n}", "target", "[" * n + "'a'" + "]" * n, "", "", "same"
        yield f"nesting {n}", "target", "{'k': " * n + "'a'" + "}" * n, "", "", "same"
    # an error names the key path of what is wrong, whatever precedes it on each level
    before = ["", "'a'", "['p', ['q']]", "{'k': ['p', {'m': 'n'}]}"]
    steps = [("l", b, n) for b in before for n in (0, 1, 2) if b or not n] + [("d", b, n) for b in before for n in (0, 1, 2) if b or not n]
    steps = [s for s in steps if bool(s[1]) == bool(s[2])]
    for depth in (1, 2, 3) if vf.THOROUGH else (1, 2):
        for chain in itertools.product(steps, repeat=depth):
            for bad in ("1.5", "{'w': 'p', 'w': 'q'}"):
                text, path = bad, []
                for kind, b, n in reversed(chain):
                    if kind == "l":
                        text, path = "[" + f"{b}, " * n + text + ", 'z']", [str(n), *path]
                    else:
                        text, path = "{" + "".join(f"'b{i}': {b}, " for i in range(n)) + f"'here': {text}, 'z': 'z'}}", ["here", *path]
                yield f"place {'.'.join(path)}", "target", text, "", "", "at targets.0.extra." + ".".join(path) + "'"
    # the dictionary of the file itself
    for t in ("{'targets': [], 'targets': []}", "{'variables': {}, 'targets': [], 'variables': {}}"):
        yield "file keys", "raw", t, "", "", "repeated"


def raw_job(part, item):
    text = item[2]
    root = vf.scratch("k")
    try:
        with open(os.path.join(root, "a.gyp"), "w") as f:
            f.write(text)
        os.chdir(root)
        part.add()
        status, said, _ = load(root, "raw", True)
        if status == 0 or "a.gyp" not in said or "repeated" not in said:
            part.violation(f"{text!r} ends with {status}: {said[-300:]}", f"raw:{text}")
    finally:
        os.chdir("/")
        vf.rmtree(root)


def job(part, item):
    (raw_job if item[1] == "raw" else case_job)(part, item)


def main():
    c = vf.Check("C21", "model_checking", "every plain literal, every other kind of expression and every malformed one in every position (value, item, key, nested) of a target, an include, a nested include, a forced include and a dependency's file; "
                 "every pair of plain literals; every pair of what may stand before and after a file's dictionary; every spelling of a repeated key; loaded with and without checking",
                 ["signed numbers, booleans and None are not judged", "a file that fails to load without checking must fail with it, for whatever surrounds its dictionary"])
    items = list(cases())
    c.sample({"cases": len(items)})
    vf.pmap(c, job, items)
    return c.finish()


vf.main(main)
