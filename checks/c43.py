"""C43: every command expansion of a bounded grammar, in every place of a project: what is run, where, how often, what comes of it."""
import itertools
import os
import shlex
import subprocess
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import gypdrv  # noqa: E402
import vf  # noqa: E402

PROGRAM = r"""
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <fcntl.h>
#include <signal.h>
#include <unistd.h>
int main(int n, char **a) {
  char cwd[4096], rec[65536]; size_t k = 0; int i;
  getcwd(cwd, sizeof cwd);
  k += sprintf(rec + k, "%s", cwd) + 1;
  for (i = 1; i < n; i++) k += sprintf(rec + k, "%s", a[i]) + 1;
  k += sprintf(rec + k, "\n") + 1;
  i = open(getenv("VF_CMDLOG"), O_WRONLY | O_APPEND | O_CREAT, 0600);
  write(i, rec, k); close(i);
  if (n > 2 && !strcmp(a[1], "emit")) {
    char p[5000]; int c; FILE *f;
    sprintf(p, "%s/%s", getenv("VF_OUT"), a[2]);
    f = fopen(p, "r"); if (!f) return 9;
    while ((c = getc(f)) != EOF) putchar(c);
    if (n > 3) fprintf(stderr, "noise\n");
    return 0;
  }
  if (n > 2 && !strcmp(a[1], "fail")) { printf("some output"); return atoi(a[2]); }
  if (n > 2 && !strcmp(a[1], "sig")) { printf("some output"); fflush(stdout); kill(getpid(), atoi(a[2])); }
  if (n > 1 && !strcmp(a[1], "where")) { printf("%s", cwd); }
  for (i = 2; i < n; i++) printf("%s%s", i > 2 || !strcmp(a[1], "where") ? " " : "", a[i]);
  return 0;
}
"""
PYMOD = "import os\ndef DoMain(args):\n    return ' '.join(['py', os.path.realpath('.')] + args)\n"
OUT = {"empty": "", "word": "vv", "line": "vv\n", "two": "a b\n", "num": "12\n", "zero": "007\n", "neg": "-5", "lead": "  a", "tail": "a \t\n\n", "lines": "a\n b\n\nc\n", "quoted": "'q r' s\\ t \"u\"\n", "utf": "é ü\n",
       "dash": "-x --y=z\n", "dollar": "$HOME $(X) `id`\n", "hash": "a # b\n", "cr": "a\r\n", "star": "* ?\n", "eq": "k=v\n", "bang": "!x /y/\n", "paren": "a)b(c\n", "bracket": "[x]\n", "slash": "/abs/p\n", "dots": "../up\n"}
BAD = {"fail 1": None, "fail 255": None, "fail 77": None, "sig 9": None, "sig 15": None, "sig 6": None, "missing": None, "emit bytes": None}
_dir = None


def tools():
    """Program and outputs, once."""
    global _dir
    if _dir is None:
        _dir = os.path.join(vf.scratch_root(), "cmd")
        os.makedirs(_dir + "/bin")
        os.makedirs(_dir + "/out")
        with open(_dir + "/c.c", "w") as f:
            f.write(PROGRAM)
        subprocess.check_call(["gcc", "-O1", "-w", "-o", _dir + "/bin/vfcmd", _dir + "/c.c"])
        os.link(_dir + "/bin/vfcmd", _dir + "/bin/vfpy")
        for n, t in OUT.items():
            with open(f"{_dir}/out/{n}", "w", newline="") as f:
                f.write(t)
        with open(_dir + "/out/bytes", "wb") as f:
            f.write(b"\xff\xfe a")
    return _dir


def canonical(s):
    return s  # generators are handed strings only


def words(s):
    return [canonical(w) for w in shlex.split(s)]


# ------------------------------------------------------------------------- forms
# name -> (text with S for the phase sign and N for the output's name, the commands it runs, value of the output(s), gives a list)
def forms(n):
    out = OUT[n].rstrip()
    run = ("emit", n)
    yield "shell", f"S!(vfcmd emit {n})", [run], canonical(out), False
    yield "shell @", f"S!@(vfcmd emit {n})", [run], words(out) if balanced(out) else None, True
    yield "argv", f'S!(["vfcmd", "emit", "{n}"])', [run], canonical(out), False
    yield "argv @", f"S!@(['vfcmd', 'emit', '{n}'])", [run], words(out) if balanced(out) else None, True
    yield "spaces", f"S!(  vfcmd emit {n} )", [run], canonical(out), False
    yield "spaced @", f"S!@( vfcmd emit {n})", [run], words(out) if balanced(out) else None, True
    yield "spaced argv", f"S!( ['vfcmd','emit','{n}'] )", [run], canonical(out), False
    yield "inside", f"p S!(vfcmd emit {n})q", [run], f"p {out}q", False
    yield "inside @", f"pS!@(vfcmd emit {n})q", [run], f"p{out}q", False
    yield "twice", f"S!(vfcmd emit {n})S!(vfcmd emit {n})", [run], canonical(out + out), False
    yield "two", f"S!(vfcmd emit {n}):S!(['vfcmd', 'emit', 'word'])", [run, ("emit", "word")], f"{out}:vv", False
    yield "variable", f"S!(vfcmd emit {n} S(extra))", [run + ("x",)], canonical(out), False
    yield "argv variable", f"S!(['vfcmd', 'emit', '{n}', 'S(extra)'])", [run + ("x",)], canonical(out), False
    yield "noise", f"S!(vfcmd emit {n} noise)", [run + ("noise",)], canonical(out), False
    yield "sequence", f"S!(vfcmd emit {n}; vfcmd emit word)", [run, ("emit", "word")], canonical(OUT[n] + "vv"), False
    yield "pipe", f"S!(vfcmd emit {n} | (cat))", [run], canonical(out), False
    yield "redirect", f"S!(vfcmd emit {n} 2>/dev/null 1>&1)", [run], canonical(out), False
    if "\n" not in out and balanced(out) and not set(out) & set("$`*?#()!"):
        w = [str(x) for x in shlex.split(out)]
        yield "nested", f"S!(vfcmd echo S!(vfcmd emit {n}))", [run, ("echo", *w)], canonical(" ".join(w).rstrip()), False
        yield "nested @", f"S!@(vfcmd echo 'z' S!(vfcmd emit {n}))", [run, ("echo", "z", *w)], words(" ".join(["z", *w])) if balanced(" ".join(w)) else None, True


def balanced(s):
    try:
        shlex.split(s)
        return True
    except ValueError:
        return False


def verbatim():
    """Words of an argv command reach it as they are."""
    for ws in (["a b", "$HOME", "*"], ["'", "é", ";"], ["&&", "|", ">x"], ["", " ", "~"], ["-n", "\\", "`id`"]):
        yield f"argv words {ws}", "S!(" + repr(["vfcmd", "echo", *ws]) + ")", [("echo", *ws)], canonical(" ".join(ws).rstrip()), False
    yield "shell words", "S!(vfcmd echo \"a  b\" 'c d' $MARK \\* \"(x)\")", [("echo", "a  b", "c d", "m", "*", "(x)")], "a  b c d m * (x)", False
    yield "shell parens", "S!(vfcmd echo $(vfcmd echo in) '()')", [("echo", "in"), ("echo", "in", "()")], "in ()", False


# ------------------------------------------------------------------------- places
T = "t"


def target(**kw):
    return {"target_name": T, "type": "none", **kw}


def places():
    """name -> (function of the expression to files, arguments, function of the result to the value, directory, wants a list item, phases)"""
    def own(k="x", q="a.gyp:t#target"):
        return lambda r: field(r, q, k)

    yield "value", lambda e: {"a.gyp": {"targets": [target(x=e)]}}, (), own(), ".", False, "<>^"
    yield "item", lambda e: {"a.gyp": {"targets": [target(x=[e])]}}, (), own(), ".", True, "<>^"
    yield "middle", lambda e: {"a.gyp": {"targets": [target(x=["p", e, "q"])]}}, (), lambda r: own()(r)[1:-1] if own()(r)[0] == "p" and own()(r)[-1] == "q" else own()(r), ".", True, "<>^"
    yield "nested value", lambda e: {"a.gyp": {"targets": [target(x={"y": {"z": e}})]}}, (), lambda r: own()(r)["y"]["z"], ".", False, "<>^"
    yield "nested item", lambda e: {"a.gyp": {"targets": [target(x={"y": [e]})]}}, (), lambda r: own()(r)["y"], ".", True, "<>^"
    yield "dictionary in a list", lambda e: {"a.gyp": {"targets": [target(x=[{"y": e}])]}}, (), lambda r: own()(r)[0]["y"], ".", False, "<>^"
    yield "configuration", lambda e: {"a.gyp": {"targets": [target(configurations={"Default": {"x": e}})]}}, (), own(), ".", False, "<>^"
    yield "action", lambda e: {"a.gyp": {"targets": [target(actions=[{"action_name": "n", "inputs": [], "outputs": ["o"], "action": ["z", e]}])]}}, (), lambda r: r.targets["a.gyp:t#target"]["actions"][0]["action"][1:], ".", True, "<>^"
    yield "file variable", lambda e: {"a.gyp": {"variables": {"v": e}, "targets": [target(x="<(v)")]}}, (), own(), ".", False, "<"
    yield "file variable item", lambda e: {"a.gyp": {"variables": {"v": [e]}, "targets": [target(x=["<@(v)"])]}}, (), own(), ".", True, "<"
    yield "target variable", lambda e: {"a.gyp": {"targets": [target(x="<(v)", variables={"v": e})]}}, (), own(), ".", False, "<"
    yield "defaults", lambda e: {"a.gyp": {"target_defaults": {"x": e}, "targets": [target(), dict(target(), target_name="u")]}}, (), lambda r: both(own()(r), own(q="a.gyp:u#target")(r)), ".", False, "<>^"
    yield "included defaults", lambda e: {"a.gyp": {"includes": ["d/i.gypi"], "targets": [target()]}, "d/i.gypi": {"target_defaults": {"x": e}}}, (), own(), ".", False, "<>^"
    yield "included target", lambda e: {"d/a.gyp": {"targets": [target(includes=["../i.gypi"])]}, "i.gypi": {"x": [e]}}, ("d/a.gyp",), own(q="d/a.gyp:t#target"), "d", True, "<>^"
    yield "another directory", lambda e: {"d/e/a.gyp": {"targets": [target(x=[e])]}}, ("d/e/a.gyp",), own(q="d/e/a.gyp:t#target"), "d/e", True, "<>^"
    yield "dependency's file", lambda e: {"a.gyp": {"targets": [dict(target(), target_name="u", dependencies=["d/b.gyp:t"])]}, "d/b.gyp": {"variables": {"v%": e}, "targets": [target(x="<(v)")]}}, (), own(q="d/b.gyp:t#target"), "d", False, "<"
    yield "taken branch", lambda e: {"a.gyp": {"targets": [target(conditions=[["OS=='linux'", {"x": [e]}, {"x": ["<!(vfcmd fail 3)"]}]])]}}, (), own(), ".", True, "<>^"
    yield "taken else", lambda e: {"a.gyp": {"targets": [target(target_conditions=[["OS!='linux'", {"x": [">!(vfcmd fail 3)"]}, {"x": e}]])]}}, (), own(), ".", False, "<>^"
    yield "both toolsets", lambda e: {"a.gyp": {"targets": [target(x=[e], toolsets=["host", "target"])]}}, (), lambda r: both(own()(r), own(q="a.gyp:t#host")(r)), ".", True, "<>^"
    yield "exported", lambda e: {"a.gyp": {"targets": [target(dependencies=["u"]), dict(target(direct_dependent_settings={"x": [e]}), target_name="u")]}}, (), own(), ".", True, "<>^"
    yield "absolute", lambda e: {"d/a.gyp": {"targets": [target(x=e)]}}, ("@/d/a.gyp",), lambda r: own(q=next(iter(r.targets)))(r), "d", False, "<>^"
    yield "condition", lambda e: {"a.gyp": {"targets": [target(conditions=[["'%s'=='vv'" % e, {"x": "yes"}, {"x": "no"}]])]}}, (), own(), ".", None, "<"
    yield "target condition", lambda e: {"a.gyp": {"targets": [target(target_conditions=[["'%s'=='vv'" % e, {"x": "yes"}, {"x": "no"}]])]}}, (), own(), ".", None, ">"
    yield "untaken branch", lambda e: {"a.gyp": {"targets": [target(x="x", conditions=[["OS!='linux'", {"x": e, "y": [e]}]])]}}, (), own(), ".", "unused", "<>^"
    yield "untaken else", lambda e: {"a.gyp": {"targets": [target(x="x", conditions=[["OS=='linux'", {"z": "1"}, {"y": [e]}]])]}}, (), own(), ".", "unused", "<>^"


def field(r, q, k):
    t = r.targets[q]
    return t.get(k, t["configurations"]["Default"].get(k))


def both(a, b):
    return a if a == b else ("differ", a, b)


def log(path):
    try:
        with open(path, "rb") as f:
            recs = f.read().split(b"\n\0")
    except FileNotFoundError:
        return []
    out = []
    for r in recs:
        if r:
            fields = r.decode("utf-8", "surrogateescape").split("\0")[:-1]
            out.append((fields[0], tuple(fields[1:])))
    return out


def run(d, files, args, env=None, cwd=".", **kw):
    t = tools()
    p = os.path.join(d, "cmdlog")
    args = [a.replace("@", d) for a in args] or ["a.gyp"]
    r = gypdrv.run(files, args=[*args, "-Dextra=x"], root=d, cwd=cwd, env={"VF_CMDLOG": p, "VF_OUT": t + "/out", "PATH": t + "/bin:" + os.environ["PATH"], "MARK": "m", **(env or {})}, **kw)
    return r, log(p)


def place_job(part, item):
    pname, formset, phase = item
    place = {p[0]: p for p in places()}[pname]
    _, build, args, value, where, wants, _ = place
    for fname, text, runs, want, is_list in formset:
        e = text.replace("S!", phase + "!").replace("S(", phase + "(")
        if wants is None and (fname not in ("shell", "spaces", "inside", "variable") or "'" in text or not isinstance(want, str) or not want.isalnum()):
            continue
        d = vf.scratch("x")
        try:
            part.add()
            part.seen((pname, e))
            told = f"{e!r} as {pname}"
            key = f"{pname}:{e}"
            r, ran = run(d, build(e), args)
            if wants == "unused":
                if ran or not r.ok or value(r) != "x":
                    part.violation(f"{told}: runs {ran}, ends with {r.status}", f"unused:{key}")
                continue
            if is_list and wants is False or want is None:
                # a list where none fits, or words that do not pair their quotes
                if r.ok:
                    part.violation(f"{told}: gives {value(r)!r}", f"accepted:{key}")
                continue
            if not r.ok:
                part.violation(f"{told}: {r.status} {r.stderr[-300:]}", f"refused:{key}")
                continue
            if wants is None:
                want = "yes" if want == "vv" else "no"
            elif wants and not is_list:
                want = [want]
            got = value(r)
            if got != want or repr(got) != repr(want):
                part.violation(f"{told}: gives {got!r}, should give {want!r}", f"value:{key}")
            should = sorted((os.path.normpath(os.path.join(d, where)), tuple(x)) for x in runs)
            if sorted(ran) != should:
                part.violation(f"{told}: runs {ran}, should run {should}", f"runs:{key}")
            part.count("expansions")
        finally:
            vf.rmtree(d)


def fail_job(part, item):
    pname, phase = item
    _, build, args, value, where, wants, _ = {p[0]: p for p in places()}[pname]
    for bad in BAD:
        cmd = "vfcmd-none" if bad == "missing" else "vfcmd " + bad
        argv = repr(cmd.split())
        for text in (f"S!({cmd})", f"S!@({cmd})", f"S!({argv})", f"pS!({cmd})", f"S!(vfcmd emit word)S!({cmd})", f"S!({cmd})S!(vfcmd emit word)", f"S!(vfcmd echo S!({cmd}))"):
            e = text.replace("S", phase)
            if wants == "unused" or wants is None and "[" in e:
                continue
            d = vf.scratch("x")
            try:
                part.add()
                part.seen((pname, e))
                r, ran = run(d, build(e), args)
                if r.ok:
                    part.violation(f"{e!r} as {pname}: gyp succeeds, the value is {value(r)!r}", f"failed:{pname}:{e}")
                elif r.status in ("hang", "died"):
                    part.violation(f"{e!r} as {pname}: {r.status}", f"failed:{pname}:{e}")
                elif bad != "emit bytes" and "@" not in e and cmd.split()[-1] not in r.stderr:
                    part.violation(f"{e!r} as {pname}: the error does not name the command: {r.stderr[-200:]}", f"named:{pname}:{e}")
                part.count("failing_commands")
            finally:
                vf.rmtree(d)


# ------------------------------------------------------------------------- pairs
VARIANTS = {"S!(vfcmd where a)": ("where a", "shell"), "S!(vfcmd where  a)": ("where a", "shell2"), "S!(vfcmd where b)": ("where b", "shell"), "S!(['vfcmd', 'where', 'a'])": ("where a", "argv"),
            "S!(['vfcmd', 'where', 'b'])": ("where b", "argv"), "S!(vfpy where a)": ("where a", "vfpy"), "S!pymod_do_main(vfpy where a)": ("where a", "py"), "S!pymod_do_main(vfcmd where a)": ("where a", "pycmd"),
            "S!@(vfcmd where a)": ("where a", "shell"), "S!(vfcmd where 'a b')": ("where|a b", "shell"), "S!(vfcmd where 'a  b')": ("where|a  b", "shell"), "S!(['vfcmd', 'where', 'a', 'b'])": ("where|a|b", "argv")}


def layouts():
    def two(k, a, b):
        return {"target_name": k, "type": "none", "x": [a], "y": [b]}

    def one(k, a, **kw):
        return {"target_name": k, "type": "none", "x": [a], **kw}
    yield "one target", lambda a, b: {"a.gyp": {"targets": [two("t", a, b)]}}, [("a.gyp:t#target", "x", ".", 0), ("a.gyp:t#target", "y", ".", 1)]
    yield "one list", lambda a, b: {"a.gyp": {"targets": [{"target_name": "t", "type": "none", "x": ["p", a, "q", b]}]}}, None
    yield "two targets", lambda a, b: {"a.gyp": {"targets": [one("t", a), one("u", b)]}}, [("a.gyp:t#target", "x", ".", 0), ("a.gyp:u#target", "x", ".", 1)]
    yield "two files", lambda a, b: {"a.gyp": {"targets": [one("t", a, dependencies=["b.gyp:u"])]}, "b.gyp": {"targets": [one("u", b)]}}, [("a.gyp:t#target", "x", ".", 0), ("b.gyp:u#target", "x", ".", 1)]
    yield "two directories", lambda a, b: {"a.gyp": {"targets": [one("t", a, dependencies=["d/b.gyp:u"])]}, "d/b.gyp": {"targets": [one("u", b)]}}, [("a.gyp:t#target", "x", ".", 0), ("d/b.gyp:u#target", "x", "d", 1)]
    yield "sister directories", lambda a, b: {"a.gyp": {"targets": [{"target_name": "r", "type": "none", "dependencies": ["e/b.gyp:t", "d/b.gyp:u"]}]}, "e/b.gyp": {"targets": [one("t", a)]}, "d/b.gyp": {"targets": [one("u", b)]}}, \
        [("e/b.gyp:t#target", "x", "e", 0), ("d/b.gyp:u#target", "x", "d", 1)]
    yield "directories of one name", lambda a, b: {"a.gyp": {"targets": [{"target_name": "r", "type": "none", "dependencies": ["e/s/b.gyp:t", "d/s/b.gyp:u"]}]}, "e/s/b.gyp": {"targets": [one("t", a)]}, "d/s/b.gyp": {"targets": [one("u", b)]}}, \
        [("e/s/b.gyp:t#target", "x", "e/s", 0), ("d/s/b.gyp:u#target", "x", "d/s", 1)]
    yield "two phases", lambda a, b: {"a.gyp": {"targets": [two("t", a.replace("<", ">"), b.replace("<", "^"))]}}, [("a.gyp:t#target", "x", ".", 0), ("a.gyp:t#target", "y", ".", 1)]


def pair_job(part, item):
    lname, a, b, parallel = item
    build, spots = {n: (f, s) for n, f, s in layouts()}[lname]
    if lname == "one list" and ("@" in a + b):
        return
    d = vf.scratch("x")
    try:
        part.add()
        part.seen((lname, a, b, parallel))
        ea, eb = a.replace("S", "<"), b.replace("S", "<")
        files = build(ea, eb)
        for sub in (".", "d", "e", "d/s", "e/s"):
            for n in ("vfpy.py", "vfcmd.py"):
                if sub == "." or any(f.startswith(sub + "/") for f in files):
                    files[os.path.join(sub, n)] = PYMOD
        r, ran = run(d, files, (), parallel=parallel)
        told = f"{ea} and {eb} in {lname}{', parallel' if parallel else ''}"
        if not r.ok:
            part.violation(f"{told}: {r.status} {r.stderr[-300:]}", f"pair:{told}")
            return

        def expect(v, where):
            at = os.path.normpath(os.path.join(d, where))
            text, kind = VARIANTS[v]
            w = text.split("|") if "|" in text else text.split()
            out = f"py {at} {text}" if kind.startswith("py") else f"{at} {' '.join(w[1:])}"
            return out.split() if "@" in v else [out]
        want_cmds = {}
        if spots is None:
            got = field(r, "a.gyp:t#target", "x")
            fix = [expect(a, ".")[0], expect(b, ".")[0]]
            if got != ["p", fix[0], "q", fix[1]]:
                part.violation(f"{told}: gives {got}, should give {fix}", f"pair:{told}")
            used = [(a, "."), (b, ".")]
        else:
            used = []
            for q, k, where, i in spots:
                v = (a, b)[i]
                used.append((v, where))
                want = expect(v, where)
                if field(r, q, k) != want:
                    part.violation(f"{told}: {q} has {field(r, q, k)}, should have {want}", f"pair:{told}")
        for v, where in used:
            text, kind = VARIANTS[v]
            if not kind.startswith("py"):
                want_cmds[(kind, os.path.normpath(os.path.join(d, where)), tuple(text.split("|") if "|" in text else text.split()))] = 1
        least = sorted({(w, c) for _, w, c in want_cmds})
        most = sorted((w, c) for _, w, c in want_cmds)
        if sorted(set(ran)) != least or (not parallel and len(ran) > len(most)):
            part.violation(f"{told}: runs {ran}, should run each of {most} once", f"ran:{told}")
        part.count("pairs")
    finally:
        vf.rmtree(d)


def from_job(part, item):
    """gyp started in another directory: commands still run beside their file."""
    cwd, arg, where = item
    d = vf.scratch("x")
    try:
        part.add()
        part.seen(item)
        os.makedirs(os.path.join(d, cwd), exist_ok=True)
        files = {n: {"variables": {"v": "<!(vfcmd where v)"}, "targets": [{"target_name": "t", "type": "none", "x": ["<!(vfcmd where x)", "<(v)"]}]} for n in ("a.gyp", "d/a.gyp", "d/e/a.gyp")}
        r, ran = run(d, files, (arg,), cwd=cwd)
        at = os.path.normpath(os.path.join(d, where))
        got = next(iter(r.targets.values()))["configurations"]["Default"].get("x") if r.ok else r
        if got != [f"{at} x", f"{at} v"] or sorted(ran) != [(at, ("where", "v")), (at, ("where", "x"))]:
            part.violation(f"in {cwd}, gyp {arg}: {got}, runs {ran}", f"from:{item}")
    finally:
        vf.rmtree(d)


def job(part, item):
    {"place": place_job, "fail": fail_job, "pair": pair_job, "from": from_job}[item[0]](part, item[1:])


def main():
    c = vf.Check("C43", "model_checking",
                 "every form of command expansion x every output x every place in a project x every phase, with a recording program; every failing command in every place; every ordered pair of commands in every layout of "
                 "targets, files and directories, alone and with parallel loading",
                 ["outputs that contain expansions themselves are not judged", "commands whose text differs count as different commands"])
    tools()
    items = []
    names = list(OUT)
    for p in places():
        for phase in p[6]:
            for n in names:
                fs = [f for f in forms(n) if vf.THOROUGH or n in ("word", "two", "quoted", "num", "lines", "empty") or f[0] in ("shell", "shell @", "inside", "nested")]
                items.append(("place", p[0], fs, phase))
            items.append(("place", p[0], list(verbatim()), phase))
            items.append(("fail", p[0], phase))
    for (ln, _, _), a, b in itertools.product(layouts(), VARIANTS, VARIANTS):
        for parallel in (False, True) if "file" in ln or "director" in ln else (False,):
            items.append(("pair", ln, a, b, parallel))
    for cwd, f in itertools.product([".", "d", "d/e", "z"], ["a.gyp", "d/a.gyp", "d/e/a.gyp"]):
        for arg in (os.path.relpath(f, cwd), "@/" + f):
            items.append(("from", cwd, arg, os.path.dirname(f) or "."))
    c.sample({"case": "p<!@(vfcmd emit two)q as an action's argument in an included file"})
    vf.pmap(c, job, items, chunk=4)
    return c.finish()


vf.main(main)
