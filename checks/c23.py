"""C23: command lines written for Windows parse back to the intended arguments (ninja on Windows, Visual Studio 2008 and 2015 projects)."""
import ctypes  # noqa: F401  (before the platform changes)
import itertools
import json
import multiprocessing.pool  # noqa: F401
import os
import subprocess
import sys
import xml.dom.minidom
import xml.sax.saxutils  # noqa: F401

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import gypdrv  # noqa: E402
import macstub  # noqa: E402
import vf  # noqa: E402

BASE = 'a "\\%'
WIDE = BASE + ";,#'&=$"


def strings(alpha, n, exact=False):
    for k in range(n if exact else 0, n + 1):
        for t in itertools.product(alpha, repeat=k):
            yield "".join(t)


def parse_cmdline(s):
    """The documented rules of CommandLineToArgvW and the Microsoft C start-up code, after batch parameter expansion (%% is %)."""
    s = s.replace("%%", "%")
    out, cur, quoted, inarg, i = [], "", False, False, 0
    while i < len(s):
        c = s[i]
        if c == "\\":
            n = 0
            while i < len(s) and s[i] == "\\":
                n, i = n + 1, i + 1
            inarg = True
            if i < len(s) and s[i] == '"':
                cur += "\\" * (n // 2)
                if n % 2:
                    cur += '"'
                    i += 1
            else:
                cur += "\\" * n
            continue
        if c == '"':
            if quoted and s[i + 1:i + 2] == '"':  # two quotes inside quotes are one
                cur += '"'
                i += 2
                continue
            quoted, inarg = not quoted, True
        elif c in " \t" and not quoted:
            if inarg:
                out.append(cur)
            cur, inarg = "", False
        else:
            cur += c
            inarg = True
        i += 1
    if inarg:
        out.append(cur)
    return out


def vcproj_items(s):
    """A .vcproj list: commas and semicolons separate items unless quoted; quotes know no escapes."""
    out, cur, quoted = [], "", False
    for c in s:
        if c == '"':
            quoted = not quoted
        if c in ",;" and not quoted:
            out.append(cur)
            cur = ""
        else:
            cur += c
    out.append(cur)
    return out


def generate(fmt, version, doc):
    root = vf.scratch("c23")

    def pre():
        sys.platform = "win32"

    env = {"GYP_MSVS_VERSION": version, "GYP_MSVS_OVERRIDE_PATH": "/nonexistent", "GYP_LINK_CONCURRENCY": "4",
           "PATH": macstub.path() + ":" + os.environ["PATH"]}
    r = gypdrv.run({"a.gyp": doc}, fmt=fmt, pre=pre, env=env, root=root, flags=("ninja_use_custom_environment_files=1",))
    if not r.ok:
        key = f"{fmt}{version}:gen:" + (r.exc[0] if r.exc else "")
        raise vf.Bad(f"{fmt} {version}: not generated: {r.stderr[-600:]}", key, project=str(doc)[:2000])
    return root


def target(**kw):
    t = {"target_name": "t", "type": "static_library", "sources": ["a.c"], "msvs_cygwin_shell": 0}
    t.update(kw)
    return {"targets": [t]}


def judge(part, where, want, got, raw):
    part.add(len(want))
    if got == want:
        return
    for w, g in zip(want, got):
        if w != g:
            raise vf.Bad(f"{where}: {w!r} arrives as {g!r}", f"{where}:{w!r}"[:60], around=str(raw)[:300])
    raise vf.Bad(f"{where}: {len(want)} arguments arrive as {len(got)}", f"{where}:count")


def edges(root):
    out = subprocess.run(["ninja", "-C", os.path.join(root, "out", "Default"), "-t", "compdb", "-x"], stdout=subprocess.PIPE, check=True).stdout
    return json.loads(out)


def ninja_rule_values(root, name):
    """Values of `name` in all rules of the target's build file, with ninja's own escapes undone."""
    with open(os.path.join(root, "out", "Default", "obj", "t.ninja")) as f:
        text = f.read()
    vals = []
    text = text.replace("$$", "\0")
    import re
    text = re.sub(r"\$\n *", "", text)
    for line in text.split("\n"):
        m = re.match(r" +%s = (.*)$" % name, line)
        if m:
            vals.append(re.sub(r"\$([ :])", r"\1", m.group(1)).replace("\0", "$"))
    return vals


def ninja_defines(part, ss):
    defs = ["k=" + s for s in ss]
    root = generate("ninja", "2015", target(defines=defs))
    [cmd] = [e["command"] for e in edges(root) if e["file"].endswith("a.c")]
    got = [a[2:] for a in parse_cmdline(cmd) if a.startswith("-D")]
    judge(part, "ninja define", [d.replace("#", "\\043") for d in defs], got, cmd)
    vf.rmtree(root)


def ninja_action(part, ss):
    args = ["k" + s for s in ss if "$" not in s] + [s for s in ss if "$" not in s and s and not s.startswith("-")]
    doc = target(actions=[{"action_name": "a", "inputs": ["i"], "outputs": ["o.h"], "action": ["prog", *args, "end"]}])
    root = generate("ninja", "2015", doc)
    [val] = ninja_rule_values(root, "rspfile_content")
    judge(part, "ninja action", ["prog", *args, "end"], parse_cmdline(val), val)
    vf.rmtree(root)


def xml_of(root, name):
    with open(os.path.join(root, name), "rb") as f:
        return xml.dom.minidom.parseString(f.read())


def vcproj_defines(part, ss):
    # An odd number of quotes cannot be told apart by the .vcproj format itself (the generator warns).
    defs = ["k=" + s for s in ss if s.count('"') % 2 == 0]
    root = generate("msvs", "2008", target(defines=defs))
    [tool] = [t for t in xml_of(root, "t.vcproj").getElementsByTagName("Tool") if t.getAttribute("Name") == "VCCLCompilerTool"]
    raw = tool.getAttribute("PreprocessorDefinitions")
    items = vcproj_items(raw)
    got = []
    for it in items:
        p = parse_cmdline("/D " + it)
        got.append(p[1] if len(p) == 2 else p)
    judge(part, "vcproj define", [d.replace("#", "\\043") for d in defs], got, raw)
    vf.rmtree(root)


def vcxproj_defines(part, ss):
    # What MSBuild makes of a backslash before a quote is not documented: such strings need only generate.
    defs = ["k=" + s for s in ss]
    root = generate("msvs", "2015", target(defines=defs))
    import urllib.parse
    for el in xml_of(root, "t.vcxproj").getElementsByTagName("PreprocessorDefinitions"):
        raw = "".join(n.data for n in el.childNodes)
        got = [urllib.parse.unquote(x, encoding="latin-1").replace("%%", "%") for x in raw.split(";") if x != "%(PreprocessorDefinitions)"]
        pairs = [(d.replace("#", "\\043"), g) for d, g in zip(defs, got) if '\\"' not in d]
        if len(got) != len(defs):
            raise vf.Bad(f"vcxproj: {len(defs)} defines arrive as {len(got)}", "vcxproj:count")
        judge(part, "vcxproj define", [a for a, _ in pairs], [b for _, b in pairs], raw)
    vf.rmtree(root)


def vs_action(part, ss):
    args = ["-k" + s for s in ss if not set(s) & set('"%$') and not s.endswith("\\")]
    doc = target(actions=[{"action_name": "a", "inputs": ["i"], "outputs": ["o.h"], "action": ["prog", *args, "-end"]}])
    root = generate("msvs", "2008", doc)
    cmds = [t.getAttribute("CommandLine") for t in xml_of(root, "t.vcproj").getElementsByTagName("Tool") if t.getAttribute("Name") == "VCCustomBuildTool"]
    judge(part, "vcproj action", ["call", "prog", *args, "-end"], parse_cmdline(cmds[0]), cmds)
    vf.rmtree(root)


KINDS = {f.__name__: f for f in (ninja_defines, ninja_action, vcproj_defines, vcxproj_defines, vs_action)}


def job(part, item):
    kind, alpha, first, n = item
    ss = [s for s in strings(alpha, n) if s.startswith(first)] if first is None else [first + s for s in strings(alpha, n)]
    for s in ss:
        part.seen((kind, s))
    part.count(kind, len(ss))
    KINDS[kind](part, ss)


def main():
    macstub.path()
    c = vf.Check("C23", "model_checking",
                 "every string up to length 6 (thorough 7) over {a, space, quote, backslash, percent} and up to length 4 (thorough 5) over 11 characters, as a define "
                 "of the three Windows back ends, or an action argument; the generated files are read with an independent parser of the "
                 "documented rules (distinct: batch of strings by back end and prefix)",
                 ["%% is read as % (batch parameter expansion), \\043 as # (compiler)", "arguments with slashes are paths and normalised: not judged"])
    items = []
    for k in KINDS:
        for p in strings(BASE, 2, True):
            items.append((k, BASE, p, 5 if vf.THOROUGH else 4))
        for p in strings(WIDE, 1, True):
            items.append((k, WIDE, p, 4 if vf.THOROUGH else 3))
        items.append((k, WIDE, "", 1))
    vf.pmap(c, job, items, chunk=1)
    c.sample('define k=a \\"\\\\ through ninja on Windows')
    return c.finish()


vf.main(main)
