"""C37: every command line within the bounds runs its commands in order with their arguments and options, stops at the first failure and says so in its status."""
import itertools
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import nodelab  # noqa: E402
import vf  # noqa: E402

COMMANDS = ["build", "clean", "configure", "rebuild", "install", "list", "remove"]
ALIAS = {"ls": "list", "rm": "remove"}
FAILS = ["fail", "type", "never", "uncaught", "syncfail"]


def model(words):
    """[(command, arguments)] of the words that are no options."""
    out, loose = [], []
    for w in words:
        w = ALIAS.get(w, w)
        if w in COMMANDS:
            out.append((w, []))
        elif out:
            out[-1][1].append(w)
        else:
            loose.append(w)
    return out


def expand(todo):
    out = []
    for name, args in todo:
        out += [("clean", []), ("configure", args), ("build", [])] if name == "rebuild" else [(name, args)]
    return out


def run_job(part, item):
    """A real process; item: (words, {index of executed command: outcome}, extra options)."""
    words, bad, extra = item
    root = vf.scratch("c37")
    os.mkdir(os.path.join(root, "home"))
    want = expand(model(words))
    script = [bad.get(i, "ok") for i in range(len(want))]
    stop = next((i for i, s in enumerate(script) if s in FAILS), None)
    rc, so, se, rec = nodelab.hooked(root, list(words) + list(extra), script)
    told = f"node-gyp {' '.join(words + extra)} with outcomes {script}"
    part.add()
    part.seen(told)
    if rc == "hang":
        raise vf.Bad(f"{told}: hangs", "hang:" + told)
    expected = want if stop is None else want[:stop + 1]
    got = [(r["begin"], r["args"]) for r in rec if "begin" in r]
    if got != [(n, list(a)) for n, a in expected]:
        raise vf.Bad(f"{told}: ran {got}, should run {expected}", "order:" + told, stderr=se[-800:])
    # one after another
    flat = [("begin" in r, r.get("begin") or r.get("end")) for r in rec]
    if flat != [x for n, _ in expected for x in ((True, n), (False, n))]:
        raise vf.Bad(f"{told}: commands overlap: {flat}", "overlap:" + told)
    quiet = "--silent" in extra
    if stop is None:
        part.count("all_succeed")
        if rc != 0:
            raise vf.Bad(f"{told}: status {rc}", "status:" + told, stderr=se[-800:])
        if want and not quiet and not extra and not se.rstrip().endswith("ok"):
            raise vf.Bad(f"{told}: does not end with ok", "ok:" + told, stderr=se[-800:])
        if want and "not ok" in se:
            raise vf.Bad(f"{told}: says not ok", "notok:" + told)
    else:
        part.count("one_fails")
        if not rc or rc == "hang":
            raise vf.Bad(f"{told}: status {rc}", "status:" + told, stderr=se[-800:])
        if quiet:
            if se:
                raise vf.Bad(f"{told}: not silent: {se[:300]}", "silent:" + told)
        elif script[stop] in ("fail", "uncaught", "syncfail") and f"broken pipe dream {stop}" not in se:
            raise vf.Bad(f"{told}: does not report the error", "report:" + told, stderr=se[-800:])
        elif script[stop] == "type" and "TypeError" not in se:
            raise vf.Bad(f"{told}: does not report the error", "report:" + told, stderr=se[-800:])
        elif script[stop] == "never" and "never" not in se:
            raise vf.Bad(f"{told}: does not report that it never finished", "report:" + told, stderr=se[-800:])
        if not quiet and se.rstrip().endswith(" ok") and not se.rstrip().endswith("not ok"):
            raise vf.Bad(f"{told}: ends with ok", "ok:" + told, stderr=se[-800:])
    # what the commands have to say goes to the standard output
    lines = []
    for i, (n, _) in enumerate(expected):
        s = script[i]
        if s == "list" and n == "list":
            lines += ["1.2.3", "4.5.6-rc.1"]
        elif n == "list" and s in ("ok", "empty"):
            lines.append(None)
        elif s == "text" and n != "list":
            lines.append(f"said {i}")
    out = [x for x in so.split("\n") if x.strip()]
    if want and (len(out) != len(lines) or any(w is not None and w != o for w, o in zip(lines, out))):
        raise vf.Bad(f"{told}: prints {out}, should print {lines}", "stdout:" + told)
    if not want and "Usage: node-gyp" not in so and "--version" not in words + extra and "-v" not in words + extra:
        raise vf.Bad(f"{told}: prints no usage", "usage:" + told)
    part.sample({"line": told, "status": rc})
    vf.rmtree(root)


def dir_job(part, item):
    """Directories: -C and --devdir in their forms."""
    how, dev, home, cmd = item
    root = vf.scratch("c37d")
    for d in ("home", "sub dir", "sub dir/deep"):
        os.mkdir(os.path.join(root, d))
    with open(os.path.join(root, "file"), "w"):
        pass
    where = {"": root, "-C": os.path.join(root, "sub dir"), "--directory=": os.path.join(root, "sub dir", "deep"), "env": os.path.join(root, "sub dir"), "missing": root, "a file": root, "twice": None}[how]
    args = {"": [], "-C": ["-C", "sub dir"], "--directory=": ["--directory=sub dir/deep"], "env": [], "missing": ["-C", "no such"], "a file": ["-C", "file"]}[how]
    env = {"HOME": os.path.join(root, "home") if home else None}
    if how == "env":
        env["npm_config_directory"] = "sub dir"
    want = {"abs": "/some/where", "home": os.path.join(root, "home", "x y"), "rel": "devs", "env": "/from env", None: None}[dev]
    args += {"abs": ["--devdir", "/some/where"], "home": ["--devdir=~/x y"], "rel": ["--devdir", "devs"], "env": [], None: []}[dev]
    if dev == "env":
        env["npm_config_devdir"] = "/from env"
    rc, so, se, rec = nodelab.hooked(root, [cmd] + args if cmd else args, env=env)
    part.add()
    part.seen(("dir",) + item)
    told = f"node-gyp {cmd} {args} with {env}"
    if not rec or rc != 0:
        if not (dev == "home" and not home):
            raise vf.Bad(f"{told}: status {rc}, ran {rec}: {se[-400:]}", "dir:" + told)
        return
    r = rec[0]
    if r["cwd"] != where:
        raise vf.Bad(f"{told}: runs in {r['cwd']}, should run in {where}", "cwd:" + told)
    if want and home and r["devDir"] != want:
        raise vf.Bad(f"{told}: device directory {r['devDir']}, should be {want}", "devdir:" + told)
    if not want and home and not (r["devDir"].startswith(os.path.join(root, "home") + "/") and "node-gyp" in r["devDir"]):
        raise vf.Bad(f"{told}: device directory {r['devDir']}", "devdir:" + told)
    if how in ("missing", "a file") and "is not a directory" not in se:
        raise vf.Bad(f"{told}: no warning", "warning:" + told)
    vf.rmtree(root)


# the options of the README: (name, spellings, value) - and how the environment names them
OPTIONS = [
    ("jobs", [["-j", "4"], ["--jobs", "4"], ["--jobs=4"]], "4"), ("jobs", [["-j", "max"], ["--jobs=max"]], "max"),
    ("target", [["--target=v6.2.1"]], "v6.2.1"),
    ("debug", [["--debug"], ["-d"], ["--debug=true"], ["--no-release"]][:3], True), ("debug", [["--release"], ["--no-debug"], ["--debug=false"]], False),
    ("make", [["--make=gmake"], ["--make", "gmake"]], "gmake"), ("thin", [["--thin=yes"]], "yes"), ("arch", [["--arch=ia32"], ["--arch", "ia32"]], "ia32"),
    ("tarball", [["--tarball=/a b/c.tgz"], ["--tarball", "/a b/c.tgz"]], "/a b/c.tgz"), ("devdir", [["--devdir=/d"], ["--devdir", "/d"]], "/d"), ("ensure", [["--ensure"]], True),
    ("dist-url", [["--dist-url=http://x/y"], ["--dist-url", "http://x/y"]], "http://x/y"), ("proxy", [["--proxy=http://p:1"]], "http://p:1"), ("noproxy", [["--noproxy=a,b"]], "a,b"),
    ("cafile", [["--cafile=/c.pem"]], "/c.pem"), ("nodedir", [["--nodedir=/n"], ["--nodedir", "/n"]], "/n"), ("python", [["--python=/p y"], ["--python", "/p y"]], "/p y"),
    ("msvs-version", [["--msvs_version=2015"], ["--msvs-version=2015"], ["--msvs_version", "2015"]], "2015"), ("solution", [["--solution=x.sln"]], "x.sln"),
    ("force-process-config", [["--force-process-config"]], True), ("my-flag", [["--my-flag=7"]], "7"),
]
LEVELS = [("silly", [["--silly"], ["--loglevel=silly"], ["--loglevel", "silly"]]), ("verbose", [["--verbose"], ["--loglevel=verbose"]]), (None, [["--silent"], ["--loglevel=silent"]]), ("warn", [["--loglevel=warn"]])]


def parse_cases():
    """(argv, env, todo, {option: set of acceptable values}, level or '?')"""
    lines = [["build"], ["configure", "a", "install", "1.2.3"], ["rm", "4.5.6", "ls"]]
    for name, forms, value in OPTIONS:
        envname = "npm_config_" + name.replace("-", "_")
        text = {True: "true", False: ""}.get(value, value)
        for words in lines:
            for form in forms:
                for at in range(len(words) + 1):
                    if at and words[at - 1:at] and form[-1].startswith("--") and "=" not in form[-1] and form[-1] in ("--thin",):
                        continue
                    yield words[:at] + form + words[at:], {}, model(words), {name: {value}}, "info"
                # another option beside it
                for n2, f2, v2 in OPTIONS:
                    if n2 != name:
                        yield form + words + f2[0], {}, model(words), {name: {value}, n2: {v2}}, "info"
                yield words + form, {envname: text}, model(words), {name: {value, text}}, "info"
            yield words, {envname: text}, model(words), {name: {text}}, "info"
            for n2, f2, v2 in OPTIONS:
                if n2 != name:
                    yield f2[0] + words, {envname: text}, model(words), {name: {text}, n2: {v2}}, "info"
            yield words, {envname: text, "npm_config_": "42", "npm_configx": "9", "NPM_OTHER": "1"}, model(words), {name: {text}}, "info"
    for words in lines:
        for level, forms in LEVELS:
            for form in forms:
                yield form + words, {}, model(words), {}, level
                for e, v in (("silly", "silly"), ("error", "error"), ("silent", None)):
                    yield words + form, {"npm_config_loglevel": e}, model(words), {}, level
        for e, v in (("silly", "silly"), ("error", "error"), ("silent", None), ("http", "http")):
            yield words, {"npm_config_loglevel": e}, model(words), {}, v
        yield words, {}, model(words), {}, "info"


def word_cases():
    alphabet = COMMANDS + ["ls", "rm", "x", "toString", "constructor", "__proto__", "hasOwnProperty", "12.0.0", "Build", "help", "..", ""]
    for n in range(0, 4 if vf.THOROUGH else 3):
        for words in itertools.product(alphabet, repeat=n):
            yield list(words), {}, model(words), {}, "info"
    small = ["build", "rebuild", "install", "ls", "x", "toString", ""]
    for words in itertools.product(small, repeat=5 if vf.THOROUGH else 4):
        yield list(words), {}, model(words), {}, "info"
    for words in itertools.product(["configure", "rebuild", "x"], repeat=2):
        for rest in (["-f", "ninja"], ["-Dfoo=bar"], ["--format=make", "-x"], ["a", "--b"]):
            yield list(words) + ["--"] + rest, {}, model(list(words) + rest), {}, "info"


def main():
    c = vf.Check("C37", "model_checking",
                 "every command line of up to 2 words (3 thorough) over 21 words and 4 (5) over 7 through the real argument parser; every documented option in every spelling and position, pairwise and from the "
                 "environment; every line of up to 3 commands in a real process with every single outcome at every position; -C and --devdir forms",
                 ["when an option is given on the command line and in the environment either value may win", "the commands themselves are replaced by recorders, rebuild excepted"])
    todo = list(parse_cases()) + list(word_cases())
    results = nodelab.batch("parse.js", [{"argv": t[0], "env": t[1]} for t in todo])
    for (argv, env, want, opts, level), r in zip(todo, results):
        c.add()
        told = f"node-gyp {argv} with {env}"
        c.seen(told)
        if "error" in r:
            c.violation(f"{told}: {r['error']}", "throws:" + told, stack=r["stack"])
            continue
        r = r["ok"]
        got = [(t["name"], t["args"]) for t in r["todo"]]
        if got != [(n, list(a)) for n, a in want]:
            c.violation(f"{told}: is to run {got}, should be {want}", "todo:" + told)
        for k, vs in opts.items():
            if k not in r["opts"] or not any(r["opts"][k] is v or (r["opts"][k] == v and type(r["opts"][k]) is type(v)) for v in vs):
                c.violation(f"{told}: option {k} is {r['opts'].get(k)!r}, should be {vs}", f"opt:{k}:{told}")
        if "" in r["opts"]:
            c.violation(f"{told}: an option without a name", "noname:" + told)
        if r["level"] != level:
            c.violation(f"{told}: log level {r['level']}, should be {level}", "level:" + told)
        c.count("parsed")
    if c.nviol > 200:
        return c.finish()
    runs = []
    for n in (1, 2, 3):
        for words in itertools.product(COMMANDS if n < 3 else ["build", "rebuild", "install", "list"] if not vf.THOROUGH else COMMANDS, repeat=n):
            words = list(words)
            m = len(expand(model(words)))
            runs.append((words, {}, []))
            for i in range(m):
                for f in FAILS if n == 1 or vf.THOROUGH else ["fail", "never"] if n == 2 else ["fail"]:
                    if n < 3 or i % 2 == 0 or vf.THOROUGH:
                        runs.append((words, {i: f}, []))
            if n < 3:
                runs.append((words, {i: "ok" if w == "list" else "text" for i, (w, _) in enumerate(expand(model(words)))}, ["--loglevel=error"]))
                runs.append((words, {i: "list" if w == "list" else "ok" for i, (w, _) in enumerate(expand(model(words)))}, []))
                runs.append((words, {m - 1: "fail"}, ["--silent"]))
    for a in COMMANDS:
        for rest in ([], ["x"], ["x", "toString"], ["1.2.3", "rm", "4.5.6"]):
            runs.append(([a] + rest, {}, []))
    runs += [(w, {}, e) for w in ([], ["help"], ["x"], ["toString"], ["constructor", "valueOf"]) for e in ([], ["--version"], ["-v"], ["--help"], ["--debug"])]
    vf.pmap(c, run_job, runs, chunk=8)
    dirs = list(itertools.product(["", "-C", "--directory=", "env", "missing", "a file"], [None, "abs", "home", "rel", "env"], [True], ["build", "install"])) + [("", "abs", False, "build"), ("", "rel", False, "build")]
    vf.pmap(c, dir_job, dirs, chunk=4)
    return c.finish()


vf.main(main)
