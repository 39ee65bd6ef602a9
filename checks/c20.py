"""C20: the command a makefile records regenerates it byte for byte, for every way of giving gyp its options; edits of what gyp read are seen."""
import itertools
import os
import shlex
import subprocess
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import gypdrv  # noqa: E402
import vf  # noqa: E402

OLD, EDITED = 1_500_000_000, 1_500_001_000


def project(circular=False, prog=True):
    say = {"type": "none", "actions": [{"action_name": "say", "inputs": [], "outputs": ["<(PRODUCT_DIR)/<(_target_name).txt"],
           "action": ["/bin/sh", "-c", "echo <(d1) <(cfg) <(forced) <(local) <(deep) <(dep) <(gg) > <(PRODUCT_DIR)/<(_target_name).txt"]}]}
    base = {"variables": {"d1%": "none", "cfg%": "none", "forced%": "none", "g1%": "none", "deep%": "none", "dep": "b", "variables": {"local%": "unset"}, "local%": "<(local)"}, "conditions": [["g1=='none'", {"variables": {"gg": "off"}}, {"variables": {"gg": "given"}}]]}
    return {
        "src/a.gyp": {**base, "includes": ["local.gypi"], "targets": [dict(say, target_name="main", dependencies=["low/b.gyp:low"]), dict(say, target_name="second")] + ([{"target_name": "prog", "type": "executable", "sources": ["p.c"], "defines": ["V=<(d1)"], "configurations": {"Debug": {}, "Release": {}}}] if prog else [])},
        "src/local.gypi": {"includes": ["low/deep.gypi"], "variables": {"local": "1"}},
        "src/low/deep.gypi": {"variables": {"deep": "1"}},
        "src/low/b.gyp": {**base, "targets": [dict(say, target_name="low", **({"dependencies": ["../a.gyp:second"]} if circular else {})), dict(say, target_name="idle")]},
        "src/inc/forced.gypi": {"variables": {"forced": "1"}},
        "src/cfg/include.gypi": {"variables": {"cfg": "option"}},
        "home/.gyp/include.gypi": {"variables": {"cfg": "home"}},
    }


def sources(files):
    return set(files)


def snapshot(root, files):
    out = {}
    for dp, _, fn in os.walk(root):
        for n in fn:
            p = os.path.join(dp, n)
            r = os.path.relpath(p, root)
            if r not in files and not r.endswith((".txt", ".stamp", ".d")):
                with open(p, "rb") as f:
                    out[r] = f.read()
    return out


def age(root, when=OLD):
    for dp, dn, fn in os.walk(root):
        for n in fn:
            os.utime(os.path.join(dp, n), (when, when))


class Run:
    """One way of calling gyp: args, environment, working directory, and where its makefile ends up."""

    def __init__(self, args, env=None, cwd="src", makefile="src/Makefile", build_files=("a.gyp",), files=None, home="nohome"):
        self.args, self.env, self.cwd, self.makefile, self.build_files, self.files, self.home = list(args), dict(env or {}), cwd, makefile, list(build_files), files or project(), home

    def __repr__(self):
        return f"(in {self.cwd}) {' '.join(k + '=' + shlex.quote(v) for k, v in self.env.items())} gyp {' '.join(map(shlex.quote, self.args + self.build_files))}"

    def generate(self, root):
        sub = lambda s: s.replace("@ROOT@", root)  # noqa: E731

        def pre():
            sys.argv[:] = [os.path.join(vf.REPO, "gyp", "gyp_main.py")]
        env = {k: sub(v) for k, v in self.env.items()}
        env["HOME"] = os.path.join(root, self.home)
        return gypdrv.run(self.files, fmt="make", root=root, cwd=self.cwd, env=env, depth=None, args=[sub(a) for a in self.args + self.build_files], pre=pre)

    def make(self, root, *goals):
        mk = os.path.join(root, self.makefile)
        env = {"PATH": os.environ["PATH"], "HOME": os.path.join(root, self.home), "PYTHONDONTWRITEBYTECODE": "1",  # what gyp's environment says later is not what it was told
               "GYP_DEFINES": "d1=later dep=later", "GYP_GENERATOR_FLAGS": "output_dir=later default_target=idle", "GYP_GENERATOR_OUTPUT": "later", "GYP_CONFIG_DIR": os.path.join(root, "src/low"), "GYP_GENERATORS": "ninja"}
        r = subprocess.run(["timeout", "60", "make", "-f", os.path.basename(mk), *goals], cwd=os.path.dirname(mk), env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        return r.returncode, r.stdout.decode(errors="replace")


def differ(a, b):
    what = [n for n in sorted(set(a) | set(b)) if a.get(n) != b.get(n)]
    out = []
    for n in what[:3]:
        x, y = a.get(n), b.get(n)
        if x is None or y is None:
            out.append(f"{n} {'appears' if x is None else 'is gone'}")
            continue
        for p, q in itertools.zip_longest(x.decode(errors="replace").splitlines(), y.decode(errors="replace").splitlines()):
            if p != q:
                out.append(f"{n}: {str(p)[:220]!r} became {str(q)[:220]!r}")
                break
    return "; ".join(out)


def same_job(part, item):
    label, run = item
    root = vf.scratch("r")
    try:
        g = run.generate(root)
        part.add()
        if g.status != 0:
            part.violation(f"{run}: refused: {g.stderr[-300:]}", f"refused:{label}")
            return
        part.seen(label)
        before = snapshot(root, run.files)
        if run.makefile not in before:
            raise vf.Bad(f"{run}: no {run.makefile}, but {sorted(before)}", f"nowhere:{label}")
        age(root)
        # Nothing changed: nothing is regenerated.
        rc, out = run.make(root, run.makefile.split("/")[-1])
        if rc != 0 or snapshot(root, run.files) != before or os.stat(os.path.join(root, run.makefile)).st_mtime != OLD:
            part.violation(f"{run}: with nothing edited, make says {rc} {out[-300:]}", f"idle:{label}")
            return
        os.utime(os.path.join(root, "src/a.gyp"), (EDITED, EDITED))
        if run.cwd != "src" or "@ROOT@" in run.build_files[0]:  # gyp names targets after the directory it runs in, so that it is the build that must stay the same
            goal = run.makefile.split("/")[-1]
            rc, out = run.make(root, goal)
            once = snapshot(root, run.files)
            made = os.stat(os.path.join(root, run.makefile)).st_mtime
            age(root)
            os.utime(os.path.join(root, "src/a.gyp"), (EDITED, EDITED))
            rc2, out2 = run.make(root, "all")
            texts = said(root)
            again = snapshot(root, run.files)
            fresh = vf.scratch("f")
            run.generate(fresh)
            rc3, out3 = run.make(fresh, "all")
            wanted = said(fresh)
            vf.rmtree(fresh)
            if rc != 0 or rc2 != 0 or rc3 != 0:
                part.violation(f"{run}: regenerating fails: {(out if rc else out2 if rc2 else out3)[-500:]}", f"same:{label}")
            elif made == OLD or once != again:
                part.violation(f"{run}: not regenerated, or otherwise the next time: {differ(once, again)}", f"same:{label}")
            elif texts != wanted or not texts:
                part.violation(f"{run}: regenerated, it makes {texts}, not {wanted}", f"same:{label}")
            return
        rc, out = run.make(root, run.makefile.split("/")[-1])
        after = snapshot(root, run.files)
        if rc != 0:
            part.violation(f"{run}: regenerating fails: {out[-500:]}", f"same:{label}")
        elif os.stat(os.path.join(root, run.makefile)).st_mtime == OLD:
            part.violation(f"{run}: a touched build file is not noticed: {out[-300:]}", f"same:{label}")
        elif after != before:
            part.violation(f"{run}: regenerated otherwise: {differ(before, after)}", f"same:{label}")
    finally:
        vf.rmtree(root)


def ways():
    """Every combination of the ways to give defines, generator flags, the output, the configuration directory and includes."""
    defs = {"none": ([], {}), "cli": (["-Dd1=one", "-Dg1"], {}), "env": ([], {"GYP_DEFINES": "d1=one g1"}), "both": (["-Dd1=two"], {"GYP_DEFINES": "d1=one g1=x"}), "env twice": ([], {"GYP_DEFINES": "d1=two d1=one d1=two"}), "twice": (["-Dd1=one", "-Dd1=two", "-Dd1=one"], {"GYP_DEFINES": "d1=two d1=one d1=two"})}
    flags = {"none": ([], {}), "cli": (["-Goutput_dir=o1"], {}), "env": ([], {"GYP_GENERATOR_FLAGS": "output_dir=o1 default_target=main"}), "both": (["-Goutput_dir=o2"], {"GYP_GENERATOR_FLAGS": "output_dir=o1 default_target=main"})}
    places = {"none": ([], {}, "src/Makefile"), "cli": (["--generator-output=gen/dir"], {}, "src/gen/dir/Makefile"), "apart": (["--generator-output", "gen"], {}, "src/gen/Makefile"), "env": ([], {"GYP_GENERATOR_OUTPUT": "gen"}, "src/gen/Makefile"), "both": (["--generator-output=gen"], {"GYP_GENERATOR_OUTPUT": "elsewhere"}, "src/gen/Makefile"),
              "absolute": (["--generator-output=@ROOT@/away"], {}, "away/Makefile")}
    configs = {"none": ([], {}, "nohome"), "home": ([], {}, "home"), "cli": (["--config-dir=@ROOT@/src/cfg"], {}, "nohome"), "relative": (["--config-dir=cfg"], {}, "home"), "env": ([], {"GYP_CONFIG_DIR": "@ROOT@/src/cfg"}, "home"), "relative env": ([], {"GYP_CONFIG_DIR": "cfg"}, "nohome"), "missing": (["--config-dir=nowhere"], {}, "home")}
    includes = {"none": [], "relative": ["-Iinc/forced.gypi"], "absolute": ["-I", "@ROOT@/src/inc/forced.gypi"]}
    for d, g, p, c, i in itertools.product(defs, flags, places, configs, includes):
        if not vf.THOROUGH and sum(x != "none" for x in (d, g, p, c, i)) > 3:
            continue
        yield f"{d},{g},{p},{c},{i}", Run(["--depth=.", *defs[d][0], *flags[g][0], *places[p][0], *configs[c][0], *includes[i]], {**defs[d][1], **flags[g][1], **places[p][1], **configs[c][1]}, makefile=places[p][2], home=configs[c][2])
    # the remaining options, all subsets, from three directories
    rest = [["-S.x"], ["-Rmain"], ["--check"], ["--no-circular-check"], ["--toplevel-dir=@TOP@"], ["--no-parallel"], ["-Dd1=one"], ["-I@INC@"], ["--ignore-environment"]]
    for n in range(len(rest) + 1):
        for some in itertools.combinations(rest, n):
            if not vf.THOROUGH and 3 < n < len(rest) - 1:
                continue
            flat = [a for x in some for a in x]
            circular = "--no-circular-check" in flat
            suffix = "Makefile.x" if "-S.x" in flat else "Makefile"
            # an ignored environment must not come back either
            env = {"GYP_DEFINES": "d1=env", "GYP_GENERATOR_FLAGS": "output_dir=e"} if "--ignore-environment" in flat else {}
            for cwd, depth, inc, files in (("src", ".", "inc/forced.gypi", ["a.gyp"]), ("src/low", "..", "../inc/forced.gypi", ["../a.gyp"]), (".", "src", "src/inc/forced.gypi", ["src/a.gyp"])):
                args = [a.replace("@TOP@", depth).replace("@INC@", inc) for a in flat]
                yield f"{' '.join(flat)} in {cwd}", Run(["--depth=" + depth, *args], env, cwd=cwd, build_files=files, makefile="src/" + suffix, files=project(circular, prog=cwd == "src"))
    for build_files in (["./a.gyp"], ["@ROOT@/src/a.gyp"], ["low/b.gyp", "a.gyp"], ["low/../a.gyp"], ["a.gyp", "low/b.gyp"]):
        for p in places:
            yield f"{build_files} {p}", Run(["--depth=.", *places[p][0]], places[p][1], build_files=build_files, makefile=places[p][2], files=project(prog="@ROOT@" not in build_files[0]))


SPECIAL = [" ", "'", '"', "\\", "$", "#", "%", "*", "?", "~", "&", ";", "|", ">", "<", "(", ")", "[", "]", "{", "}", "=", ",", ":", "!", "`", "@", "^", "$$", "$(x)", "${HOME}", "\\#", "%s", "é", "\t"]


def values():
    """Values of defines and directories whose characters mean something to make or a shell."""
    names = [a + b for a in SPECIAL for b in SPECIAL + [""]] if vf.THOROUGH else SPECIAL + [a + b for a in ("\\", "$", "'", '"', "#", " ", "`") for b in ("\\", "$", "'", '"', "#", " ", "`")]
    for s in names:
        if "<(" in s or ">(" in s or "<!" in s or "<|" in s or "<@" in s or ">@" in s or ">!" in s or ">|" in s or "^(" in s or "^@" in s or "^!" in s or "^|" in s:
            continue  # gyp's own
        for form in ("p{}q", "p{}", "{}q"):
            v = form.format(s)
            for how in ("cli", "env"):
                if how == "env" and form != "p{}q":
                    continue
                yield f"{how} {v.encode().hex()}", Run(["--depth=.", "--generator-output=gen"] + (["-Dval=" + v] if how == "cli" else []), {} if how == "cli" else {"GYP_DEFINES": shlex.quote("val=" + v)}, makefile="src/gen/Makefile", files=value_project())


def file_names():
    """Included files and build files whose names mean something to make or a shell."""
    for ch in [" ", "'", '"', "%", "*", "?", "~", "&", ")", "[", "]", "{", "}", ",", "!", "`", "@", "^", "é"]:  # make's own are not names it can be given
        n, d = f"p{ch}q", ch.replace(" ", "")  # spaces not in directories of build files
        files = {k.replace("inc/forced", f"inc{ch}d/{n}").replace("local.gypi", n + ".gypi").replace("low/b.gyp", f"lo{d}w/{n}.gyp"): v for k, v in project().items()}
        top = files["src/a.gyp"]
        top["includes"] = [n + ".gypi"]
        top["targets"][0]["dependencies"] = [f"lo{d}w/{n}.gyp:low"]
        for g in (True, False):
            yield f"file {ascii(ch)[1:-1].encode().hex()} {g}", Run(["--depth=.", f"-Iinc{ch}d/{n}.gypi"] + ["--generator-output=gen"] * g, makefile="src/gen/Makefile" if g else "src/Makefile", files=files)


def value_project():
    """The value is compared, not built with, so that only its way through the recorded command counts."""
    return {"src/a.gyp": {"variables": {"val%": "none"}, "targets": [{"target_name": "t", "type": "none", "actions": [
        {"action_name": "a", "inputs": ["p.c"], "outputs": ["<(PRODUCT_DIR)/o"], "action": ["true", "<(val)"]}]}]}}


def edit_job(part, item):
    label, run, edits = item
    root = vf.scratch("e")
    try:
        g = run.generate(root)
        if g.status != 0:
            part.violation(f"{run}: refused: {g.stderr[-300:]}", f"refused:{label}")
            return
        age(root)
        done = ""
        rc, out = run.make(root, "all")
        if rc != 0:
            part.violation(f"{run}: the build fails: {out[-400:]}", f"built:{label}")
            return
        age(root)
        for step, (name, files) in enumerate(edits):
            done += f"; {name}"
            for f, content in files(run.files).items():
                run.files[f] = content
                p = os.path.join(root, f)
                if content is None:
                    os.unlink(p)
                    del run.files[f]
                    continue
                gypdrv.write_files(root, {f: content})
                os.utime(p, (EDITED + step, EDITED + step))
            for dp, _, fn in os.walk(root):  # so that what is made is newer than what was edited before, older than now
                for n in fn:
                    q = os.path.join(dp, n)
                    if os.stat(q).st_mtime > EDITED + 100:
                        os.utime(q, (EDITED + step - 0.5,) * 2)
            rc, out = run.make(root, "all")
            part.add()
            part.seen((label, done))
            if rc != 0:
                part.violation(f"{run}{done}: the build fails: {out[-400:]}", f"edit:{label}{done}")
                return
            after = snapshot(root, run.files)
            texts = said(root)
            fresh = vf.scratch("f")
            vf.rmtree(fresh)
            os.rename(root, fresh)  # generate afresh in the same place
            os.makedirs(root)
            g = run.generate(root)
            want = snapshot(root, run.files)
            rc2, out2 = run.make(root, "all")
            wanted = said(root)
            vf.rmtree(root)
            os.rename(fresh, root)
            if g.status != 0 or rc2 != 0:
                raise vf.Bad(f"{run}{done}: afresh: {g.status} {g.stderr[-300:]} {rc2} {out2[-300:]}", f"fresh:{label}{done}")
            wrong = {n: v for n, v in want.items() if after.get(n) != v} if run.cwd == "src" else None
            if wrong:
                part.violation(f"{run}{done}: not as generated afresh: {differ(wrong, {n: after[n] for n in wrong if n in after})}", f"edit:{label}{done}")
                return
            if {n: texts.get(n) for n in wanted} != wanted:
                part.violation(f"{run}{done}: one build makes {texts}, not {wanted}", f"edit:{label}{done}")
                return
    finally:
        vf.rmtree(root)


def said(root):
    out = {}
    for dp, _, fn in os.walk(root):
        for n in fn:
            if n.endswith(".txt"):
                with open(os.path.join(dp, n)) as f:
                    out[os.path.relpath(os.path.join(dp, n), root)] = f.read()
    return out


def edits():
    def setter(f, var):
        def apply(files, count=[1]):  # noqa: B006
            d = {k: v for k, v in files[f].items()}
            d["variables"] = {**d.get("variables", {}), var: "new" + str(len(d["variables"].get(var, "")))}
            return {f: d}
        return f"{var} set in {f}", apply

    def new_target(f):
        def apply(files):
            d = dict(files[f])
            n = f"extra{len(d['targets'])}"
            d["targets"] = d["targets"] + [dict(d["targets"][0], target_name=n, dependencies=[])]
            return {f: d}
        return f"a target more in {f}", apply

    def new_include(f):
        def apply(files):
            d = dict(files[f])
            n = os.path.dirname(f) + "/more.gypi"
            d["includes"] = d.get("includes", []) + ["more.gypi"]
            d["variables"] = {k: v for k, v in d.get("variables", {}).items() if k != "dep"}
            return {f: d, n: {"variables": {"dep": "more" + str(len(files))}}}
        return f"{f} includes another", apply

    def edit_more(f):
        def apply(files):
            n = os.path.dirname(f) + "/more.gypi"
            return {n: {"variables": {"dep": files.get(n, {}).get("variables", {}).get("dep", "m") + "x"}}}
        return f"what {f} newly includes edited", apply

    def no_include(f):
        def apply(files):
            d = dict(files[f])
            d["includes"] = []
            return {f: d, "src/low/deep.gypi": None} if f == "src/local.gypi" else {f: d}
        return f"{f} includes nothing, and what it included is deleted", apply

    def no_dependency(files):
        d = dict(files["src/a.gyp"])
        d["targets"] = [dict(t, dependencies=[]) for t in d["targets"]]
        return {"src/a.gyp": d, "src/low/b.gyp": None}
    return [setter("src/a.gyp", "dep"), setter("src/low/b.gyp", "dep"), setter("src/local.gypi", "local"), setter("src/low/deep.gypi", "deep"), setter("src/inc/forced.gypi", "forced"), setter("src/cfg/include.gypi", "cfg"),
            new_target("src/a.gyp"), new_target("src/low/b.gyp"), new_include("src/a.gyp"), edit_more("src/a.gyp"), no_include("src/local.gypi"), ("no dependency on a deleted file", no_dependency)]


def main():
    c = vf.Check("C20", "model_checking", "every combination of ways to give defines, generator flags, the output directory, the configuration directory and includes (quick: at most three at once), every subset of the other options from three working directories (quick: up to three or nearly all), "
                 "every listed form of build file, and values of one or two special characters (quick: pairs of the seven that mean most), each with one real regeneration by make; every history of up to two edits of any file gyp read, from five kinds of invocation, one build each",
                 ["compilers named by the environment when gyp ran are not options and not judged", "--generator-output is not combined with a depth other than the working directory", "file names with characters make has no way to be given are not explored", "run from elsewhere than the depth, or with absolute build files, gyp names things otherwise: there the build must stay the same, not its text"])
    vf.pmap(c, same_job, list(ways()) + list(values()) + list(file_names()), chunk=4)
    import copy
    kinds = [("plain", lambda f: Run(["--depth=.", "-Iinc/forced.gypi", "--config-dir=cfg"], files=f)),
             ("output", lambda f: Run(["--depth=.", "-Iinc/forced.gypi", "--config-dir=@ROOT@/src/cfg", "--generator-output=gen/x", "-Dd1=one"], makefile="src/gen/x/Makefile", files=f)),
             ("env", lambda f: Run(["--depth=."], {"GYP_CONFIG_DIR": "@ROOT@/src/cfg", "GYP_DEFINES": "d1=e", "GYP_GENERATOR_OUTPUT": "gen"}, makefile="src/gen/Makefile", files=f)),
             ("below", lambda f: Run(["--depth=..", "-I../inc/forced.gypi"], cwd="src/low", build_files=["../a.gyp"], files=f)),
             ("above", lambda f: Run(["--depth=src", "-Isrc/inc/forced.gypi"], cwd=".", build_files=["src/a.gyp", "src/low/b.gyp"], files=f))]
    es = edits()
    items = []
    for label, make in kinds:
        for seq in [(e,) for e in es] + [(a, b) for a in es for b in es]:
            if len(seq) == 2 and not vf.THOROUGH and label not in ("plain", "output"):
                continue
            names = [n for n, _ in seq]
            deleted = set()
            ok = True
            for n in names:
                if ("deep.gypi" in n or "src/local.gypi includes nothing" in n) and "deep" in deleted or ("b.gyp" in n or n.startswith("no dependency")) and "b" in deleted:
                    ok = False
                if n.startswith("src/local.gypi includes nothing"):
                    deleted.add("deep")
                if n.startswith("no dependency"):
                    deleted.add("b")
                    ok = ok and label != "above"
                if n.startswith("what src/a.gyp newly") and not any(m.startswith("src/a.gyp includes another") for m in names[:names.index(n)]):
                    ok = False
            if ok:
                items.append((label, make(copy.deepcopy(project(prog=False))), seq))
    vf.pmap(c, edit_job, items, chunk=2)
    return c.finish()


vf.main(main)
