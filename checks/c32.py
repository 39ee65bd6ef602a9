"""C32: install, ensure, list and remove as operations on a set of versions: every reachable state of the device directory, every command in it."""
import base64
import json
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import hdrsrv  # noqa: E402
import nodelab  # noqa: E402
import vf  # noqa: E402

ARCHS = {"x64": "x64", "ia32": "x86", "arm64": "arm64"}


class Version:
    def __init__(self, v):
        self.v = v
        self.name = "iojs" if v[0] in "123" and v[1] == "." else "node"
        self.dir = v if self.name == "node" else f"iojs-{v}"
        self.tar = f"/dist/v{v}/{self.name}-v{v}-headers.tar.gz"
        self.sums = f"/dist/v{v}/SHASUMS256.txt"
        self.archives = {t: hdrsrv.archive(v, self.name, tag=f"{v} {t}") for t in "XY"}

    def lib(self, arch):
        return f"/dist/v{self.v}/win-{ARCHS[arch]}/{self.name}.lib"


def world(platform, versions):
    """The table of file contents and the mirrors: X and Y publish different files, 'bad' tampered archives, 'nolib' lacks libraries, 'none' nothing."""
    contents, mirrors = {"marker": "11\n", "old marker": "9\n", "odd marker": "what\n"}, {"none": {}}
    for tag in "XY":
        m = {}
        for v in versions:
            body, files = v.archives[tag]
            for n, c in files.items():
                contents[content(v, n, tag)] = c.decode()
            sums = f"{hdrsrv.sha(body)}  {os.path.basename(v.tar)}\n"
            for a in ARCHS:
                lib = f"library {v.v} {a} {tag}\n"
                contents[f"{v.v} lib {a} {tag}"] = lib
                sums += f"{hdrsrv.sha(lib.encode())}  win-{ARCHS[a]}/{v.name}.lib\n"
                m[v.lib(a)] = lib.encode()
            m[v.tar], m[v.sums] = body, sums.encode()
        mirrors[tag] = m
        mirrors["bad" + tag] = {**m, **{v.tar: v.archives["Y" if tag == "X" else "X"][0] for v in versions}}
        mirrors["nolib" + tag] = {k: c for k, c in m.items() if not k.endswith(".lib")}
    return contents, {k: {p: base64.b64encode(b).decode() for p, b in m.items()} for k, m in mirrors.items()}


def content(v, n, tag):
    c = {t: a[1][n] for t, a in v.archives.items()}
    return f"{v.v} {n} {tag}" if c["X"] != c["Y"] else f"any {hdrsrv.sha(c['X'])[:8]}"


def headers(v, tag):
    return {f"{v.dir}/{n}": content(v, n, tag) for n in v.archives[tag][1]}


def split(state, v):
    return {n: t for n, t in state.items() if n.startswith(v.dir + "/") or n == v.dir + "/"}


def operations(platform, versions):
    """(name, words, mirror or None for any, version, arch)"""
    for v in versions:
        for arch in (["x64", "ia32"] if platform == "win32" else [""]):
            a = ["--arch", arch] if arch else []
            for mirror in ("other", "none", "bad") + (("nolib",) if arch else ()):
                yield f"install {v.v} {arch} mirror {mirror}", ["install", v.v] + a, mirror, v, arch
                yield f"ensure {v.v} {arch} mirror {mirror}", ["install", "v" + v.v, "--ensure"] + a, mirror, v, arch
        yield f"remove {v.dir}", ["remove", v.dir], "none", v, ""
        yield f"age {v.v}", None, None, v, ""
        yield f"spoil {v.v}", None, None, v, ""
        yield f"unmark {v.v}", None, None, v, ""
    yield "list", ["list"], "none", None, ""
    yield "ls", ["ls"], "none", None, ""
    yield "remove absent", ["remove", "77.0.0"], "none", None, ""
    yield "rm and list", ["rm", versions[0].dir, "list"], "none", versions[0], ""


def tag_of(state, v):
    """Which mirror the headers come from, None when not whole."""
    part = split(state, v)
    return next((t for t in "XY" if all(part.get(n) == c for n, c in headers(v, t).items())), None)


def main():
    c = vf.Check("C32", "model_checking",
                 "breadth-first over every state of the device directory reachable from the empty one by install, ensuring install (good, absent, tampered mirrors), remove, an outdated, unreadable or missing marker; "
                 "two versions, Node.js and io.js, both architectures on Windows; every real command in every state against a set model",
                 ["one command at a time", "Windows is the real code with process.platform set"])
    depth = 99
    for platform, names in (("linux", ["12.0.0", "3.3.1"]), ("linux", ["12.0.0", "10.24.1", "4.0.0"]) if vf.THOROUGH else ("linux", ["4.0.0", "22.22.2"]), ("win32", ["12.0.0"]), ("win32", ["3.3.1"])) + (
            (("win32", ["12.0.0", "3.3.1"]),) if vf.THOROUGH else ()):
        versions = [Version(v) for v in names]
        contents, mirrors = world(platform, versions)
        data = os.path.join(vf.scratch("c32"), "data")
        with open(data, "w") as f:
            json.dump({"contents": contents, "mirrors": mirrors}, f)
        env = {"VFJ_DATA": data, "VFJ_PLATFORM": platform}
        start = {}
        seen = {json.dumps(start, sort_keys=True): []}
        frontier = [start]
        level = 0
        while frontier and level < depth and c.nviol < 40:
            level += 1
            jobs = []
            for s in frontier:
                for name, words, mirror, v, arch in operations(platform, versions):
                    if words is None:
                        mark = f"{v.dir}/installVersion"
                        if mark in s:
                            t = dict(s)
                            if name.startswith("unmark"):
                                del t[mark]
                            else:
                                t[mark] = "old marker" if name.startswith("age") else "odd marker"
                            jobs.append((s, name, None, v, arch, t))
                        continue
                    tags = [""] if mirror == "none" else ["X", "Y"] if v and tag_of(s, v) is None else ["Y" if tag_of(s, v) == "X" else "X"] if v else [""]
                    if vf.THOROUGH and mirror != "none":
                        tags = ["X", "Y"]
                    for t in tags:
                        m = {"other": t, "none": "none", "bad": "bad" + t, "nolib": "nolib" + t}[mirror]
                        jobs.append((s, name, (words, m, t), v, arch, None))
            real = [j for j in jobs if j[2]]
            try:
                res = nodelab.batch("setops.js", [{"files": j[0], "mirror": j[2][1], "cmd": j[2][0]} for j in real], env)
            except vf.Bad as e:
                c.violation(e.what, e.key)
                return c.finish()
            by = {id(j): r for j, r in zip(real, res)}
            frontier = []
            for j in jobs:
                s, name, run, v, arch, t = j
                if run is None:
                    after = t
                else:
                    c.add()
                    r = by[id(j)]
                    if "error" in r:
                        raise vf.Bad("the program fails outside any command: " + r["stack"][-600:], "crash")
                    r = r["ok"]
                    after = r["after"]
                    told = f"{platform} {names}: after {seen[json.dumps(s, sort_keys=True)]}: {name} ({run[1]})"
                    judge(c, told, platform, versions, s, name, run, v, arch, r, after)
                    c.seen(told)
                    c.count("transitions")
                k = json.dumps(after, sort_keys=True)
                if k not in seen:
                    seen[k] = seen[json.dumps(s, sort_keys=True)] + [name + (f" ({run[1]})" if run else "")]
                    frontier.append(after)
        c.count("states", len(seen))
        # an entry that names no version: 'current' of older releases
        states = [json.loads(k) for k in seen]
        for s, r in zip(states, nodelab.batch("setops.js", [{"files": dict(s, **{"current/include": "marker"}), "mirror": "none", "cmd": ["list"]} for s in states], env)):
            c.add()
            if "error" in r or r["ok"]["error"] or sorted(r["ok"]["result"]) != sorted({n.split("/")[0] for n in s}):
                c.violation(f"{platform} {names}: with an entry named 'current' beside {sorted(s)}: lists {r}", f"current:{platform}")
                break
        c.count(f"levels_{platform}_{'_'.join(names)}", level)
    forms(c)
    c.sample({"states": c.extra.get("states")})
    return c.finish()


def forms(c):
    """Every way of naming the architecture to install for."""
    v = Version("12.0.0")
    contents, mirrors = world("win32", [v])
    data = os.path.join(vf.scratch("c32"), "data")
    with open(data, "w") as f:
        json.dump({"contents": contents, "mirrors": mirrors}, f)
    cases = []
    for arch in ("ia32", "arm64"):
        for words, env in (([f"--arch={arch}"], {}), ([f"--target_arch={arch}"], {}), ([f"--target-arch={arch}"], {}), ([], {"npm_config_arch": arch}), ([], {"npm_config_target_arch": arch}),
                           ([f"--target_arch={arch}", "--arch=x64"], {}), ([f"--target-arch={arch}", "--arch=x64"], {})):
            for ensure in ([], ["--ensure"]):
                cases.append((arch, words + ensure, env))
    for (arch, words, env), r in zip(cases, nodelab.batch("setops.js", [{"files": {}, "mirror": "X", "cmd": ["install", "12.0.0"] + w, "env": e} for _, w, e in cases], {"VFJ_DATA": data, "VFJ_PLATFORM": "win32"})):
        told = f"install {words} {env}"
        c.add()
        c.seen(told)
        want = dict(headers(v, "X"), **{"12.0.0/installVersion": "marker", f"12.0.0/{arch}/node.lib": f"12.0.0 lib {arch} X"})
        if "error" in r or r["ok"]["error"] or r["ok"]["after"] != want:
            c.violation(f"{told}: installs {sorted(r.get('ok', {}).get('after', r))}, {r.get('ok', r).get('error')}", "forms:" + told)


def judge(c, told, platform, versions, s, name, run, v, arch, r, after):
    def bad(what, key):
        c.violation(f"{told}: {what}", f"{key}:{platform}:{name}", before=sorted(s), after=sorted(after), requests=r["requests"], error=r["error"], result=r["result"])
    listed = sorted({n.split("/")[0] for n in s})
    words, mirror, tag = run
    for w in versions:
        if w is not v and split(s, w) != split(after, w):
            return bad(f"changes {w.v}", "other")
    if set(n.split("/")[0] for n in after) - {w.dir for w in versions}:
        return bad("leaves other entries", "stray")
    if r["left"]:
        return bad(f"leaves {r['left']} in the temporary directory", "tmp")
    if name in ("list", "ls"):
        if r["error"] or sorted(r["result"]) != listed:
            bad(f"lists {r['result']}, installed are {listed}", "list")
        if after != s or r["requests"]:
            bad("changes something", "list")
        return
    if name == "remove absent":
        if after != s or r["requests"]:
            bad("changes something", "absent")
        if r["error"]:
            bad(f"fails: {r['error']}", "absent")
        return
    if name == "rm and list":
        if split(after, v) or r["error"] or sorted(r["result"]) != [d for d in listed if d != v.dir]:
            bad(f"leaves {split(after, v)}, lists {r['result']}", "rmlist")
        return
    was, now = split(s, v), split(after, v)
    if name.startswith("remove"):
        if now:
            bad(f"leaves {sorted(now)}", "remove")
        if r["error"]:
            bad(f"fails: {r['error']}", "remove")
        if not was and after != s:
            bad("changes something", "remove")
        if not was and not isinstance(r["result"], str):
            bad("does not say that it was not installed", "remove")
        return
    ensure = name.startswith("ensure")
    marked = was.get(f"{v.dir}/installVersion") == "marker"
    lib = f"{v.dir}/{arch}/{v.name}.lib"
    have_lib = not arch or lib in was
    if ensure and marked and have_lib:
        if r["requests"] or r["error"] or now != was:
            bad(f"already installed, yet: requests {r['requests']}, error {r['error']}, tree {'changed' if now != was else 'kept'}", "ensured")
        return
    only_lib = ensure and marked
    need = ([] if only_lib else [v.tar]) + [v.sums] + ([v.lib(arch)] if arch else [])
    served = mirror != "none" and not (mirror.startswith("nolib") and arch) and not (mirror.startswith("bad") and not only_lib)
    if not served:
        if not r["error"]:
            bad("succeeds", "bad-mirror")
        if now:
            bad(f"fails and leaves {sorted(now)}", "left")
        return
    if r["error"]:
        return bad(f"fails: {r['error']}", "fails")
    if sorted(r["requests"]) != sorted(need):
        return bad(f"requests {r['requests']}, should request {need}", "requests")
    want = dict(was)
    if not only_lib:
        want.update(headers(v, tag))
    want[f"{v.dir}/installVersion"] = "marker"
    if arch:
        want[lib] = f"{v.v} lib {arch} {tag}"
    other = {n for n in want if n.endswith(".lib") and n != lib}
    if {n: t for n, t in now.items() if n not in other} != {n: t for n, t in want.items() if n not in other} or any(now.get(n, want[n]) != want[n] for n in other):
        bad(f"installs {sorted(set(now.items()) ^ set(want.items()))[:4]}", "tree")


vf.main(main)
