"""C34: where headers, checksums and libraries are fetched from, for every release configuration within the bounds, against a restatement of the documented layout."""
import itertools
import os
import re
import sys
from urllib.parse import urljoin, urlparse

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import nodelab  # noqa: E402
import vf  # noqa: E402

VERSIONS = ["0.8.0", "0.8.20", "0.9.12", "0.10.0", "0.10.41", "0.10.42", "0.10.48", "0.11.14", "0.12.9", "0.12.10", "0.12.18", "0.13.0", "1.0.0", "1.8.4", "2.5.0",
            "2.99.99", "3.0.0", "3.3.1", "4.0.0", "4.1.23", "5.12.0", "10.24.1", "12.8.0", "18.20.4", "22.22.2", "30.1.2", "100.0.0",
            "4.0.0-rc.4", "12.0.0-nightly20191010abc", "3.0.0-rc.1", "0.12.10-pre", "1.0.0-beta"]
SPELL = ["{}", "v{}"]
BAD = ["", "latest", "12", "12.8", "v12", "1.2.3.4", "not a version", "../0.10.0", "^12.0.0", "0.10.0 || 4.0.0"]
HOST = "https://nodejs.org/download/release"


def releases(v):
    """Forms of process.release for a running version."""
    yield None
    yield {"name": "node"}
    for name in ("node", "io.js", "frankenstein"):
        h = {"name": name, "headersUrl": f"{HOST}/v{v}/{name.replace('.', '')}-v{v}-headers.tar.gz"}
        yield h
        for arch in ("x86", "x64", "arm64")[:2 if v.startswith("3.") else 3]:  # io.js 3 had no arm64 builds
            yield dict(h, libUrl=f"{HOST}/v{v}/win-{arch}/{name.replace('.', '')}.lib")
    yield {"name": "node", "headersUrl": f"http://corp.example:8080/a/b/node-v{v}-headers.tar.gz", "libUrl": f"http://corp.example:8080/a/b/win-x64/node.lib"}
    yield {"name": "node", "headersUrl": f"http://corp.example/a/h.tar.gz", "libUrl": "http://corp.example/a/libs/node.lib"}
    yield {"name": "node", "headersUrl": f"{HOST}/v{v}/node-v{v}-headers.tar.gz", "libUrl": f"{HOST}/v{v}/win-ia32/node.lib"}


def parse(v):
    m = re.fullmatch(r"\s*v?(\d+)\.(\d+)\.(\d+)(?:-([0-9A-Za-z.-]+))?(?:\+[0-9A-Za-z.-]+)?\s*", v or "")
    if not m:
        return None
    return tuple(int(x) for x in m.groups()[:3]) + (m.group(4),)


def text(p):
    return "%d.%d.%d" % p[:3] + (f"-{p[3]}" if p[3] else "")


def relative(base, to):
    a = [x for x in urlparse(base).path.split("/") if x]
    b = [x for x in urlparse(to).path.split("/") if x]
    while a and b and a[0] == b[0]:
        a.pop(0)
        b.pop(0)
    return "/".join([".."] * len(a) + b)


def expect(c):
    """The documented answer. {key: set of acceptable values}"""
    arg = c["argv"][0] if c["argv"] else None
    asked = arg if parse(arg) else c["opts"].get("target") or c["version"]
    p = parse(asked)
    if p is None:
        return {"version": {asked}, "semver": {None}}
    v = text(p)
    own = c["release"] if v == text(parse(c["version"])) else None
    legacy_iojs = 1 <= p[0] < 4
    name = own["name"].replace("io.js", "iojs") if own else "iojs" if legacy_iojs else "node"
    mirror = c["opts"].get("dist-url") or c["opts"].get("disturl") or c["mirror"]
    if own and own.get("headersUrl") and not mirror:
        base = own["headersUrl"].rsplit("/", 1)[0] + "/"
        tarballs = {own["headersUrl"]}
        lib = own.get("libUrl") or base
    else:
        root = (mirror or "https://nodejs.org/dist").rstrip("/")
        base = f"{root}/v{v}/"
        headers = p[:3] >= (3, 0, 0) or (p[:2] == (0, 12) and p[2] >= 10) or (p[:2] == (0, 10) and p[2] >= 42)
        kinds = ["-headers", ""] if p[3] else ["-headers"] if headers else [""]
        tarballs = {f"{base}{name}-v{v}{k}.tar.gz" for k in kinds}
        lib = base
    out = {"version": {v}, "semver": {v}, "name": {name}, "baseUrl": {base}, "tarballUrl": tarballs, "shasumsUrl": {base + "SHASUMS256.txt"},
           "versionDir": {v if name == "node" else f"{name}-{v}"}}
    for arch, short in (("ia32", "x86"), ("x64", "x64"), ("arm64", "arm64")):
        m = re.search(r"/win-(x86|x64|arm64)/", lib) or (p[0] == 3 and re.search(r"/win-(ia32)/", lib))
        if m:
            u = lib[:m.start()] + f"/win-{short}/" + lib[m.end():]
        else:
            d = lib.rsplit("/", 1)[0] + "/"
            u = d + (f"win-{short}/" if p[0] >= 1 else "" if short == "x86" else f"{short}/") + name + ".lib"
        out[arch] = u, relative(base, u)
    return out


def cases():
    opts = [{}, {"dist-url": "https://m.example/x"}, {"disturl": "http://n.example:81/y//"}, {"dist-url": "https://m.example/x/", "disturl": "http://n.example/y"}, {"dist-url": "file:///w"},
            {"dist-url": ""}]
    mirrors = [None, "", "https://mirror.example/dist/"]
    # the version asked for, against a few running ones
    running = [("v22.22.2", r) for r in releases("22.22.2")] + [("v0.10.41", None), ("v0.10.48", {"name": "node"}), ("v4.0.0-rc.4", {"name": "node", "headersUrl": "https://nodejs.org/download/rc/v4.0.0-rc.4/node-v4.0.0-rc.4-headers.tar.gz"}),
                                                                 ("v3.3.1", {"name": "io.js", "headersUrl": "https://iojs.org/download/release/v3.3.1/iojs-v3.3.1-headers.tar.gz", "libUrl": "https://iojs.org/download/release/v3.3.1/win-ia32/iojs.lib"})]
    for v, s, o, m, (rv, rel) in itertools.product(VERSIONS, SPELL, opts, mirrors, running):
        if not vf.THOROUGH and rel and rv == "v22.22.2" and v != "22.22.2" and (s == "{}" or o or m):
            continue
        yield {"argv": [s.format(v)], "opts": o, "mirror": m, "version": rv, "release": rel}
        yield {"argv": [], "opts": dict(o, target=s.format(v)), "mirror": m, "version": rv, "release": rel}
    # the running version itself
    for v in VERSIONS:
        for rel, o, m in itertools.product(releases(v), opts, mirrors):
            for argv, target in ([], None), ([v], None), (["v" + v], None), ([], v), ([], "v" + v), (["x"], None):
                yield {"argv": argv, "opts": dict(o, target=target) if target else o, "mirror": m, "version": "v" + v, "release": rel}
    # arguments and targets that are no version, and their precedence
    some = [b for b in BAD] + ["v4.1.23", "0.10.42", " 12.8.0 ", "=12.8.0", "12.8.0+build.5"]
    for a, t, o, (rv, rel) in itertools.product([None] + some, [None] + some, opts[:3], running[:6] + running[-3:]):
        yield {"argv": [] if a is None else [a, "12.0.0"], "opts": o if t is None else dict(o, target=t), "mirror": None, "version": rv, "release": rel}


def main():
    c = vf.Check("C34", "exhaustive_enumeration",
                 "real processRelease on every combination of 32 versions (around every layout threshold) and 15 odd strings, as argument, --target or running version, 14 forms of process.release, 6 "
                 "dist-url settings and 3 NODEJS_ORG_MIRROR settings, compared with an independent statement of the layout; directories compared pairwise",
                 ["for a pre-release that is not the running one the archive may be the headers' or the full one"])
    todo = []
    seen = set()
    for x in cases():
        k = repr(x)
        if k not in seen:
            seen.add(k)
            todo.append(x)
    try:
        results = nodelab.batch("release.js", todo)
    except vf.Bad as e:
        c.violation(e.what, e.key)
        return c.finish()
    owner = {}
    for x, r in zip(todo, results):
        c.add()
        c.seen(repr(x))
        want = expect(x)
        told = f"argument {x['argv']}, options {x['opts']}, mirror {x['mirror']}, running {x['version']} {x['release']}"
        if "error" in r:
            c.violation(f"{told}: {r['error']}", "throws:" + told, case=x)
            continue
        got = r["ok"]
        for k, w in want.items():
            g = got.get(k)
            if isinstance(w, tuple):
                if not g or (g["libUrl"], g["libPath"]) != w:
                    c.violation(f"{told}: library for {k} is {g}, should be {w}", f"lib:{k}:{told}", case=x)
            elif g not in w:
                c.violation(f"{told}: {k} is {g}, should be {' or '.join(str(i) for i in w)}", f"{k}:{told}", case=x)
        if got.get("semver"):
            c.count("valid_versions")
            o = owner.setdefault(got["versionDir"], (got["name"], got["version"]))
            if o != (got["name"], got["version"]):
                c.violation(f"{told}: shares the directory {got['versionDir']} with {o}", "shared:" + got["versionDir"], case=x)
            if "/" in got["versionDir"] or got["versionDir"] in (".", ".."):
                c.violation(f"{told}: directory {got['versionDir']}", "dir:" + told, case=x)
        else:
            c.count("invalid_versions")
        c.sample({"case": told, "archive": got.get("tarballUrl"), "x64": (got.get("x64") or {}).get("libUrl")})
    c.count("directories", len(owner))
    return c.finish()


vf.main(main)
