"""C31: every combination of server answers to the requests of an install: it succeeds only with everything verified, and a failure leaves nothing."""
import gzip
import io
import itertools
import os
import sys
import tarfile

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import hdrsrv  # noqa: E402
from nodelab import cli, server  # noqa: E402
import vf  # noqa: E402

V = "12.0.0"
TARNAME = f"node-v{V}-headers.tar.gz"
TOP = f"node-v{V}"
GOOD, FILES = hdrsrv.archive(V, tag="A")
OTHER, _ = hdrsrv.archive(V, tag="X")
LIB = {a: (f"lib {a} " * 9000).encode() for a in ("x64", "x86", "arm64")}
ARCHS = {"x64": "x64", "ia32": "x86", "arm64": "arm64"}


def flip(b, at):
    return b[:at] + bytes([b[at] ^ 0x10]) + b[at + 1:]


def empty_archive():
    out = io.BytesIO()
    with tarfile.open(fileobj=out, mode="w") as t:
        i = tarfile.TarInfo(f"{TOP}/README.md")
        i.size = 2
        t.addfile(i, io.BytesIO(b"hi"))
    return gzip.compress(out.getvalue(), mtime=0)


NOHEADERS = empty_archive()


def evil(kind, root):
    """An archive with one entry that points outside."""
    ex = []

    def f(name, data=b"evil", typ=None, link=""):
        i = tarfile.TarInfo(name)
        i.size, i.mtime = (len(data) if typ is None else 0), 1500000000
        if typ:
            i.type, i.linkname = typ, link
        ex.append((i, data if typ is None else None))
    if kind == "dotdot":
        f(f"{TOP}/../../evil.h")
    elif kind == "dotdot after strip":
        f(f"{TOP}/include/../../../evil.gypi")
    elif kind == "absolute":
        f(os.path.join(root, "evil.h"))
    elif kind == "symlink":
        f(f"{TOP}/out.h", typ=tarfile.SYMTYPE, link="../../outside")
        f(f"{TOP}/out.h/evil.h")
    elif kind == "symlink abs":
        f(f"{TOP}/out.h", typ=tarfile.SYMTYPE, link=os.path.join(root, "outside"))
        f(f"{TOP}/out.h/evil.h")
    elif kind == "symlink file":
        f(f"{TOP}/link.h", typ=tarfile.SYMTYPE, link="../../outside/precious")
        f(f"{TOP}/link.h")
    elif kind == "hard link":
        f(f"{TOP}/hl.h", typ=tarfile.LNKTYPE, link="../../outside/precious")
        f(f"{TOP}/hl.h")
    return hdrsrv.archive(V, tag="A", extra=ex)[0]


EVIL = ["dotdot", "dotdot after strip", "absolute", "symlink", "symlink abs", "symlink file", "hard link"]

# name: (answer for the published bytes, bytes published under the checksum, delivered bytes or None)
def tar_answers():
    g = GOOD
    yield "good", {"body": g}, g, g
    yield "good chunked", {"body": g, "chunked": True}, g, g
    yield "redirected", {"status": 302, "headers": {"Location": f"/moved/{TARNAME}"}, "body": b""}, g, g
    yield "other archive", {"body": OTHER}, g, OTHER
    yield "flipped start", {"body": flip(g, 40)}, g, flip(g, 40)
    yield "flipped middle", {"body": flip(g, len(g) // 2)}, g, flip(g, len(g) // 2)
    yield "flipped last", {"body": flip(g, len(g) - 1)}, g, flip(g, len(g) - 1)
    yield "trailing byte", {"body": g + b"\0"}, g, g + b"\0"
    yield "short", {"body": g[:len(g) // 2]}, g, g[:len(g) // 2]
    yield "short by one", {"body": g[:-1]}, g, g[:-1]
    yield "short, published so", {"body": g[:-300]}, g[:-300], g[:-300]
    yield "no headers, published so", {"body": NOHEADERS}, NOHEADERS, NOHEADERS
    yield "cut", {"body": g, "cut": len(g) // 2}, g, None
    yield "cut chunked", {"body": g, "cut": len(g) // 2, "chunked": True}, g, None
    yield "reset", {"body": g, "reset": len(g) // 2}, g, None
    yield "cut at the last byte", {"body": g, "cut": len(g) - 1}, g, None
    yield "empty", {"body": b""}, g, b""
    yield "page", {"body": b"<html>sign in</html>"}, g, b"<html>sign in</html>"
    yield "404", {"status": 404, "body": g}, g, None
    yield "500", {"status": 500, "body": g}, g, None
    yield "206", {"status": 206, "body": g}, g, None
    yield "gone", {"gone": True}, g, None


def lib_answers(lib):
    yield "good", {"body": lib}, lib
    yield "late", {"body": lib, "delay": 0.05}, lib
    yield "other", {"body": lib[::-1]}, lib[::-1]
    yield "flipped last", {"body": flip(lib, len(lib) - 1)}, flip(lib, len(lib) - 1)
    yield "short", {"body": lib[:-7]}, lib[:-7]
    yield "empty", {"body": b""}, b""
    yield "cut", {"body": lib, "cut": len(lib) // 2}, None
    yield "reset", {"body": lib, "reset": 3}, None
    yield "404", {"status": 404, "body": lib}, None
    yield "403", {"status": 403, "body": lib}, None
    yield "gone", {"gone": True}, None


SUMS = ["good", "late", "crlf", "dot names", "wrong archive", "wrong library", "short archive", "upper case", "swapped", "no archive", "no library", "only others", "longer name",
        "empty", "page", "blank line first", "cut", "reset", "404", "500", "gone"]


def sums_answer(kind, published, libs):
    """(answer, {file name: sum} as a careful reader takes it; None when the list did not arrive, names absent when it does not give them)."""
    lines = [(hdrsrv.sha(published), TARNAME)] + [(hdrsrv.sha(b), n) for n, b in libs.items()] + [("0" * 64, "other.txt")]
    sep, ans = "\n", {}

    def sub(name, s):
        return [(s if n == name else h, n) for h, n in lines]
    if kind == "late":
        ans["delay"] = 0.05
    elif kind == "crlf":
        sep = "\r\n"
    elif kind == "wrong archive":
        lines = sub(TARNAME, hdrsrv.sha(b"z"))
    elif kind == "wrong library":
        lines = [(h if n in (TARNAME, "other.txt") else hdrsrv.sha(b"z"), n) for h, n in lines]
    elif kind == "short archive":
        lines = sub(TARNAME, hdrsrv.sha(published)[:63])
    elif kind == "swapped":
        hs = [h for h, _ in lines]
        lines = [(h, n) for h, (_, n) in zip(hs[1:] + hs[:1], lines)]
    elif kind == "no archive":
        lines = [x for x in lines if x[1] != TARNAME]
    elif kind == "no library":
        lines = [x for x in lines if x[1] in (TARNAME, "other.txt")]
    elif kind == "only others":
        lines = lines[-1:]
    elif kind == "longer name":
        lines = [(h, "x-" + n) for h, n in lines]
    text = sep.join(f"{h.upper() if kind == 'upper case' else h}  {'./' if kind == 'dot names' else ''}{n}" for h, n in lines) + sep
    read = {n: h for h, n in lines}
    if kind == "upper case":
        read = {n: h for n, h in read.items()}
    elif kind == "empty":
        text, read = "", {}
    elif kind == "page":
        text, read = "<html>please sign in</html>\n", {}
    elif kind == "blank line first":
        text = "one\n" + text
    ans["body"] = text.encode()
    if kind == "cut":
        ans["cut"] = 10
    elif kind == "reset":
        ans["reset"] = 10
    elif kind in ("404", "500"):
        ans["status"] = int(kind)
    elif kind == "gone":
        ans["gone"] = True
    if kind in ("cut", "reset", "404", "500", "gone"):
        read = None
    return ans, read


def snapshot(root):
    out = {}
    for d, dirs, names in os.walk(root):
        for n in dirs + names:
            p = os.path.join(d, n)
            if os.path.islink(p):
                out[os.path.relpath(p, root)] = "-> " + os.readlink(p)
            elif os.path.isfile(p):
                with open(p, "rb") as f:
                    out[os.path.relpath(p, root)] = f.read()
    return out


def job(part, item):
    platform, arch, start, tk, sk, lk = item
    root = vf.scratch("c31")
    for d in ("tmp", "home", "dev", "outside"):
        os.mkdir(os.path.join(root, d))
    for n in ("outside/precious", "dev/bystander"):
        with open(os.path.join(root, n), "w") as f:
            f.write("precious")
    if start:
        for n, c in list(FILES.items()) + [("installVersion", b"11\n")]:
            p = os.path.join(root, "dev", V, n)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as f:
                f.write(c)
    base = f"/dist/v{V}/"
    wicked = None
    if tk.startswith("evil "):
        wicked = tk[5:]
        body = evil(wicked, root)
        ta, published, delivered = {"body": body}, body, body
    elif tk == "local":
        ta, published, delivered = {"status": 404}, GOOD, GOOD
        with open(os.path.join(root, "local.tar.gz"), "wb") as f:
            f.write(GOOD)
    else:
        ta, published, delivered = next((a, p, d) for k, a, p, d in tar_answers() if k == tk)
    ans = {base + TARNAME: ta, f"/moved/{TARNAME}": {"body": GOOD}}
    libname, lib_delivered = None, b""
    for a in ARCHS:
        ans[base + f"win-{ARCHS[a]}/node.lib"] = {"body": LIB[ARCHS[a]]}
    if platform == "win32":
        libname = f"win-{ARCHS[arch]}/node.lib"
        la, lib_delivered = next((a, d) for k, a, d in lib_answers(LIB[ARCHS[arch]]) if k == lk)
        ans[base + libname] = la
    sa, sums = sums_answer(sk, published, {f"win-{a}/node.lib": b for a, b in LIB.items()})
    ans[base + "SHASUMS256.txt"] = sa
    server().script(ans)
    before = snapshot(root)
    cmd = ["install", V] + (["--arch", arch] if arch else []) + (["--tarball", os.path.join(root, "local.tar.gz")] if tk == "local" else [])
    rc, out = cli(root, platform, cmd)
    part.add()
    part.seen(item)
    what = f"{platform} {arch} {'over an old one ' if start else ''}archive {tk}, checksums {sk}, library {lk}"
    if rc == "hang":
        raise vf.Bad(f"{what}: hangs", "hang:" + what)
    after = snapshot(root)
    mine = {n[len(f"dev/{V}/"):]: c for n, c in after.items() if n.startswith(f"dev/{V}/")}
    ok = rc == 0
    verified = True
    if tk != "local":
        verified = verified and delivered is not None and sums is not None and sums.get(TARNAME) == hdrsrv.sha(delivered)
    if platform == "win32":
        verified = verified and lib_delivered is not None and sums is not None and sums.get(libname) == hdrsrv.sha(lib_delivered)
    whole = verified and delivered not in (NOHEADERS, GOOD[:-300])
    if ok and not verified:
        raise vf.Bad(f"{what}: accepted unverified", "accepted:" + what, log=out[-1500:])
    if ok and not whole:
        raise vf.Bad(f"{what}: accepted though it cannot be unpacked whole", "accepted:" + what, log=out[-1500:])
    if not ok and whole and not wicked and sk not in ("upper case", "blank line first"):
        raise vf.Bad(f"{what}: refused: {out[-500:]}", "refused:" + what)
    if not ok and (mine or os.path.lexists(os.path.join(root, "dev", V))):
        # whatever is left must not be taken for an installation
        part.count("leftovers_judged")
        good = {base + TARNAME: {"body": GOOD}, base + "SHASUMS256.txt": {"body": "".join(f"{hdrsrv.sha(b)}  {n}\n" for n, b in (
            [(TARNAME, GOOD)] + [(f"win-{a}/node.lib", LIB[a]) for a in LIB])).encode()}}
        good.update({base + f"win-{a}/node.lib": {"body": LIB[a]} for a in LIB})
        server().script(good)
        rc2, out2 = cli(root, platform, ["install", V, "--ensure"] + (["--arch", arch] if arch else []))
        again = snapshot(root)
        if base + TARNAME not in server().requests or rc2 != 0 or any(again.get(f"dev/{V}/{n}") != c for n, c in FILES.items()):
            raise vf.Bad(f"{what}: a failed install leaves {sorted(mine)}, which is then taken for an installation ({rc2}, {server().requests})", "left:" + what, log=out[-1500:])
    if ok:
        want = dict(FILES, installVersion=b"11\n")
        if platform == "win32":
            want[f"{arch}/node.lib"] = LIB[ARCHS[arch]]
        if wicked:
            extra = {n for n in mine if n not in want}
            if any(not n.endswith((".h", ".gypi")) for n in extra) or any(mine.get(n) != c for n, c in want.items()):
                raise vf.Bad(f"{what}: unpacked {sorted(extra)}", "extra:" + what)
        elif mine != want:
            bad = sorted(n for n in set(mine) | set(want) if mine.get(n) != want.get(n))
            raise vf.Bad(f"{what}: succeeds with wrong files {bad}", "files:" + what, log=out[-1500:])
    rest = {n: c for n, c in after.items() if not n.startswith((f"dev/{V}/", "tmp/"))}
    if rest != {n: c for n, c in before.items() if not n.startswith((f"dev/{V}/", "tmp/"))}:
        raise vf.Bad(f"{what}: changed files outside the version's directory: {sorted(set(rest.items()) ^ set(before.items()))[:4]}", "outside:" + what)
    part.count("succeeded" if ok else "failed")
    part.sample({"case": what, "success": ok})
    vf.rmtree(root)


def main():
    c = vf.Check("C31", "fault_enumeration",
                 "every pair of deviating server answers (every triple at the thorough tier) to the requests of a real command-line install - 22 archive, 21 checksum-list and 11 "
                 "library answers, 7 archives with escaping entries, local archives - on both platforms' file sets and all Windows architectures",
                 ["the mirror is a loopback server without TLS", "Windows is the real code with process.platform set, on a Linux file system"])
    todo = set()
    tars = [k for k, *_ in tar_answers()]
    libs = [k for k, *_ in lib_answers(b"xxxxxxxx")]
    for t, s in itertools.product(tars + ["evil " + e for e in EVIL] + ["local"], SUMS):
        for start in (False, True):
            if start and not vf.THOROUGH and not (t in ("good", "other archive", "cut", "404", "flipped last") or s == "good"):
                continue
            if t.startswith("evil ") and s != "good":
                continue
            if not vf.THOROUGH and t.startswith("good c") and s != "good":
                continue
            todo.add(("linux", "", start, t, s, "-"))
    for t, s, lib in itertools.product(tars + ["local"], SUMS, libs):
        dev = (t not in ("good", "local")) + (s != "good") + (lib != "good")
        for arch in ARCHS:
            if vf.THOROUGH or dev <= 1 or (dev == 2 and arch == "x64" and (t in ("good", "local", "other archive", "cut", "404", "flipped last"))):
                todo.add(("win32", arch, False, t, s, lib))
    vf.pmap(c, job, sorted(todo), chunk=4)
    return c.finish()


vf.main(main)
