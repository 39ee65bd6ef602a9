"""C30: an install or removal killed or failed at any file operation never leaves a partial or unverified tree that is later accepted."""
import json
import os
import signal
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import faultfs  # noqa: E402
import hdrsrv  # noqa: E402
from nodelab import cli, server  # noqa: E402
import vf  # noqa: E402

V = "12.0.0"
ARCHIVES = {t: hdrsrv.archive(V, tag=t) for t in "ABX"}
LIBS = {t: {a: (f"lib {a} {t} " * 9000).encode() for a in ("x64", "x86", "arm64")} for t in "ABX"}
def answers(tag, order="", bad=None):
    """What the mirror serves: archive and libraries of the tag; bad= one of them is tampered with."""
    base = f"/dist/v{V}/"
    tarball = ARCHIVES["X" if bad == "tarball" else tag][0]
    sums = f"{hdrsrv.sha(ARCHIVES[tag][0])}  node-v{V}-headers.tar.gz\n"
    out = {base + f"node-v{V}-headers.tar.gz": {"body": tarball}}
    for a in ("x64", "x86", "arm64"):
        sums += f"{hdrsrv.sha(LIBS[tag][a])}  win-{a}/node.lib\n"
        out[base + f"win-{a}/node.lib"] = {"body": LIBS["X" if bad == "lib" else tag][a], "delay": 0.06 if order == "lib late" else 0}
    out[base + "SHASUMS256.txt"] = {"body": sums.encode(), "delay": 0.06 if order == "sums late" else 0}
    return out


def tree(root, dev="dev"):
    base, out = os.path.join(root, dev, V), {}
    for d, _, names in os.walk(base):
        for n in names:
            p = os.path.join(d, n)
            with open(p, "rb") as f:
                out[os.path.relpath(p, base)] = f.read()
    return out


def whose(t, arch):
    """(tag of the headers, tag of the library), None where incomplete or mixed."""
    h = next((tag for tag in "ABX" if all(t.get(n) == c for n, c in ARCHIVES[tag][1].items())), None)
    lib = None
    if arch:
        lib = next((tag for tag in "ABX" if t.get(f"{arch}/node.lib") == LIBS[tag]["x86" if arch == "ia32" else arch]), None)
    return h, lib


SCENARIOS = {
    # name: (platform, archs to ensure, how the tree starts, command, mirror during the run)
    "new": ("linux", [""], None, ["install", V, "--ensure"], {}),
    "new, not ensured": ("linux", [""], None, ["install", V], {}),
    "again": ("linux", [""], "A", ["install", V], {}),
    "outdated": ("linux", [""], "A old", ["install", V, "--ensure"], {}),
    "no marker": ("linux", [""], "A nomark", ["install", V, "--ensure"], {}),
    "local archive": ("linux", [""], "A", ["install", V, "--tarball", "@tar"], {}),
    "tampered": ("linux", [""], None, ["install", V, "--ensure"], {"bad": "tarball"}),
    "tampered again": ("linux", [""], "A", ["install", V], {"bad": "tarball"}),
    "removed": ("linux", [""], "A", ["remove", V], {}),
    "win new": ("win32", ["x64"], None, ["install", V, "--ensure", "--arch", "x64"], {}),
    "win again": ("win32", ["x64"], "A", ["install", V, "--arch", "x64"], {}),
    "win second arch": ("win32", ["x64", "ia32"], "A", ["install", V, "--ensure", "--arch", "ia32"], {}),
    "win tampered": ("win32", ["x64"], None, ["install", V, "--ensure", "--arch", "x64"], {"bad": "tarball"}),
    "win tampered lib": ("win32", ["x64", "ia32"], "A", ["install", V, "--ensure", "--arch", "ia32"], {"bad": "lib"}),
    "win removed": ("win32", ["x64"], "A", ["remove", V], {}),
}
QUIET = ("open-read", "read", "close", "chmod", "utime", "fsync")
ORDERS = {"linux": ["", "sums late"], "win32": ["", "sums late", "lib late"]}


def prepare(name, order):
    """A scratch directory in the scenario's starting state, and the command to run there."""
    platform, archs, start, cmd, mirror = SCENARIOS[name]
    root = vf.scratch("c30")
    for d in ("tmp", "home", "dev"):
        os.mkdir(os.path.join(root, d))
    if start:
        base = os.path.join(root, "dev", V)
        files = dict(ARCHIVES["A"][1])
        if platform == "win32":
            files["x64/node.lib"] = LIBS["A"]["x64"]
        if "nomark" not in start:
            files["installVersion"] = b"9\n" if "old" in start else b"11\n"
        for n, c in files.items():
            os.makedirs(os.path.dirname(os.path.join(base, n)), exist_ok=True)
            with open(os.path.join(base, n), "wb") as f:
                f.write(c)
    if "@tar" in cmd:
        with open(os.path.join(root, "local.tar.gz"), "wb") as f:
            f.write(ARCHIVES["B"][0])
    server().script(answers("B", order, mirror.get("bad")))
    return root, platform, archs, [os.path.join(root, "local.tar.gz") if a == "@tar" else a for a in cmd]


def later(name, where, root, platform, archs):
    """A later install that only ensures presence, from a good mirror: what it accepts or fetches must be whole."""
    for arch in archs:
        server().script(answers("B"))
        rc, out = cli(root, platform, ["install", V, "--ensure"] + (["--arch", arch] if arch else []))
        asked = list(server().requests)
        t = tree(root)
        h, lib = whose(t, arch)
        told = f"{name} {where}; then ensuring {arch or 'headers'} (requests {[os.path.basename(r) for r in asked]})"
        if rc != 0:
            raise vf.Bad(f"{told} fails: {out[-600:]}", f"{name}:later-fails")
        if h not in ("A", "B") or (arch and lib not in ("A", "B")):
            want = ARCHIVES["B"][1]
            state = {n: ("missing" if n not in t else f"{len(t[n])} of {len(c)} bytes" if len(t[n]) != len(c) else t[n][:24]) for n, c in want.items() if t.get(n) != c}
            raise vf.Bad(f"{told} accepts a partial or unverified tree: headers {h}, library {lib}: {state}", f"{name}:accepted:{where.split(' at ')[0]}", tree=sorted(t))
        if "installVersion" not in t:
            raise vf.Bad(f"{told} leaves no version marker", f"{name}:marker")
    # what is now in place is really accepted: nothing more is fetched
    server().script(answers("B"))
    rc, out = cli(root, platform, ["install", V, "--ensure"] + (["--arch", archs[-1]] if archs[-1] else []))
    if rc != 0 or server().requests:
        raise vf.Bad(f"{name} {where}: not stable after recovery: {rc} {server().requests}", f"{name}:unstable")


def job(part, item):
    name, order, mode, n = item
    root, platform, archs, cmd = prepare(name, order)
    log = os.path.join(vf.scratch_root(), f"ops{os.getpid()}")
    if os.path.exists(log):
        os.unlink(log)
    so = faultfs.build()
    rc, out = cli(root, platform, cmd, faultfs.environment(so, root, mode, n, log))
    ops = []
    if os.path.exists(log):
        with open(log) as f:
            ops = f.read().split("\n")[:-1]
    part.add()
    op = ops[n] if n < len(ops) else "none"
    where = f"({order or 'in order'}) {mode} at {op}"
    part.seen((name, order, mode, n, op))
    if mode != "count" and n >= len(ops):
        part.count("beyond_the_end")
    if rc == "hang":
        raise vf.Bad(f"{name} {where}: hangs: {out[-300:]}", f"{name}:hang")
    killed = rc == -signal.SIGKILL
    bad = SCENARIOS[name][4].get("bad")
    installing = cmd[0] == "install"
    if killed:
        part.count("killed")
    elif rc == 0:
        # without permission the headers go to the temporary directory, as it says
        fallback = mode == "eacces" and "using temporary dev dir" in out
        t = tree(root, os.path.join("tmp", ".node-gyp") if fallback else "dev")
        part.count("reported_success")
        if fallback:
            part.count("fell_back_to_tmp")
        if installing:
            if bad:
                raise vf.Bad(f"{name} {where}: reports success", f"{name}:success-tampered")
            h, lib = whose(t, archs[-1])
            if h is None or h == "X" or (archs[-1] and lib in (None, "X")) or (h == "A" and len(archs) == 1):
                raise vf.Bad(f"{name} {where}: reports success over an incomplete tree: headers {h}, library {lib}", f"{name}:success-partial", tree=sorted(t), log=out[-800:])
        elif t:
            raise vf.Bad(f"{name} {where}: reports success and leaves {sorted(t)}", f"{name}:success-remove")
    else:
        part.count("reported_failure")
        if mode == "count" and not bad:
            raise vf.Bad(f"{name} ({order}): fails undisturbed: {out[-800:]}", f"{name}:fails")
        if "VIOLATION" in out:
            raise vf.Bad("odd output", name)
    later(name, where, root, platform, archs)
    part.sample({"scenario": name, "order": order, "fault": mode, "operation": n, "op": op, "status": rc})
    vf.rmtree(root)


def count_job(part, item):
    """Counts the file operations of an undisturbed run (the most seen in two runs)."""
    name, order = item
    most = []
    for _ in range(2):
        job(part, (name, order, "count", 0))
        with open(os.path.join(vf.scratch_root(), f"ops{os.getpid()}")) as f:
            ops = f.read().split("\n")[:-1]
        if len(ops) > len(most):
            most = ops
    with open(os.path.join(vf.scratch_root(), f"n-{vf.slug(name)}-{vf.slug(order)}"), "w") as f:
        json.dump(most, f)


def main():
    c = vf.Check("C30", "fault_enumeration",
                 "every file operation of the real command-line install or removal (15 scenarios x answer orders, Linux and Windows file sets) at which the process is killed "
                 "before or half-way through it, or the operation fails; then the real ensuring install decides what it accepts",
                 ["one installer at a time per directory", "a crash loses no completed write (process, not power, failure)",
                  "Windows is the real code with process.platform set, on a Linux file system", "libuv's pool has one thread so that operations have an order"])
    faultfs.build()
    pairs = [(name, order) for name, s in SCENARIOS.items() for order in (ORDERS[s[0]] if s[3][0] == "install" else [""])]
    vf.pmap(c, count_job, pairs, chunk=1)
    if c.nviol:
        return c.finish()
    todo = []
    for name, order in pairs:
        with open(os.path.join(vf.scratch_root(), f"n-{vf.slug(name)}-{vf.slug(order)}")) as f:
            ops = json.load(f)
        n = len(ops)
        c.count("operations", n)
        modes = ["kill before", "torn", "eio", "enospc", "eacces"]
        if not vf.THOROUGH:
            modes = ["kill before", "eio"] if not order else ["kill before"]
        for mode in modes:
            for k in range(n + 1):
                # between operations that leave the disk's contents alone, one kill is as good as another
                if mode == "kill before" and not vf.THOROUGH and k and ops[k - 1] in QUIET:
                    c.count("same_state_kills_left_out")
                elif mode != "torn" or (k < n and ops[k] == "write"):
                    todo.append((name, order, mode, k))
    vf.pmap(c, job, todo, chunk=4)
    return c.finish()


vf.main(main)
