"""Generated projects built for real with make or ninja over recording, content-addressed stub tools (lib/shim/stub.c)."""
import os
import subprocess

import gypdrv
import vf

TOOLS = ("cc", "cxx", "ar", "nm", "readelf", "act")
_bin = None


def tools():
    """Directory of the stub tools (built once per check, before forking)."""
    global _bin
    if _bin is None:
        _bin = os.path.join(vf.scratch_root(), "bin")
        if not os.path.exists(os.path.join(_bin, "cc")):
            os.makedirs(_bin, exist_ok=True)
            exe = os.path.join(_bin, "stub")
            subprocess.check_call(["gcc", "-O1", "-w", "-o", exe, os.path.join(vf.VERIF, "lib", "shim", "stub.c")])
            for t in TOOLS:
                os.link(exe, os.path.join(_bin, t))
    return _bin


def toolenv():
    b = tools()
    env = {"CC": b + "/cc", "CXX": b + "/cxx", "AR": b + "/ar", "LINK": b + "/cxx", "NM": b + "/nm", "READELF": b + "/readelf"}
    return env


def generate(root, fmt, files=(), args=("a.gyp",), flags=(), env=None, bare=False, **kw):
    """Writes files and runs the real generator (bare: no tool named in the environment). -> gypdrv.Result"""
    e = toolenv() if not bare else {}
    e.update(env or {})
    return gypdrv.run(dict(files), args=args, fmt=fmt, flags=flags, env=e, root=root, **kw)


class Ran:
    def __init__(self, rc, out, calls, rw=()):
        self.rc, self.out, self.calls, self.rw = rc, out, calls, list(rw)

    def of(self, *tools):
        return [c for c in self.calls if os.path.basename(c[1][0]) in tools]


def parse_log(path):
    try:
        with open(path, "rb") as f:
            b = f.read()
    except FileNotFoundError:
        return []
    it = iter(b.split(b"\0"))
    calls = []
    for n in it:
        if not n:
            break
        cwd = next(it).decode("utf-8", "surrogateescape")
        calls.append((cwd, [next(it).decode("utf-8", "surrogateescape") for _ in range(int(n))]))
    return calls


def parse_rw(path):
    """[(set of paths read, [paths written])] per successful or failed tool call."""
    try:
        with open(path, "rb") as f:
            b = f.read()
    except FileNotFoundError:
        return []
    out, r, w = [], set(), []
    for x in b.split(b"\0"):
        if not x:
            if r or w:
                out.append((r, w))
            r, w = set(), []
        elif x[:1] == b"r":
            r.add(os.path.normpath(x[1:].decode("utf-8", "surrogateescape")))
        else:
            w.append(os.path.normpath(x[1:].decode("utf-8", "surrogateescape")))
    return out


def build(root, fmt, config="Default", targets=(), jobs=1, env=None, timeout=60, out="out", extra=(), cwd=None, unprivileged=False, bare=False):
    """Runs make or ninja once. -> Ran(rc, output, [(cwd, argv)...])"""
    log = os.path.join(root, ".vflog")
    rw = os.path.join(root, ".vfrw")
    for x in (log, rw):
        if os.path.exists(x):
            os.unlink(x)
    e = {k: v for k, v in os.environ.items() if k not in ("MAKEFLAGS", "MAKELEVEL", "LD_PRELOAD")}
    if bare:
        e = {k: v for k, v in e.items() if k not in toolenv()}
    else:
        e.update(toolenv())
    e["PATH"] = tools() + ":" + e["PATH"]
    e["VF_LOG"] = log
    e["VF_RW"] = rw
    e.update(env or {})
    if fmt == "make":
        cmd = ["make", "-C", cwd or root, "-j%d" % jobs, "BUILDTYPE=" + config, *extra, *targets]
    else:
        cmd = ["ninja", "-C", os.path.join(root, out, config), "-j%d" % jobs, *extra, *targets]
    drop = {}
    if unprivileged:  # the commands may hold any text at all: run them where they can reach nothing real
        os.chmod(vf.scratch_root(), 0o711)
        subprocess.check_call(["chmod", "-R", "a+rwX", root])
        drop = {"user": 65534, "group": 65534, "extra_groups": []}
    p = subprocess.Popen(cmd, **drop, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, env=e, start_new_session=True)
    try:
        o = p.communicate(timeout=timeout if vf.tally("bhang") < 4 else min(timeout, 5))[0]
        rc = p.returncode
    except subprocess.TimeoutExpired:
        vf.tally("bhang", 1)
        gypdrv.killgroup(p.pid)
        o, rc = p.communicate()[0], "hang"
    return Ran(rc, o.decode("utf-8", "replace"), parse_log(log), parse_rw(rw))


def outputs(root, fmt, config="Default", out="out"):
    """{path relative to the configuration directory: content} of everything built."""
    base = os.path.join(root, out, config)
    found = {}
    for dp, dn, fn in os.walk(base):
        for f in fn:
            p = os.path.join(dp, f)
            rel = os.path.relpath(p, base)
            if f.endswith((".ninja", ".d", ".ninja_log", ".ninja_deps", ".rsp")) or f in (".ninja_log", ".ninja_deps", "gyp-mac-tool", "ar-file-list") or f.endswith(".ar-file-list") or rel.startswith(".deps"):
                continue
            with open(p, "rb") as fh:
                found[rel] = fh.read()
    return found
