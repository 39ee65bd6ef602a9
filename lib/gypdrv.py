"""Drives the real gyp (command-line entry point) one process per case."""
import os
import pickle
import pprint
import signal
import sys
import traceback

import vf

sys.path.insert(0, os.path.join(vf.REPO, "gyp", "pylib"))
CAPGEN = os.path.join(vf.VERIF, "lib", "capgen.py")
sys.path.insert(0, os.path.join(vf.VERIF, "lib"))

import gyp  # noqa: E402
import gyp.common  # noqa: E402
import gyp.input  # noqa: E402

for _k in list(os.environ):
    if _k.startswith(("GYP_", "CC", "CXX", "AR_", "LD_")) or _k in ("AR", "LINK", "CFLAGS", "CXXFLAGS", "LDFLAGS", "CPPFLAGS", "NM"):
        del os.environ[_k]
os.environ["HOME"] = "/nonexistent-home"


class Result:
    """status: 0 ok, nonzero = gyp's exit status, 'exc' = an exception other than
    GypError escaped, 'hang', 'died'."""

    def __init__(self, **kw):
        self.__dict__.update(kw)

    @property
    def ok(self):
        return self.status == 0

    def __repr__(self):
        return f"<{self.status} {self.stderr[-300:]}>"


def killgroup(pid):
    for kill in (os.killpg, os.kill) if os.path.exists(f"/proc/{pid}") else (os.killpg,):
        try:
            kill(pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass


def isolated(fn, timeout=60):
    """Runs fn() in a forked child; returns (kind, value)."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        status = 1
        try:
            os.setpgid(0, 0)
            mp = sys.modules.get("multiprocessing")
            if mp is not None:  # the code under test may start worker processes of its own
                mp.current_process()._config["daemon"] = False
            os.close(r)
            try:
                out = ("ok", fn())
            except BaseException as e:  # noqa: BLE001
                out = ("exc", (type(e).__name__, str(e), traceback.format_exc()))
            with os.fdopen(w, "wb") as f:
                pickle.dump(out, f, protocol=4)
            status = 0
        finally:
            os._exit(status)
    os.close(w)
    import select

    chunks = []
    import time

    deadline = time.time() + timeout
    with os.fdopen(r, "rb") as f:
        fd = f.fileno()
        while True:
            left = deadline - time.time()
            if left <= 0 or not select.select([fd], [], [], left)[0]:
                killgroup(pid)
                os.waitpid(pid, 0)
                killgroup(pid)
                return ("hang", None)
            b = os.read(fd, 1 << 20)
            if not b:
                break
            chunks.append(b)
    os.waitpid(pid, 0)
    killgroup(pid)
    data = b"".join(chunks)
    if not data:
        return ("died", None)
    return pickle.loads(data)


def render(obj):
    return obj if isinstance(obj, str) else pprint.pformat(obj, width=10 ** 6, sort_dicts=False) + "\n"


def write_files(root, files):
    for name, content in files.items():
        p = os.path.join(root, name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if isinstance(content, bytes):
            with open(p, "wb") as f:
                f.write(content)
        else:
            with open(p, "w", encoding="utf-8", newline="") as f:
                f.write(render(content))


def run(files, args=("a.gyp",), fmt=None, cwd=".", env=None, flags=(), depth=".", keep=None, parallel=False,
        post=None, pre=None, timeout=60, stdout=False, root=None):
    """Writes files into a fresh directory (or keep=dir), runs gyp in a child process
    there and returns what the generator was handed."""
    d = keep or root or vf.scratch("g")
    write_files(d, files)

    def body():
        os.chdir(os.path.join(d, cwd))
        if env:
            os.environ.update(env)
        so, se = os.path.join(d, ".stdout"), os.path.join(d, ".stderr")
        for n, p in ((1, so), (2, se)):
            fd = os.open(p, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
            os.dup2(fd, n)
            os.close(fd)
        argv = []
        if depth is not None:
            argv.append("--depth=" + depth)
        argv += ["-f", fmt or CAPGEN]
        if not parallel:
            argv.append("--no-parallel")
        argv += ["-G" + f for f in flags]
        argv += list(args)
        exc = None
        if pre:
            pre()
        try:
            status = gyp.main(argv)
        except SystemExit as e:
            status = e.code if isinstance(e.code, int) else 1
        except BaseException as e:  # noqa: BLE001
            status, exc = "exc", (type(e).__name__, str(e), traceback.format_exc())
        sys.stdout.flush()
        sys.stderr.flush()
        cap = None
        if not fmt:
            m = sys.modules.get("capgen")
            if m is not None and m.captured:
                cap = m.captured[-1]
        extra = post() if post else None
        return status, exc, cap, extra

    try:
        # Once several runs have hung there is nothing to learn from waiting long again.
        kind, val = isolated(body, timeout if vf.tally("hang") < 4 else min(timeout, 2))
        if kind == "hang":
            vf.tally("hang", 1)

        def slurp(n):
            try:
                with open(os.path.join(d, n), errors="replace") as f:
                    return f.read()
            except OSError:
                return ""

        out, err = slurp(".stdout"), slurp(".stderr")
        for n in (".stdout", ".stderr"):
            if os.path.exists(os.path.join(d, n)):
                os.unlink(os.path.join(d, n))
        if kind != "ok":
            return Result(status=kind, exc=val, flat=None, targets=None, data=None, extra=None, stdout=out, stderr=err, dir=d)
        status, exc, cap, extra = val
        flat, targets, data = cap if cap else (None, None, None)
        return Result(status=status, exc=exc, flat=flat, targets=targets, data=data, extra=extra,
                      stdout=out, stderr=err + (exc[2] if exc else ""), dir=d)
    finally:
        if not keep and root is None:
            vf.rmtree(d)
