"""Runs the real node-gyp command line, against a scripted mirror on the loopback interface."""
import json
import os
import signal
import subprocess

import hdrsrv
import vf

NPM = "/usr/lib/node_modules/npm/node_modules"
_srv = None


def server():
    global _srv
    if _srv is None or _srv[0] != os.getpid():
        _srv = (os.getpid(), hdrsrv.Server())
    return _srv[1]


def cli(root, platform, args, env=None, timeout=60):
    e = {"PATH": os.environ["PATH"], "HOME": os.path.join(root, "home"), "TMPDIR": os.path.join(root, "tmp"), "NODE_PATH": NPM,
         "VFJ_PLATFORM": platform, "UV_THREADPOOL_SIZE": "1", "SystemRoot": "C:\\Windows"}
    e.update(env or {})
    p = subprocess.Popen(["node", "-r", os.path.join(vf.VERIF, "js", "platform.js"), os.path.join(vf.REPO, "bin", "node-gyp.js"), *args,
                          "--devdir", os.path.join(root, "dev"), "--dist-url", server().url + "/dist"],
                         cwd=root, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        return "hang", out.decode("utf-8", "replace")
    return p.returncode, out.decode("utf-8", "replace")


def batch(worker, cases, env=None, procs=vf.NPROC, timeout=800, own=None, per=200):
    """Runs js/WORKER.js on every case, in several node processes; results in order."""
    cases = list(cases)
    n = max(1, min(procs, (len(cases) + per - 1) // per))
    root = vf.scratch("batch")
    e = {"PATH": os.environ["PATH"], "HOME": root, "TMPDIR": root, "NODE_PATH": NPM, "VF_REPO": vf.REPO, "SystemRoot": "C:\\Windows", "NODE_GYP_NULL_LOGGER": "1"}
    e.update(env or {})
    if own is not None:
        os.chmod(vf.scratch_root(), 0o711)
        os.chown(root, own, own)
    running = []
    for k in range(n):
        a, b = os.path.join(root, f"in{k}"), os.path.join(root, f"out{k}")
        with open(a, "w") as f:
            json.dump(cases[k::n], f)
        with open(os.path.join(root, f"log{k}"), "w") as f:
            running.append((subprocess.Popen(["node", os.path.join(vf.VERIF, "js", "batch.js"), worker, a, b], cwd=root, env=e, stdin=subprocess.DEVNULL, stdout=f, stderr=f), b, k))
    out = [None] * len(cases)
    for p, b, k in running:
        try:
            rc = p.wait(timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            rc = "hang"
        if rc != 0 or not os.path.exists(b):
            with open(os.path.join(root, f"log{k}")) as f:
                raise vf.Bad(f"the code under test does not load or stopped the program ({rc}): {f.read()[-1500:]}", "batch")
        with open(b) as f:
            out[k::n] = json.load(f)
    vf.rmtree(root)
    return out


def hooked(root, args, script=(), commands="build,clean,configure,install,list,remove", env=None, cwd=None, timeout=60):
    """Runs the real command line with the named commands replaced by recorders. (status, stdout, stderr, records)"""
    out = os.path.join(root, "records")
    e = {"PATH": os.environ["PATH"], "HOME": os.path.join(root, "home"), "TMPDIR": root, "NODE_PATH": NPM, "VF_REPO": vf.REPO,
         "VFJ_SCRIPT": json.dumps(list(script)), "VFJ_CMDS": commands, "VFJ_OUT": out}
    for k, v in (env or {}).items():
        if v is None:
            e.pop(k, None)
        else:
            e[k] = v
    if os.path.exists(out):
        os.unlink(out)
    try:
        p = subprocess.run(["node", "-r", os.path.join(vf.VERIF, "js", "hook.js"), os.path.join(vf.REPO, "bin", "node-gyp.js"), *args], cwd=cwd or root, env=e,
                           stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        rc, so, se = p.returncode, p.stdout.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        rc, so, se = "hang", "", ""
    rec = []
    if os.path.exists(out):
        with open(out) as f:
            rec = [json.loads(line) for line in f]
    return rc, so, se, rec


def host_version():
    return subprocess.run(["node", "-p", "process.version"], stdout=subprocess.PIPE, text=True, check=True).stdout.strip().lstrip("v")


def gyp_args(args):
    """The gyp command line: (script, files, includes, defines, formats, rest)."""
    files, inc, defs, fmt, rest = [], [], {}, [], []
    k = 1
    args = list(args)
    takes = {"-I": inc, "--include": inc, "-f": fmt, "--format": fmt, "-D": defs, "-G": rest, "--depth": rest, "--generator-output": rest}
    while k < len(args):
        a = args[k]
        name, val = a, None
        if a.startswith("--"):
            if "=" in a:
                name, val = a.split("=", 1)
        elif a.startswith("-") and len(a) > 2:
            name, val = a[:2], a[2:]
        if name in takes:
            if val is None:
                k += 1
                val = args[k]
            if name == "-D":
                n, _, v = val.partition("=")
                defs[n] = v
            elif takes[name] is rest:
                rest.append((name, val))
            else:
                takes[name].append(val)
        elif a.startswith("-"):
            rest.append((a, None))
        else:
            files.append(a)
        k += 1
    return args[0], files, inc, defs, fmt, sorted(rest, key=str)
