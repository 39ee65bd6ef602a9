"""C10: parallel loading vs serial loading on every schedule.

Two explorations of the real loader: (1) deterministic - multiprocessing.Pool and threading.Condition are replaced by
stand-ins whose worker assignment, completion order and wake-up batching are choices enumerated exhaustively, the work
itself being done by the real loader in forked worker processes; (2) real pool, with every build file held at a named
pipe it reads while loading, released in every order."""
import errno
import itertools
import multiprocessing
import os
import pickle
import signal
import sys
import threading
import time

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import explore  # noqa: E402
import gypdrv  # noqa: E402
import graphs  # noqa: E402
import vf  # noqa: E402

FILES = ["a.gyp", "s/b.gyp", "c.gyp", "s/u/d.gyp"]


class SeamChanged(Exception):
    pass


class Stuck(BaseException):
    pass


class Worker:
    """A real process that does the loader's work, one task after another."""

    def __init__(self):
        r1, self.w = os.pipe()
        self.r, w2 = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(self.w)
                os.close(self.r)
                with os.fdopen(r1, "rb") as rf, os.fdopen(w2, "wb") as wf:
                    while True:
                        try:
                            func, args, kw = pickle.load(rf)
                        except EOFError:
                            break
                        try:
                            out = ("ok", func(*args, **kw))
                            blob = pickle.dumps(out)
                        except Exception as e:  # what multiprocessing's worker catches
                            blob = pickle.dumps(("error", repr(e)))
                        wf.write(blob)
                        wf.flush()
            finally:
                os._exit(0)
        os.close(r1)
        os.close(w2)
        self.rf, self.wf = os.fdopen(self.r, "rb"), os.fdopen(self.w, "wb")

    def do(self, func, args, kw):
        try:
            pickle.dump((func, args, kw), self.wf)
            self.wf.flush()
            return pickle.load(self.rf)
        except (EOFError, BrokenPipeError):
            return ("lost", None)  # the worker process died: its task never completes

    def stop(self):
        os.kill(self.pid, signal.SIGKILL)
        for f in (self.wf, self.rf):
            try:
                f.close()
            except OSError:
                pass
        os.waitpid(self.pid, 0)


class Sched:
    def __init__(self, prefix, workers):
        self.choose = explore.Chooser(prefix)
        self.pending, self.nworkers, self.pools, self.dispatched = [], workers, 0, 0
        self.changed = None

    def deliver_batch(self):
        """A waiting thread sees one or more completions before it runs again."""
        if not any(p[0] != "lost" for p in self.pending):
            raise Stuck("waiting with no completion to come")
        first = True
        while True:
            ready = [p for p in self.pending if p[0] != "lost"]
            if not ready:
                return
            k = self.choose(len(ready) + (0 if first else 1))
            if not first:
                if k == 0:
                    return
                k -= 1
            first = False
            self.deliver(ready[k])

    def deliver(self, p):
        self.pending.remove(p)
        kind, value, cb, ecb = p
        if kind == "ok" and cb:
            cb(value)
        elif kind == "error" and ecb:
            ecb(RuntimeError(value))


def install(sched):
    class Pool:
        def __init__(self, processes=None, initializer=None, initargs=(), *a, **k):
            if initializer is not None or a or k:
                sched.changed = "Pool arguments"
                raise SeamChanged("Pool arguments")
            sched.pools += 1
            self.workers = [Worker() for _ in range(sched.nworkers)]

        def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
            w = self.workers[0 if sched.dispatched == 0 or len(self.workers) == 1 else sched.choose(len(self.workers))]
            sched.dispatched += 1
            kind, val = w.do(func, args, kwds)
            sched.pending.append((kind, val, callback, error_callback))

        def close(self):
            pass

        def terminate(self):
            sched.pending.clear()

        def join(self):
            while any(p[0] != "lost" for p in sched.pending):
                ready = [p for p in sched.pending if p[0] != "lost"]
                sched.deliver(ready[sched.choose(len(ready))])
            for w in self.workers:
                w.stop()

        def __enter__(self):
            return self

        def __exit__(self, *a):
            self.terminate()

        def __getattr__(self, name):
            sched.changed = "Pool." + name
            raise SeamChanged(name)

    class Condition(threading.Condition):
        def wait(self, timeout=None):
            if not sched.pools:
                return super().wait(timeout)
            saved = self._release_save()
            try:
                sched.deliver_batch()
            finally:
                self._acquire_restore(saved)
            return True

    multiprocessing.Pool = Pool
    threading.Condition = Condition


def project(deps, broken=None, how=None):
    """One file per node: own include, shared include, both phases of DEPTH, toolsets, settings for dependents."""
    files = {"inc/shared.gypi": {"variables": {"shared%": "sh", "list": ["x"]}, "target_defaults": {"defines": ["S=<(DEPTH)/<(shared)"], "include_dirs": ["q"]}}}
    for i, ds in enumerate(deps):
        f = FILES[i]
        base = os.path.dirname(f) or "."
        t = {"target_name": f"t{i}", "type": ("static_library", "none", "executable", "static_library")[i],
             "sources": ["x.c"], "defines": ["early=<(DEPTH)", "late=>(DEPTH)", "v=<(own)"], "toolsets": ["target", "host"] if i % 2 == 0 else ["target"],
             "dependencies": [os.path.relpath(FILES[j], base) + f":t{j}" + ("" if j % 2 == 0 or i % 2 else "#target") for j in ds],
             "direct_dependent_settings": {"defines": [f"D{i}"], "include_dirs": [f"inc{i}"]}, "all_dependent_settings": {"defines": [f"A{i}"]},
             "conditions": [["own=='o%d'" % i, {"defines": ["cond"]}]]}
        body = {"variables": {"own": f"o{i}", "list": [f"y{i}"]}, "includes": [os.path.relpath("inc/shared.gypi", base)], "targets": [t, {"target_name": f"u{i}", "type": "none", "defines": ["<@(list)"]}]}
        if broken == i:
            if how == "syntax":
                body = "{ 'targets': [ "
            elif how == "missing":
                continue
            elif how == "undefined":
                t["defines"].append("<(nosuch)")
            elif how == "include":
                body["includes"].append("none.gypi")
            elif how == "notdict":
                body = "[]"
            elif how == "exit":
                files["ender.py"] = "import sys\ndef DoMain(args):\n    sys.exit(3)\n"
                t["defines"].append("<!pymod_do_main(ender)")
            elif how == "raise":
                files["ender.py"] = "def DoMain(args):\n    raise KeyError('boom')\n"
                t["defines"].append("<!pymod_do_main(ender)")
            elif how == "command":
                t["defines"].append("<!(exit 3)")
        files[f] = body
    return files


def roots_of(deps):
    has = {j for ds in deps for j in ds}
    return [FILES[i] for i in range(len(deps)) if i not in has]


def observe(r):
    if not r.ok:
        return ("failed",)
    bf = sorted(r.data["target_build_files"]) if r.data else None
    return ("ok", r.flat, r.targets, bf, {b: {k: r.data[b].get(k) for k in ("included_files", "targets", "_DEPTH")} for b in bf})


def controlled(part, item):
    deps, broken, how, workers = item
    files = project(deps, broken, how)
    args = roots_of(deps)
    root = vf.scratch("c10")
    env = {"PYTHONPATH": root}
    try:
        serial = gypdrv.run(files, args=args, root=root, pre=lambda: sys.path.insert(0, root))
        want = observe(serial)
        if (want[0] == "ok") != (broken is None):
            raise vf.Bad(f"serial loading of {deps} broken={broken},{how}: {serial.status} {serial.stderr[-300:]}", f"serial:{deps}:{broken}:{how}")
        outcomes = set()

        def run(prefix):
            sched = Sched(prefix, workers)

            def pre():
                sys.path.insert(0, root)
                install(sched)
            r = gypdrv.run(files, args=args, root=root, env=env, parallel=True, pre=pre,
                           post=lambda: (sched.choose.log, sched.changed, sched.pools, sched.dispatched), timeout=60)
            part.add()
            if r.status == "exc" and r.exc[0] == "SeamChanged" or r.extra and (r.extra[1] or not r.extra[2]):
                part.count("seam_changed")
                raise SeamChanged()
            where = f"files depend {deps} broken={broken},{how} workers={workers} schedule={prefix}"
            if r.status == "exc" and r.exc[0] == "Stuck":
                part.violation(f"parallel loading waits for ever: {where}", f"hang:{deps}:{broken}:{how}", schedule=prefix, files=files)
                raise SeamChanged()
            if r.extra is None:
                part.violation(f"parallel loading {r.status}: {where}: {r.stderr[-300:]}", f"{r.status}:{deps}:{broken}:{how}", schedule=prefix)
                raise SeamChanged()
            if r.extra[3] > len(deps):
                part.violation(f"{r.extra[3]} loads of {len(deps)} build files (a file is loaded more than once): {where}", f"reload:{deps}:{broken}:{how}", schedule=prefix, files=files)
                raise SeamChanged()
            got = observe(r)
            if got != want:
                d = ""
                if got[0] == want[0] == "ok":
                    d = "; ".join(f"{t}: {got[2].get(t)} vs serial {want[2].get(t)}" for t in set(got[2]) | set(want[2]) if got[2].get(t) != want[2].get(t))[:600] or f"flat {got[1]} vs {want[1]}"
                else:
                    d = f"{got[0]} vs serial {want[0]}: {r.stderr[-300:]}"
                part.violation(f"parallel differs from serial: {where}: {d}", f"differs:{deps}:{broken}:{how}", schedule=prefix, files=files)
                raise SeamChanged()
            part.seen((str(deps), broken, how, workers, tuple(c for _, c in r.extra[0])))
            outcomes.add(tuple(r.extra[0]))
            part.count("choice_points", len(r.extra[0]) - len(prefix))
            return r.extra[0]

        try:
            explore.explore(run)
        except SeamChanged:
            pass
        part.count("projects")
        part.sample({"deps": deps, "broken": broken, "how": how, "schedules": len(outcomes)}, 1)
    finally:
        vf.rmtree(root)


def gated(part, item):
    """The real pool: each file's loading is held at a pipe and released in the given order."""
    deps, order, broken = item
    if vf.tally("hang") > 8:
        return
    root = vf.scratch("c10g")
    try:
        files = project(deps, broken, "undefined" if broken is not None else None)
        for i in range(len(deps)):
            if isinstance(files.get(FILES[i]), dict):
                files[FILES[i]]["variables"]["gate"] = f"<!(cat {root}/gate{i})"
        args = roots_of(deps)
        for i in range(len(deps)):
            with open(os.path.join(root, f"gate{i}"), "w") as f:
                f.write("g\n")
        want = observe(gypdrv.run(files, args=args, root=root))
        for i in range(len(deps)):
            os.unlink(os.path.join(root, f"gate{i}"))
            os.mkfifo(os.path.join(root, f"gate{i}"))
        stop = []
        trace = []

        def release():
            left = list(order)
            end = time.time() + 19
            while left and not stop and time.time() < end:
                for i in left:
                    try:
                        fd = os.open(os.path.join(root, f"gate{i}"), os.O_WRONLY | os.O_NONBLOCK)
                    except OSError as e:
                        if e.errno != errno.ENXIO:
                            return
                        # not waiting there yet: only files that cannot be reached yet may be skipped
                        if i in reachable(trace):
                            break
                        continue
                    os.write(fd, b"g\n")
                    os.close(fd)
                    left.remove(i)
                    trace.append(i)
                    time.sleep(0.004)
                    break
                time.sleep(0.001)

        def reachable(done):
            got = {i for i in range(len(deps)) if FILES[i] in args}
            for i in done:
                if i != broken:
                    got |= set(deps[i])
            return got

        # the releaser runs in a forked process so that the checked process starts without threads
        pid = os.fork()
        if pid == 0:
            try:
                release()
            finally:
                os._exit(0)
        try:
            r = gypdrv.run(files, args=args, root=root, parallel=True, timeout=20)
        finally:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
        part.add()
        part.count("gated_runs")
        part.seen(("gated", str(deps), order, broken))
        if r.status == "hang":
            raise vf.Bad(f"parallel loading hung: files depend {deps}, released {order}, broken={broken}", f"gated-hang:{deps}:{order}:{broken}")
        got = observe(r)
        if got != want:
            raise vf.Bad(f"parallel loading ({got[0]}) differs from serial ({want[0]}): files depend {deps}, released {order}, broken={broken}: {r.stderr[-300:]}", f"gated:{deps}:{order}:{broken}")
    finally:
        vf.rmtree(root)


HOWS = ("syntax", "missing", "undefined", "include", "notdict", "exit", "raise", "command")


def run():
    ck = vf.Check("C10", "model_checking",
                  "for every file-dependency DAG on up to 4 files: every worker assignment, completion order and wake-up batching (controlled pool), and "
                  "every release order of gated files (real pool); non-trivial = distinct schedules executed to the end",
                  ["a worker process executes its tasks one after another; a task's effect on others is only through its result and its own worker's caches"])
    items, gates = [], []
    for n in (1, 2, 3, 4):
        for deps, _ in graphs.dags(n):
            if n == 4 and not vf.THOROUGH and sum(map(len, deps)) > 4:
                continue
            ne = sum(map(len, deps))
            items.append((deps, None, None, 1 if n == 4 and not vf.THOROUGH else 2))
            if n == 4 and not vf.THOROUGH and ne in (3, 4):
                items.append((deps, None, None, 1))
            if n <= 3:
                for b in range(n):
                    for how in HOWS if n == 2 or vf.THOROUGH else (HOWS[:1] + HOWS[2:3] + HOWS[5:6]):
                        if how == "missing" and FILES[b] not in roots_of(deps) and not any(b in d for d in deps):
                            continue
                        items.append((deps, b, how, 1 if n == 3 and not vf.THOROUGH else 2))
            if n in (2, 3) or (n == 4 and (vf.THOROUGH or deps in ([[1, 2, 3], [], [], []], [[1, 2], [3], [3], []]))):
                reach = len(roots_of(deps)) <= 2
                for order in itertools.permutations(range(n)):
                    if reach:
                        gates.append((deps, order, None))
            if n == 3:
                for b in range(3):
                    gates.append((deps, (0, 1, 2), b))
    items.sort(key=lambda it: -len(it[0]) * it[3])
    items = list({repr(i): i for i in items}.values())
    vf.pmap(ck, controlled, items, chunk=1)
    gates = list({repr(g): g for g in gates}.values())
    vf.pmap(ck, gated, gates, chunk=1)
    ck.extra["states"] = ck.evaluations
    ck.extra["transitions"] = ck.extra.get("choice_points", 0)
    return ck.finish()


if __name__ == "__main__":
    vf.main(run)
