"""C13: the write-if-different writer under every kill, torn write and I/O fault."""
import os
import signal
import stat
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import faultfs  # noqa: E402
import vf  # noqa: E402

if __name__ == "__main__":
    faultfs.reexec()
import gypdrv  # noqa: E402
import gyp.common  # noqa: E402

OLD_TIME = 1_000_000_000
BIG = "line of text %d\n"


def text(name):
    return {"empty": "", "small": "hello\n", "small2": "hellO\n", "longer": "hello\nworld\n", "big": "".join(BIG % i for i in range(12000)),
            "big2": "".join(BIG % i for i in range(11999)) + "line of text 11998 \n", "uni": "h\u00e9llo \u4e2d\n", "nonl": "hello"}[name]


OLDS = [None, "empty", "small", "small2", "longer", "big", "uni"]
NEWS = ["empty", "small", "small2", "longer", "big", "big2", "uni", "nonl"]


def child(body, prefix, mode, n, umask):
    """Runs body in a forked child with the fault armed. -> (outcome, operations); outcome: ok, raised, killed."""
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 70
        try:
            os.close(r)
            os.umask(umask)
            null = os.open(os.devnull, os.O_WRONLY)
            os.dup2(null, 2)
            os.dup2(null, 1)
            faultfs.arm(prefix, mode, n, w)
            code = body()
        except BaseException:
            code = 71
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        ops = f.read().decode().split()
    _, st = os.waitpid(pid, 0)
    if os.WIFSIGNALED(st):
        if os.WTERMSIG(st) != signal.SIGKILL:
            return f"signal {os.WTERMSIG(st)}", ops
        return "killed", ops
    return {0: "ok", 3: "write raised", 4: "close raised"}.get(os.WEXITSTATUS(st), f"exit {os.WEXITSTATUS(st)}"), ops


def writer(path, new, chunks, same_stamp=False):
    def body():
        data = text(new)
        try:
            f = gyp.common.WriteOnDiff(path)
            k = max(1, len(data) // chunks)
            parts = [data[i:i + k] for i in range(0, len(data), k)] or [""]
            for p in parts:
                f.write(p)
            if same_stamp:  # the old file is as old as the data being written
                f.flush()
                for n in os.listdir(os.path.dirname(path)):
                    q = os.path.join(os.path.dirname(path), n)
                    if q != path:
                        st = os.stat(q)
                        os.utime(path, ns=(st.st_atime_ns, st.st_mtime_ns))
        except Exception:
            return 3
        try:
            f.close()
        except Exception:
            return 4
        return 0
    return body


def setup(path, old, mode=0o640):
    if old is not None:
        with open(path, "w", encoding="utf-8", newline="") as f:
            f.write(text(old))
        os.chmod(path, mode)
        os.utime(path, (OLD_TIME, OLD_TIME))


def content(path):
    try:
        with open(path, "rb") as f:
            return f.read()
    except FileNotFoundError:
        return None


def enc(name):
    return None if name is None else text(name).encode("utf-8")


def job(part, item):
    old, new, chunks, umask, rel = item
    base = vf.scratch("w")
    try:
        d = os.path.join(base, "d")

        def fresh():
            if os.path.isdir(d):
                for n in os.listdir(d):
                    os.unlink(os.path.join(d, n))
            else:
                os.mkdir(d)
            setup(os.path.join(d, "f.txt"), old)

        p = os.path.join(d, "f.txt")
        where = f"old={old} new={new} chunks={chunks} umask={umask:o}"
        fresh()
        # no fault
        out, ops = child(writer(p, new, chunks), d, "count", -1, umask)
        part.add()
        part.seen(item)
        if out != "ok" or content(p) != enc(new):
            raise vf.Bad(f"{where}: writing without a fault: {out}, file is {str(content(p))[:80]}", f"plain:{where}")
        st = os.stat(p)
        if enc(old) == enc(new):
            if st.st_mtime != OLD_TIME or stat.S_IMODE(st.st_mode) != 0o640:
                raise vf.Bad(f"{where}: an unchanged file was touched (mtime {st.st_mtime}, mode {st.st_mode:o})", f"touched:{where}")
        elif stat.S_IMODE(st.st_mode) != 0o666 & ~umask:
            raise vf.Bad(f"{where}: the new file has mode {stat.S_IMODE(st.st_mode):o}", f"mode:{where}")
        if os.listdir(d) != ["f.txt"]:
            raise vf.Bad(f"{where}: left behind {os.listdir(d)}", f"left:{where}")
        if old is not None:
            fresh()
            out, _ = child(writer(p, new, chunks, True), d, "count", -1, umask)
            part.add()
            if out != "ok" or content(p) != enc(new):
                raise vf.Bad(f"{where}: the old file bears the time of the new data: {out}, file is {str(content(p))[:80]}", f"stamp:{where}")
        if not ops:
            raise RuntimeError(f"{where}: no file operation was observed")
        part.count("operations", len(ops))
        for n in range(len(ops)):
            for mode in ("kill before", "kill after", "torn", "eio", "enospc"):
                if mode == "torn" and ops[n] != "write":
                    continue
                if mode == "enospc" and ops[n] not in ("write", "open-write"):
                    continue
                fresh()
                out, got_ops = child(writer(p, new, chunks), d, mode, n, umask)
                part.add()
                part.seen(item + (mode, n))
                part.count("faults")
                w2 = f"{where}: {mode} at operation {n} ({ops[n]})"
                if got_ops[:n + 1] != ops[:n + 1]:
                    raise vf.Bad(f"{w2}: operations differ from the undisturbed run: {got_ops} vs {ops}", f"diverged:{where}:{n}:{mode}")
                c = content(p)
                if c not in (enc(old), enc(new)):
                    raise vf.Bad(f"{w2}: the file holds neither the old nor the new content: {str(c)[:100]} ({out})", f"torn:{where}:{mode}:{ops[n]}", ops=ops, n=n)
                if out == "ok" and c != enc(new):
                    raise vf.Bad(f"{w2}: reported success but the old content is still there", f"false-success:{where}:{mode}:{ops[n]}", ops=ops, n=n)
                if mode.startswith("kill") or mode == "torn":
                    if out != "killed":
                        raise RuntimeError(f"{w2}: {out}")
                elif out not in ("ok", "write raised", "close raised"):
                    raise vf.Bad(f"{w2}: {out}", f"outcome:{where}:{mode}:{ops[n]}")
                if out == "close raised" and ops[n] != "unlink" and [x for x in os.listdir(d) if x != "f.txt"]:
                    raise vf.Bad(f"{w2}: a failed replacement left {os.listdir(d)}", f"turd:{where}:{mode}:{ops[n]}")
                if c is not None and c == enc(old) and old is not None and os.stat(p).st_mtime != OLD_TIME and enc(old) != enc(new):
                    raise vf.Bad(f"{w2}: old content with a new timestamp", f"stamp:{where}:{mode}:{ops[n]}")
                # a later undisturbed run repairs everything
                out2, _ = child(writer(p, new, chunks), d, "count", -1, umask)
                part.add()
                if out2 != "ok" or content(p) != enc(new):
                    raise vf.Bad(f"{w2}: the next run ended {out2}, content {str(content(p))[:80]}", f"recover:{where}:{mode}:{ops[n]}")
        part.sample({"old": old, "new": new, "operations": ops}, 1)
    finally:
        vf.rmtree(base)


def whole(part, item):
    """The same through gyp itself: list files written by <|() while loading."""
    first, second, fmt = item
    base = vf.scratch("gy")
    try:
        def doc(items):
            return {"a.gyp": {"targets": [{"target_name": "t", "type": "none", "sources": list(items), "actions": [
                {"action_name": "n", "inputs": [], "outputs": ["o"], "action": ["x", "<|(list.txt <@(_sources))"]}]}]}}

        def lists():
            found = {}
            for dp, dn, fn in os.walk(base):
                for f in fn:
                    if f.startswith("list.txt"):
                        found[os.path.join(dp, f)] = content(os.path.join(dp, f))
            return found

        def want(items):
            return "".join(i + "\n" for i in items).encode("utf-8")

        def reset():
            for p in lists():
                os.unlink(p)
            if first is not None:
                r = gypdrv.run(doc(first), root=base, fmt=fmt)
                if not r.ok or list(lists().values()) != [want(first)]:
                    raise vf.Bad(f"{item}: first run: {r.stderr[-300:]} {lists()}", f"gyp-first:{item}")
                for p in lists():
                    os.utime(p, (OLD_TIME, OLD_TIME))

        def body():
            os.chdir(base)
            import gyp
            try:
                return gyp.main(["--depth=.", "--no-parallel", "-f", fmt or gypdrv.CAPGEN, "a.gyp"])
            except BaseException:
                return 4

        part.add()
        part.seen(("gyp", item))
        reset()
        gypdrv.write_files(base, doc(second))
        gypdrv.run(doc(second), root=base, fmt=fmt)
        d = os.path.dirname(next(iter(lists()), os.path.join(base, "list.txt")))
        prefixes = (os.path.join(d, "list.txt"), "./list.txt", "list.txt")
        # gyp names the file relative to the current directory or absolutely; find out which
        for pre in prefixes + (os.path.relpath(os.path.join(d, "list.txt"), base),):
            reset()
            gypdrv.write_files(base, doc(second))
            out, ops = child(body, pre, "count", -1, 0o22)
            if len(ops) >= 3:
                break
        else:
            raise RuntimeError(f"{item}: could not observe how gyp writes {d}")
        if out != "ok" or list(lists().values()) != [want(second)]:
            raise vf.Bad(f"{item}: {out}, {lists()}", f"gyp-plain:{item}")
        if first == second and any(os.stat(p).st_mtime != OLD_TIME for p in lists()):
            raise vf.Bad(f"{item}: an unchanged list file was touched", f"gyp-touched:{item}")
        for n in range(len(ops)):
            for mode in ("kill before", "torn", "eio"):
                if mode == "torn" and ops[n] != "write":
                    continue
                reset()
                gypdrv.write_files(base, doc(second))
                out, _ = child(body, pre, mode, n, 0o22)
                part.add()
                part.count("faults")
                part.seen(("gyp", item, mode, n))
                real = {k: v for k, v in lists().items() if k.endswith("list.txt")}
                ok = [want(second)] + ([want(first)] if first is not None else [])
                if any(v not in ok for v in real.values()) or (first is not None and not real):
                    raise vf.Bad(f"{item}: {mode} at operation {n} ({ops[n]}): list file holds {real}", f"gyp-torn:{item}:{mode}:{ops[n]}")
                if out == "ok" and list(real.values()) != [want(second)]:
                    raise vf.Bad(f"{item}: {mode} at operation {n} ({ops[n]}): gyp reported success over {real}", f"gyp-success:{item}:{mode}:{ops[n]}")
    finally:
        vf.rmtree(base)


def run():
    ck = vf.Check("C13", "fault_enumeration",
                  "every file operation of every (old content, new content, chunking, umask) write, killed before, after and inside it or failed; "
                  "each followed by a recovering write; plus the same through gyp's list files; distinct (scenario, operation, fault)",
                  ["process death and reported I/O errors, not power loss: writes that returned are kept"])
    items = [(o, n, c, u, 0) for o in OLDS for n in NEWS for c in (1, 3) for u in ((0o22, 0o77) if c == 1 else (0o02,))
             if vf.THOROUGH or c == 1 or (o, n) in (("small", "longer"), ("big", "big2"), (None, "big"))]
    vf.pmap(ck, job, items, chunk=1)
    lists = [None, ("a.c",), ("a.c", "b.c"), ("b.c", "a.c", "c-d.c"), ("h\u00e9.c",)]
    vf.pmap(ck, whole, [(a, b, f) for a in lists for b in lists[1:] for f in (None, "make", "ninja") if vf.THOROUGH or f is None or (a, b) in ((("a.c",), ("a.c", "b.c")), (("a.c",), ("a.c",)), (None, ("a.c",)))], chunk=1)
    return ck.finish()


if __name__ == "__main__":
    vf.main(run)
