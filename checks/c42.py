"""C42: the lock helpers that generated builds carry: every order of arrivals and endings of up to 3 (4 thorough) real holders, with every way to end."""
import itertools
import json
import os
import signal
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import gypdrv  # noqa: E402
import vf  # noqa: E402

CMD = r"""
import os, signal, sys
log, fifo = sys.argv[1:3]
def say(t):
    fd = os.open(log, os.O_WRONLY | os.O_APPEND | os.O_CREAT)
    os.write(fd, (t + "\n").encode())
    os.close(fd)
say("begin %d" % os.getpid())
with open(fifo) as f:
    how = f.read()
say("end")
if how == "kill":
    os.kill(os.getpid(), signal.SIGKILL)
sys.exit(int(how))
"""
ENDS = ("0", "3", "kill", "tool")


def tools(root):
    """The helpers as they are run: from the sources, and as copied next to generated builds."""
    src = os.path.join(vf.REPO, "gyp", "pylib", "gyp")
    yield "flock_tool.py", [sys.executable, os.path.join(src, "flock_tool.py"), "flock"]
    yield "mac_tool.py", [sys.executable, os.path.join(src, "mac_tool.py"), "flock"]
    for flavor, name, platform in (("aix", "flock", "aix7"), ("solaris", "flock", "sunos5"), ("os400", "flock", "os400"), ("mac", "mac", "darwin")):
        d = os.path.join(root, flavor)
        os.makedirs(d)
        r = gypdrv.run({"a.gyp": {"targets": [{"target_name": "t", "type": "none"}]}}, fmt="make", root=d, pre=lambda p=platform: setattr(sys, "platform", p))
        where = [os.path.join(p, f) for p, _, fs in os.walk(d) for f in fs if f == f"gyp-{name}-tool"]
        if flavor == "mac" and not r.ok:
            continue  # needs Apple's tools to get that far
        if not r.ok or not where:
            raise vf.Bad(f"generating for {flavor} leaves no gyp-{name}-tool: {r}", f"tool:{flavor}")
        yield f"{flavor}'s gyp-{name}-tool", [where[0], "flock"]


class Locker:
    def __init__(self, tool, root, lock, i, log):
        self.fifo = os.path.join(root, f"fifo-{log}-{i}")
        self.log = os.path.join(root, f"log-{log}-{i}")
        os.mkfifo(self.fifo)
        self.p = subprocess.Popen([*tool, lock, sys.executable, "-S", "-c", CMD, self.log, self.fifo], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)

    def state(self):
        try:
            with open(self.log) as f:
                t = f.read().split("\n")
        except FileNotFoundError:
            t = []
        if "end" in t:
            return "ended"
        if t and t[0].startswith("begin "):
            return "runs"
        return "exited" if self.p.poll() is not None else "waits"

    def blocked(self):
        """The kernel says that it waits for a lock."""
        try:
            with open("/proc/locks") as f:
                return any("->" in x and x.split()[5] == str(self.p.pid) for x in f)
        except (OSError, IndexError):
            return False

    def await_state(self, want, limit):
        end = time.time() + limit
        while time.time() < end:
            s = self.state()
            if s == want or s in ("ended", "exited"):
                return s
            time.sleep(0.004)
        return self.state()

    def finish(self, how):
        if how == "tool":  # the build is interrupted: helper and command are killed
            os.killpg(self.p.pid, signal.SIGKILL)
        else:
            with open(self.fifo, "w") as f:
                f.write(how)
        return self.p.wait(20)

    def stop(self):
        gypdrv.killgroup(self.p.pid)
        self.p.wait()
        self.p.stdout.close()


def orders(n):
    """Every interleaving of n arrivals and n endings in which only who has arrived can end."""
    def go(s, f, seq):
        if s == n and f == n:
            yield seq
        if s < n:
            yield from go(s + 1, f, seq + "+")
        if f < s:
            yield from go(s, f + 1, seq + "-")
    yield from go(0, 0, "")


def schedule(name, tool, root, order, ends, tag, state):
    """None or what went wrong."""
    lock = os.path.join(root, f"lock-{tag}")
    if state == "empty":
        open(lock, "w").close()
    elif state == "content":
        with open(lock, "w") as f:
            f.write("content")
    lockers, live = [], []  # live: arrived and not ended
    ends = iter(ends)
    told = f"{name}, lock file {state}, {order}"
    try:
        for k, ev in enumerate(order):
            at = f"{told} at step {k + 1}"
            if ev == "+":
                x = Locker(tool, root, lock, len(lockers), tag)
                lockers.append(x)
                live.append(x)
                if len(live) == 1:
                    if x.await_state("runs", 20) != "runs":
                        return f"{at}: the lock is free but the command does not start ({x.state()})"
                else:
                    end = time.time() + 1.5
                    while time.time() < end and x.state() == "waits" and not x.blocked():
                        time.sleep(0.004)
                    if x.state() != "waits":
                        return f"{at}: the lock is held, but a further {'command runs' if x.state() == 'runs' else 'helper gives up: ' + x.p.stdout.read().decode()[-300:]}"
            else:
                running = [x for x in live if x.state() == "runs"]
                if len(running) != 1:
                    return f"{at}: {len(running)} commands run under one lock"
                x = running[0]
                live.remove(x)
                how = next(ends)
                rc = x.finish(how)
                if how in ("0", "3") and rc != int(how):
                    return f"{at}: the command ends with {how}, the helper with {rc}"
                if how == "kill" and rc == 0:
                    return f"{at}: the command is killed, the helper reports success"
                if live:
                    end = time.time() + 20
                    while time.time() < end and not any(y.state() != "waits" for y in live):
                        time.sleep(0.004)
                    s = sorted(y.state() for y in live)
                    if s != ["runs"] + ["waits"] * (len(live) - 1):
                        return f"{at} ({how}): of the waiting commands exactly one should start: {s}"
        if state == "content":
            if not os.path.exists(lock):
                return f"{told}: the lock file is gone"
            with open(lock) as f:
                if f.read() != "content":
                    return f"{told}: the lock file is changed"
        return None
    finally:
        for x in lockers:
            x.stop()


def plain(c, name, tool, root):
    """What does not depend on the order: the command's words, streams, directory and surroundings; locks that are not the same; no command run without a lock."""
    def bad(what, key):
        c.violation(f"{name}: {what}", f"{key}:{name}")
    words = ["", " ", "a b", "'", '"', "$HOME", "*", "-x", "--", "\\", "é", "a\nb", ";", "&&"]
    show = "import json,os,sys; print(json.dumps([sys.argv[1:], os.getcwd(), os.environ.get('MARK'), sys.stdin.read()])); print('err', file=sys.stderr)"
    for argv in [[], *([w] for w in words), *itertools.product(words, repeat=2)]:
        d = os.path.join(root, "cwd")
        os.makedirs(d, exist_ok=True)
        r = subprocess.run([*tool, "lk", sys.executable, "-S", "-c", show, *argv], cwd=d, env=dict(os.environ, MARK="m k"), input="in put", stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        c.add()
        c.seen((name, tuple(argv)))
        try:
            got = json.loads(r.stdout)
        except ValueError:
            got = r.stdout
        if r.returncode or got != [list(argv), d, "m k", "in put"] or r.stderr != "err\n":
            bad(f"arguments {argv}: the command sees {got}, ends with {r.returncode} {r.stderr[-200:]}", "words")
    for status in range(256):
        r = subprocess.run([*tool, os.path.join(root, "lk"), "sh", "-c", f"exit {status}"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        c.add()
        c.seen((name, "status", status))
        if r.returncode != status:
            bad(f"the command ends with {status}, the helper with {r.returncode}", "status")
    for lock, cmd, what in ((os.path.join(root, "none", "lk"), ["touch", os.path.join(root, "mark")], "a lock in a directory that is not there"), (root, ["touch", os.path.join(root, "mark")], "a directory as the lock"),
                            (os.path.join(root, "lk"), [os.path.join(root, "no-such-command")], "a command that is not there")):
        r = subprocess.run([*tool, lock, *cmd], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        c.add()
        if r.returncode == 0 or os.path.exists(os.path.join(root, "mark")):
            if what == "a directory as the lock" and "mac" in name and r.returncode == 0:
                os.unlink(os.path.join(root, "mark"))  # flock works on those
                continue
            bad(f"{what}: ends with {r.returncode}{', the command is run' if os.path.exists(os.path.join(root, 'mark')) else ''}", "unlocked")
    # two locks do not concern each other; two spellings of one do
    for second, same in (("lk2", False), ("./lk1", True), (os.path.join(root, "sub", "..", "lk1"), True), ("link", True)):
        os.makedirs(os.path.join(root, "sub"), exist_ok=True)
        if not os.path.lexists(os.path.join(root, "link")):
            os.symlink("lk1", os.path.join(root, "link"))
        here = [sys.executable, "-c", "import os,sys; os.chdir(sys.argv[1]); os.execv(sys.argv[2], sys.argv[2:])", root, *([tool[0]] if tool[0] == sys.executable else [sys.executable, tool[0]]), *tool[1:]]
        tag = f"two-{'s' if same else 'd'}{len(second)}"
        a = Locker(here, root, "lk1", 0, tag)
        b = None
        try:
            if a.await_state("runs", 20) != "runs":
                bad("the command does not start", "two")
                continue
            b = Locker(here, root, second, 1, tag)
            end = time.time() + (1.5 if same else 20)
            while time.time() < end and b.state() == "waits" and not (same and b.blocked()):
                time.sleep(0.004)
            c.add()
            c.seen((name, second))
            if b.state() != ("waits" if same else "runs"):
                bad(f"lk1 is held: a command under {second} {b.state()}", f"two:{second}")
        finally:
            a.stop()
            if b:
                b.stop()


def main():
    n = 4 if vf.THOROUGH else 3
    c = vf.Check("C42", "model_checking",
                 f"every interleaving of the arrivals and endings of up to {n} real holders of one lock, with every assignment of endings (success, failure, command killed, helper and command killed) "
                 "and every state of the lock file, for the helpers in the sources and as copied next to builds; every status; pairs of argument words; pairs of locks",
                 ["which of several waiting commands starts next is the kernel's choice: any one is accepted", "a waiting helper is recognised by the kernel's list of locks, or by nothing happening for 1.5 s",
                  "POSIX; the helper alone being killed while its command goes on is not judged"])
    root = vf.scratch("lk")
    try:
        ts = list(tools(os.path.join(root)))
    except vf.Bad as e:
        c.violation(e.what, e.key)
        return c.finish()
    for i in range(len(ts)):
        os.makedirs(os.path.join(root, f"plain{i}"))
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda a: plain(c, *a[1], os.path.join(root, f"plain{a[0]}")), enumerate(ts)))
    todo = []
    for i, (name, tool) in enumerate(ts):
        copied = "'s" in name
        for k in range(1, (2 if copied and not vf.THOROUGH else n) + 1):
            for order in orders(k):
                states = ("missing", "empty", "content") if k < 3 else ("missing",)
                for state in states:
                    for ends in itertools.product(ENDS, repeat=k):
                        if k == 4 and len(set(ends)) > 2:
                            continue
                        todo.append((name, tool, root, order, ends, str(len(todo)), state))
    c.count("schedules", len(todo))
    with ThreadPoolExecutor(24) as ex:
        for t, r in zip(todo, ex.map(lambda a: schedule(*a), todo)):
            c.add()
            c.count("transitions", len(t[3]))
            c.seen((t[0], t[3], t[4], t[6]))
            if r:
                c.violation(f"{r}; endings {t[4]}", f"order:{t[0]}:{t[3]}:{'-'.join(t[4])}:{t[6]}")
    c.sample({"order": "++-+--", "meaning": "two arrive, the holder ends, a third arrives, both end"})
    return c.finish()


vf.main(main)
