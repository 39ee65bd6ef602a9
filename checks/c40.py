"""C40: the logger over every sequence of messages, level changes, pauses and resumptions within the bounds, against a queue model."""
import itertools
import os
import re
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import nodelab  # noqa: E402
import vf  # noqa: E402

LEVELS = ["silly", "verbose", "info", "http", "notice", "warn", "error"]
SHOWN = {"silly": "sill", "verbose": "verb", "warn": "WARN", "error": "ERR!"}


def lines(level, prefix, text):
    head = " ".join(x for x in ("gyp", SHOWN.get(level, level), prefix) if x)
    return "".join(f"{head} {t.strip()}\n" for t in re.split(r"\r?\n", text))


class Model:
    """What has to be on the stream after each event."""

    def __init__(self):
        self.level, self.held, self.queue = "info", True, []

    def show(self, level, prefix, text):
        return lines(level, prefix, text) if self.level in LEVELS and LEVELS.index(level) >= LEVELS.index(self.level) else ""

    def step(self, e):
        kind = e[0]
        if kind in ("log", "with"):
            m = (e[1], e[2], e[3])
            if self.held:
                self.queue.append(m)
                return ""
            return self.show(*m)
        if kind == "level":
            self.level = e[1]
        elif kind == "parse":
            for a in e[1:]:
                self.level = {"--verbose": "verbose", "--silly": "silly", "--silent": "silent"}.get(a, a.partition("=")[2])
            self.held = False
        elif kind == "pause":
            self.held = True
        elif kind == "resume":
            self.held = False
        elif kind == "visible":
            return "+" if self.level in LEVELS and LEVELS.index(e[1]) >= LEVELS.index(self.level) else "-"
        if not self.held and self.queue:
            out = "".join(self.show(*m) for m in self.queue)
            self.queue = []
            return out
        return ""


def check(c, cases):
    try:
        res = nodelab.batch("log.js", [{"tty": t, "events": ev} for t, ev in cases], {"NODE_GYP_NULL_LOGGER": ""}, per=2000)
    except vf.Bad as e:
        c.violation(e.what, e.key)
        return
    for (tty, ev), r in zip(cases, res):
        c.add()
        told = ("terminal: " if tty else "") + "; ".join(" ".join(str(x) for x in e) for e in ev)
        c.seen(told)
        if "error" in r:
            raise vf.Bad("the program fails outside any command: " + r["stack"][-600:], "crash")
        m = Model()
        for k, (e, got) in enumerate(zip(ev, r["ok"])):
            want = m.step(e)
            plain = re.sub(r"\x1b\[[0-9;]*m", "", got)
            if plain != want or (got != plain) != (tty and bool(re.search(r"gyp \S", plain))):
                c.violation(f"{told}: after event {k + 1} ({' '.join(map(str, e))}) the stream gets {got!r}, should get {want!r}", f"{e[0]}:{told}")
                break
        c.count("events", len(ev))


def main():
    c = vf.Check("C40", "model_checking", "every sequence of up to 5 (6 thorough) events out of messages at 3 levels, changes between 4 levels, pause, resume, on the real logger vs a queue model; every message level against every "
                 "chosen level; every text up to length 4 over a line-break alphabet with every prefix; on a terminal and elsewhere", ["one process; the stream never refuses a write"])
    n = [0]

    def msgs(ev):
        out = []
        for k, e in enumerate(ev):
            out.append((e[0], e[1], "p", f"m{k}") if e[0] == "log" else e)
        return out
    alphabet = [("log", "verbose"), ("log", "info"), ("log", "error"), ("level", "verbose"), ("level", "info"), ("level", "error"), ("level", "silent"), ("pause",), ("resume",)]
    cases = []
    for size in range(1, 7 if vf.THOROUGH else 6):
        for ev in itertools.product(alphabet, repeat=size):
            cases.append((False, msgs(ev)))
            if len(cases) >= 60000:
                check(c, cases)
                cases = []
    check(c, cases)
    cases = []
    for chosen in LEVELS + ["silent", "", "nonsense", "INFO", None]:
        for level in LEVELS:
            for how in range(4):
                ev = [[("level", chosen), ("resume",), ("log", level, "p", "x")], [("resume",), ("level", chosen), ("log", level, "p", "x")], [("log", level, "p", "x"), ("level", chosen), ("resume",)],
                      [("level", chosen), ("visible", level), ("resume",), ("visible", level)]][how]
                cases += [(t, ev) for t in (False, True)]
            cases.append((False, [("level", chosen), ("resume",), ("with", level, "pre fix", "x")]))
        for opt in ([f"--loglevel={chosen}"] if chosen else []) + (["--" + chosen] if chosen in ("verbose", "silly", "silent") else []):
            for before, after in itertools.product(itertools.chain.from_iterable(itertools.product(LEVELS, repeat=r) for r in (0, 1, 2)), LEVELS):
                cases.append((False, [("log", x, "b", f"{k}") for k, x in enumerate(before)] + [("parse", opt), ("log", after, "a", "z")]))
    for size in range(0, 6 if vf.THOROUGH else 5):
        for t in itertools.product(["a", "b ", "\n", "\r\n", "\r", " ", "\t"], repeat=size):
            text = "".join(t)
            cases.append((False, [("resume",), ("log", "error", "p", text)]))
            if size < 3:
                for p in ("", "two words", "é"):
                    cases += [(False, [("resume",), ("log", "warn", p, text)]), (True, [("resume",), ("log", "warn", p, text)]), (False, [("resume",), ("with", "error", p, text)])]
    check(c, cases)
    c.sample({"sequence": "level verbose; log verbose p m1; resume; ..."})
    return c.finish()


vf.main(main)
