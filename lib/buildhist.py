"""Edit/build histories over real make or ninja: after every step of every sequence the incremental tree must be what a
clean build gives, a second build must do nothing, and nothing may run again without cause (used by C15 and C16)."""
import hashlib
import os
import shutil
import subprocess
import time

import buildlab as B
import gypdrv
import vf
from buildshapes import SHAPES

TICK = 0.006  # longer than the kernel's timestamp granularity


class Lab:
    def __init__(self, fmt, shape, part):
        self.fmt, self.shape, self.part = fmt, SHAPES[shape], part
        self.name = f"{fmt}:{shape}"
        self.top = vf.scratch("bh")
        self.root = os.path.join(self.top, "p")
        self.memo = {}
        self.genmemo = {}
        self.configs = getattr(self.shape, "configs", ("Default",))

    def close(self):
        vf.rmtree(self.top)

    # --- the tree ------------------------------------------------------------
    def wipe(self):
        if os.path.exists(self.root):
            vf.rmtree(self.root)

    def save(self, tag):
        d = os.path.join(self.top, "save-" + tag)
        if os.path.exists(d):
            vf.rmtree(d)
        subprocess.check_call(["cp", "-a", self.root, d])

    def restore(self, tag):
        self.wipe()
        subprocess.check_call(["cp", "-a", os.path.join(self.top, "save-" + tag), self.root])

    def edit(self, old, new):
        """Turns the source tree for toggles old into the one for new; regenerates when a gyp file changed."""
        a = self.shape(old) if old is not None else {}
        b = self.shape(new)
        time.sleep(TICK)
        for p in a:
            if p not in b:
                os.unlink(os.path.join(self.root, p))
        changed = {p: c for p, c in b.items() if a.get(p) != c}
        for p, c in changed.items():
            full = os.path.join(self.root, p)
            os.makedirs(os.path.dirname(full), exist_ok=True)
            if os.path.exists(full):
                os.unlink(full)  # as editors do: a new file under the old name
            with open(full, "w") as f:
                f.write(c if isinstance(c, str) else repr(c))
        if any(p.endswith(".gyp") for p in changed):
            self.generate()
            return True
        return False

    def alone(self):
        """Toggles that only a known finding concerns, kept out of longer histories."""
        return getattr(self.shape, "alone", {}).get(self.fmt, ())

    def noback(self):
        return getattr(self.shape, "noback", {}).get(self.fmt, ())

    def loose(self, hist):
        """Histories in which a declared dependency may rerun a command that does not read it."""
        if len({t.split("@")[-1] for t in hist if "@" in t}) > 1:
            return True  # the other configuration had not seen the earlier edits yet
        return self.fmt in getattr(self.shape, "reruns", ()) or any(t.split("@")[0] in getattr(self.shape, "loose", ()) for t in hist)

    def generate(self):
        r = B.generate(self.root, self.fmt, {}, flags=("auto_regeneration=0",) if self.fmt == "make" else ())
        if not r.ok:
            raise vf.Bad(f"{self.name}: not generated: {r.status} {r.stderr[-600:]}", f"{self.name}:gen")

    def build(self, config, targets=(), env=None, expect=True, what="", key=""):
        r = B.build(self.root, self.fmt, config, targets, env=env)
        self.part.add()
        if expect and r.rc != 0:
            raise vf.Bad(f"{self.name} {what}: the build fails ({r.rc}): {r.out[-900:]}", f"{self.name}:{key}")
        return r

    def snapshot(self):
        """{path: (mtime, content hash)} of every regular file."""
        out = {}
        for dp, dn, fn in os.walk(self.root):
            for f in fn:
                p = os.path.join(dp, f)
                st = os.stat(p)
                with open(p, "rb") as fh:
                    out[p] = (st.st_mtime_ns, hashlib.sha1(fh.read()).digest())
        return out

    def clean(self, state, config):
        """What a clean build of this state gives: (outputs, {output: argv-like reads}) at the same path."""
        k = (frozenset(state), config)
        if k not in self.memo:
            aside = os.path.join(self.top, "aside")
            had = os.path.exists(self.root)
            if had:
                os.rename(self.root, aside)
            os.makedirs(self.root)
            try:
                self.edit(None, state)
                r = self.build(config, what=f"clean build of {sorted(state)}", key="clean")
                writers = {}
                for _, w in r.rw:
                    for p in w:
                        writers[p] = writers.get(p, 0) + 1
                twice = [os.path.relpath(p, self.root) for p, n in writers.items() if n > 1]
                if twice:
                    raise vf.Bad(f"{self.name}: a clean build of {sorted(state)} writes {twice} more than once", f"{self.name}:twice:{twice[0]}")
                self.memo[k] = B.outputs(self.root, self.fmt, config)
            finally:
                vf.rmtree(self.root)
                if had:
                    os.rename(aside, self.root)
        return self.memo[k]

    # --- the checks ----------------------------------------------------------
    def compare(self, state, config, what, key, only=None):
        want = self.clean(state, config)
        got = B.outputs(self.root, self.fmt, config)
        for p in sorted(want if only is None else only):
            if got.get(p) != want[p]:
                raise vf.Bad(f"{self.name} {what}: {p} is {'missing' if p not in got else 'stale'} (a clean build gives {want[p][:60]!r}, this tree has "
                             f"{got.get(p, b'')[:60]!r})", f"{self.name}:{key}", history=what)

    def null(self, config, what, key):
        if self.fmt in getattr(self.shape, "reruns", ()) and not key.startswith("null"):
            return
        before = self.snapshot()
        r = self.build(config, what=what + ", second build", key=key + ":null")
        if r.calls:
            raise vf.Bad(f"{self.name} {what}: a second build runs {[c[1][:4] for c in r.calls][:5]}", f"{self.name}:{key}:null", history=what)
        after = self.snapshot()
        moved = [os.path.relpath(p, self.root) for p in after if before.get(p) != after[p] and not os.path.basename(p).startswith(".")]
        if moved:
            raise vf.Bad(f"{self.name} {what}: a second build rewrites {moved[:5]}", f"{self.name}:{key}:null", history=what)

    def causes(self, before, after, r, old_argv, what, key):
        """Every command of this build had a cause: a file it reads changed, its command line did, or an output was missing."""
        for (reads, writes), argv in pairs(r):
            for w in writes:
                if w not in before:
                    break
            else:
                if writes and old_argv.get(writes[0]) == argv and all(before.get(p) == after.get(p) for p in reads):
                    raise vf.Bad(f"{self.name} {what}: {os.path.relpath(writes[0], self.root)} was made again although nothing it reads "
                                 f"({sorted(os.path.relpath(p, self.root) for p in reads)}) and not its command changed", f"{self.name}:{key}:cause", history=what)


def pairs(r):
    """Reads/writes of each call with its command line (builds run one command at a time)."""
    return zip(r.rw, [tuple(c[1]) for c in r.calls]) if len(r.rw) == len(r.calls) else ()


def argvs(r, old=None):
    d = dict(old or {})
    for (reads, writes), argv in pairs(r):
        for w in writes:
            d[w] = argv
    return d


def label(hist):
    return ">".join("+" + t for t in hist)


def first_build(lab):
    lab.wipe()
    os.makedirs(lab.root)
    lab.edit(None, ())
    argv = {}
    for config in lab.configs:
        r = lab.build(config, what="first build", key="first")
        argv = argvs(r, argv)
        lab.compare((), config, f"first build ({config})", "first")
    for config in lab.configs:
        lab.null(config, "first build", "first")
    lab.save("0")
    return argv


def explore(lab, first, depth):
    """Every sequence of up to depth toggles beginning with first, each step built and judged."""
    alone = lab.alone()
    base_argv = first_build(lab)

    def go(hist, state, built, argv, level, restored):
        for t in ([first] if level == 0 else [x for x in lab.shape.toggles if x not in alone and not (x in lab.noback() and x in state)]):
            for config in lab.configs:
                if restored:
                    lab.restore(str(level))
                restored = True
                new = state ^ {t}
                h = hist + [t if len(lab.configs) == 1 else f"{t}@{config}"]
                what, key = "after " + label(h), label(h)
                before = lab.snapshot()
                regen = lab.edit(state, new)
                r = lab.build(config, what=what, key=key)
                lab.part.seen((lab.name, tuple(h)))
                lab.part.count("transitions")
                lab.compare(new, config, what, key)
                if not regen and not lab.loose(h):
                    lab.causes(before, lab.snapshot(), r, argv, what, key)
                if level + 1 < depth and t not in alone:
                    lab.null(config, what, key)
                    lab.save(str(level + 1))
                    go(h, new, None, argvs(r, argv), level + 1, False)
                elif level == 0 or vf.THOROUGH:
                    lab.null(config, what, key)

    go([], frozenset(), None, base_argv, 0, False)


def exact(lab, first):
    """From the built tree with one edit made (or from nothing, first=None), asks for each output alone: everything it
    needs must be brought up to date with it. This makes every parallel schedule of a full build equivalent."""
    config = lab.configs[0]
    if first is None:
        lab.wipe()
        os.makedirs(lab.root)
        lab.edit(None, ())
        state = frozenset()
    else:
        first_build(lab)
        state = frozenset([first])
        lab.edit(frozenset(), state)
    lab.save("x")
    before = {} if first is None else B.outputs(lab.root, lab.fmt, config)
    want = lab.clean(state, config)
    for p in sorted(want):
        if p.endswith((".stamp", ".intermediate")) or before.get(p) == want[p]:
            continue
        lab.restore("x")
        what = f"after {'nothing' if first is None else '+' + first}, asking for {p} alone"
        key = f"only:{first}:{p}"
        goal = p if lab.fmt == "ninja" else os.path.join("out", config, p)
        lab.build(config, [goal], what=what, key=key)
        lab.part.seen((lab.name, "only", first, p))
        lab.part.count("single_output_builds")
        lab.compare(state, config, what, key, only=[p])


def lost(lab):
    """Each output deleted from the built tree (alone): the next build brings it back, and everything is as it was."""
    first_build(lab)
    config = lab.configs[0]
    want = lab.clean((), config)
    for p in sorted(want):
        lab.restore("0")
        time.sleep(TICK)
        os.unlink(os.path.join(lab.root, "out", config, p))
        lab.part.seen((lab.name, "lost", p))
        lab.part.count("lost_outputs")
        what, key = f"after deleting {p}", f"lost:{p}"
        lab.build(config, what=what, key=key)
        lab.compare((), config, what, key)


def faults(lab, first, torn):
    """Each command of the build after one edit fails (before or halfway through writing): the build must fail, and the next
    one - after a repair or after taking the edit back - must give what a clean build gives."""
    config = lab.configs[0]
    state = frozenset([first]) if first else frozenset()
    if first:
        first_build(lab)
        lab.edit(frozenset(), state)
    else:
        lab.wipe()
        os.makedirs(lab.root)
        lab.edit(None, ())
    lab.save("e")
    r = lab.build(config, what=f"after +{first}", key=f"fault:{first}")
    outs = []
    for (reads, writes), argv in pairs(r):
        for a in argv[1:]:
            if writes and os.path.basename(a) == os.path.basename(writes[0]) and a not in outs:
                outs.append(a)
                break
    for a in outs:
        for back in ([False, True] if first and not torn and first not in lab.noback() else [False]):
            lab.restore("e")
            env = {"VF_FAIL": a}
            if torn:
                env["VF_TORN"] = "1"
            where = os.path.relpath(a, lab.root) if a.startswith("/") else a
            what = f"after +{first}, the command for {where} fails{' halfway' if torn else ''}, {'the edit is taken back' if back else 'it is repaired'}"
            key = f"fault:{first}:{where}:{'torn' if torn else 'fail'}:{'back' if back else 'again'}"
            lab.part.seen((lab.name, key))
            lab.part.count("faulted_builds")
            time.sleep(TICK)
            x = lab.build(config, env=env, expect=False)
            if x.rc == 0:
                raise vf.Bad(f"{lab.name} after +{first}: the build succeeds although the command for {where} fails", f"{lab.name}:{key}:rc")
            now = state
            if back:
                lab.edit(state, frozenset())
                now = frozenset()
            lab.build(config, what=what, key=key)
            lab.compare(now, config, what, key)


def items(fmt, depth):
    out = []
    for s, f in SHAPES.items():
        out.append((fmt, s, "null", None, 0))
        for t in f.toggles:
            out.append((fmt, s, "explore", t, depth))
            if t in getattr(f, "alone", {}).get(fmt, ()):
                continue
            out.append((fmt, s, "exact", t, 0))
            for torn in (0, 1):
                out.append((fmt, s, "fault", t, torn))
        out += [(fmt, s, "exact", None, 0), (fmt, s, "lost", None, 0), (fmt, s, "fault", None, 0), (fmt, s, "fault", None, 1)]
    return out


def job(part, item):
    fmt, shape, kind, t, n = item
    lab = Lab(fmt, shape, part)
    try:
        if kind == "explore":
            explore(lab, t, n)
        elif kind == "exact":
            exact(lab, t)
        elif kind == "null":
            first_build(lab)
            for config in lab.configs:
                lab.null(config, "first build", "null:first")
        elif kind == "lost":
            lost(lab)
        else:
            faults(lab, t, bool(n))
    finally:
        lab.close()


def run(pid, fmt):
    depth = 3 if vf.THOROUGH else 2
    c = vf.Check(pid, "model_checking",
                 f"a distinct edit history (every sequence of up to {depth} toggles of every project shape), single-output build, deleted output or failing "
                 f"command, decided by comparing every output of the real {fmt} build over recording, content-addressed tools with a clean build's",
                 ["tools write their outputs in one step or report failure (a tool killed together with the build is not explored)",
                  "edits are further apart than the file system's timestamp granularity", "one command at a time; parallel schedules follow from "
                  "each output being buildable alone from every edited state"])
    B.tools()
    c.extra["depth"] = depth
    c.extra["shapes"] = len(SHAPES)
    vf.pmap(c, job, items(fmt, depth), chunk=1)
    c.sample(f"shape S2: gyp + {fmt}, edit in.txt, {fmt}, add an #include of the generated header, {fmt}, compared with a clean tree")
    return c.finish()
