"""Shared plumbing of the checks: counting, violations, known findings, evidence,
scratch directories and process-parallel exhaustive enumeration."""
import atexit
import errno
import json
import multiprocessing
import os
import re
import shutil
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
THOROUGH = TIER == "thorough"
NPROC = max(1, min(8, os.cpu_count() or 1))

sys.dont_write_bytecode = True
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"

_owner = os.getpid()
_scratch_root = None


def scratch_root():
    """A scratch directory owned by the top process, removed when it exits."""
    global _scratch_root
    if _scratch_root is None:
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
        _scratch_root = os.path.realpath(tempfile.mkdtemp(prefix="vf", dir=base))
        atexit.register(_rm_scratch)
    return _scratch_root


def _rm_scratch():
    if os.getpid() == _owner and _scratch_root:
        # only ever the directory mkdtemp gave us
        assert os.path.basename(_scratch_root).startswith("vf")
        shutil.rmtree(_scratch_root, ignore_errors=True)


_counter = [0]


def scratch(prefix="s"):
    _counter[0] += 1
    path = os.path.join(scratch_root(), f"{prefix}{os.getpid()}x{_counter[0]}")
    os.makedirs(path)
    return path


def tally(name, add=0):
    """A counter shared by all worker processes of this check."""
    p = os.path.join(scratch_root(), "tally-" + name)
    if add:
        fd = os.open(p, os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o600)
        os.write(fd, b"." * add)
        os.close(fd)
    try:
        return os.stat(p).st_size
    except OSError:
        return 0


def rmtree(path):
    assert path.startswith(scratch_root() + "/"), path
    shutil.rmtree(path, ignore_errors=True)


def load_known():
    """{property: {key: description}} of KNOWN_FINDINGS.txt ('fixed:' lines suppress nothing)."""
    out = {}
    try:
        with open(os.path.join(VERIF, "KNOWN_FINDINGS.txt")) as f:
            for line in f:
                m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
                if m:
                    out.setdefault(m.group(1), {})[m.group(2)] = m.group(3)
    except OSError:
        pass
    return out


class Bad(Exception):
    """A property violation found while examining one case."""

    def __init__(self, what, key=None, **replay):
        super().__init__(what)
        self.what, self.key, self.replay = what, key, replay


def slug(s):
    return re.sub(r"[^A-Za-z0-9_.:+-]+", "_", str(s))[:120]


class Check:
    current = None  # the check that runs in this process

    def __init__(self, pid, level, rule, assumptions=()):
        Check.current = self
        self.pid, self.level, self.rule = pid, level, rule
        self.assumptions = list(assumptions)
        self.t0 = time.time()
        self.evaluations = 0
        self.nontrivial = set()
        self.nontrivial_n = 0
        self.samples = []
        self.extra = {}
        self.violations = {}  # key -> (what, replay)
        self.nviol = 0

    # --- counting -----------------------------------------------------------
    def add(self, n=1):
        self.evaluations += n

    def seen(self, key):
        """Records a distinct, non-trivial case by its canonical key."""
        self.nontrivial.add(key)

    def sample(self, s, limit=6):
        if len(self.samples) < limit:
            self.samples.append(s)

    def count(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n

    # --- violations -----------------------------------------------------------
    def violation(self, what, key=None, **replay):
        self.nviol += 1
        key = slug(key if key is not None else what)
        if key not in self.violations:
            self.violations[key] = (str(what), replay)

    def merge(self, part):
        """Folds in what a worker returned (see Part)."""
        self.evaluations += part["evaluations"]
        self.nontrivial |= part["nontrivial"]
        for k, v in part["extra"].items():
            self.extra[k] = self.extra.get(k, 0) + v
        for s in part["samples"]:
            self.sample(s)
        for key, what, replay in part["violations"]:
            self.nviol += 1
            if key not in self.violations:
                self.violations[key] = (what, replay)

    # --- the end --------------------------------------------------------------
    def finish(self, exhaustive=True):
        known = load_known().get(self.pid, {})
        unlisted = {k: v for k, v in self.violations.items() if k not in known}
        listed = [k for k in self.violations if k in known]
        cov = {
            "evaluations": self.evaluations,
            "distinct_nontrivial": len(self.nontrivial) + self.nontrivial_n,
            "rule": self.rule,
            "samples": self.samples or ["(none)"],
            "exhaustive": bool(exhaustive),
        }
        cov.update(self.extra)
        ev = {
            "property": self.pid,
            "tier": TIER,
            "seed": SEED,
            "level": self.level,
            "coverage": cov,
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 3),
            "violations": len(unlisted),
        }
        evdir = os.path.join(VERIF, "evidence")
        os.makedirs(evdir, exist_ok=True)
        with open(os.path.join(evdir, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for k in sorted(listed):
            print(f"KNOWN-FINDING: property={self.pid} {known[k]}")
        if not unlisted:
            print(
                f"OK property={self.pid} tier={TIER} evaluations={self.evaluations} "
                f"distinct={cov['distinct_nontrivial']} wall={ev['wall_s']}s "
                + " ".join(f"{k}={v}" for k, v in self.extra.items() if isinstance(v, int))
            )
            sys.stdout.flush()
            return 0
        for i, (key, (what, replay)) in enumerate(sorted(unlisted.items(), key=lambda kv: len(str(kv[1])))):
            rel = os.path.join("evidence", "replay", f"{self.pid}-{i}.json")
            path = os.path.join(VERIF, rel)
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, "w") as f:
                json.dump({"property": self.pid, "key": key, "what": what, **replay}, f, indent=1, default=str)
            print(f"VIOLATION property={self.pid} replay={rel}")
            print("  " + what[:1500].replace("\n", "\n  "))
            print("  key=" + key)
            if i >= int(os.environ.get("VF_SHOW", "9")):
                print(f"  ... {len(unlisted)} distinct violations")
                break
        sys.stdout.flush()
        return 1


class Part:
    """What one worker gathers."""

    def __init__(self):
        self.d = {"evaluations": 0, "nontrivial": set(), "extra": {}, "samples": [], "violations": []}

    def add(self, n=1):
        self.d["evaluations"] += n

    def seen(self, key):
        self.d["nontrivial"].add(key)

    def sample(self, s, limit=2):
        if len(self.d["samples"]) < limit:
            self.d["samples"].append(s)

    def count(self, name, n=1):
        self.d["extra"][name] = self.d["extra"].get(name, 0) + n

    def violation(self, what, key=None, **replay):
        if len(self.d["violations"]) < 40:
            self.d["violations"].append((slug(key if key is not None else what), str(what), replay))


def from_repo(tb):
    """True when the innermost frames of a traceback are in the code under test."""
    frames = traceback.extract_tb(tb)
    return any(os.path.realpath(f.filename).startswith(os.path.realpath(REPO) + "/") for f in frames)


RESOURCES = {errno.ENOSPC, errno.ENOMEM, errno.EMFILE, errno.ENFILE, errno.EAGAIN, errno.EDQUOT}


def unobservable(e):
    """True when an exception of a check's own code says that an outcome is not there or not of its form (a missing file, unreadable text),
    not that the check or its surroundings are broken. On the unchanged tree every outcome is read without one."""
    if isinstance(e, OSError):
        return e.errno not in RESOURCES and not isinstance(e, (TimeoutError, BlockingIOError))
    return isinstance(e, (LookupError, ValueError, AssertionError, StopIteration, EOFError))


def _guarded(fn, item, part):
    try:
        fn(part, item)
    except Bad as e:
        part.violation(e.what, e.key, **e.replay)
    except Exception as e:
        if from_repo(sys.exc_info()[2]):
            part.violation(
                f"unexpected {type(e).__name__}: {e} for {str(item)[:300]}\n{traceback.format_exc()[-1500:]}",
                None, case=item)
        elif unobservable(e):
            part.violation(f"the outcome cannot be read: {type(e).__name__}: {e} for {str(item)[:300]}\n{traceback.format_exc()[-1500:]}", None, case=item)
        else:
            raise


_work = None
_known = {}
STOP_AFTER = int(os.environ.get("VF_STOP_AFTER", "60"))  # cases with unlisted violations after which the verdict is clear


def _run_chunk(span):
    fn, items = _work
    part = Part()
    for i in range(*span):
        if tally("violating") >= STOP_AFTER:
            part.count("not_run_after_violations")
            continue
        before = len(part.d["violations"])
        _guarded(fn, items[i], part)
        if len(part.d["violations"]) > before and any(v[0] not in _known for v in part.d["violations"][before:]):
            tally("violating", 1)
    return part.d


def pmap(check, fn, items, chunk=None, procs=NPROC):
    """Runs fn(part, item) for every item on all cores and folds the results into check."""
    global _work, _known
    items = list(items)
    _known = load_known().get(check.pid, {})
    scratch_root()
    if procs == 1 or len(items) <= 1:
        part = Part()
        for it in items:
            _guarded(fn, it, part)
        check.merge(part.d)
        return
    if chunk is None:
        chunk = max(1, min(500, len(items) // (procs * 6) or 1))
    _work = (fn, items)
    spans = [(i, min(i + chunk, len(items))) for i in range(0, len(items), chunk)]
    ctx = multiprocessing.get_context("fork")
    with ctx.Pool(procs) as pool:
        for d in pool.imap(_run_chunk, spans):
            check.merge(d)
    _work = None


def main(run):
    """Entry point of a check: run() -> exit status; anything unexpected from the repo is a violation."""
    try:
        rc = run()
    except SystemExit:
        raise
    except BaseException as e:
        traceback.print_exc()
        rc = 2
        if Check.current is not None and isinstance(e, Bad):
            Check.current.violation(e.what, e.key, **e.replay)
            rc = Check.current.finish()
        elif Check.current is not None and (unobservable(e) or (isinstance(e, Exception) and from_repo(sys.exc_info()[2]))):
            Check.current.violation(f"the outcome cannot be read: {type(e).__name__}: {e}\n{traceback.format_exc()[-1500:]}", None)
            rc = Check.current.finish()
    sys.stdout.flush()
    sys.exit(rc)
