"""C19: relative-path algebra over a real tree with symbolic links: every path, every directory, judged by file identity."""
import itertools
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import gypdrv  # noqa: E402
import vf  # noqa: E402
from gyp import common  # noqa: E402

LINKS = {("l",): "a/b", ("a", "l"): "../ab", ("b", "f"): "../a/x", ("ab", "l"): None}
DIRS = ["a", "a/a", "a/b", "a/b/a", "b", "b/a", "b/b", "ab", "ab/a", "ab/b"]
NAMES = ["a", "b", "ab", "l", ".", ".."]


def build(root):
    for d in DIRS:
        os.makedirs(os.path.join(root, d))
    for d in DIRS:
        open(os.path.join(root, d, "x"), "w").close()
    for k, v in LINKS.items():
        os.symlink(v or os.path.join(root, "a"), os.path.join(root, *k))


def resolve(root, cwd, path, last=True):
    """The absolute path a lookup ends at; names that do not exist are taken for directories. Shares nothing with os.path.realpath."""
    base = root.strip("/").split("/")
    links = {tuple(base) + k: v or root + "/a" for k, v in LINKS.items()}
    at = [] if path.startswith("/") else cwd.strip("/").split("/")
    todo = [c for c in path.split("/") if c and c != "."][::-1]
    while todo:
        c = todo.pop()
        if c == "..":
            at = at[:-1]
            continue
        to = links.get(tuple(at + [c]))
        if to is not None and (todo or last):
            if to.startswith("/"):
                at = []
            todo += [x for x in to.split("/") if x][::-1]
        else:
            at.append(c)
    return "/" + "/".join(at)


def texts(root, deep):
    rel = [""] + ["/".join(p) for n in range(1, deep + 1) for p in itertools.product(NAMES, repeat=n)] + ["b/f", "a/x", "a/l/x", "../../../../../../../../../a", "a b", "a/no/b"]
    more = [p + "/" for p in rel if p and p.count("/") < 2] + [p.replace("/", "//") for p in rel if p.count("/") == 1] + ["./" + p for p in rel if p and "/" not in p]
    rel = rel + more
    return list(dict.fromkeys(rel + [root + "/" + p if p else root for p in rel] + ["/", "/a", "/a/b", os.path.dirname(root)]))


def lexical(path):
    """A '..' after a name that may be a link cannot be folded away."""
    parts = [p for p in path.split("/") if p and p != "."]
    return not any(p == ".." and set(parts[:k]) & {"l", "f"} for k, p in enumerate(parts))


def same_on_disk(a, b):
    try:
        sa = os.stat(a)
    except OSError:
        return None
    try:
        sb = os.stat(b)
    except OSError:
        return False
    return (sa.st_dev, sa.st_ino) == (sb.st_dev, sb.st_ino)


def pair_job(part, item):
    where, span = item
    os.chdir(os.path.join(ROOT, where))
    cwd = os.getcwd()
    here = cwd[len(ROOT):].strip("/") or "."
    ends = {p: resolve(ROOT, cwd, p) for p in ALL}
    nofollow = {p: resolve(ROOT, cwd, p, last=False) for p in ALL}
    for p in ALL[span[0]:span[1]]:
        if os.path.realpath(p) != ends[p]:
            raise AssertionError(f"the model resolves {p} to {ends[p]}, the system to {os.path.realpath(p)}")
        first = {}
        for d in DIRTEXTS:
            got = first[d] = common.RelativePath(p, d)
            part.add()
            tag = f"{p!r} relative to {d!r}, from {here}"
            if os.path.isabs(got):
                part.violation(f"{tag} is {got!r}, which is absolute", f"abs:{here}:{p}:{d}")
            elif resolve(ROOT, ends[d], got) != ends[p]:
                part.violation(f"{tag} is {got!r}, another file", f"rel:{here}:{p}:{d}")
            elif got:
                part.count("identities")
                on = same_on_disk(p, os.path.join(ends[d], got)) if os.path.isdir(ends[d]) and ".." not in d and "//" not in p else None
                if on is not None:
                    part.count("identities_on_disk")
                    if not on:
                        part.violation(f"{tag} is {got!r}, another file on disk", f"disk:{here}:{p}:{d}")
        for d in DIRTEXTS:
            got = common.RelativePath(p, d, False)
            part.add()
            tag = f"{p!r} relative to {d!r} without following it, from {here}"
            if not lexical(p):
                continue
            if os.path.isabs(got) or resolve(ROOT, ends[d], got) != ends[p]:
                part.violation(f"{tag} is {got!r}, another file", f"norel:{here}:{p}:{d}")
            elif os.path.basename(p) not in ("", ".", "..") and resolve(ROOT, ends[d], got, last=False) != nofollow[p]:
                part.violation(f"{tag} is {got!r}, which follows the link", f"follow:{here}:{p}:{d}")
        for d in DIRTEXTS:
            part.add()
            if common.RelativePath(p, d) != first[d] or common.RelativePath(p, d, True) != first[d]:
                part.violation(f"{p!r} relative to {d!r}: asked again, {common.RelativePath(p, d)!r} instead of {first[d]!r}", f"again:{here}:{p}:{d}")
            got = common.FixIfRelativePath(p, d)
            if p.startswith("/"):
                if got != p:
                    part.violation(f"the absolute {p!r} is re-rooted to {got!r}", f"fix:{p}:{d}")
            elif os.path.isabs(got) or resolve(ROOT, ends[d], got) != ends[p]:
                part.violation(f"{p!r} re-rooted to {d!r} is {got!r}, another file", f"fix:{here}:{p}:{d}")
        part.seen((here, p))
        if not p.startswith("/"):
            for d in DIRTEXTS + [None]:
                top = cwd if d is None else ends[d]
                got = common.InvertRelativePath(p) if d is None else common.InvertRelativePath(p, d)
                part.add()
                if d is None:
                    start = ends[p]
                elif not lexical(os.path.join(d or ".", p)) and d:
                    start = resolve(ROOT, cwd, d + "/" + p)
                else:
                    start = resolve(ROOT, cwd, os.path.join(d, p))
                if d == "" and not p:
                    continue
                if (got if p else "x") and (os.path.isabs(got) or resolve(ROOT, start, got) != top):
                    part.violation(f"the inverse of {p!r} under {d!r} is {got!r}, from {here}", f"inv:{here}:{p}:{d}")
        for f in DIRTEXTS:
            if p.startswith("/") or not f or f.endswith("/"):
                continue
            whole = os.path.join(os.path.dirname(f), p)
            got = common.UnrelativePath(p, f)
            part.add()
            if lexical(whole) and resolve(ROOT, cwd, got) != resolve(ROOT, cwd, whole):
                part.violation(f"{p!r} as written in {f!r} is {got!r}, another file, from {here}", f"un:{here}:{p}:{f}")
            # there and back again
            back = common.UnrelativePath(common.RelativePath(p, os.path.dirname(f)), f)
            if not {"l", "f"} & set((f + "/" + p).split("/")) and not {"l"} & set(cwd.split("/")) and resolve(ROOT, cwd, back) != ends[p]:
                part.violation(f"{p!r} re-rooted into {f!r} and back is {back!r}, from {here}", f"back:{here}:{p}:{f}")


def gyp_job(part, item):
    """What build files see: DEPTH, the files they include and the list files they write, from files in every directory."""
    cwd, where, depth, absolute = item
    root = os.path.realpath(vf.scratch("t"))
    try:
        build(root)
        gypdrv.write_files(root, {f"{where}/g.gyp": {"includes": ["i.gypi"], "targets": [{"target_name": "t", "type": "none", "x_text": ["<(DEPTH)", "<|(list.txt p q)"], "z_dirs": ["<(DEPTH)/z"]}]},
                                  f"{where}/i.gypi": {"target_defaults": {"y_text": ["<(DEPTH)"]}}})
        base = os.path.realpath(os.path.join(root, cwd))
        f = os.path.join(root, where, "g.gyp") if absolute else os.path.relpath(os.path.join(root, where, "g.gyp"), base) if "l" not in where.split("/") else os.path.join(os.path.relpath(root, base), where, "g.gyp")
        d = os.path.join(root, depth) if absolute else os.path.join(os.path.relpath(root, base), depth)
        r = gypdrv.run({}, args=[f], cwd=os.path.relpath(base, root), depth=d, root=root)
        part.add()
        if not r.ok:
            raise vf.Bad(f"{item}: {r.status} {r.stderr[-600:]}", f"gyp:{item}")
        part.seen(item)
        t, = (x["configurations"]["Default"] for x in r.targets.values())
        got_depth, listed = t["x_text"]
        here = os.path.realpath(os.path.join(root, where))
        want = os.path.realpath(os.path.join(root, depth))
        for text, end in ((got_depth, want), (t["y_text"][0], want), (t["z_dirs"][0], want + "/z")):
            if os.path.isabs(text) or os.path.realpath(os.path.join(here, text)) != end:
                part.violation(f"{item}: DEPTH gives {text!r} in {where}, should lead to {depth}", f"depth:{item}")
        try:
            with open(os.path.join(here, listed)) as g:
                ok = g.read() == "p\nq\n"
        except OSError:
            ok = False
        if not ok:
            part.violation(f"{item}: the list file {listed!r} is not there or not as written", f"list:{item}")
    finally:
        vf.rmtree(root)


def job(part, item):
    {"pair": pair_job, "gyp": gyp_job}[item[0]](part, item[1])


def main():
    global ROOT, ALL, DIRTEXTS
    c = vf.Check("C19", "model_checking", "every path of up to 3 names (4 thorough) against every directory of up to 2 (3 thorough) over {a, b, ab, l, ., ..}, relative and absolute, with trailing and doubled slashes, over a real tree with links, from 4 working directories: "
                 "relative form with and without following the last link, inverse, re-rooting and back, repeated calls; DEPTH and list files through gyp itself",
                 ["'..' after a link is not judged where a function is documented to work on the text (UnrelativePath, not following links)", "the working directory does not change within a process", "Windows drives are not explored"])
    ROOT = os.path.realpath(vf.scratch("tree"))
    build(ROOT)
    ALL = texts(ROOT, 3)
    DIRTEXTS = ALL if vf.THOROUGH else texts(ROOT, 2)
    cwds = [".", "a", "a/b", "l"]
    if vf.THOROUGH:
        cwds += ["ab", "b/a", "a/l"]
        ALL = list(dict.fromkeys(ALL + ["/".join(p) for p in itertools.product(NAMES, repeat=4) if p[0] != "." and p[-1] != "."]))
    c.sample({"paths": len(ALL), "working_directories": cwds})
    for w in cwds:  # fresh processes for each, as the working directory of a gyp process does not change
        vf.pmap(c, job, [("pair", (w, (k, k + 8))) for k in range(0, len(ALL), 8)], chunk=4)
    places = ["a", "a/b", "b/b", "ab", "l", "a/l"]
    items = [("gyp", x) for x in itertools.product([".", "a", "b/a"], places, [".", "a", "a/b", "ab", "l", "b/a"], (False, True))]
    vf.pmap(c, job, items, chunk=4)
    return c.finish()


vf.main(main)
