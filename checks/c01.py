"""C01: merge policies.  Programs (dst, src1[, src2]) delivered through conditions,
includes and target_defaults, batched as many targets of one project, compared with a
reference merge written from the documentation."""
import copy
import itertools
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import gypdrv  # noqa: E402
import vf  # noqa: E402

ABSENT = object()


class Reject(Exception):
    pass


# ---- the reference model ----------------------------------------------------
def kind(v):
    return "scalar" if isinstance(v, (str, int)) else type(v).__name__


def single(x):
    return isinstance(x, int) or (isinstance(x, str) and not x.startswith("-"))


def same(a, b):
    return type(a) is type(b) and a == b


def contains(lst, x):
    return any(same(a, x) for a in lst)


def m_list(dst, src, how):
    src = copy.deepcopy(src)
    if how == "append":
        out = list(dst)
        for x in src:
            if not (single(x) and contains(out, x)):
                out.append(x)
        return out
    head = []
    for x in src:
        if not (single(x) and contains(head, x)):
            head.append(x)
    return head + [x for x in dst if not (single(x) and contains(head, x))]


def m_item(x):
    """A list item is copied; lists inside it are built by appending to an empty list."""
    if isinstance(x, dict):
        return m_dict({}, x)
    if isinstance(x, list):
        return m_list([], [m_item(i) for i in x], "append")
    return x


def m_dict(dst, src):
    dst = dict(dst)
    for k, v in src.items():
        if isinstance(v, list):
            ext = k[-1] if k[-1] in "=+?" else ""
            base = k[:-1] if ext else k
            others = {"": "=?", "=": ("", "?"), "+": "=?", "?": ("", "=", "+")}[ext]
            if any(base + o in src for o in others):
                raise Reject("policies")
            if k in dst and kind(dst[k]) != "list":
                raise Reject("kind")
            v = [m_item(x) for x in v]
            if ext == "=":
                dst[base] = m_list([], v, "append")
                continue
            if ext == "?" and base in dst:
                continue
            if base in dst and kind(dst[base]) != "list":
                raise Reject("kind")
            dst[base] = m_list(dst.get(base, []), v, "prepend" if ext == "+" else "append")
        else:
            if k in dst and kind(dst[k]) != kind(v):
                raise Reject("kind")
            if isinstance(v, dict):
                dst[k] = m_dict(dst.get(k, {}), v)
            else:
                dst[k] = v
    return dst


def norm(v):
    if isinstance(v, dict):
        return {k: norm(x) for k, x in v.items()}
    if isinstance(v, list):
        return [norm(x) for x in v]
    return str(v)


# ---- the space --------------------------------------------------------------
def lists(items, n):
    for r in range(n + 1):
        yield from (list(t) for t in itertools.product(items, repeat=r))


D = {"d": "x"}
N = ["n", "n"]


def to_values(full):
    yield ABSENT
    yield "s"
    yield 7
    yield {"d": "y"}
    yield {"d": ["a"], "e": "z"}
    yield from lists(["a", "b", "-a", D, N] if full else ["a", "-a"], 2)
    if full:
        yield ["a", "b", 7]
        yield ["b", "a", "b"]


def from_dicts(full):
    yield {}
    for v in ("t", 8):
        yield {"k": v}
    for v in ({"d": "w"}, {"d": ["b", "a"]}, {"d+": ["b", "a"]}, {"d=": ["c"]}, {"d?": ["c"]}, {"f": {"g": ["a"]}}, {"e": 3}):
        yield {"k": v}
    exts = ["", "=", "+", "?"]
    items = ["a", "b", "-a", 7] if full else ["a", "b"]
    for e in exts:
        for v in lists(items, 3 if full else 2):
            yield {"k" + e: v}
        yield {"k" + e: [D, "a"]}
        yield {"k" + e: [D, D]}
        yield {"k" + e: [N, ["-a", "-a"]]}
        yield {"k" + e: [["a", "b", "a"], {"d": ["-q", "-q", "z"], "d2": {}}]}
    small = [[], ["a"], ["b", "-a"]] if full else [["b"]]
    for e1, e2 in itertools.permutations(exts, 2):
        for v1 in small:
            for v2 in small:
                yield {"k" + e1: v1, "k" + e2: v2}


def key(x):
    return repr(x) if x is not ABSENT else "-"


# ---- delivery ---------------------------------------------------------------
def wrap(channel, i, dst, srcs, files):
    t = {"target_name": f"t{i}", "type": "none"}
    if dst is not ABSENT:
        t["k"] = dst
    if channel == "conditions":
        t["conditions"] = [["1==1", s] for s in srcs]
    else:
        inc = []
        for j, s in enumerate(srcs):
            files[f"i{i}_{j}.gypi"] = s
            inc.append(f"i{i}_{j}.gypi")
        t["includes"] = inc
    return t


def expected(dst, srcs):
    d = {} if dst is ABSENT else {"k": copy.deepcopy(dst)}
    for s in srcs:
        d = m_dict(d, s)
    return norm(d)


def batch(part, item):
    channel, cases = item
    good, bad = [], []
    for dst, srcs in cases:
        try:
            good.append((dst, srcs, expected(dst, srcs)))
        except Reject:
            bad.append((dst, srcs))
    if good:
        check_good(part, channel, good)
    for dst, srcs in bad:
        files = {}
        files["a.gyp"] = {"targets": [wrap(channel, 0, dst, srcs, files)]}
        r = gypdrv.run(files)
        part.add()
        part.seen(f"{channel} {key(dst)} {srcs!r}")
        part.count("rejections")
        if r.ok:
            part.violation(f"{channel}: merging {srcs!r} into {key(dst)} must be rejected, gave {r.targets}",
                           f"accept:{key(dst)}:{srcs!r}", channel=channel, dst=key(dst), srcs=srcs)


def check_good(part, channel, good):
    files = {}
    targets = [wrap(channel, i, d, s, files) for i, (d, s, _) in enumerate(good)]
    files["a.gyp"] = {"targets": targets}
    pristine = copy.deepcopy(files)
    r = gypdrv.run(files)
    if not r.ok:
        if len(good) == 1:
            d, s, e = good[0]
            part.violation(f"{channel}: merging {s!r} into {key(d)} must give {e}, but gyp failed: {r.stderr[-400:]}",
                           f"fail:{key(d)}:{s!r}", channel=channel, dst=key(d), srcs=s)
        else:
            h = len(good) // 2
            check_good(part, channel, good[:h])
            check_good(part, channel, good[h:])
        return
    ids = {}
    for i, (d, s, e) in enumerate(good):
        part.add()
        part.seen(f"{channel} {key(d)} {s!r}")
        got = r.targets[f"a.gyp:t{i}#target"]["configurations"]["Default"]
        if got != e:
            part.violation(f"{channel}: merging {s!r} into {key(d)} must give {e}, gave {got}",
                           f"value:{key(d)}:{s!r}", channel=channel, dst=key(d), srcs=s, got=got, want=e)
        shared(part, ids, f"t{i}", r.targets[f"a.gyp:t{i}#target"], channel)
    if channel == "includes":
        for name, src in pristine.items():
            if name.endswith(".gypi") and norm(r.data[name]) != norm(src):
                part.violation(f"merging changed the included file's own data: {src!r} -> {r.data[name]!r}",
                               f"source:{src!r}", src=src)
    part.sample({"channel": channel, "into": key(good[-1][0]), "from": good[-1][1], "result": good[-1][2]})


def shared(part, ids, owner, obj, channel):
    stack = [obj]
    while stack:
        o = stack.pop()
        if isinstance(o, (dict, list)):
            if id(o) in ids and ids[id(o)] != owner:
                part.violation(f"{channel}: targets {ids[id(o)]} and {owner} share a mutable {type(o).__name__} {o!r}",
                               f"alias:{channel}")
            ids[id(o)] = owner
            stack.extend(o.values() if isinstance(o, dict) else o)


def defaults(part, item):
    """target_defaults receives each target: dst is shared by two targets, the second of
    which must see the pristine defaults."""
    dst, srcs = item
    d0 = {} if dst is ABSENT else {"k": copy.deepcopy(dst)}
    exp, tg = [], []
    for i, s in enumerate(srcs):
        try:
            exp.append((i, norm(m_dict(d0, s))))
        except Reject:
            continue
        tg.append(dict({"target_name": f"t{i}", "type": "none"}, **copy.deepcopy(s)))
    if not tg:
        return
    r = gypdrv.run({"a.gyp": {"target_defaults": d0, "targets": tg}})
    if not r.ok:
        part.violation(f"target_defaults {d0} with targets {tg}: gyp failed: {r.stderr[-400:]}", f"tdfail:{key(dst)}")
        return
    ids = {}
    for i, e in exp:
        part.add()
        part.seen(f"defaults {key(dst)} {srcs[i]!r}")
        tgt = r.targets[f"a.gyp:t{i}#target"]
        got = tgt["configurations"]["Default"]
        if got != e:
            part.violation(f"target_defaults {d0}: target settings {srcs[i]!r} must give {e}, gave {got}",
                           f"td:{key(dst)}:{srcs[i]!r}", dst=d0, src=srcs[i], got=got, want=e)
        shared(part, ids, f"t{i}", tgt, "target_defaults")


def alias_case(part, item):
    """One shared source merged into two recipients; the first recipient then receives more.
    The second one must not see it."""
    channel, src, more = item
    files = {"s.gypi": src}
    if channel == "include":
        t = [{"target_name": n, "type": "none", "includes": ["s.gypi"]} for n in "ab"]
        body = {"targets": t}
    elif channel == "defaults":
        body = {"target_defaults": copy.deepcopy(src), "targets": [{"target_name": n, "type": "none"} for n in "ab"]}
    else:
        body = {"targets": [{"target_name": "s", "type": "none", "direct_dependent_settings": copy.deepcopy(src)}] +
                [{"target_name": n, "type": "none", "dependencies": ["s"]} for n in "ab"]}
    for t in body["targets"]:
        if t["target_name"] == "a":
            t["target_conditions" if channel == "dependent" else "conditions"] = [["1==1", more]]
    if channel == "dependent":
        # target conditions run after dependent settings were merged
        pass
    files["a.gyp"] = body
    r = gypdrv.run(files)
    part.add()
    if not r.ok:
        part.violation(f"{channel}: {src} then {more}: {r.stderr[-400:]}", f"alias-fail:{channel}:{src!r}")
        return
    got = {n: r.targets[f"a.gyp:{n}#target"]["configurations"]["Default"] for n in "ab"}
    if channel == "defaults":
        # the defaults are copied as written; the target, its conditions applied, merges into them
        want = {"b": norm(src), "a": norm(m_dict(src, m_dict({}, more)))}
    else:
        base = m_dict({}, src)
        want = {"b": norm(base), "a": norm(m_dict(base, more))}
    part.seen(f"alias {channel} {src!r} {more!r}")
    if got != want:
        part.violation(f"{channel}: source {src}, then {more} merged into a only: want {want}, got {got}",
                       f"alias:{channel}:{src!r}:{more!r}", got=got, want=want)
    ids = {}
    for n in "ab":
        shared(part, ids, n, r.targets[f"a.gyp:{n}#target"], channel)


def run():
    ck = vf.Check("C01", "exploration",
                  "a case is (delivery channel, destination value, 1-2 source dictionaries); distinct by its text; "
                  "non-trivial when the model merges or rejects a source with at least the stated key")
    cases = []
    for dst in to_values(True):
        for s in from_dicts(True):
            cases.append((dst, [s]))
    small_s = [s for s in from_dicts(False) if s]
    if not vf.THOROUGH:
        small_s = [s for s in small_s if len(repr(s)) < 22]
    chains = [(dst, [a, b]) for dst in (to_values(False) if vf.THOROUGH else [ABSENT, ["a"], ["b", "a"], "s"])
              for a in small_s for b in small_s]
    # rejections cost one run each: keep all for the single merges through conditions only,
    # and one representative per (dst kind, source keys) elsewhere
    def thin(cs):
        seen, out = set(), []
        for dst, srcs in cs:
            try:
                expected(dst, srcs)
                out.append((dst, srcs))
            except Reject:
                k = (kind(dst) if dst is not ABSENT else "-", tuple(tuple((kk, kind(v)) for kk, v in s.items()) for s in srcs))
                if k not in seen:
                    seen.add(k)
                    out.append((dst, srcs))
        return out

    work = []
    singles = thin(cases)
    ch = thin(chains)
    for channel, cs in (("conditions", singles), ("includes", singles if vf.THOROUGH else singles[::1]), ("conditions", ch)):
        for i in range(0, len(cs), 150):
            work.append((channel, cs[i:i + 150]))
    vf.pmap(ck, batch, work, chunk=1)
    td = []
    fd = list(from_dicts(True))
    for dst in to_values(True):
        for i in range(0, len(fd), 60):
            td.append((dst, fd[i:i + 60]))
    vf.pmap(ck, defaults, td, chunk=2)
    srcs = [{"k": ["a", D, N]}, {"k": {"d": ["a"], "e": {"f": ["b"]}}}, {"k": [["a"], {"z": ["y"]}], "m": {"n": []}}]
    mores = [{"k": ["zz"]}, {"k+": ["zz"]}, {"k": {"d": ["zz"]}}, {"k": {"e": {"f": ["zz"]}}}, {"m": {"n": ["zz"]}}]
    al = []
    for c in ("include", "defaults", "dependent"):
        for s in srcs:
            for m in mores:
                try:
                    m_dict(m_dict({}, s), m)
                except Reject:
                    continue
                al.append((c, s, m))
    vf.pmap(ck, alias_case, al)
    return ck.finish()


if __name__ == "__main__":
    vf.main(run)
