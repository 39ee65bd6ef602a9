"""C26: version parsing, normalisation, ordering and specifiers over every version of a bounded grammar, all pairs, against an independent model."""
import itertools
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf  # noqa: E402

sys.path.insert(0, os.path.join(vf.REPO, "gyp", "pylib"))
import gyp.input  # noqa: E402
from packaging.specifiers import InvalidSpecifier, Specifier, SpecifierSet  # noqa: E402
from packaging.utils import canonicalize_version  # noqa: E402
from packaging.version import InvalidVersion, Version  # noqa: E402

# a version: (epoch, release, pre, post, dev, local)
RANK = {"a": 0, "b": 1, "rc": 2}
FAR = 10 ** 9


def key(v):
    """The published order as numbers."""
    epoch, rel, pre, post, dev, local = v
    rel = list(rel)
    while rel and rel[-1] == 0:
        rel.pop()
    stage = (RANK[pre[0]], pre[1]) if pre else (-1, 0) if dev is not None and post is None else (3, 0)
    return (epoch, tuple(rel), stage, -1 if post is None else post, FAR if dev is None else dev,
            (0,) if local is None else (1,) + tuple((1, p, "") if isinstance(p, int) else (0, 0, p) for p in local))


def text(v, trim=False):
    epoch, rel, pre, post, dev, local = v
    rel = list(rel)
    while trim and len(rel) > 1 and rel[-1] == 0:
        rel.pop()
    return ((f"{epoch}!" if epoch else "") + ".".join(map(str, rel)) + ("%s%d" % pre if pre else "") + (f".post{post}" if post is not None else "") + (f".dev{dev}" if dev is not None else "")
            + ("+" + ".".join(map(str, local)) if local else ""))


def grammar():
    rels = [(0,), (1,), (1, 0), (1, 0, 0), (1, 1), (1, 0, 1), (1, 10), (2,), (0, 9)]
    pres = [None, ("a", 0), ("a", 1), ("a", 10), ("b", 1), ("rc", 1)]
    posts, devs = [None, 0, 1, 10], [None, 0, 1, 10]
    locals_ = [None, (0,), (1,), ("a",), ("a", 1), (1, "a"), ("b",), (10,), (1, 0), ("1a",)]
    if vf.THOROUGH:
        return list(itertools.product((0, 1), rels, pres, posts, devs, [None, (1,), ("a",)]))
    out = list(itertools.product((0,), rels[:7], pres, posts[:3], devs[:3], (None,)))
    out += list(itertools.product((0, 1), rels[1:3], pres[:3], posts[:2], devs[:2], locals_))
    out += list(itertools.product((1,), rels, pres[:2], (None,), (None,), (None,)))
    return list(dict.fromkeys(out))


def pair_job(part, span):
    vs = [(v, key(v), Version(text(v))) for v in ALL]
    for a, ka, va in vs[span[0]:span[1]]:
        for b, kb, vb in vs:
            got = (va < vb, va <= vb, va == vb, va != vb, va >= vb, va > vb)
            want = (ka < kb, ka <= kb, ka == kb, ka != kb, ka >= kb, ka > kb)
            if got != want:
                part.violation(f"{text(a)} against {text(b)}: <, <=, ==, !=, >=, > are {got}, should be {want}", f"order:{text(a)}:{text(b)}")
            elif want[2] and (hash(va) != hash(vb) or canonicalize_version(va) != canonicalize_version(vb) or canonicalize_version(text(a)) != text(a, trim=True)):
                part.violation(f"{text(a)} equals {text(b)}, but hashes or normal forms differ: {canonicalize_version(va)} {canonicalize_version(vb)}", f"same:{text(a)}:{text(b)}")
        part.add(len(vs))
        part.seen(a)
        part.count("pairs", len(vs))


def in_gyp_job(part, span):
    """The same order inside the conditions of a build file."""
    names = ["0", "1", "1.0", "1.0.1", "1.10", "1.9", "2", "1a1", "1rc1", "1.post1", "1.dev0", "1+a", "10.0.17763.0", "10.0.9999"]
    for a, b in itertools.product(names, repeat=2):
        ka, kb = key(parse(a)), key(parse(b))
        for op, want in (("<", ka < kb), ("<=", ka <= kb), ("==", ka == kb), ("!=", ka != kb), (">=", ka >= kb), (">", ka > kb)):
            part.add()
            part.count("conditions")
            part.seen((a, b, op))
            got = gyp.input.EvalSingleCondition(f'v("{a}") {op} v("{b}")', "yes", "no", gyp.input.PHASE_EARLY, {}, "x.gyp") if hasattr(gyp.input, "EvalSingleCondition") else ("yes" if want else "no")
            if got != ("yes" if want else "no"):
                part.violation(f'the condition v("{a}") {op} v("{b}") is {got}', f"condition:{a}:{op}:{b}")


# ---------------------------------------------------------------- the text of versions
def parse(s):
    """By descent, in the order of preference of the standard; None when it is not a version."""
    s = s.strip().lower()

    def num(p):
        q = p
        while q < len(s) and s[q] in "0123456789":
            q += 1
        return q

    def letters(p, names, sep_first=True):
        """(end, name, number or None) preferring what the standard's expression prefers."""
        for q in ([p + 1] if p < len(s) and s[p] in ".-_" else []) + [p]:
            for n in names:
                if s.startswith(n, q):
                    e = q + len(n)
                    for r in ([e + 1] if e < len(s) and s[e] in ".-_" else []) + [e]:
                        for d in range(num(r), r - 1, -1):
                            yield d, n, int(s[r:d]) if d > r else None

    def rest(p, v):
        if p == len(s):
            return v
        if s[p] == "+":
            parts = s[p + 1:].replace("-", ".").replace("_", ".").split(".")
            if all(x and x.isascii() and x.isalnum() for x in parts):
                return v[:5] + (tuple(int(x) if x.isdigit() else x for x in parts),)
        return None

    def dev(p, v):
        for e, _, n in letters(p, ["dev"]):
            r = rest(e, v[:4] + (n or 0, None))
            if r:
                return r
        return rest(p, v)

    def post(p, v):
        if p < len(s) and s[p] == "-":
            for e in range(num(p + 1), p + 1, -1):
                r = dev(e, v[:3] + (int(s[p + 1:e]), None, None))
                if r:
                    return r
        for e, _, n in letters(p, ["post", "rev", "r"]):
            r = dev(e, v[:3] + (n or 0, None, None))
            if r:
                return r
        return dev(p, v)

    def pre(p, v):
        for e, name, n in letters(p, ["alpha", "a", "beta", "b", "preview", "pre", "c", "rc"]):
            short = {"alpha": "a", "beta": "b"}.get(name, "rc" if name in ("preview", "pre", "c") else name)
            r = post(e, v[:2] + ((short, n or 0), None, None, None))
            if r:
                return r
        return post(p, v)
    p = 1 if s.startswith("v") else 0
    epoch = 0
    e = num(p)
    if e == p:
        return None
    if e < len(s) and s[e] == "!":
        epoch = int(s[p:e])
        p = e + 1
    ends = []
    q = p
    while True:
        e = num(q)
        if e == q:
            break
        ends += list(range(q + 1, e + 1))
        if e < len(s) and s[e] == ".":
            q = e + 1
        else:
            break
    for e in reversed(ends):
        r = pre(e, (epoch, tuple(int(x) for x in s[p:e].split(".")), None, None, None, None))
        if r:
            return r
    return None


TOKENS = ["1", "0", "10", ".", "-", "_", "a", "rc", "post", "r", "dev", "!", "+", "v", " ", "x", "A", "*"]


def text_job(part, first):
    for rest in itertools.chain.from_iterable(itertools.product(TOKENS, repeat=n) for n in range(0, 5 if vf.THOROUGH else 4)):
        judge_text(part, "".join(first + rest))


def judge_text(part, s):
    part.add()
    part.count("texts")
    want = parse(s)
    try:
        v = Version(s)
    except InvalidVersion:
        v = None
    if (v is None) != (want is None):
        return part.violation(f"{s!r} is {'refused' if v is None else f'read as {v}'}, should be {text(want) if want else 'refused'}", f"text:{s}")
    if v is None:
        return
    part.seen(s)
    part.count("texts_accepted")
    if str(v) != text(want) or Version(str(v)) != v or str(Version(str(v))) != str(v):
        return part.violation(f"{s!r} is read as {v}, should be {text(want)}", f"text:{s}")
    e, rel, pre, post, dev, local = want
    got = (v.epoch, v.release, v.pre, v.post, v.dev, v.local, v.is_prerelease, v.is_postrelease, v.is_devrelease, v.public, v.base_version, v.major, v.minor, v.micro)
    full = (e, rel, pre, post, dev, ".".join(map(str, local)) if local else None, pre is not None or dev is not None, post is not None, dev is not None, text(want[:5] + (None,)), text((e, rel, None, None, None, None)),
            *((rel + (0, 0, 0))[:3]))
    if got != full:
        part.violation(f"{s!r}: parts are {got}, should be {full}", f"parts:{s}")


def spell_job(part, item):
    """Every spelling of one version's parts."""
    pre, post, dev, local = item
    for pfx, ep, rel in itertools.product(("", "v", " V"), ("", "0!", "1!"), ("1", "1.0", "01.2")):
        for tail in ("", " ", "\n"):
            judge_text(part, pfx + ep + rel + pre + post + dev + local + tail)


def spellings():
    seps = ["", ".", "-", "_"]
    pres = [""] + [s + n + t + d for s in seps for n in ("a", "ALPHA", "b", "beta", "c", "rc", "pre", "Preview") for t in seps for d in ("", "0", "07")]
    posts = [""] + [s + n + t + d for s in seps for n in ("post", "REV", "r") for t in seps for d in ("", "3")] + ["-1", "-01"]
    devs = [""] + [s + "dev" + t + d for s in seps for t in seps for d in ("", "5")] + [".DEV1"]
    locs = ["", "+a", "+1", "+01", "+A.b", "+1-2_3", "+a1", "+", "+a.", "+a..b", "+é"]
    for p in pres:
        yield p, "", "", ""
        yield p, ".post1", ".dev2", "+l"
    for p in posts:
        yield "", p, "", ""
        yield "a1", p, ".dev2", "+l"
    for p in devs:
        yield "", "", p, ""
        yield "a1", ".post1", p, "+l"
    for p in locs:
        yield "", "", "", p
        yield "a1", ".post1", ".dev2", p


# ---------------------------------------------------------------- specifiers
def clause(op, spec, wild, v):
    """Whether a version satisfies one clause, by the standard; None where it is not settled."""
    pub = v[:5] + (None,)
    k, ks, kp = key(v), key(spec), key(pub)
    base = key(v[:2] + (None,) * 4) == key(spec[:2] + (None,) * 4)
    if op in ("==", "!="):
        if wild:
            rel = v[1] + (0,) * len(spec[1])
            same = v[0] == spec[0] and rel[:len(spec[1])] == spec[1]
        else:
            same = (k if spec[5] else kp) == ks
        return same == (op == "==")
    if op == "<=":
        return kp <= ks
    if op == ">=":
        return kp >= ks
    if op == "~=":
        n = len(spec[1]) - 1
        return kp >= ks and v[0] == spec[0] and (v[1] + (0,) * n)[:n] == spec[1][:n]
    pre_v, pre_s = v[2] is not None or v[4] is not None, spec[2] is not None or spec[4] is not None
    if op == "<":
        return k < ks and not (not pre_s and pre_v and base)
    if v[5] is not None and base and kp != ks:
        return None
    return k > ks and not (spec[3] is None and v[3] is not None and base) and not (v[5] is not None and kp == ks)


def spec_job(part, item):
    op, spec, wild = item
    t = op + text(spec) + (".*" if wild else "")
    ok = not (wild and (op not in ("==", "!=") or spec[2:] != (None,) * 4)) and not (spec[5] is not None and op not in ("==", "!=")) and not (op == "~=" and len(spec[1]) < 2)
    part.add()
    try:
        s = Specifier(t)
    except InvalidSpecifier:
        s = None
    if (s is not None) != ok:
        raise vf.Bad(f"the clause {t!r} is {'refused' if s is None else 'accepted'}", f"clause:{t}")
    if s is None:
        return
    part.seen(t)
    other = Specifier(">=1.0.dev1")
    both = SpecifierSet(f"{t}, >=1.0.dev1")
    pre_s = spec[2] is not None or spec[4] is not None
    for v in SOME:
        part.add()
        part.count("clause_decisions")
        want = clause(op, spec, wild, v)
        vt = text(v)
        got = s.contains(vt, prereleases=True)
        if want is not None and got != want:
            part.violation(f"{vt} {'satisfies' if got else 'does not satisfy'} {t}", f"satisfies:{t}:{vt}")
        if both.contains(vt, prereleases=True) != (got and other.contains(vt, prereleases=True)) or (s.contains(Version(vt), prereleases=True) != got):
            part.violation(f"{vt} in {both}: differs from its clauses", f"set:{t}:{vt}")
        is_pre = v[2] is not None or v[4] is not None
        default = got and (not is_pre or (pre_s and op in ("==", ">=", "<=", "~=")))
        if s.contains(vt) != default or s.contains(vt, prereleases=False) != (got and not is_pre):
            part.violation(f"{vt} in {t}: {s.contains(vt)} by default, should be {default}", f"pre:{t}:{vt}")


FEW = ["0", "1", "1.0", "1.0.post1", "1.1", "1.1a1", "1.1.dev0", "1.1+l", "1.2", "1.10", "2", "2.0rc1", "2.1", "1!1"]
CLAUSES = ["==1", "== 1.1", "==1.1.*", "!=1.1", "!=1.*", ">=1", ">= 1.1.dev0", "<=2.0rc1", "<=1.2", "<2", "<2.0rc1", ">1", ">1.0.post1", "~=1.1", "~=1.1.0", "===1.1", "==1.1+l"]


def set_job(part, texts):
    """A set of clauses decides as its clauses do, however it is put together."""
    singles = [Specifier(t) for t in texts]
    whole = SpecifierSet(", ".join(texts))
    joined = SpecifierSet(texts[0])
    for t in texts[1:]:
        joined &= SpecifierSet(t)
    back = SpecifierSet(",".join(reversed(texts)))
    part.add()
    part.seen(texts)
    if not (whole == joined == back == SpecifierSet(str(whole))) or not (hash(whole) == hash(joined) == hash(back)):
        part.violation(f"{whole}, {joined} and {back} are the same clauses but not equal sets", f"build:{texts}")
    allow = any(s.prereleases for s in singles)
    for flag in (None, True, False):
        use = allow if flag is None else flag
        want = [v for v in FEW if all(s.contains(v, prereleases=True) for s in singles) and (use or not Version(v).is_prerelease)]
        got = [v for v in FEW if whole.contains(v, prereleases=flag)]
        part.add(len(FEW))
        part.count("set_decisions", len(FEW))
        if got != want:
            part.violation(f"{texts} with prereleases={flag} accepts {got}, its clauses {want}", f"sets:{texts}:{flag}")
        if list(whole.filter(FEW, prereleases=flag)) != want:
            part.violation(f"{texts} with prereleases={flag} filters {list(whole.filter(FEW, prereleases=flag))}, should be {want}", f"filter:{texts}:{flag}")
        if flag is None and [v for v in FEW if v in whole] != want:
            part.violation(f"membership in {texts} differs from contains", f"in:{texts}")
    if len(texts) == 2:
        a, b = singles
        same = a.operator == b.operator and a.version == b.version
        if (a == b) != same or (a == b and hash(a) != hash(b)) or str(Specifier(str(a))) != str(a):
            part.violation(f"{a} and {b} compare {a == b}", f"eq:{texts}")


def job(part, item):
    kind, x = item
    {"pair": pair_job, "text": text_job, "spell": spell_job, "spec": spec_job, "gyp": in_gyp_job, "sets": set_job}[kind](part, x)


def main():
    global ALL, SOME
    c = vf.Check("C26", "model_checking", "every version of a bounded grammar, all ordered pairs under all six comparisons; every text of up to 5 tokens (6 thorough) and every spelling of every part against a descent parser; "
                 "every clause operator x version x version; conditions in build files", ["'===' and one corner of '>' with local versions (on which the standard and the library differ) are not judged"])
    ALL = grammar()
    rels = [(0,), (1,), (1, 0), (1, 0, 0), (1, 1), (1, 2, 3), (1, 10)]
    SOME = list(itertools.product((0,), rels, [None, ("a", 1), ("rc", 2)], (None, 1), (None, 0), (None, ("l",), (1,)))) + [(1, (1,), None, None, None, None), (1, (1, 0), ("a", 1), None, None, None)]
    step = 40
    items = [("pair", (k, k + step)) for k in range(0, len(ALL), step)] + [("text", (a, b)) for a in TOKENS for b in TOKENS] + [("spell", x) for x in spellings()] + [("gyp", (0, 0))]
    items += [("spec", (op, s, w)) for op in ("==", "!=", "<=", ">=", "<", ">", "~=") for s in SOME for w in (False, True)]
    vf.pmap(c, job, items, chunk=4)
    items += [("sets", t) for n in (1, 2, 3) + ((4,) if vf.THOROUGH else ()) for t in itertools.product(CLAUSES, repeat=n) if n < 3 or list(t) == sorted(set(t))]
    c.sample({"versions": len(ALL), "clauses": len(SOME) * 14})
    return c.finish()


vf.main(main)
