"""C04: conditionals vs the reference interpreter."""
import copy
import itertools
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import gypdrv  # noqa: E402
import gypmodel as gm  # noqa: E402
import vf  # noqa: E402

SKIP = {"target_name", "type", "toolset", "variables", "configurations", "default_configuration"}
GLOBAL = {"OS": "linux"}


def _ver(s):
    return tuple(int(x) for x in str(s).split("."))


def truth(expr, phase, env):
    return gm.py_truth(expr, phase, dict(env, v=_ver))


def projected(t):
    d = {k: v for k, v in t.items() if k not in SKIP}
    d.update(t["configurations"]["Default"])
    return d


def split(part, tag, doc, args=()):
    """Judges all targets of doc in one run when the model accepts it, bisecting on failure."""
    env = dict(GLOBAL, **gm.defines(args))
    good = []
    for t in doc["targets"]:
        one = dict(doc, targets=[t])
        part.seen((tag, tuple(args), repr({k: v for k, v in t.items() if k != "target_name"}), repr(doc.get("variables")), repr(doc.get("conditions"))))
        try:
            good.append((t, gm.load_file(one, env, truth)[t["target_name"]]))
        except (gm.Undefined, gm.BadProgram) as e:
            r = gypdrv.run({"a.gyp": one}, args=list(args) + ["a.gyp"])
            part.add()
            part.count("rejections")
            if r.ok:
                part.violation(f"{tag}: {one} must be rejected ({e!r})", f"accept:{tag}:{one!r}", doc=one)
        except gm.ModelGap:
            part.count("outside_model")
    compare(part, tag, doc, args, good)


def compare(part, tag, doc, args, good):
    if not good:
        return
    d = dict(doc, targets=[g[0] for g in good])
    r = gypdrv.run({"a.gyp": d}, args=list(args) + ["a.gyp"])
    if not r.ok:
        if len(good) == 1:
            part.violation(f"{tag}: gyp failed on {d}: {r.stderr[-300:]}", f"fail:{tag}:{d!r}", doc=d)
        else:
            compare(part, tag, doc, args, good[:len(good) // 2])
            compare(part, tag, doc, args, good[len(good) // 2:])
        return
    for t, want in good:
        part.add()
        got = projected(r.targets[f"a.gyp:{t['target_name']}#target"])
        w = {k: v for k, v in want.items() if k not in SKIP}
        if not gm.equal(got, w):
            part.violation(f"{tag} {list(args)}: {t} (file level {[(k, doc[k]) for k in doc if k != 'targets']}): want {gm.strify(w)}, got {got}",
                           f"value:{tag}:{t!r}:{list(args)}", doc=d, got=got, want=gm.strify(w))
    part.sample({"case": tag, "target": good[len(good) // 2][0], "result": gm.strify(good[len(good) // 2][1])}, 1)


def mark(n, extra=None):
    d = {"m": [n], "last": n}
    if extra:
        d.update(extra)
    return d


def lists(nmax):
    """Every conditional list shape: n (expression, branch) pairs and an optional default."""
    exprs = ["p==1", "q==1", "p==1 and q==0", "p==q"]
    for n in range(1, nmax + 1):
        for ex in itertools.product(exprs, repeat=n):
            for default in (False, True):
                slots = n + default
                for empty in itertools.chain.from_iterable(itertools.combinations(range(slots), k) for k in range(0, (slots if n < 3 else 1) + 1)):
                    c = []
                    for i, e in enumerate(ex):
                        c += [e, {} if i in empty else mark(f"b{i}")]
                    if default:
                        c.append({} if n in empty else mark("else"))
                    yield c


def place(level, clauses, i, key):
    """A target holding the conditional lists at the given level."""
    t = {"target_name": f"t{i}", "type": "none", "m": ["own"], "last": "own"}
    if level == "target":
        t[key] = clauses
    elif level == "sub":
        t["s"] = {"m": ["in"], key: clauses, "d": {"x": "y"}}
    elif level == "item":
        t["l"] = [{"m": ["in"], key: clauses}, "z"]
    elif level == "nested":
        t[key] = [["1==1", {"w": "x", key: clauses}]]
    elif level == "nested-false":
        t[key] = [["1==0", {"w": "x", key: clauses}, {"s": {key: clauses}}]]
    elif level == "variables":
        t["variables"] = {"m": ["v"], key: clauses}
        sym = "<" if key == "conditions" else ">"
        t["got"] = [f"{sym}@(m)"]
        t["got2"] = {"k": [f"{sym}@(m)"]}
    return t


def structure(part, item):
    p, q, level, key, pv = item
    args = [f"-Dp={p}", f"-Dq={q}"] if pv == "cmd" else []
    doc = {}
    ts = []
    for i, c in enumerate(lists(3 if level in ("target", "sub") or vf.THOROUGH else 2)):
        ts.append(place(level, [copy.deepcopy(c)], i, key))
    for i, (a, b) in enumerate(itertools.product(list(lists(1)), repeat=2)):
        ts.append(place(level, [copy.deepcopy(a), copy.deepcopy(b)], 10000 + i, key))
    if pv != "cmd":
        for t in ts:
            vs = t.setdefault("variables", {})
            vs["p"], vs["q"] = (p, q) if pv == "int" else (str(p), str(q))
    if level == "variables" and pv != "cmd":
        doc["variables"] = {"p": p, "q": q}
        if key == "target_conditions":
            return  # file variables are not in scope in the late phase
    for k in range(0, len(ts), 200):
        split(part, f"{level}/{key}/{pv} p={p} q={q}", dict(doc, targets=ts[k:k + 200]), args)


# ---- what a condition can see ----------------------------------------------------------
def scope_cases():
    def T(**kw):
        return dict({"target_name": "t", "type": "static_library"}, **kw)

    for key in ("conditions", "target_conditions"):
        s = "<" if key == "conditions" else ">"
        yield {"targets": [T(**{key: [["_type=='static_library'", mark("lib"), mark("other")]]})]}
        yield {"targets": [dict(T(**{key: [["_type=='executable'", mark("exe"), mark("other")]]}), variables={"ty": "executable"}, type=f"{s}(ty)")]
               if s == "<" else [T(**{key: [["_type=='executable'", mark("exe"), mark("other")]]})]}
        yield {"targets": [T(k=f"{s}(z)", variables={"z": "zz"}, **{key: [["_k=='zz'", mark("y"), mark("n")]]})]}
        yield {"targets": [T(k=["a", "b"], **{key: [["'a' in _k", mark("y"), mark("n")], ["'c' in _k", mark("y2"), mark("n2")]]})]}
        # an earlier condition's merge is seen by a later list only as automatic/variable of subdicts
        yield {"targets": [T(k="0", **{key: [["_k==0", {"k": "1"}], ["_k==1", mark("second"), mark("second-else")]]})]}
        yield {"targets": [T(s={key: [["x==2", mark("y"), mark("n")]]}, variables={"x": "1"}, **{key: [["x==1", {"variables": {"x": "2"}}]]})]}
        yield {"targets": [T(variables={"x": "1", key: [["x==1", {"y": "Y"}, {"y": "N"}]]}, k=[f"{s}(y)"])] }
        yield {"targets": [T(variables={"variables": {"x": "1"}, key: [["x==1", {"y": "Y"}, {"y": "N"}]]}, k=f"{s}(y)")]}
        yield {"targets": [T(variables={"x": "1"}, **{key: [[f"{s}(x)==1", mark("y"), mark("n")], [f"'{s}(x)'=='1'", mark("y2"), mark("n2")]]})]}
        for x in ("0", "1", 0, 1, "00", "-1"):
            yield {"targets": [T(variables={"x": x}, **{key: [[f"{s}(x)", mark("y"), mark("n")]]})]} if x != "00" else {"targets": [T()]}
            yield {"targets": [T(variables={"x": x}, **{key: [["x==1", mark("int"), mark("notint")], ["x=='1'", mark("str"), mark("notstr")]]})]}
        yield {"targets": [T(**{key: [["OS=='linux'", mark("linux")], ["OS=='mac'", mark("mac")], ["OS in ['linux','x']", mark("in")]]})]}
        yield {"targets": [T(**{key: [["v('1.10') > v('1.9')", mark("y"), mark("n")], ["v('1.9') > v('1.10')", mark("y2"), mark("n2")]]})]}
        yield {"targets": [T(variables={"s": "abc"}, **{key: [["'b' in s", mark("y"), mark("n")], ["s[0]=='a'", mark("y2")], ["not s", mark("y3"), mark("n3")]]})]}
        yield {"targets": [T(variables={"l": ["a", "7"]}, **{key: [["7 in l", mark("y"), mark("n")], ["'7' in l", mark("y2"), mark("n2")]]})]}
        # nothing of the branches not taken is looked at
        yield {"targets": [T(**{key: [["1==0", {"k": f"{s}(undefined_name)"}, mark("n")], ["1==1", mark("y"), {"k": f"{s}(undefined_name)"}]]})]}
        yield {"targets": [T(**{key: [["1==1", mark("y"), "undefined_name==1", mark("z")]]})]}
        yield {"targets": [T(**{key: [["1==0", mark("y"), "undefined_name==1", mark("z")]]})]}
        yield {"targets": [T(**{key: [["undefined_name==1", mark("z")]]})]}
        # the conditional merges under the same key twice, with nested ones and empty branches
        yield {"targets": [T(k=["a"], **{key: [["1==1", {"k": ["a", "b"]}], ["1==1", {}], ["1==1", {"k": ["-x", "-x"]}]]})]}
        yield {"targets": [T(**{key: []})]}
    # file-level conditionals
    for p in (0, 1):
        yield {"variables": {"p": p}, "conditions": [["p==1", {"target_defaults": {"m": ["td"]}}, {"target_defaults": {"m": ["te"]}}]], "targets": [T(m=["own"])]}
        yield {"variables": {"p%": p}, "conditions": [["p==1", {"variables": {"z": "1"}}, {"variables": {"z": "2"}}]], "targets": [T(k="<(z)")]}
        yield {"variables": {"p%": p}, "targets": [T(conditions=[["p==1", mark("y"), mark("n")]], target_conditions=[["1==1", mark("late")]])]}
        yield {"variables": {"p%": p}, "target_defaults": {"conditions": [["p==1", mark("dy"), mark("dn")]], "m": ["d"]}, "targets": [T(m=["own"], conditions=[["p==1", mark("ty"), mark("tn")]])]}
        yield {"target_defaults": {"target_conditions": [["_type=='static_library'", mark("dlib"), mark("dn")]], "m": ["d"]},
               "targets": [T(m=["own"], target_conditions=[["_name==1", mark("n1"), mark("n2")]], name=p)]}
        yield {"variables": {"p%": p}, "targets": [T(target_conditions=[["1==1", {"conditions": [["p==1", mark("y"), mark("n")]], "w": "<(p)"}]])]}
        yield {"variables": {"p%": p}, "targets": [T(conditions=[["p==1", {"target_conditions": [["_late==1", mark("y"), mark("n")]]}]], late=p)]}


def scopes(part, docs):
    for doc in docs:
        for args in ((), ("-Dp=1",), ("-Dx=1",)):
            if args == ("-Dx=1",) and "x" not in repr(doc):
                continue
            split(part, "scope", doc, args)


# ---- target conditionals see merged settings -----------------------------------------------
def merged_view(part, item):
    channel, val = item
    base = {"target_name": "a", "type": "executable", "k": ["own"], "dependencies": ["b"],
            "target_conditions": [["'given' in _k", mark("y"), mark("n")], ["_flag==1", mark("f1"), mark("f0")]], "flag": 0,
            "conditions": [["'given' in _k", mark("early-y"), mark("early-n")]]}
    b = {"target_name": "b", "type": "static_library"}
    give = {"k": [val], "flag": 1} if val == "given" else {"k": [val]}
    doc = {"targets": [base, b]}
    if channel == "target_defaults":
        base.pop("flag")
        doc["target_defaults"] = {"k": [val], "flag": give.get("flag", 0)}
    elif channel == "none":
        base["k"].append(val)
        base["flag"] = give.get("flag", 0)
    else:
        b[channel] = give
    r = gypdrv.run({"a.gyp": doc})
    part.add()
    part.seen(("merged", channel, val))
    y = val == "given"
    want = {"m": ["early-y" if y and channel == "none" else "early-n", "y" if y else "n", "f1" if y else "f0"]}
    got = r.ok and r.targets["a.gyp:a#target"]["configurations"]["Default"].get("m")
    if got != want["m"]:
        part.violation(f"target_conditions with {val!r} arriving through {channel}: want {want['m']}, got {got} {r.stderr[-200:]}", f"merged:{channel}:{val}")


MALFORMED = [
    "x", {"a": {}}, 7, [["1==1"]], [[]], ["1==1", {}], [["1==1", "x"]], [["1==1", {}, {}, {}]], [["1==1", {}, {}, "2==2", {}]],
    [["1==1", {}, "2==2"]], [["1==1", {}, "2==2", {}, {}, {}]], [["1==1", ["x"]]], [["1=1", {}]], [["==", {}]], [["nosuch", {}]],
    [["f(", {}]], [["__import__('os')", {}]], [["open('x')", {}]], [["", {}]], [["1==0", {}, "1=1", {}]], [["1==0", "x"]], [["1==0", {}, "x"]],
    [["<@(l)", {}]],
]


def malformed(part, item):
    i, key, level = item
    c = copy.deepcopy(MALFORMED[i])
    t = {"target_name": "t", "type": "none", "variables": {"l": ["a", "b"]}}
    if key == "target_conditions" and isinstance(c, list) and c == [["<@(l)", {}]]:
        c = [[">@(l)", {}]]
    if level == "target":
        t[key] = c
    elif level == "sub":
        t["s"] = {key: c}
    else:
        t[key] = [["1==1", {key: c}]]
    doc = {"targets": [t]}
    r = gypdrv.run({"a.gyp": doc})
    part.add()
    part.seen(("malformed", i, key, level))
    part.count("rejections")
    if r.ok or r.status in ("hang", "died"):
        part.violation(f"malformed {key} {c!r} at {level} must be rejected, status {r.status}", f"malformed:{key}:{level}:{c!r}", doc=doc)


def run():
    ck = vf.Check("C04", "exploration",
                  "a case is one target with conditional lists under one assignment of the variables they test; distinct by text and assignment")
    work = [(p, q, lv, key, pv) for key in ("conditions", "target_conditions")
            for lv in ("target", "sub", "item", "nested", "nested-false", "variables")
            for p in (0, 1) for q in (0, 1)
            for pv in (("int", "str", "cmd") if lv in ("target",) or vf.THOROUGH else ("cmd",))]
    vf.pmap(ck, structure, work, chunk=1)
    docs = list(scope_cases())
    vf.pmap(ck, scopes, [docs[i:i + 4] for i in range(0, len(docs), 4)], chunk=1)
    vf.pmap(ck, merged_view, [(c, v) for c in ("direct_dependent_settings", "all_dependent_settings", "link_settings", "target_defaults", "none") for v in ("given", "no")])
    vf.pmap(ck, malformed, [(i, k, lv) for i in range(len(MALFORMED)) for k in ("conditions", "target_conditions") for lv in ("target", "sub", "nested")])
    return ck.finish()


if __name__ == "__main__":
    vf.main(run)
