"""C03: variable expansion vs a reference interpreter, over every combination of definition
sites, and every combination of value, reference form, context and phase in the grammar."""
import copy
import itertools
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import gypdrv  # noqa: E402
import gypmodel as gm  # noqa: E402
import vf  # noqa: E402

SKIP = {"target_name", "type", "toolset", "variables", "configurations", "default_configuration"}
GLOBAL = {"OS": "linux", "PRODUCT_DIR": "$(PDIR)"}


def projected(t):
    """What a generator sees of a target: its own keys and its only configuration's."""
    d = {k: v for k, v in t.items() if k not in SKIP}
    d.update(t["configurations"]["Default"])
    return d


def judge(part, files, args, names, tag, model_doc):
    """Runs one project; every target in names is compared with the model."""
    env = dict(GLOBAL, **gm.defines(args))
    want = gm.load_file(model_doc, env)
    r = gypdrv.run(files, args=list(args) + ["a.gyp"])
    if not r.ok:
        if len(names) == 1:
            part.violation(f"{tag}: gyp failed on a valid program: {r.stderr[-300:]}\n{files['a.gyp']}", f"fail:{tag}:{names[0]}",
                           files=files, args=args)
            return
        for n in names:
            sub = copy.deepcopy(model_doc)
            sub["targets"] = [t for t in sub["targets"] if t["target_name"] == n]
            judge(part, {**files, "a.gyp": sub}, args, [n], tag, sub)
        return
    for n in names:
        got = projected(r.targets[f"a.gyp:{n}#target"])
        w = {k: v for k, v in want[n].items() if k not in SKIP}
        part.add()
        if not gm.equal(got, w):
            src = [t for t in model_doc["targets"] if t["target_name"] == n][0]
            part.violation(f"{tag} {args}: target {src} with file variables {model_doc.get('variables')}: want {gm.strify(w)}, got {got}",
                           f"value:{tag}:{list(args)}:{n}:{model_doc.get('variables')}", files=files, args=list(args), target=n, got=got, want=gm.strify(w))


def must_fail(part, doc, args, tag, name):
    r = gypdrv.run({"a.gyp": doc}, args=list(args) + ["a.gyp"])
    part.add()
    part.count("rejections")
    if r.ok:
        part.violation(f"{tag} {args}: {doc} must be rejected", f"accept:{tag}:{list(args)}:{doc!r}", doc=doc, args=list(args))
    elif name is not None and (name not in r.stderr):
        part.violation(f"{tag} {args}: {doc}: the error does not name {name!r}: {r.stderr[-300:]}", f"unnamed:{tag}:{doc!r}", doc=doc)


# ---- part A: where a variable is defined ----------------------------------------
SITES = ("file", "target", "outer", "sub", "item")


def site_target(i, opt, ctx, sym):
    """opt: site -> None | '' | '%'.  'outer' is a variables dict inside the target's variables dict."""
    ref = f"{sym}(v)"
    t = {"target_name": f"t{i}", "type": "none"}
    vs = {}
    if opt["target"] is not None:
        vs["v" + opt["target"]] = "T"
    if opt["outer"] is not None:
        vs["variables"] = {"v" + opt["outer"]: "O"}
    if ctx == "invars":
        vs["w"] = "w" + ref
        t["k"] = sym + "(w)"
    if vs:
        t["variables"] = vs
    if ctx == "key":
        t["k"] = ref
    if ctx == "list":
        t["k"] = ["a" + ref, "z"]
    sub = {"q": "q"}
    if opt["sub"] is not None:
        sub["variables"] = {"v" + opt["sub"]: "S"}
    if ctx == "sub":
        sub["k"] = ref
        sub["deep"] = {"k": ref, "l": [ref]}
    item = {"q": "q"}
    if opt["item"] is not None:
        item["variables"] = {"v" + opt["item"]: "I"}
    if ctx == "item":
        item["k"] = ref
    t["s"] = sub
    t["dl"] = [item, {"r": "r"}]
    if ctx == "after":  # siblings after a scope must not see its variables
        t["zz"] = ref
        t["dl"].append({"k": ref})
    return t


def part_sites(part, item):
    cmd, filesite, sym = item
    args = [] if cmd is None else ["-Dv=C"]
    base = {}
    if filesite is not None:
        base["variables"] = {"v" + filesite: "F"}
    good, n = [], 0
    for combo in itertools.product([None, "", "%"], repeat=4):
        opt = dict(zip(("target", "outer", "sub", "item"), combo))
        for ctx in ("key", "list", "sub", "item", "invars", "after"):
            t = site_target(n, opt, ctx, sym)
            n += 1
            doc = dict(base, targets=[t])
            part.seen(("sites", cmd, filesite, sym, combo, ctx))
            try:
                gm.load_file(doc, dict(GLOBAL, **gm.defines(args)))
                good.append(t)
            except gm.Undefined as e:
                must_fail(part, doc, args, "sites", str(e))
    if good:
        doc = dict(base, targets=good)
        part.sample({"args": args, "variables": base.get("variables"), "target": good[len(good) // 2]})
        judge(part, {"a.gyp": doc}, args, [t["target_name"] for t in good], "sites", doc)


# ---- part B: values, forms, contexts, phases ------------------------------------------
VALUES = ["a", "", "a b", "7", "-3", "0", "007", "-0", 7, -3, "1e3", "+5", '"p q" r', "x,y=z", "$(V)", "a;b", "1\u00b2", "\u0663",
          ["x"], [], ["x", "y"], ["p q", "r"], ["a'b"], ['a"b', "$x"], ["", "z"], ["a\\b"], ["-a", "-a"], [7, "8", "z"], ["x", "x"]]


def forms(sym, name):
    yield f"{sym}({name})"
    yield f"{sym}@({name})"
    yield f"pre{sym}({name})post"
    yield f"{sym}({name}){sym}({name})"
    yield f"{sym}( {name} )"
    yield f"-I{sym}@({name})"
    yield f"{sym}({sym}(n{name}))"
    yield f"{sym}@({sym}(n{name}))"
    yield f"{sym}({name})/{sym}(other)"
    yield f"1{sym}({name})"


def part_forms(part, item):
    val, sym, sym2 = item
    good, i = [], 0
    cands = []
    for f in forms(sym, "v"):
        for ctx in ("key", "list", "nested", "itemdict", "auto", "target_defaults"):
            cands.append(("direct", ctx, f, None))
    for f in forms(sym, "v"):
        for g in forms(sym2, "u"):
            for ctx in ("key", "list"):
                for ulist in (False, True):
                    cands.append(("chain", ctx, f, (g, ulist)))
    for mode, ctx, f, chain in cands:
        vs = {"v": val, "nv": "v", "nu": "u", "other": "oo"}
        use = f
        if chain:
            g, ulist = chain
            vs["u"] = ["z", f] if ulist else f
            use = g
        t = {"target_name": f"t{i}", "type": "none", "variables": vs}
        i += 1
        if ctx == "key":
            t["k"] = use
        elif ctx == "list":
            t["k"] = ["first", use, "last"]
        elif ctx == "nested":
            t["k"] = [["first", use], "last"]
        elif ctx == "itemdict":
            t["k"] = [{"a": ["q", use]}, {"b": {"c": [use]}}]
        elif ctx == "auto":
            del vs["v"]
            t["v_auto"] = val
            t["k"] = {"l": [use.replace("(v)", "(_v_auto)").replace("( v )", "(_v_auto)")]}
            vs["nv"] = "_v_auto"
        elif ctx == "target_defaults":
            t["k"] = {"deeper": [use], "s": "plain"}
        doc = {"targets": [t]}
        part.seen(("forms", repr(val), sym, sym2, mode, ctx, f, repr(chain)))
        try:
            gm.load_file(doc, GLOBAL)
            good.append(t)
        except gm.Undefined as e:
            if i % 5 == 0 or vf.THOROUGH:
                must_fail(part, doc, [], "forms", str(e))
        except gm.BadProgram:
            if i % 5 == 0 or vf.THOROUGH:
                must_fail(part, doc, [], "forms", None)
        except gm.ModelGap:
            part.count("outside_model")
    if good:
        doc = {"targets": good}
        part.sample({"value": val, "target": good[len(good) // 3]})
        judge(part, {"a.gyp": doc}, [], [t["target_name"] for t in good], "forms", doc)


# ---- part C: reading a variable never changes its definition ---------------------------
def part_pure(part, item):
    """A list variable holding a reference is read in scopes that define the inner variable differently."""
    order, sym, where = item
    pieces = {
        "s1": {"variables": {"x": "1"}, "k": [f"{sym}@(lst)", "e"], "j": f"{sym}(lst)"},
        "s2": {"variables": {"x": "2"}, "k": [f"{sym}@(lst)", "e"], "j": f"{sym}(lst)"},
        "own": [f"{sym}@(lst)"],
    }
    t = {"target_name": "t", "type": "none", "variables": {"x": "0", "lst": [f"{sym}(x)", "c"]}}
    if where == "auto":
        t = {"target_name": "t", "type": "none", "variables": {"x": "0"}}
        pieces["lst"] = [f"{sym}(x)", "c"]
        for s in ("s1", "s2"):
            pieces[s]["k"] = ["e"]
            pieces[s]["j"] = f"{sym}(_lst)"
        pieces["own"] = ["z"]
        order = [o for o in order] + ["lst"]
    for k in order:
        t[k] = pieces[k]
    r = gypdrv.run({"a.gyp": {"targets": [t]}})
    part.add()
    part.seen(("pure", tuple(order), sym, where))
    if not r.ok:
        part.violation(f"pure {t}: {r.stderr[-300:]}", f"pure-fail:{order}:{sym}:{where}")
        return
    got = projected(r.targets["a.gyp:t#target"])
    if where == "auto":
        if got["lst"] != ["0", "c"]:
            part.violation(f"{t}: the list holding {sym}(x) in a scope where x is 0 became {got['lst']}: reading it elsewhere changed it",
                           f"pure:{order}:{sym}", got=got)
    elif got["own"] != ["0", "c"] or got["s1"]["k"] != ["0", "c", "e"] or got["s2"]["k"] != ["0", "c", "e"]:
        part.violation(f"{t}: list variable read as {got}", f"pure:{order}:{sym}:{where}", got=got)


# ---- part D: command-line definitions ----------------------------------------------------
def part_cmd(part, item):
    raw, pct = item
    doc = {"variables": {("v%" if pct else "v"): "dflt"}, "targets": [{"target_name": "t", "type": "none", "k": "<(v)", "l": ["<@(v)"]}]}
    if pct is None:
        del doc["variables"]
    args = ["-Dv=" + raw]
    env = {"v": gm.as_int(raw)}
    part.seen(("cmd", raw, pct))
    try:
        want = gm.load_file(doc, dict(GLOBAL, **env))["t"]
    except gm.BadProgram:
        must_fail(part, doc, args, "cmd", None)
        return
    r = gypdrv.run({"a.gyp": doc}, args=args + ["a.gyp"])
    part.add()
    if not r.ok:
        part.violation(f"-Dv={raw}: {r.stderr[-300:]}", f"cmd:{raw}:{pct}")
        return
    got = projected(r.targets["a.gyp:t#target"])
    w = {k: v for k, v in want.items() if k not in SKIP}
    if not gm.equal(got, w):
        part.violation(f"-Dv={raw} with {doc.get('variables')}: want {gm.strify(w)}, got {got}", f"cmd:{raw}:{pct}")


def run():
    ck = vf.Check("C03", "exploration",
                  "a case is one program of the grammar (definition sites x context x phase, or value x form x chain x context x phase); "
                  "every case contains at least one reference, distinct by its text")
    vf.pmap(ck, part_sites, [(c, f, s) for s in "<>^" for c in (None, "C") for f in (None, "", "%")], chunk=1)
    syms = [("<", "<"), (">", ">"), ("^", "^"), ("<", ">"), (">", "^"), ("<", "^"), (">", "<"), ("^", "<")]
    vf.pmap(ck, part_forms, [(v, a, b) for v in VALUES for a, b in syms], chunk=1)
    vf.pmap(ck, part_pure, [(list(o), s, w) for o in itertools.permutations(["s1", "s2", "own"]) for s in "<>^" for w in ("vars", "auto")])
    vf.pmap(ck, part_cmd, [(r, p) for r in ("a", "", "a b", "7", "-3", "007", "a=b", "=", '"p q"', "'x", "0", "1 2") for p in (None, True, False)])
    return ck.finish()


if __name__ == "__main__":
    vf.main(run)
