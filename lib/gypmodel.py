"""Reference interpreter of gyp's variable and conditional language, written over plain
data with a recursive-descent scanner instead of regular expressions.  Only the parts of
the language the checks' grammars use are defined; anything else raises ModelGap."""
import copy
import shlex

SYM = {"early": "<", "late": ">", "latelate": "^"}


class Undefined(Exception):
    pass


class BadProgram(Exception):
    pass


class ModelGap(Exception):
    pass


def canon_int(s):
    if not isinstance(s, str) or not s:
        return False
    try:
        return s.isascii() and str(int(s)) == s
    except ValueError:
        return False


def find_refs(s, sym):
    """[(start, end, at, content)] of top-level references in s."""
    out, i = [], 0
    while i < len(s):
        if s[i] == sym:
            j = i + 1
            at = False
            if s[j:j + 1] == "@":
                at, j = True, j + 1
            if s[j:j + 1] == "(":
                depth, k = 0, j
                while k < len(s):
                    if s[k] == "(":
                        depth += 1
                    elif s[k] == ")":
                        depth -= 1
                        if depth == 0:
                            break
                    k += 1
                if depth != 0:
                    raise ModelGap(s)
                out.append((i, k + 1, at, s[j + 1:k]))
                i = k + 1
                continue
        i += 1
    return out


def shell_join(items):
    """A string a POSIX shell splits back into items; which quoting is chosen is free."""
    if any(sym in str(x) for x in items for sym in ("<(", "<@(", ">(", ">@(", "^(", "^@(")):
        raise ModelGap("joining a list that still holds a later-phase reference")
    if any(isinstance(x, Q) and shlex.quote(x) != x for x in items):
        raise ModelGap("quoting a string whose own quoting is free")
    return " ".join(shlex.quote(str(x)) for x in items)


class Q(str):
    """A string built by joining a list: compared by what a shell makes of it."""


def equal(got, want):
    if isinstance(want, dict):
        return isinstance(got, dict) and list(got) is not None and set(got) == set(want) and all(equal(got[k], want[k]) for k in want)
    if isinstance(want, list):
        return isinstance(got, list) and len(got) == len(want) and all(equal(g, w) for g, w in zip(got, want))
    if isinstance(want, Q):
        try:
            return isinstance(got, str) and (got == want or shlex.split(got) == shlex.split(want))
        except ValueError:
            return False
    return isinstance(got, str) and got == str(want)


def expand(s, phase, env, depth=0):
    """Expands a string; returns a str, int or (for a whole-string @ reference) list."""
    if depth > 30:
        raise ModelGap("recursion")
    if isinstance(s, int):
        return s
    if canon_int(s):
        return int(s)
    refs = find_refs(s, SYM[phase])
    if not refs:
        return s
    q = isinstance(s, Q)
    out, pos = "", 0
    for start, end, at, content in refs:
        name = str(expand(content, phase, env, depth + 1)).strip()
        if name not in env:
            raise Undefined(name)
        val = env[name]
        if isinstance(val, dict):
            raise BadProgram("dict variable")
        if isinstance(val, list):
            items = []
            for x in val:
                if isinstance(x, (dict, list)):
                    raise BadProgram("nested list variable")
                e = expand(x, phase, env, depth + 1)
                items.extend(e if isinstance(e, list) else [e])
            val = items
        if at and start == 0 and end == len(s):
            if not isinstance(val, list):
                try:
                    val = shlex.split(str(val))
                except ValueError:
                    raise BadProgram("unbalanced quotes")
            res = []
            for x in val:
                e = expand(x, phase, env, depth + 1)
                res.append(e)
            return [int(x) if canon_int(x) else x for x in res]
        if isinstance(val, list):
            val = shell_join(val)
            q = True
        elif isinstance(val, Q):
            q = True
        out += s[pos:start] + str(val)
        pos = end
    out += s[pos:]
    if q:
        out = Q(out)
    if out == s:
        return int(out) if canon_int(out) else out
    return expand(out, phase, env, depth + 1)


def autos(env, d):
    for k, v in d.items():
        if isinstance(v, (str, int, list)):
            env["_" + k] = v


def load_vars(env, d, dkey):
    for k, v in d.get("variables", {}).items():
        if not isinstance(v, (str, int, list)):
            continue
        if k.endswith("%"):
            name = k[:-1]
            if name in env:
                continue
            if dkey == "variables" and name in d:
                v = d[name]
        else:
            name = k
        env[name] = v


def merge(dst, src):
    """The subset of merging the conditional grammar needs: scalars, dicts, appended lists."""
    for k, v in src.items():
        if k[-1:] in "=+?" and k != "variables" and isinstance(v, list):
            raise ModelGap(k)
        if isinstance(v, dict):
            if k in dst and not isinstance(dst[k], dict):
                raise BadProgram("kind")
            merge(dst.setdefault(k, {}), v)
        elif isinstance(v, list):
            if k in dst and not isinstance(dst[k], list):
                raise BadProgram("kind")
            have = dst.setdefault(k, [])
            for x in copy.deepcopy(v):
                if isinstance(x, (dict, list)) or (isinstance(x, str) and x.startswith("-")) or \
                        not any(type(x) is type(h) and x == h for h in have):
                    have.append(x)
        else:
            if k in dst and isinstance(dst[k], (dict, list)):
                raise BadProgram("kind")
            dst[k] = v


COND = {"early": "conditions", "late": "target_conditions"}


def select(clause, phase, env, truth):
    """The branch a conditional list selects, or None.  truth(expr, env) decides one expression."""
    if not isinstance(clause, list) or len(clause) < 2:
        raise BadProgram("condition shape")
    i, chosen, done = 0, None, False
    while i < len(clause):
        if i + 1 >= len(clause):
            raise BadProgram("dangling expression")
        expr, then = clause[i], clause[i + 1]
        if not isinstance(then, dict):
            raise BadProgram("no dictionary")
        i += 2
        other = None
        if i < len(clause) and isinstance(clause[i], dict):
            other = clause[i]
            i += 1
            if i != len(clause):
                raise BadProgram("trailing")
        if not done:
            if truth(expr, phase, env):
                chosen, done = then, True
            elif other is not None:
                chosen, done = other, True
    return chosen


def py_truth(expr, phase, env):
    e = expand(expr, phase, env)
    if isinstance(e, list):
        raise BadProgram("list condition")
    names = {k: v for k, v in env.items()}
    try:
        return bool(eval(str(e), {"__builtins__": {}}, names))
    except NameError:
        raise Undefined(str(e))
    except SyntaxError:
        raise BadProgram("syntax")


def walk_dict(d, phase, env_in, dkey=None, truth=py_truth):
    env = dict(env_in)
    autos(env, d)
    if "variables" in d:
        for k, v in d["variables"].items():
            env[k] = v
        walk_dict(d["variables"], phase, env, "variables", truth)
    load_vars(env, d, dkey)
    for k in list(d):
        if k != "variables" and isinstance(d[k], str):
            e = expand(d[k], phase, env)
            if isinstance(e, list):
                raise BadProgram("list in string context")
            d[k] = e
    env = dict(env_in)
    autos(env, d)
    load_vars(env, d, dkey)
    key = COND.get(phase)
    if key and key in d:
        clauses = d.pop(key)
        for c in clauses:
            branch = select(c, phase, env, truth)
            if branch is not None:
                branch = copy.deepcopy(branch)
                walk_dict(branch, phase, env, None, truth)
                merge(d, branch)
    env = dict(env_in)
    autos(env, d)
    load_vars(env, d, dkey)
    for k in list(d):
        if k == "variables":
            continue
        if isinstance(d[k], dict):
            walk_dict(d[k], phase, env, k, truth)
        elif isinstance(d[k], list):
            d[k] = walk_list(d[k], phase, env, truth)


def walk_list(lst, phase, env, truth=py_truth):
    out = []
    for x in lst:
        if isinstance(x, dict):
            walk_dict(x, phase, env, None, truth)
            out.append(x)
        elif isinstance(x, list):
            out.append(walk_list(x, phase, env, truth))
        elif isinstance(x, str):
            e = expand(x, phase, env)
            out.extend(e if isinstance(e, list) else [e])
        else:
            out.append(x)
    return out


def as_int(v):
    """-D values are integers whenever they can be."""
    try:
        return int(v)
    except ValueError:
        return v


def defines(args):
    """Variables set by -D NAME=VALUE."""
    env = {}
    for a in args:
        if a.startswith("-D"):
            n, eq, v = a[2:].partition("=")
            env[n] = as_int(v) if eq else True
    return env


def load_file(doc, env, truth=py_truth):
    """One build file through the early phase, then each target through late and latelate."""
    doc = copy.deepcopy(doc)
    walk_dict(doc, "early", env, None, truth)
    out = {}
    for t in doc["targets"]:
        if "target_defaults" in doc:
            base = copy.deepcopy(doc["target_defaults"])
            merge(base, t)
            t = base
        t.setdefault("toolset", "target")
        walk_dict(t, "late", env, None, truth)
        walk_dict(t, "latelate", env, None, truth)
        out[t["target_name"]] = t
    return out


def strify(v):
    if isinstance(v, dict):
        return {k: strify(x) for k, x in v.items()}
    if isinstance(v, list):
        return [strify(x) for x in v]
    return v if isinstance(v, Q) else str(v)
