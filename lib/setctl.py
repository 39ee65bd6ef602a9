"""Puts every iteration order of a set under the control of the explorer.

The real gyp modules are loaded from the working tree with set displays, set comprehensions and the names set/frozenset
redirected (in the syntax tree, in memory) to subclasses whose iteration order is decided by `plan`. Everything else is
the code as it is on disk. An iteration event is one walk over a set of two or more elements."""
import ast
import importlib.abc
import importlib.machinery
import itertools
import os
import sys

events = []      # (site, size, elements) in the order they happened
plan = {}        # event number -> permutation (tuple of indices), or site -> permutation name
default = "up"   # up, down, rot
_ids, _keep = {}, []


def _key(x):
    if isinstance(x, (str, int, bytes)):
        return (0, type(x).__name__, x)
    if isinstance(x, tuple):
        return (1, "tuple", repr(x))
    for a in ("ref", "name", "target"):  # graph nodes and the like, named by what they stand for
        v = getattr(x, a, None)
        if isinstance(v, str):
            return (2, a, v)
    if id(x) not in _ids:
        _ids[id(x)] = len(_ids)
        _keep.append(x)
    return (3, "", "%09d" % _ids[id(x)])


def _order(items):
    items = sorted(items, key=_key)
    n = len(items)
    if n < 2:
        return items
    f = sys._getframe(2)
    while os.path.basename(f.f_code.co_filename) == "setctl.py":
        f = f.f_back
    k = len(events)
    events.append(("%s:%d" % (os.path.basename(f.f_code.co_filename), f.f_lineno), n, repr([_key(x) for x in items])))
    p = plan.get(k)
    if p is not None and len(p) == n:
        return [items[i] for i in p]
    if default == "down":
        items.reverse()
    elif default == "rot":
        items = items[1:] + items[:1]
    return items


def _ops(cls, base):
    def binary(name):
        op = getattr(base, name)

        def f(self, *a):
            r = op(self, *a)
            return r if r is NotImplemented else cls(r)
        f.__name__ = name
        return f
    for name in ("__or__", "__and__", "__sub__", "__xor__", "__ror__", "__rand__", "__rsub__", "__rxor__",
                 "union", "intersection", "difference", "symmetric_difference", "copy"):
        setattr(cls, name, binary(name))
    cls.__iter__ = lambda self: iter(_order(list(base.__iter__(self))))
    cls.__reduce__ = lambda self: (cls, (list(base.__iter__(self)),))
    cls.__repr__ = lambda self: "{" + ", ".join(map(repr, self)) + "}"
    cls.__str__ = cls.__repr__
    return cls


class OrderSet(set):
    def pop(self):
        for x in self:
            set.remove(self, x)
            return x
        raise KeyError("pop from an empty set")


class OrderFrozen(frozenset):
    pass


_ops(OrderSet, set)
_ops(OrderFrozen, frozenset)


class _Rewrite(ast.NodeTransformer):
    def visit_Set(self, n):
        self.generic_visit(n)
        return ast.copy_location(ast.Call(ast.Name("vf_Set", ast.Load()), [ast.List(n.elts, ast.Load())], []), n)

    def visit_SetComp(self, n):
        self.generic_visit(n)
        return ast.copy_location(ast.Call(ast.Name("vf_Set", ast.Load()), [ast.ListComp(n.elt, n.generators)], []), n)

    def visit_Name(self, n):
        if isinstance(n.ctx, ast.Load) and n.id in ("set", "frozenset"):
            return ast.copy_location(ast.Name("vf_" + n.id.capitalize(), ast.Load()), n)
        return n


class _Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        tree = ast.fix_missing_locations(_Rewrite().visit(ast.parse(self.get_data(path), path)))
        return compile(tree, path, "exec")

    def exec_module(self, module):
        module.__dict__["vf_Set"] = OrderSet
        module.__dict__["vf_Frozenset"] = OrderFrozen
        super().exec_module(module)


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name != "gyp" and not name.startswith("gyp."):
            return None
        spec = importlib.machinery.PathFinder.find_spec(name, path, target)
        if spec and spec.origin and spec.origin.endswith(".py"):
            spec.loader = _Loader(spec.loader.name, spec.origin)
        return spec


def install():
    assert not any(m == "gyp" or m.startswith("gyp.") for m in sys.modules)
    import copyreg  # noqa: F401  (deepcopy of the subclasses goes through __reduce__)
    sys.meta_path.insert(0, _Finder())


def reset(mode="up", moves=()):
    global default
    default = mode
    events.clear()
    plan.clear()
    plan.update(dict(moves))
    _ids.clear()
    _keep.clear()


def permutations(n, full=4, swaps=True):
    """Every order of n elements up to `full`; beyond that: reversal, rotations and every swap of two elements
    (without swaps: reversal, one rotation and the swaps of neighbours)."""
    ident = tuple(range(n))
    if n <= full:
        return [p for p in itertools.permutations(ident) if p != ident]
    out = {ident[::-1]}
    for k in range(1, n if swaps else 2):
        out.add(ident[k:] + ident[:k])
    for i, j in itertools.combinations(ident, 2):
        if j > i + 1 and not swaps:
            continue
        p = list(ident)
        p[i], p[j] = p[j], p[i]
        out.add(tuple(p))
    return sorted(out)
