"""The mapping classes of collections.abc, as the standard library writes them.

The text is taken from the installed standard library on every run and loaded with
the same transformation as the repository, so that what SortedIntervalDict inherits
is verified and not assumed."""
import _collections_abc
import ast
import inspect
import types

from . import rt

TAKEN = ("Mapping", "MappingView", "KeysView", "ItemsView", "ValuesView", "MutableMapping")


def source():
    tree = ast.parse(inspect.getsource(_collections_abc))
    tree.body = [n for n in tree.body if isinstance(n, ast.ClassDef) and n.name in TAKEN]
    return ast.unparse(tree)


def load(world, transform):
    m = types.ModuleType("collections.abc")
    d = m.__dict__
    for k, v in vars(_collections_abc).items():
        if not k.startswith("__") and k not in TAKEN:
            d[k] = v
    d["__builtins__"], d["_pv"] = world.builtins, world.rt
    exec(transform(source(), "<collections.abc>"), d)
    for c in (m.Mapping, m.MutableMapping):
        c.register(rt.VDict)
        c.register(dict)
    for k in TAKEN:
        world.rt.register_class(d[k])
    for k, v in vars(_collections_abc).items():
        if k not in d and not k.startswith("__"):
            d[k] = v
    return m
