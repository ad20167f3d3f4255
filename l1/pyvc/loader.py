"""Loads the real source of /repo for symbolic execution.

The text that runs is the text of the working tree, parsed on every run.  The
transformation is mechanical:
  - annotations of functions are removed (they have no effect at run time),
  - list, dict and set displays build the verifier's containers,
  - a `for` over, and a comprehension over, a symbolic sequence is handed to the
    verifier as an (iterable, body) pair; over a concrete one it runs as written,
  - a generator function collects what it yields (laziness is dropped),
  - third-party modules are replaced by contracts (stubs.py)."""
import ast
import builtins
import os
import sys
import types

from . import core
from .core import Unsupported

DROPPED = ["function annotations", "docstrings and comments", "laziness of generator functions",
           "text printed or logged"]


def _assigned(nodes):
    """names bound by statements (not descending into nested scopes)"""
    out = set()

    def visit(n):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
            return
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for c in ast.walk(n):
                if isinstance(c, ast.NamedExpr):
                    out.add(c.target.id)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        if isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.add((a.asname or a.name).split(".")[0])
        for c in ast.iter_child_nodes(n):
            visit(c)
    for n in nodes:
        visit(n)
    return out


class HasYield(ast.NodeVisitor):
    def __init__(self):
        self.found = False

    def visit_Yield(self, n):
        self.found = True

    visit_YieldFrom = visit_Yield

    def visit_FunctionDef(self, n):
        pass

    visit_Lambda = visit_FunctionDef


def has_yield(fn):
    v = HasYield()
    for s in fn.body:
        v.visit(s)
    return v.found


def attr(name, a):
    return ast.Attribute(ast.Name(name, ast.Load()), a, ast.Load())


def call(f, *args):
    return ast.Call(f, list(args), [])


class BodyRet(ast.NodeTransformer):
    """break/continue/return of a loop body that became a function"""

    def __init__(self):
        self.depth = 0

    def visit_FunctionDef(self, n):
        return n

    visit_Lambda = visit_FunctionDef
    visit_ClassDef = visit_FunctionDef

    def _loop(self, n):
        self.depth += 1
        n.body = [self.visit(s) for s in n.body]
        self.depth -= 1
        n.orelse = [self.visit(s) for s in n.orelse]
        return n

    visit_For = _loop
    visit_While = _loop

    def visit_Break(self, n):
        if self.depth:
            return n
        return ast.copy_location(ast.Return(attr("_pv", "BREAK")), n)

    def visit_Continue(self, n):
        if self.depth:
            return n
        return ast.copy_location(ast.Return(ast.Constant(None)), n)

    def visit_Return(self, n):
        return ast.copy_location(ast.Return(call(attr("_pv", "Ret"), n.value or ast.Constant(None))), n)


class Rewriter(ast.NodeTransformer):
    def __init__(self):
        self.raw = False        # inside an enumeration: displays stay as they are
        self.fn = None          # innermost function: (locals, globals-declared)
        self.n = 0

    def fresh(self, s):
        self.n += 1
        return "_pv_%s%d" % (s, self.n)

    # -------------------------------------------------------------- scopes
    def visit_FunctionDef(self, node):
        a = node.args
        for x in a.args + a.kwonlyargs + a.posonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
            x.annotation = None
        node.returns = None
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        outer = self.fn
        a.defaults = [self.visit(d) for d in a.defaults]
        a.kw_defaults = [self.visit(d) if d else d for d in a.kw_defaults]
        params = {x.arg for x in a.args + a.kwonlyargs + a.posonlyargs + [y for y in (a.vararg, a.kwarg) if y]}
        decl = set()
        for s in ast.walk(node):
            if isinstance(s, (ast.Global, ast.Nonlocal)):
                decl.update(s.names)
        gen = has_yield(node)
        self.fn = dict(locals=(params | _assigned(node.body)) - decl, gen=gen)
        body = []
        for s in node.body:
            r = self.visit(s)
            body.extend(r if isinstance(r, list) else [r])
        if gen:
            body = [ast.Assign([ast.Name("_pv_out", ast.Store())], call(attr("_pv", "genlist")))] + body + \
                   [ast.Return(call(attr("_pv", "geniter"), ast.Name("_pv_out", ast.Load())))]
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and \
                isinstance(body[0].value.value, str):
            body[0] = ast.copy_location(ast.Pass(), body[0])
        node.body = body
        self.fn = outer
        return node

    def visit_AsyncFunctionDef(self, node):
        return node

    def visit_ClassDef(self, node):
        outer, self.fn = self.fn, None
        raw, self.raw = self.raw, self.raw or any("Enum" in ast.dump(b) for b in node.bases)
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        out = []
        for s in node.body:
            r = self.visit(s)
            out.extend(r if isinstance(r, list) else [r])
        node.body = out
        self.fn = outer
        self.raw = raw
        return node

    def visit_Lambda(self, node):
        outer = self.fn
        if outer is None:
            self.fn = dict(locals=set(), gen=False)
        node = self.generic_visit(node)
        self.fn = outer
        return node

    def visit_AnnAssign(self, node):
        if self.fn is None:
            return self.generic_visit(node)
        if node.value is None:
            return ast.copy_location(ast.Pass(), node)
        return self.visit(ast.copy_location(ast.Assign([node.target], node.value), node))

    # ------------------------------------------------------------ generators
    def visit_Return(self, node):
        node = self.generic_visit(node)
        if self.fn and self.fn["gen"]:
            return ast.copy_location(ast.Return(call(attr("_pv", "geniter"), ast.Name("_pv_out", ast.Load()))), node)
        return node

    def visit_Yield(self, node):
        node = self.generic_visit(node)
        return call(ast.Attribute(ast.Name("_pv_out", ast.Load()), "append", ast.Load()),
                    node.value or ast.Constant(None))

    def visit_YieldFrom(self, node):
        node = self.generic_visit(node)
        return call(ast.Attribute(ast.Name("_pv_out", ast.Load()), "extend", ast.Load()), node.value)

    # -------------------------------------------------------------- displays
    def visit_List(self, node):
        node = self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and not self.raw:
            return ast.copy_location(call(attr("_pv", "VList"), node), node)
        return node

    def visit_Dict(self, node):
        node = self.generic_visit(node)
        if not self.raw:
            if _dyn(node):
                raise Unsupported("dictionary display with **")
            ps = [ast.Tuple([k, v], ast.Load()) for k, v in zip(node.keys, node.values)]
            return ast.copy_location(call(attr("_pv", "mkdict"), ast.Tuple(ps, ast.Load())), node)
        return node

    def visit_JoinedStr(self, node):
        node = self.generic_visit(node)
        if self.fn is None:
            return node
        ps = []
        for v in node.values:
            if isinstance(v, ast.FormattedValue):
                if v.format_spec is not None and not isinstance(v.format_spec, ast.JoinedStr) and not \
                        isinstance(v.format_spec, ast.Constant):
                    return node
                if v.format_spec is None:
                    spec = ast.Constant("")
                elif isinstance(v.format_spec, ast.JoinedStr):
                    if not all(isinstance(x, ast.Constant) for x in v.format_spec.values):
                        return node
                    spec = ast.Constant("".join(x.value for x in v.format_spec.values))
                else:
                    return node
                ps.append(ast.Tuple([v.value, ast.Constant(v.conversion), spec], ast.Load()))
            else:
                ps.append(v)
        return ast.copy_location(call(attr("_pv", "fstring"), *ps), node)

    def visit_Set(self, node):
        node = self.generic_visit(node)
        if not self.raw:
            return ast.copy_location(call(attr("_pv", "mkset"), ast.Tuple(node.elts, ast.Load())), node)
        return node

    # -------------------------------------------------------- comprehensions
    def _comp(self, node, kind):
        if self.fn is None:
            node = self.generic_visit(node)
            if self.raw or kind == "gen":
                return node
            if kind == "dict":
                node = call(ast.Attribute(node, "items", ast.Load()))
            f = {"list": "VList", "set": "mkset", "dict": "mkdict"}[kind]
            arg = node if kind == "list" else call(ast.Name("tuple", ast.Load()), node)
            return ast.copy_location(call(attr("_pv", f), arg), node)
        node = self.generic_visit(node)
        if len(node.generators) == 2 and kind in ("list", "gen") and not any(g.is_async for g in node.generators):
            # nested: flatten
            g0, g1 = node.generators
            inner = self._mk("list", g1, node.elt)
            outer = self._mk("list", g0, inner)
            return ast.copy_location(call(attr("_pv", "flatten"), outer), node)
        if len(node.generators) != 1 or node.generators[0].is_async:
            return node
        g = node.generators[0]
        elt = ast.Tuple([node.key, node.value], ast.Load()) if kind == "dict" else node.elt
        return ast.copy_location(self._mk(kind, g, elt), node)

    def _mk(self, kind, g, elt):
        def lam(body):
            if isinstance(g.target, ast.Name):
                return ast.Lambda(ast.arguments([], [ast.arg(g.target.id)], None, [], [], None, []), body)
            tgt = g.target
            if isinstance(tgt, (ast.Tuple, ast.List)) and all(isinstance(e, ast.Name) for e in tgt.elts):
                inner = ast.Lambda(ast.arguments([], [ast.arg(e.id) for e in tgt.elts], None, [], [], None, []), body)
                return ast.Lambda(ast.arguments([], [ast.arg("_pv_x")], None, [], [], None, []),
                                  ast.Call(inner, [ast.Starred(ast.Name("_pv_x", ast.Load()), ast.Load())], []))
            if isinstance(tgt, (ast.Tuple, ast.List)):
                # nested tuple targets: (i, (a, b))
                names, pats = [], []
                for e in tgt.elts:
                    if isinstance(e, ast.Name):
                        names.append(e.id)
                    else:
                        nm = self.fresh("t")
                        names.append(nm)
                        pats.append((nm, e))
                b = body
                for nm, e in reversed(pats):
                    if not (isinstance(e, (ast.Tuple, ast.List)) and all(isinstance(q, ast.Name) for q in e.elts)):
                        return None
                    b = ast.Call(ast.Lambda(ast.arguments([], [ast.arg(q.id) for q in e.elts], None, [], [], None, []), b),
                                 [ast.Starred(ast.Name(nm, ast.Load()), ast.Load())], [])
                inner = ast.Lambda(ast.arguments([], [ast.arg(nm) for nm in names], None, [], [], None, []), b)
                return ast.Lambda(ast.arguments([], [ast.arg("_pv_x")], None, [], [], None, []),
                                  ast.Call(inner, [ast.Starred(ast.Name("_pv_x", ast.Load()), ast.Load())], []))
            return None
        conds = g.ifs
        cond = ast.Constant(None)
        if conds:
            cond = lam(conds[0] if len(conds) == 1 else ast.BoolOp(ast.And(), conds))
        e = lam(elt)
        if e is None or cond is None:
            raise Unsupported("comprehension target")
        return call(attr("_pv", "comp"), ast.Constant(kind), g.iter, cond, e)

    def visit_ListComp(self, node):
        return self._comp(node, "list")

    def visit_GeneratorExp(self, node):
        return self._comp(node, "gen")

    def visit_SetComp(self, node):
        return self._comp(node, "set")

    def visit_DictComp(self, node):
        return self._comp(node, "dict")

    # ----------------------------------------------------------------- loops
    def visit_For(self, node):
        import copy as _c
        if self.fn is None:
            return self.generic_visit(node)
        node = self.generic_visit(node)
        it, x, r, bd = self.fresh("it"), "_pv_x", self.fresh("r"), self.fresh("body")
        names = sorted((_assigned(node.body) | _assigned([ast.Assign([node.target], ast.Constant(0))]))
                       & self.fn["locals"])
        body = [BodyRet().visit(_c.deepcopy(s)) for s in node.body]
        decl = [ast.Nonlocal(names)] if names else []
        # generator functions append to _pv_out, which is not assigned: a plain closure
        fdef = ast.FunctionDef(bd, ast.arguments([], [ast.arg(x)], None, [], [], None, []),
                               decl + [ast.Assign([node.target], ast.Name(x, ast.Load()))] + body, [])
        fdef.type_params = []
        ret = ast.Attribute(ast.Name(r, ast.Load()), "value", ast.Load())
        if self.fn["gen"]:
            ret = call(attr("_pv", "geniter"), ast.Name("_pv_out", ast.Load()))
        sym = [fdef,
               ast.Assign([ast.Name(r, ast.Store())], call(attr("_pv", "loop"), ast.Name(it, ast.Load()),
                                                            ast.Name(bd, ast.Load()))),
               ast.If(call(attr("_pv", "is_ret"), ast.Name(r, ast.Load())), [ast.Return(ret)], [])]
        if node.orelse:
            sym.append(ast.If(ast.Compare(ast.Name(r, ast.Load()), [ast.IsNot()], [attr("_pv", "BREAK")]),
                              _c.deepcopy(node.orelse), []))
        # a `break` belonging to an enclosing loop cannot occur here (orelse aside)
        nat = ast.For(node.target, ast.Name(it, ast.Load()), node.body, node.orelse)
        out = [ast.Assign([ast.Name(it, ast.Store())], call(attr("_pv", "it"), node.iter)),
               ast.If(call(attr("_pv", "symbolic"), ast.Name(it, ast.Load())), sym, [nat])]
        for o in out:
            ast.copy_location(o, node)
        return out

    def visit_While(self, node):
        node = self.generic_visit(node)
        if self.fn is None:
            return node
        import copy as _c
        walrus = any(isinstance(x, ast.NamedExpr) for x in ast.walk(node.test))
        bd, cd, r, x = self.fresh("body"), self.fresh("test"), self.fresh("r"), "_pv_x"
        body, test, orelse = _c.deepcopy(node.body), _c.deepcopy(node.test), _c.deepcopy(node.orelse)
        node.body = [ast.Expr(call(attr("_pv", "while_tick"), ast.Constant(id(node) % 10 ** 9)))] + node.body
        if walrus:
            return node
        # with an invariant, the loop runs as test() and body()
        names = sorted(_assigned(body) & self.fn["locals"])
        decl = [ast.Nonlocal(names)] if names else []
        f1 = ast.FunctionDef(bd, ast.arguments([], [ast.arg(x)], None, [], [], None, []),
                             decl + [BodyRet().visit(b) for b in body], [])
        f2 = ast.FunctionDef(cd, ast.arguments([], [], None, [], [], None, []), [ast.Return(test)], [])
        for f in (f1, f2):
            f.type_params = []
        ret = ast.Attribute(ast.Name(r, ast.Load()), "value", ast.Load())
        if self.fn["gen"]:
            ret = call(attr("_pv", "geniter"), ast.Name("_pv_out", ast.Load()))
        sym = [ast.Assign([ast.Name(r, ast.Store())], call(attr("_pv", "while_loop"), ast.Name(cd, ast.Load()),
                                                            ast.Name(bd, ast.Load()))),
               ast.If(call(attr("_pv", "is_ret"), ast.Name(r, ast.Load())), [ast.Return(ret)], [])]
        if orelse:
            sym.append(ast.If(ast.Compare(ast.Name(r, ast.Load()), [ast.IsNot()], [attr("_pv", "BREAK")]), orelse, []))
        out = [f1, f2, ast.If(call(attr("_pv", "while_wanted"), ast.Name(bd, ast.Load())), sym, [node])]
        for o in out:
            ast.copy_location(o, node)
        return out


def _dyn(node):
    return any(k is None for k in node.keys)


def transform(src, name):
    tree = ast.parse(src, name)
    tree = Rewriter().visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, name, "exec")


class World:
    """One symbolic copy of the modules of the repository."""

    def __init__(self, repo, rt, stubs, extra_paths=()):
        self.repo, self.rt, self.stubs = repo, rt, stubs
        self.modules = {}
        self.extra = list(extra_paths)
        self.builtins = dict(vars(builtins))
        self.builtins.update(rt.BUILTINS)
        self.builtins["__import__"] = self.imp
        self.functions = set()

    def find(self, name):
        parts = name.split(".")
        for root in [self.repo] + self.extra:
            p = os.path.join(root, *parts)
            if os.path.isdir(p) and (parts[0] == "neural_graph_composer"):
                i = os.path.join(p, "__init__.py")
                return i, True
            if os.path.isfile(p + ".py"):
                return p + ".py", False
        return None, False

    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        if name == "collections.abc":
            from . import mappings
            m = self.modules[name] = mappings.load(self, transform)
            return m
        if name == "collections":
            m = self.modules[name] = types.ModuleType(name)
            m.__dict__.update({k: v for k, v in vars(self.stubs[name]).items() if k != "abc"})
            m.abc = self.load("collections.abc")
            return m
        if name in self.stubs:
            m = self.stubs[name]
            self.modules[name] = m
            return m
        path, pkg = self.find(name)
        top = name.split(".")[0]
        if path is None:
            if top in self.stubs:
                m = self.stubs[top]
                for p in name.split(".")[1:]:
                    m = getattr(m, p)
                return m
            if top in self.rt.NATIVE:
                m = __import__(name, fromlist=["x"])
                self.modules[name] = m
                return m
            raise Unsupported("module %s is not modelled" % name)
        m = types.ModuleType(name)
        m.__file__ = path
        m.__dict__["__builtins__"] = self.builtins
        m.__dict__["_pv"] = self.rt
        if pkg:
            m.__path__ = [os.path.dirname(path)]
        m.__package__ = name if pkg else name.rpartition(".")[0]
        self.modules[name] = m
        if "." in name:
            par = self.load(name.rpartition(".")[0])
            setattr(par, name.rpartition(".")[2], m)
        src = open(path).read() if os.path.exists(path) else ""
        if pkg and name == "neural_graph_composer":
            src = ""          # the package __init__ has no code of interest and pulls in everything
        code = transform(src, path)
        exec(code, m.__dict__)
        for k, v in list(m.__dict__.items()):
            if isinstance(v, type) and v.__module__ == name:
                self.rt.register_class(v)
        return m

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals["__package__"].split(".")
            pkg = pkg[:len(pkg) - level + 1]
            name = ".".join(pkg + ([name] if name else []))
        m = self.load(name)
        if fromlist:
            for f in fromlist:
                if f == "*":
                    continue
                if not hasattr(m, f):
                    path, _ = self.find(name + "." + f)
                    if path:
                        self.load(name + "." + f)
            return m
        top = name.split(".")[0]
        return self.load(top) if top in self.modules or self.find(top)[0] or top in self.stubs else m
