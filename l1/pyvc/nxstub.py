"""Graphs of networkx, as far as the code under contract uses them: nodes in the order in
which they were added, with attributes; links with a data dictionary each; a directed graph
has at most one link per ordered pair.  With a base, a graph of unknown size whose links are
given by two functions (is there a link, its data)."""
import z3

from . import lists
from .core import And, If, Not, Or, SymBase, Unsupported, boo, eng, wrap


def rt():
    return eng().rt


def same(u, v):
    return lists.deep_eq(u, v)


class NodeView:
    """graph.nodes, graph.nodes(), graph.nodes(data=True)"""

    def __init__(self, g, data=False):
        self.g, self.data = g, data

    def __call__(self, data=False):
        if data not in (False, True):
            raise Unsupported("nodes with one attribute")
        return NodeView(self.g, data)

    def __iter__(self):
        d = self.g._nodes
        return d.items() if self.data else rt().VDict.__iter__(d)

    def __pv_segs__(self):
        return lists.as_segs(self.g._nodes.items() if self.data else self.g._nodes.keys())

    def __pv_len__(self):
        return rt()._len(self.g._nodes)

    def __len__(self):
        return len(self.g._nodes)

    def __bool__(self):
        return bool(self.g._nodes)

    def __contains__(self, n):
        return n in self.g._nodes

    def __getitem__(self, n):
        return self.g._nodes[n]

    def keys(self):
        return self.g._nodes.keys()

    def items(self):
        return self.g._nodes.items()


class AdjRow:
    """graph[u]"""

    def __init__(self, g, u):
        self.g, self.u = g, u

    def __getitem__(self, v):
        return self.g.link(self.u, v)

    def __contains__(self, v):
        return self.g.has_edge(self.u, v)


class EdgeView:
    def __init__(self, g):
        self.g = g

    def __getitem__(self, uv):
        return self.g.link(*uv)

    def __contains__(self, uv):
        return self.g.has_edge(*uv)


class DiGraph:
    __pv_graph__ = True
    directed = True

    def __init__(self, data=None, **attr):
        if data is not None:
            raise Unsupported("a graph made from other data")
        self._nodes = rt().VDict()
        self._links = ()            # (u, v, data), each pair once on this path
        self._base = None           # (there(u, v), data(u, v)) of the links not in _links
        rt().R.stamp(self)

    # -- state
    def _set_links(self, links):
        rt().R.note_attr(self, "_links")
        self._links = tuple(links)

    def _find(self, u, v):
        """data of the link, or None; links met are in _links"""
        key_eq = rt().key_eq
        for a, b, d in self._links:
            if key_eq(a, u) and key_eq(b, v):
                return d
            if not self.directed and key_eq(a, v) and key_eq(b, u):
                return d
        if self._base is None:
            return None
        there, data = self._base
        if not eng().branch(boo(there(u, v))):
            return None
        d = data(u, v)
        self._set_links(self._links + ((u, v, d),))
        return d

    def links_as_formula(self, u, v):
        """(is there a link, [(condition, data)]) without splitting the path"""
        c = True if self._base is None else self._base[0](u, v)
        c = False if self._base is None else c
        cases, rest = [], True
        for a, b, d in self._links:
            h = And(same(a, u), same(b, v))
            cases.append((And(rest, h), d))
            rest = And(rest, Not(h))
            c = Or(h, c)
        if self._base is not None:
            cases.append((And(rest, self._base[0](u, v)), None))
        return c, cases

    # -- the interface
    @property
    def nodes(self):
        return NodeView(self)

    @property
    def edges(self):
        return EdgeView(self)

    def is_directed(self):
        return self.directed

    def add_node(self, n, **attr):
        if n in self._nodes:
            self._nodes[n].update(**attr)
        else:
            self._nodes[n] = rt().VDict(**attr)

    def add_edge(self, u, v, **attr):
        for n in (u, v):
            if n not in self._nodes:
                self._nodes[n] = rt().VDict()
        d = self._find(u, v)
        if d is None:
            self._set_links(self._links + ((u, v, rt().VDict(**attr)),))
        else:
            d.update(**attr)

    def has_edge(self, u, v):
        return self._find(u, v) is not None

    def has_node(self, n):
        return n in self._nodes

    def link(self, u, v):
        if u not in self._nodes:
            raise KeyError(u)
        d = self._find(u, v)
        if d is None:
            raise KeyError(v)
        return d

    def get_edge_data(self, u, v, default=None):
        d = self._find(u, v)
        return default if d is None else d

    def number_of_nodes(self):
        return rt()._len(self._nodes)

    order = number_of_nodes

    def __pv_len__(self):
        return rt()._len(self._nodes)

    def __len__(self):
        return len(self._nodes)

    def __contains__(self, n):
        return n in self._nodes

    def __iter__(self):
        return rt().VDict.__iter__(self._nodes)

    def __getitem__(self, u):
        if u not in self._nodes:
            raise KeyError(u)
        return AdjRow(self, u)

    def __bool__(self):
        return bool(self._nodes)

    def __getattr__(self, a):
        if a.startswith("__"):
            raise AttributeError(a)
        raise Unsupported("graph.%s" % a)


class Graph(DiGraph):
    directed = False


def install(nx):
    nx.DiGraph, nx.Graph = DiGraph, Graph
