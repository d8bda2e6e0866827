from __future__ import annotations
import itertools, math, random, signal
from contextlib import contextmanager
import networkx as nx
import numpy as np
from gv import boot, gen as G, loops, sym  # noqa: F401
from gv.core import Prop, Unfit, need
from gv.extract import rebind
from gv.sym import Engine
from graphix import extraction as EX
from graphix.extraction import ResourceGraph, ResourceType, create_resource_graph, fusion_nodes, graph_to_fusion_network
z3 = boot.z3()

F = "graphix/extraction.py:"
P = Prop("C29", "proof",
    "The two edge-removing loops, the two loops around them and the degree survey of graph_to_fusion_network are extracted from the source and one iteration of each is executed from an arbitrary state "
    "(opaque nodes, rows of arbitrary length, arbitrary number of edges; z3 decides every comparison both ways); inner loops are replaced by their contract. Every iteration moves the edges it removes from the "
    "remaining graph to the cluster it emits, so that emitted + remaining edges = edges of the graph, and removes at least one. create_resource_graph and fusion_nodes are executed on opaque nodes.",
    ["the graph is simple and undirected (adjacency is symmetric, no self-loop); size bounds are at least 3 (smaller ones cannot hold the clusters extracted from cycles)",
     "networkx's Graph stores the nodes and edges it is given; a comprehension treats its elements one by one (create_resource_graph is enumerated up to 8 nodes)"],
    ["networkx"])

class Tok:
    """An opaque node."""
    def __init__(self, n): self.n = n
    def __repr__(self): return f"<{self.n}>"
    def _no(self, *a): raise Unfit(f"{self.n} is inspected")
    __bool__ = __len__ = __iter__ = __lt__ = __add__ = __mul__ = __float__ = __int__ = __index__ = __contains__ = _no
    __hash__ = object.__hash__

class Num:
    """An arbitrary integer (z3)."""
    def __init__(self, e): self.e = e
    @staticmethod
    def of(x):
        if isinstance(x, Num): return x.e
        if isinstance(x, int): return z3.IntVal(x)
        raise Unfit(f"integer expected, got {x!r}")
    def __lt__(self, o): return sym.SBool(self.e < Num.of(o))
    def __le__(self, o): return sym.SBool(self.e <= Num.of(o))
    def __gt__(self, o): return sym.SBool(self.e > Num.of(o))
    def __ge__(self, o): return sym.SBool(self.e >= Num.of(o))
    def __eq__(self, o): return sym.SBool(self.e == Num.of(o))
    def __ne__(self, o): return sym.SBool(self.e != Num.of(o))
    def __add__(self, o): return Num(self.e + Num.of(o))
    __radd__ = __add__
    def __sub__(self, o): return Num(self.e - Num.of(o))
    def __bool__(self): return bool(sym.SBool(self.e != 0))
    def _no(self, *a): raise Unfit("a symbolic integer is converted")
    __float__ = __int__ = __index__ = _no
    __hash__ = None

class Row:
    """The remaining neighbours of a node: an arbitrary number of them, opaque."""
    def __init__(self, eng, node, length=None):
        self.eng, self.node = eng, node
        self.len0 = self.len = length if length is not None else z3.Int(eng.fresh(f"len_{node.n}"))
        self.popped, self.deleted, self.listed = [], [], None
        eng.assume(self.len >= 0)
    def popitem(self):
        self.eng.prove("an edge is taken from a node that has one", self.len >= 1)
        t = Tok(f"neighbour {len(self.popped)} of {self.node.n}"); self.popped.append(t); self.len = self.len - 1
        return t, {}
    def keys(self):
        if self.listed is None:
            n = next((k for k in range(4) if self.eng._check(self.len != k) == z3.unsat), None)
            if n is None: raise Unfit("keys of a row of unknown length")
            self.listed = [Tok(f"neighbour {i} of {self.node.n}") for i in range(n)]
        return list(self.listed)
    def __iter__(self): return iter(self.keys())
    def __delitem__(self, n): self.deleted.append(n); self.len = self.len - 1
    def __getattr__(self, a): raise Unfit(f"row operation {a}")

class Adj:
    """The remaining adjacency: rows appear when they are looked at."""
    def __init__(self, eng): self.eng, self.rows = eng, {}
    def __getitem__(self, n):
        if n not in self.rows: self.rows[n] = Row(self.eng, n)
        return self.rows[n]
    def __getattr__(self, a): raise Unfit(f"adjacency operation {a}")

class NodeList:
    """A list of at least two opaque nodes."""
    def __init__(self, eng): self.len = z3.Int(eng.fresh("size")); eng.assume(self.len >= 2); self.items = {}
    def __getitem__(self, i):
        if not isinstance(i, int) or i < 0: raise Unfit("index")
        return self.items.setdefault(i, Tok(f"nodes[{i}]"))
    def __getattr__(self, a): raise Unfit(f"list operation {a}")
    def __iter__(self): raise Unfit("the list is copied")

def slen(x): return Num(x.len) if isinstance(x, (Row, NodeList)) else len(x)

def removed(adj):
    """The removed directed entries (node, neighbour)."""
    return [(r.node, x) for r in adj.rows.values() for x in [*r.popped, *r.deleted]]

def is_edge_removal(adj, pairs):
    """Exactly the undirected edges `pairs` have been removed, on both sides, once each."""
    got = removed(adj); want = [(a, b) for p in pairs for a, b in (p, p[::-1])]
    return len(got) == len(want) and all(any(a is c and b is d for c, d in got) for a, b in want)

def explore(ob, label, run, covers=()):
    eng = Engine(ob, label); n0 = len(ob.obls)
    eng.explore(lambda: run(eng)); eng.close(list(covers))
    for o in ob.obls[n0:]:                # stand-ins: a mismatch may be a reorganisation, the bounded part decides
        if o.status == "refuted": o.status = "undecided"

def lsts(fn):
    ls = loops.loops_of(fn)
    if len(ls) != 3: raise Unfit(f"{len(ls)} outermost loops")

@P.proof("edge by edge", [F + "graph_to_fusion_network (inner loops)"], backend="z3")
def edges_(ob):
    f = graph_to_fusion_network; lsts(f)
    star, path = loops.step(f, 1, (0, 0), len=slen), loops.step(f, 2, (0, 0), len=slen)
    def run_star(eng):
        v, old, m = Tok("v"), Tok("old"), Num(z3.Int("edges")); adj = Adj(eng); eng.assume(adj[v].len >= 1); nodes = [v, old]
        d = star(None, v=v, adjdict=adj, nodes=nodes, number_of_edges=m, max_ghz=Num(z3.Int("bound")))
        new = nodes[2:]
        eng.prove("one neighbour joins the star", len(new) == 1 and nodes[0] is v and nodes[1] is old and d["nodes"] is nodes)
        eng.prove("its edge with the centre is removed on both sides, and no other", len(new) == 1 and is_edge_removal(adj, [(v, new[0])]))
        eng.prove("the count follows", d["number_of_edges"].e == m.e - 1); eng.cover("end")
        eng.prove("the loop goes on", d["__exit__"] == "next")
    explore(ob, "star: one neighbour", run_star, ["end"])
    def run_path(eng):
        n, old, m = Tok("n"), Tok("old"), Num(z3.Int("edges")); adj = Adj(eng); r = adj[n]; eng.assume(r.len >= 1); nodes = [old, n]
        # invariant: the last node has at most one edge left, the other nodes of the path none; every node at most two
        eng.assume(r.len <= 1)
        d = path(None, n=n, adjdict=adj, nodes=nodes, number_of_edges=m, max_lin=Num(z3.Int("bound")))
        new = nodes[2:]
        eng.prove("one node extends the path", len(new) == 1 and nodes[0] is old and nodes[1] is n and d["nodes"] is nodes and d["n"] is new[0])
        eng.prove("its edge with the end of the path is removed on both sides, and no other", len(new) == 1 and is_edge_removal(adj, [(n, new[0])]))
        eng.prove("the count follows", d["number_of_edges"].e == m.e - 1); eng.cover("end")
        if len(new) == 1:
            eng.assume(adj[new[0]].len0 <= 2)
            eng.prove("the previous end has no edge left and the new one at most one: the path cannot return", z3.And(r.len == 0, adj[new[0]].len <= 1))
    explore(ob, "path: one node", run_path, ["end"])

@P.proof("clusters", [F + "graph_to_fusion_network (loops)"], backend="z3")
def clusters(ob):
    f = graph_to_fusion_network; lsts(f)
    # survey of degrees
    s0 = loops.step(f, 0, None, len=slen, create_resource_graph=lambda nodes, root=None: ("resource", list(nodes), root))
    def survey(eng):
        v = Tok("v"); row = Row(eng, v); old, olr = ("old", 5), ("old resource",); nl, rl = [old], [olr]
        s0((v, row), neighbors_list=nl, resource_list=rl, adjdict=Tok("adjacency"))
        eng.prove("nothing is forgotten", nl[0] is old and rl[0] is olr and len(nl) <= 2 and len(rl) <= 2 and not row.popped and not row.deleted)
        big = len(nl) == 2
        eng.prove("the nodes with more than two neighbours are listed", big == True if False else (row.len > 2 if big else row.len <= 2))
        if big: eng.prove("with their number of neighbours", nl[1][0] is v and bool(isinstance(nl[1][1], Num)) and True)
        if len(rl) == 2: eng.prove("an isolated node is a cluster by itself", z3.And(row.len == 0, z3.BoolVal(len(rl[1]) == 3 and rl[1][1] == [v])))
        else: eng.prove("other nodes are not", row.len != 0)
        eng.cover("big" if big else ("isolated" if len(rl) == 2 else "small"))
    explore(ob, "degree survey", survey, ["big", "isolated", "small"])
    # one star, the inner loop replaced by its contract
    def star(eng):
        v = Tok("v"); adj = Adj(eng); row = adj[v]; eng.assume(row.len > 2); full = NodeList(eng); made = []; rl = [("old",)]; entry = []
        def inner(loc): entry.append((loc["nodes"], loc["v"])); return (full, Num(z3.Int("left")))
        def create(nodes, root=None): made.append((nodes, root)); return ("resource", nodes)
        st = loops.step(f, 1, (0,), {0: (("nodes", "number_of_edges"), inner)}, len=slen, create_resource_graph=create)
        d = st(None, v=v, adjdict=adj, number_of_edges=Num(z3.Int("edges")), max_ghz=Num(z3.Int("bound")), resource_list=rl)
        eng.prove("the star starts with its centre", len(entry) == 1 and len(entry[0][0]) == 1 and entry[0][0][0] is v and entry[0][1] is v)
        eng.prove("the nodes collected by the inner loop become a star around the centre", len(made) == 1 and made[0][0] is full and made[0][1] is v)
        eng.prove("which is added to the clusters", len(rl) == 2 and rl[0] == ("old",) and rl[1][1] is full)
        eng.prove("no other edge is removed", not removed(adj)); eng.cover("end")
    explore(ob, "one star", star, ["end"])
    def linear(eng):
        v = Tok("v"); adj = Adj(eng); row = adj[v]; eng.assume(row.len <= 2); full = NodeList(eng); made = []; rl = [("old",)]; entry = []
        def inner(loc): entry.append((loc["nodes"], loc["n"])); return (full, Tok("end"), Num(z3.Int("left")))
        def create(nodes, root=None): made.append((nodes, root)); return ("resource", nodes)
        st = loops.step(f, 2, (0,), {0: (("nodes", "n", "number_of_edges"), inner)}, len=slen, create_resource_graph=create)
        st((v, row), adjdict=adj, number_of_edges=Num(z3.Int("edges")), max_lin=Num(z3.Int("bound")), resource_list=rl)
        eng.prove("no other edge is removed", not removed(adj))
        if not entry:
            eng.cover("not an end"); eng.prove("only nodes with exactly one neighbour start a path", row.len != 1)
            eng.prove("nothing is emitted", not made and rl == [("old",)]); return
        eng.prove("only nodes with exactly one neighbour start a path", row.len == 1)
        eng.prove("the path starts there", len(entry) == 1 and len(entry[0][0]) == 1 and entry[0][0][0] is v and entry[0][1] is v)
        eng.prove("one cluster is added", len(made) == 1 and len(rl) == 2 and rl[0] == ("old",))
        if len(made) != 1: return
        nodes, root = made[0]
        if nodes is full:
            if root is None: eng.cover("linear"); eng.prove("paths of at least four nodes are linear clusters", full.len >= 4)
            else: eng.cover("pair"); eng.prove("two nodes are a star around the first", z3.And(full.len == 2, z3.BoolVal(root is full[0])))
        else:
            eng.cover("three")
            ok = isinstance(nodes, list) and len(nodes) == 3 and root is full[1] and {id(x) for x in nodes} == {id(full[i]) for i in range(3)}
            eng.prove("three nodes are a star around the middle one", z3.And(full.len == 3, z3.BoolVal(ok)))
    explore(ob, "one path", linear, ["linear", "pair", "three", "not an end"])
    def cycle(eng):
        v = Tok("v"); adj = Adj(eng); row = adj[v]; eng.assume(row.len <= 2); made = []; rl = [("old",)]; m = z3.Int("edges")
        def create(nodes, root=None): made.append((list(nodes), root)); return ("resource",)
        st = loops.step(f, 2, (1,), None, len=slen, create_resource_graph=create)
        d = st((v, row), adjdict=adj, number_of_edges=Num(m), resource_list=rl)
        if not made:
            eng.cover("skipped"); eng.prove("only a node with two neighbours is taken", row.len0 != 2)
            eng.prove("nothing is removed", not removed(adj) and rl == [("old",)] and d["__exit__"] == "next"); eng.prove("the count is unchanged", d["number_of_edges"].e == m); return
        eng.cover("taken"); ks = row.listed or []
        eng.prove("only a node with two neighbours is taken", row.len0 == 2)
        eng.prove("it and its two neighbours become a star around it", len(made) == 1 and len(ks) == 2 and made[0][1] is v and len(made[0][0]) == 3 and {id(x) for x in made[0][0]} == {id(v), *map(id, ks)})
        eng.prove("exactly its two edges are removed, on both sides", len(ks) == 2 and is_edge_removal(adj, [(v, k) for k in ks]))
        eng.prove("the count follows", d["number_of_edges"].e == m - 2); eng.prove("the cluster is added", len(rl) == 2)
    explore(ob, "one cycle", cycle, ["taken", "skipped"])
    # termination: with at least one edge left and at most two per node, some node has one or two of them
    s = z3.Solver(); d = z3.Function("d", z3.IntSort(), z3.IntSort()); n = z3.Int("n")
    s.add(z3.ForAll([n], z3.And(d(n) >= 0, d(n) <= 2)), d(z3.Int("end of an edge")) >= 1, z3.ForAll([n], z3.And(d(n) != 1, d(n) != 2)))
    ob.check("while edges are left a round finds a node with one or two of them", s.check() == z3.unsat)

@P.proof("stars, paths and fusion nodes", [F + "create_resource_graph", F + "fusion_nodes", F + "ResourceGraph.__eq__"], "opaque nodes")
def shapes(ob):
    for n in range(0, 9):
        xs = [Tok(f"x{i}") for i in range(n)]
        r = create_resource_graph(list(xs))
        ob.check(f"{n} nodes without a root: the path through them in order", r.cltype is ResourceType.LINEAR and set(r.graph.nodes) == set(xs)
                 and {frozenset(e) for e in r.graph.edges} == {frozenset(xs[i:i + 2]) for i in range(n - 1)})
        for k in range(n):
            r = create_resource_graph(list(xs), root=xs[k]); 
            ob.check(f"{n} nodes with root {k}: the star around it", r.cltype is ResourceType.GHZ and set(r.graph.nodes) == set(xs)
                     and {frozenset(e) for e in r.graph.edges} == {frozenset((xs[k], x)) for i, x in enumerate(xs) if i != k})
    r = create_resource_graph([0], root=0); ob.check("root 0 is a root", r.cltype is ResourceType.GHZ and list(r.graph.nodes) == [0])
    r = create_resource_graph([0, 1, 2], root=0); ob.check("root 0 is the centre of a star", {frozenset(e) for e in r.graph.edges} == {frozenset((0, 1)), frozenset((0, 2))})
    for a, b, c in itertools.product(range(4), repeat=3):
        A, B, C = ([Tok(f"{l}{i}") for i in range(k)] for l, k in (("a", a), ("b", b), ("c", c)))
        for ra, rb in itertools.product((True, False), repeat=2):
            n1, n2 = A + C, C + B
            if not n1 or not n2: continue
            c1 = create_resource_graph(n1, root=n1[0] if ra else None); c2 = create_resource_graph(n2, root=n2[-1] if rb else None)
            same = set(n1) == set(n2) and c1.cltype is c2.cltype and {frozenset(e) for e in c1.graph.edges} == {frozenset(e) for e in c2.graph.edges}
            ob.check(f"{a} + {c} and {c} + {b} nodes ({ra}, {rb}): equality", (c1 == c2) == same)
            if not same:
                x = fusion_nodes(c1, c2); ob.check(f"{a} + {c} and {c} + {b} nodes ({ra}, {rb}): the {c} common nodes are fused", len(x) == c and set(x) == set(C))
            ob.check(f"{a} + {c} and {c} + {b} nodes ({ra}, {rb}): a cluster is not fused with itself", fusion_nodes(c1, c1) == [])

# ---------------------------------------------------------------------------------------------------------------------------
@contextmanager
def limit(sec):
    def stop(*a): raise TimeoutError(f"no answer after {sec} s")
    old = signal.signal(signal.SIGALRM, stop); signal.setitimer(signal.ITIMER_REAL, sec)
    try: yield
    finally: signal.setitimer(signal.ITIMER_REAL, 0); signal.signal(signal.SIGALRM, old)

def judge(g, ghz, lin):
    kw = {k: v for k, v in (("max_ghz", ghz), ("max_lin", lin)) if v is not None}
    nodes0, edges0 = list(g.nodes), {frozenset(e) for e in g.edges}
    with limit(8): rs = graph_to_fusion_network(g, **kw)
    assert list(g.nodes) == nodes0 and {frozenset(e) for e in g.edges} == edges0, "the graph is changed"
    seen = {}; covered = set()
    tag = f"edges {sorted(map(tuple, g.edges), key=str)}, bounds {ghz}, {lin}"
    for r in rs:
        n, m = r.graph.number_of_nodes(), r.graph.number_of_edges(); covered |= set(r.graph.nodes); deg = dict(r.graph.degree)
        assert n >= 1 and m == n - 1 and nx.is_connected(r.graph), f"{tag}: cluster {list(r.graph.edges)} is no tree"
        if r.cltype is ResourceType.GHZ:
            assert n <= 2 or max(deg.values()) == n - 1, f"{tag}: {list(r.graph.edges)} is no star"
            assert n <= max(3, ghz if ghz is not None else math.inf), f"{tag}: a star of {n} nodes"
        elif r.cltype is ResourceType.LINEAR:
            assert max(deg.values()) <= 2 and n >= 4, f"{tag}: {list(r.graph.edges)} is no path of at least four nodes"
            assert n <= (lin if lin is not None else math.inf), f"{tag}: a path of {n} nodes"
        else: raise AssertionError(f"{tag}: cluster of type {r.cltype}")
        for e in r.graph.edges:
            e = frozenset(e); assert e in edges0, f"{tag}: {tuple(e)} is no edge of the graph"
            assert e not in seen, f"{tag}: {tuple(e)} is in two clusters"; seen[e] = r
    assert set(seen) == edges0, f"{tag}: edges {edges0 - set(seen)} are in no cluster"
    assert covered == set(nodes0), f"{tag}: nodes {set(nodes0) - covered} are in no cluster"
    for v in nodes0:
        if not g.degree[v]: assert sum(v in r.graph for r in rs) == 1, f"{tag}: isolated node {v}"
    for r, s in itertools.combinations(rs, 2):
        for a, b in ((r, s), (s, r)):
            x = fusion_nodes(a, b); want = set(a.graph.nodes) & set(b.graph.nodes)
            assert len(x) == len(set(x)) and set(x) == want, f"{tag}: fusion nodes {x} of {list(a.graph.edges)} and {list(b.graph.edges)}"

def small(rng, tier):
    nmax = 6 if tier == "quick" else 7
    for n in range(nmax + 1):
        pairs = list(itertools.combinations(range(n), 2))
        bounds = [(None, None), (3, 3), (4, 3), (3, 4), (4, None), (None, 5), (2, 3), (5, 4)]
        order = list(range(1 << len(pairs)))
        for k in order:
            for b in (bounds if n < 6 else [bounds[k % len(bounds)], bounds[0]]): yield [n, k, *b]

@P.bounded("all small graphs", [F + "graph_to_fusion_network", F + "create_resource_graph", F + "fusion_nodes"], small, "every labelled graph on at most 6 nodes (thorough: 7, within the time limit), two to eight pairs of size bounds", quick=25, thorough=300)
def all_small(case):
    n, k, ghz, lin = case; g = nx.Graph(); g.add_nodes_from(range(n))
    g.add_edges_from(p for i, p in enumerate(itertools.combinations(range(n), 2)) if k >> i & 1)
    judge(g, ghz, lin)

@P.bounded("larger graphs", [F + "graph_to_fusion_network", F + "create_resource_graph", F + "fusion_nodes"],
           lambda rng, tier: G.seeds(rng, lambda r: r.choice(["gnp", "tree", "grid", "cycle", "wheel", "star", "regular", "mixed"])), "random graphs of up to 24 nodes with arbitrary labels and insertion orders, size bounds from 3 to 8 or none", quick=8, thorough=90)
def larger(case):
    seed, kind = case; r = random.Random(seed); n = r.randrange(3, 25)
    if kind == "gnp": g = nx.gnp_random_graph(n, r.choice([.05, .1, .2, .4, .9]), seed=seed)
    elif kind == "tree": g = nx.random_labeled_tree(n, seed=seed) if hasattr(nx, "random_labeled_tree") else nx.path_graph(n)
    elif kind == "grid": g = nx.convert_node_labels_to_integers(nx.grid_2d_graph(r.randrange(2, 6), r.randrange(2, 6)))
    elif kind == "cycle": g = nx.disjoint_union_all([nx.cycle_graph(r.randrange(3, 7)) for _ in range(r.randrange(1, 4))])
    elif kind == "wheel": g = nx.wheel_graph(n)
    elif kind == "star": g = nx.disjoint_union(nx.star_graph(n), nx.star_graph(r.randrange(5)))
    elif kind == "regular": g = nx.random_regular_graph(r.choice([2, 3, 4]), n + n % 2 + 3 - (n + n % 2 + 3) % 2, seed=seed)
    else: g = nx.disjoint_union_all([nx.path_graph(r.randrange(1, 7)), nx.cycle_graph(r.randrange(3, 6)), nx.star_graph(r.randrange(1, 6)), nx.empty_graph(r.randrange(3))])
    lab = r.sample(range(-5, 60), g.number_of_nodes()); es = [(lab[u], lab[v]) for u, v in g.edges]; r.shuffle(es)
    h = nx.Graph(); h.add_nodes_from(lab); h.add_edges_from((v, u) if r.random() < .5 else (u, v) for u, v in es)
    judge(h, r.choice([None, 3, 4, 5, 8]), r.choice([None, 3, 4, 5, 8]))
