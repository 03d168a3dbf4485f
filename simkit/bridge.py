"""Between the reference models (index pairs) and the real graph classes."""


def build_digraph(n, edges, names):
    from cdmir.graph import DiGraph, Edge
    g = DiGraph(names)
    for a, b in edges:
        g.add_edge(Edge(names[a], names[b]))
    return g


def build_pdag(n, D, U, names, flip=()):
    from cdmir.graph import PDAG, Edge, Mark
    g = PDAG(names)
    for k, (a, b) in enumerate(D):
        if k in flip:
            g.add_edge(Edge(names[b], names[a], Mark.Arrow, Mark.Tail))
        else:
            g.add_edge(Edge(names[a], names[b], Mark.Tail, Mark.Arrow))
    for e in U:
        a, b = e
        g.add_edge(Edge(names[a], names[b], Mark.Tail, Mark.Tail))
    return g


def read(g, names):
    """(node order ok, directed pairs, undirected pairs, other edges) through the public views."""
    from cdmir.graph import Mark
    idx = {}
    for i, x in enumerate(names):
        idx[(type(x), x)] = i
    nodes = list(g.nodes)
    order_ok = len(nodes) == len(names) and all(type(a) is type(b) and a == b for a, b in zip(nodes, names))
    D, U, other = set(), set(), set()
    for e in g.edges:
        a, b = idx[(type(e.node_u), e.node_u)], idx[(type(e.node_v), e.node_v)]
        mu, mv = e.mark_u, e.mark_v
        if mu == Mark.Tail and mv == Mark.Arrow:
            D.add((a, b))
        elif mu == Mark.Arrow and mv == Mark.Tail:
            D.add((b, a))
        elif mu == Mark.Tail and mv == Mark.Tail:
            U.add(frozenset((a, b)))
        else:
            other.add((a, b, int(mu), int(mv)))
    return order_ok, frozenset(D), frozenset(U), frozenset(other)


def snapshot(g):
    """Everything observable about a graph, for input-untouched checks."""
    return (list(g.nodes), [(e.node_u, e.node_v, int(e.mark_u), int(e.mark_v)) for e in g.edges],
            g.to_numpy().tolist(), [list(g.get_neighbours(u)) for u in g.nodes])
