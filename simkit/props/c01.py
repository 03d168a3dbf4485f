"""C01: a graph is exactly the history of the edits it accepted."""
import copy
import itertools
import random
import warnings

from ..core import InjectedFault
from ..models import NAME_KINDS, make_names

ID = 'C01'
QUICK, THOROUGH = 6000, 60000
RULE = ('A case is a history of 8-60 edits (single and batched, one to three graphs, one of three graph kinds, eleven '
        'node-name kinds) with rejected edits, failing suppliers and warnings-as-errors mixed in; after all or some edits all '
        'views are compared with a dictionary model. Non-trivial: at least one edit was accepted and one rejected or '
        'failed part-way; distinct by the sequence of edits with their outcomes.')
MEASURE = 'distinct = different sequences of (edit, outcome)'
REAL = ['cdmir.graph (Graph, DiGraph, PDAG, Edge, Mark), numpy and pandas views']
STUB = ['item suppliers (generators that fail at a chosen item)', 'node objects with simulator-chosen hashes',
        'warning filter']
T, A, C, N = -1, 1, 2, 0


def setup():
    global G
    import cdmir.graph as G


# ------------------------------------------------------------------ generator
def _edge(r, m):
    if r.recent and r.random() < r.again:
        u, v = r.choice(r.recent)
        if r.random() < .5:
            u, v = v, u
        return [u, v] + _marks(r)
    u = r.randrange(m)
    v = r.randrange(m - 1)
    v = v + 1 if v >= u else v
    r.recent = (r.recent + [(u, v)])[-12:]
    return [u, v] + _marks(r)


def _marks(r):
    kind = r.random()
    if kind < .6:
        mu, mv = T, A
    elif kind < .75:
        mu, mv = T, T
    elif kind < .85:
        mu, mv = A, T
    else:
        mu, mv = r.choice([(A, A), (C, A), (C, C), (T, C), (A, C), (C, T)])
    return [mu, mv]


def _op(r, m):
    k = r.random()
    g = 0 if r.random() < .7 else r.randrange(3)
    if k < .12:
        return ['add_node', g, r.randrange(m)]
    if k < .20:
        return ['add_nodes', g, [r.randrange(m) for _ in range(_many(r, 4))], _supply(r)]
    if k < .50:
        return ['add_edge', g, _edge(r, m), r.random() < .3]
    if k < .62:
        if r.random() < .06:        # a long batch that is fine for long
            es = [r.sample(p, 2) + [T, A] for p in itertools.combinations(range(m), 2)]
            r.shuffle(es)
            es = es[:r.randint(1, 25)]
            return ['add_edges', g, es + [list(r.choice(es)) for _ in range(r.choice([0, 1]))], r.random() < .4, _supply(r)]
        return ['add_edges', g, [_edge(r, m) for _ in range(_many(r, 5))], r.random() < .4, _supply(r)]
    if k < .70:
        return ['remove_node', g, r.randrange(m)]
    if k < .76:
        if r.random() < .4:
            return ['remove_live', g, r.choice(['all', 'even', 'isolated'])]
        return ['remove_nodes', g, r.sample(range(m), min(m, _many(r, 3))), _supply(r)]
    if k < .88:
        e = _edge(r, m)
        return ['remove_edge', g, e[0], e[1]]
    if k < .92:
        return ['fork', g, r.randrange(3)]
    if k < .95:
        return ['new', g, r.choice(['Graph', 'DiGraph', 'PDAG']), [r.randrange(m) for _ in range(r.randint(0, 5))],
                r.random() < .8]
    if k < .97:
        return ['complete', g]
    return ['strict', r.random() < .5]


def _many(r, k):
    return r.randint(0, k) if r.random() < .93 else r.randint(k, 5 * k)


def _supply(r):
    k = r.random()
    if k < .4:
        return 'list'
    if k < .6:
        return 'tuple'
    if k < .75:
        return 'gen'
    return ['fail', r.randint(0, 4), r.choice(['InjectedFault', 'KeyboardInterrupt', 'MemoryError'])]


def generate(r, tier):
    m = r.randint(2, 9) if r.random() < .93 else r.randint(10, 30)
    r.recent, r.again = [], .1 if m < 10 else .6
    return dict(names=r.choice(NAME_KINDS), nseed=r.getrandbits(30), m=m,
                kind=r.choice(['Graph', 'DiGraph', 'DiGraph', 'PDAG', 'PDAG']),
                start=r.randint(0, m), ops=[_op(r, m) for _ in range(r.randint(8, 60))], look=r.choice([1, 1, .5, .2]))


def shrinks(c):
    ops = c['ops']
    k = len(ops)
    size = max(1, k // 2)
    while size >= 1:
        for i in range(0, k, size):
            yield dict(c, ops=ops[:i] + ops[i + size:])
        if size == 1:
            break
        size //= 2
    for i, o in enumerate(ops):
        for j, x in enumerate(o):
            if isinstance(x, list) and x and isinstance(x[0], (int, list)):
                for t in range(len(x)):
                    if o[0] in ('add_edge',):
                        break
                    yield dict(c, ops=ops[:i] + [o[:j] + [x[:t] + x[t + 1:]] + o[j + 1:]] + ops[i + 1:])
    if c['names'] != 'int':
        yield dict(c, names='int')
    if c['look'] != 1:
        yield dict(c, look=1)


def describe(c):
    return f"{c['kind']} over {c['m']} {c['names']} nodes: " + '; '.join(str(o) for o in c['ops'][:14]) + \
        (' ...' if len(c['ops']) > 14 else '')


# ------------------------------------------------------------------ model
class Model:
    def __init__(self, kind, nodes):
        self.kind = kind
        self.nodes = list(nodes)
        self.end = {}           # (u, v) -> mark at v

    def copy(self):
        m = Model(self.kind, self.nodes)
        m.end = dict(self.end)
        return m

    def ok_marks(self, mu, mv):
        if self.kind == 'DiGraph':
            return mu == T and mv == A
        if self.kind == 'PDAG':
            return mu in (T, A) and mv in (T, A)
        return True

    def add_node(self, u):
        if u in self.nodes:
            return 'warn'
        self.nodes.append(u)

    def add_edge(self, e, over):
        u, v, mu, mv = e
        if not self.ok_marks(mu, mv) or u not in self.nodes or v not in self.nodes:
            return 'reject'
        if (u, v) in self.end and not over:
            return 'reject'
        self.end[u, v], self.end[v, u] = mv, mu

    def remove_node(self, u):
        if u not in self.nodes:
            return 'reject'
        self.nodes.remove(u)
        self.end = {k: x for k, x in self.end.items() if u not in k}

    def remove_edge(self, u, v):
        if u not in self.nodes or v not in self.nodes:
            return 'reject'
        if (u, v) not in self.end:
            return 'warn'
        del self.end[u, v], self.end[v, u]


LM = {T: '-', A: '<', C: 'o'}
RM = {T: '-', A: '>', C: 'o'}


def diff(g, m, names, full=True):
    """None if every view of g shows model m, else what differs."""
    want = [names[i] for i in m.nodes]
    got = list(g.nodes)
    if len(got) != len(want) or any(type(a) is not type(b) or a != b for a, b in zip(got, want)):
        return f'nodes {got} != {want}'
    if g.number_of_nodes() != len(want):
        return 'number_of_nodes'
    edges = []
    for i, u in enumerate(m.nodes):
        for v in m.nodes[i + 1:]:
            if (u, v) in m.end:
                edges.append((names[u], names[v], m.end[v, u], m.end[u, v]))
    ge = [(e.node_u, e.node_v, int(e.mark_u), int(e.mark_v)) for e in g.edges]
    if ge != edges:
        return f'edges {ge} != {edges}'
    if g.number_of_edges() != len(edges):
        return 'number_of_edges'
    pos = {u: i for i, u in enumerate(m.nodes)}
    mat = g.to_numpy()
    n = len(want)
    if mat.shape != (n, n):
        return f'matrix shape {mat.shape}'
    exp = [[0] * n for _ in range(n)]
    for (u, v), mk in m.end.items():
        exp[pos[v]][pos[u]] = mk
    if mat.tolist() != exp:
        return f'matrix {mat.tolist()} != {exp}'
    if not full:
        return None
    if n and g.to_numpy(transpose=True).tolist() != [list(x) for x in zip(*exp)]:
        return 'transposed matrix'
    df = g.to_dataframe()
    if df.values.tolist() != exp or len(df.index) != n or len(df.columns) != n:
        return 'data frame'
    if not any(isinstance(x, tuple) for x in want) and (list(df.index) != want or list(df.columns) != want):
        if not any(x is None or isinstance(x, float) for x in want):
            return f'data frame labels {list(df.index)} {list(df.columns)}'
    text = str(g).split('\n')
    el = [f'{i + 1}. {u} {LM[mu]}-{RM[mv]} {v}' for i, (u, v, mu, mv) in enumerate(edges)]
    if [x for x in text[4:] if x] != el or text[2] != ', '.join(str(x) for x in want):
        return f'text {text}'
    for u in m.nodes:
        nb = list(g.get_neighbours(names[u]))
        exp_nb = [v for v in m.nodes if (u, v) in m.end]
        if len(nb) != len(exp_nb) or set(nb) != {names[v] for v in exp_nb}:
            return f'neighbours of {names[u]}: {nb}'
        if m.kind == 'DiGraph':
            pa = [v for v in m.nodes if m.end.get((v, u)) == A]
            ch = [v for v in m.nodes if m.end.get((u, v)) == A]
            gp, gc = list(g.get_parents(names[u])), list(g.get_children(names[u]))
            if set(gp) != {names[v] for v in pa} or len(gp) != len(pa) or set(gc) != {names[v] for v in ch} \
                    or len(gc) != len(ch) or g.in_degree(names[u]) != len(pa) or g.out_degree(names[u]) != len(ch):
                return f'parents/children of {names[u]}: {gp} {gc}'
        for v in m.nodes:
            if u == v:
                continue
            c = (u, v) in m.end
            mv, mu = m.end.get((u, v)), m.end.get((v, u))
            a, b = names[u], names[v]
            e = g.get_edge(a, b)
            if c != (e is not None) or (e is not None and (e.node_u != a or e.node_v != b or int(e.mark_u) != mu
                                                           or int(e.mark_v) != mv)):
                return f'get_edge({a},{b}) = {e}'
            if (bool(g.is_connected(a, b)), bool(g.is_arrow(a, b)), bool(g.is_tail(a, b)), bool(g.is_circle(a, b)),
                bool(g.is_fully_directed(a, b)), bool(g.is_fully_undirected(a, b))) != \
                    (c, mv == A, mv == T, mv == C, c and mu == T and mv == A, c and mu == T and mv == T):
                return f'predicates of ({a},{b})'
    return None


# ------------------------------------------------------------------ execution
EXC = dict(InjectedFault=InjectedFault, KeyboardInterrupt=KeyboardInterrupt, MemoryError=MemoryError)


def _supplier(items, kind, ctx):
    if kind == 'list':
        return list(items)
    if kind == 'tuple':
        return tuple(items)
    if kind == 'gen':
        return (x for x in items)
    _, at, ex = kind

    def failing():
        for i, x in enumerate(items):
            if i == at:
                raise EXC[ex]('supplier failed')
            yield x
        if at >= len(items):
            raise EXC[ex]('supplier failed')
    return failing()


def execute(c, ctx):
    names = make_names(c['names'], c['m'], c['nseed'])
    M = G.Mark

    def E(e):
        if (e[2], e[3]) == (T, A) and (e[0] + e[1]) % 2:
            return G.Edge(names[e[0]], names[e[1]])
        return G.Edge(names[e[0]], names[e[1]], M(e[2]), M(e[3]))

    def new(kind, nodes):
        return getattr(G, kind)(nodes)

    start = list(range(c['start']))
    src = [names[i] for i in start]
    g0 = new(c['kind'], src) if start else new(c['kind'], None)
    src.append('scribble')          # the caller's list is not the graph's
    gs = [(g0, Model(c['kind'], start)), None, None]
    strict = False
    accepted = rejected = 0

    eyes = random.Random(c['nseed'])

    def check_all(where, sure=False):      # not after every edit: what one look leaves behind must not hide from the next
        for s in gs:
            if s is not None and (sure or eyes.random() < c['look']):
                d = diff(s[0], s[1], names)
                ctx.check(d is None, 'view-mismatch', lambda: f'after {where}: {d}')

    check_all('construction')
    for op in c['ops']:
        name = op[0]
        if name == 'strict':
            strict = op[1]
            if strict:
                ctx.fault('warnings_as_errors')
            continue
        slot = op[1]
        if name == 'new':
            nodes = [names[i] for i in op[3]]
            r = ctx.call(lambda: new(op[2], nodes if op[4] else iter(nodes)))
            dup = len(set(op[3])) != len(op[3])
            ctx.check((r[0] == 'exc') == dup, 'construct', lambda: f'{op} -> {r}')
            if r[0] == 'ok':
                gs[slot] = (r[1], Model(op[2], op[3]))
            ctx.ident('new', op[2], dup)
            check_all(op)
            continue
        if gs[slot] is None:
            continue
        g, m = gs[slot]
        if name == 'fork':
            r = ctx.call(lambda: copy.deepcopy(g))
            ctx.check(r[0] == 'ok', 'fork', lambda: f'deepcopy -> {r}')
            if op[2] != slot:
                gs[op[2]] = (r[1], m.copy())
            check_all(op)
            continue
        steps = None       # batch: list of single-step functions on the model
        sup = None
        if name == 'add_node':
            fn = lambda: g.add_node(names[op[2]])
            steps = [lambda mm: mm.add_node(op[2])]
        elif name == 'add_nodes':
            sup = _supplier([names[i] for i in op[2]], op[3], ctx)
            fn = lambda: g.add_nodes(sup)
            steps = [lambda mm, i=i: mm.add_node(i) for i in op[2]]
        elif name == 'add_edge':
            fn = (lambda: g.add_edge(E(op[2]), overwrite=True)) if op[3] else (lambda: g.add_edge(E(op[2])))
            steps = [lambda mm: mm.add_edge(op[2], op[3])]
        elif name == 'add_edges':
            sup = _supplier([E(e) for e in op[2]], op[4], ctx)
            fn = lambda: g.add_edges(sup, overwrite=op[3])
            steps = [lambda mm, e=e: mm.add_edge(e, op[3]) for e in op[2]]
        elif name == 'remove_node':
            fn = lambda: g.remove_node(names[op[2]])
            steps = [lambda mm: mm.remove_node(op[2])]
        elif name == 'remove_nodes':
            sup = _supplier([names[i] for i in op[2]], op[3], ctx)
            fn = lambda: g.remove_nodes_from(sup)
            steps = [lambda mm, i=i: mm.remove_node(i) for i in op[2]]
        elif name == 'remove_live':
            if op[2] == 'all':
                fn = lambda: g.remove_nodes_from(g.nodes)
                ids = list(m.nodes)
            elif op[2] == 'even':
                fn = lambda: g.remove_nodes_from(x for x in g.nodes if ev(x))
                evs = {names[i] for i in m.nodes if i % 2 == 0}
                ev = evs.__contains__
                ids = [i for i in m.nodes if i % 2 == 0]
            else:
                ids = [i for i in m.nodes if not any(i == k[0] for k in m.end)]
                iso = {names[i] for i in ids}
                fn = lambda: g.remove_nodes_from(x for x in g.nodes if x in iso)
            steps = [lambda mm, i=i: mm.remove_node(i) for i in ids]
        elif name == 'remove_edge':
            fn = lambda: g.remove_edge(names[op[2]], names[op[3]])
            steps = [lambda mm: mm.remove_edge(op[2], op[3])]
        elif name == 'complete':
            if m.kind != 'PDAG' or m.end:
                continue
            fn = lambda: g.create_complete_undirected_graph()
            steps = [lambda mm, a=a, b=b: mm.add_edge([a, b, T, T], False)
                     for k, a in enumerate(m.nodes) for b in m.nodes[k + 1:]]
        fails_at = None
        fkind = op[-1] if isinstance(op[-1], list) and op[-1] and op[-1][0] == 'fail' else None
        if fkind is not None:
            fails_at = min(fkind[1], len(steps))
        # what the model says
        mm = m.copy()
        prefixes = [m.copy()]
        err = False
        for i, s in enumerate(steps):
            if fails_at == i:
                err = True
                break
            o = s(mm)
            if o == 'reject' or (o == 'warn' and strict):
                err = True
                break
            prefixes.append(mm.copy())
        else:
            if fails_at is not None:
                err = True
        with warnings.catch_warnings():
            warnings.simplefilter('error' if strict else 'ignore')
            r = ctx.call(fn)
        if fkind is not None:
            ctx.fault('supplier_failure')
        if err:
            rejected += 1
            if fkind is None:
                ctx.fault('rejected_edit')
            ctx.check(r[0] == 'exc', 'not-rejected', lambda: f'{op} should fail but returned')
            for mm2 in prefixes if name not in ('add_node', 'add_edge', 'remove_node', 'remove_edge') else prefixes[:1]:
                if diff(g, mm2, names, full=False) is None:
                    gs[slot] = (g, mm2)
                    break
            else:
                ctx.violate('not-a-prefix', f'{op}: the graph shows no prefix of the batch: ' +
                            str(diff(g, prefixes[-1], names)))
        else:
            accepted += 1
            ctx.check(r[0] == 'ok', 'refused', lambda: f'{op} should succeed but raised {r[1]!r}')
            gs[slot] = (g, mm)
        ctx.ident(op, r[0])
        check_all(op)
    check_all('the history', True)
    ctx.nontrivial = accepted > 0 and rejected > 0
