"""C22: orientation rules direct exactly what follows."""
import itertools

from .. import bridge, models
from ..common import gen_sched, is_fault, r as rr, shrink_list
from ..models import NAME_KINDS, make_names

ID = 'C22'
QUICK, THOROUGH = 6000, 120000
RULE = ('A case is one or two partially directed graphs (2-7 nodes, any node names and insertion order) and a history on each: '
        'orienting a skeleton with separating sets of a DAG, directing undirected edges of the class as some member has them '
        '(by overwriting, or removing and adding), single orientation rules in any order, closing under all rules (quiet or '
        'verbose), orientations of a copy cut by interrupts and failed allocations at a chosen library line; or arbitrary '
        'partially directed graphs, also with edges arrowed at both ends; or 2-3 concurrent clients orienting their own graphs. '
        'After every step the edges are compared with those shared by all members of the class that agree with the directions '
        'given (by enumeration). Non-trivial: an edge was directed by a rule; distinct by graphs, names, history, switch points.')
MEASURE = 'distinct = different (graphs, naming, history, fault and context-switch points)'
REAL = ['PDAG (rules 0-4, orient_by_meek_rules, create_complete_undirected_graph)', 'Graph']
STUB = ['client threads scheduled by the simulator', 'node hashes']
BUDGET = 20_000_000


def setup():
    global PDAG, Edge, Mark
    from cdmir.graph import Edge, Mark, PDAG


# ------------------------------------------------------------------ generation
def gen_one(r, small=False):
    if r.random() < .15:
        n = r.choice([2, 3, 4, 5, 6])
        p, q = r.choice([.3, .6, .9]), r.choice([.2, .5, .8])
        D, U, B = [], [], []
        for a, b in itertools.combinations(range(n), 2):
            if r.random() < p:
                if r.random() < q:
                    U.append([a, b])
                elif r.random() < .1:
                    B.append([a, b])
                else:
                    D.append(r.choice([[a, b], [b, a]]))
        r.shuffle(D), r.shuffle(U)
        return dict(kind='any', n=n, D=D, U=U, B=B, names=r.choice(NAME_KINDS), nseed=r.getrandbits(30),
                    ops=[dict(op='close', verbose=r.random() < .2)])
    if r.random() < .3:
        n = r.choice([4, 5, 5, 6])
        e = models.random_dag(r, n, r.choice([.6, .8, .9, 1]))
    else:
        n, e = models.gen_dag(r, 3, 5 if small else 6)
    q = r.random()
    if q > .95 and not small:
        n = r.choice([8, 9, 10, 11])
        e = models.random_dag(r, n, r.choice([1.5, 2., 2.5]) / n)
    if q < .6:      # no unshielded colliders: every new node's causes are connected to each other
        n, p = r.choice([3, 4, 4, 5, 5] if small else [3, 4, 4, 5, 5, 6]), r.choice([.5, .7, .9])
        o, pa = list(range(n)), {}
        r.shuffle(o)
        for i in range(n):
            pa[i] = []
            if i:
                j = r.randrange(i)
                pool = pa[j] + [j]
                r.shuffle(pool)
                for v in pool:
                    if not pa[i] or r.random() < p:
                        pa[i].append(v)
        e = [[o[v], o[i]] for i in range(n) for v in pa[i]]
        r.shuffle(e)
    ops = []
    if r.random() < .3:
        ops.append(dict(op='colliders', extra=r.random() < .5, verbose=r.random() < .2))
    for _ in range(r.randint(1, 7)):
        q = r.random()
        if q < .45:
            ops.append(dict(op='direct', pick=r.random(), how=r.choice(['over', 'remove']), turn=r.random() < .5))
        elif q < .7:
            ops.append(dict(op='close', verbose=r.random() < .15))
        elif q < .88:
            ops.append(dict(op='rule', k=r.choice([1, 2, 3, 4]), verbose=r.random() < .15))
        else:
            ops.append(dict(op='cut', kind=r.choice(['interrupt', 'memory']), at=r.random()))
    ops.append(dict(op='close', verbose=False))
    return dict(kind='class', n=n, edges=e, target=r.random(), names=r.choice(NAME_KINDS), nseed=r.getrandbits(30), ops=ops)


def generate(r, tier):
    if r.random() < .15:
        k = r.choice([2, 2, 3])
        return dict(mode='clients', graphs=[gen_one(r, True) for _ in range(k)], sched=gen_sched(r, k))
    return dict(mode='serial', graphs=[gen_one(r)])


def shrinks(c):
    if c['mode'] == 'clients':
        for g in c['graphs']:
            yield dict(mode='serial', graphs=[g])
    for i, g in enumerate(c['graphs']):
        def put(h):
            return dict(c, graphs=c['graphs'][:i] + [h] + c['graphs'][i + 1:])
        for o in shrink_list(g['ops']):
            if o:
                yield put(dict(g, ops=o))
        for k in ('edges', 'D', 'U', 'B'):
            for o in shrink_list(g.get(k, [])):
                yield put(dict(g, **{k: o}))
        used = {v for k in ('edges', 'D', 'U', 'B') for e in g.get(k, []) for v in e}
        if g['n'] - 1 not in used and g['n'] > 2:
            yield put(dict(g, n=g['n'] - 1))
        if g['names'] != 'int':
            yield put(dict(g, names='int'))


def describe(c):
    return f"{c['mode']} " + ' || '.join(f"{g['kind']} {g.get('edges') or (g.get('D'), g.get('U'), g.get('B'))} {g['ops']}" for g in c['graphs'])


# ------------------------------------------------------------------- reference
def shared(members, K):
    """Edges that all members agreeing with the directions K have in common."""
    ms = [m for m in members if K <= m]
    return frozenset.intersection(*ms)


def open_rule(n, D, U, other):
    """A rule that still applies to an undirected edge, by the textbook conditions."""
    adj = models.adjacency(n, list(D) + [tuple(e) for e in U] + list(other))
    for e in U:
        for a, b in (tuple(e), tuple(e)[::-1]):
            rest = [v for v in range(n) if v not in (a, b)]
            und = lambda x, y: frozenset((x, y)) in U
            if any((c, a) in D and c not in adj[b] for c in rest):
                return 1, a, b
            if any((a, c) in D and (c, b) in D for c in rest):
                return 2, a, b
            if any(und(a, c) and und(a, d) and (c, b) in D and (d, b) in D and d not in adj[c] for c, d in itertools.combinations(rest, 2)):
                return 3, a, b
            if any(und(a, d) and (d, c) in D and (c, b) in D and c in adj[a] and d not in adj[b] for c in rest for d in rest if c != d):
                return 4, a, b
    return None


# ------------------------------------------------------------------- execution
class Subject:
    """One graph under orientation, next to the record of what is known about it."""

    def __init__(self, ctx, s, who):
        self.ctx, self.s, self.who, self.n = ctx, s, who, s['n']
        self.names = make_names(s['names'], s['n'], s['nseed'])
        ctx.ident({k: v for k, v in s.items() if k != 'nseed'}, s['nseed'] if 'h' in s['names'] else 0)
        if s['kind'] == 'any':
            self.D, self.U = frozenset(map(tuple, s['D'])), frozenset(map(frozenset, s['U']))
            self.B = [tuple(e) for e in s['B']]
        else:
            self.members = models.equivalents(self.n, s['edges'])
            self.target = self.members[int(s['target'] * len(self.members))]
            self.D, self.U = models.cpdag(self.n, s['edges'])
            self.B = []
        self.K = self.D
        self.g = self.build()
        self.found = 0

    def build(self):
        g = bridge.build_pdag(self.n, sorted(self.D), sorted(map(sorted, self.U)), self.names)
        for a, b in self.B:
            g.add_edge(Edge(self.names[a], self.names[b], Mark.Arrow, Mark.Arrow))
        return g

    def look(self, what, g=None):
        ok, D, U, other = bridge.read(g or self.g, self.names)
        self.ctx.check(ok, 'node-order', lambda: f'{self.who} {what}: nodes are {list(self.g.nodes)}')
        self.ctx.check({(a, b) for a, b, *_ in other} | {(b, a) for a, b, *_ in other} ==
                       set(self.B) | {e[::-1] for e in self.B}, 'marks', lambda: f'{self.who} {what}: other edges {sorted(other)}')
        sk = {frozenset(e) for e in self.D} | self.U
        self.ctx.check({frozenset(e) for e in D} | U == sk, 'adjacencies',
                       lambda: f'{self.who} {what}: {models.fmt_pdag(D, U)}, before {models.fmt_pdag(self.D, self.U)}')
        self.ctx.check(D >= self.D, 'direction-lost',
                       lambda: f'{self.who} {what}: {models.fmt_pdag(D, U)}, before {models.fmt_pdag(self.D, self.U)}')
        return D, U

    def run(self, op):
        ctx, g, what = self.ctx, self.g, f"{op['op']}{op.get('k', '')} on {models.fmt_pdag(self.D, self.U)}"
        if op['op'] == 'colliders':
            return self.colliders(op)
        if op['op'] == 'direct':
            todo = sorted(map(sorted, self.U))
            if not todo:
                return
            a, b = todo[int(op['pick'] * len(todo))]
            if (a, b) not in self.target:
                a, b = b, a
            e = Edge(self.names[a], self.names[b], Mark.Tail, Mark.Arrow)
            if op['turn']:
                e = Edge(self.names[b], self.names[a], Mark.Arrow, Mark.Tail)
            if op['how'] == 'remove':
                g.remove_edge(self.names[a], self.names[b])
                g.add_edge(e)
            else:
                g.add_edge(e, overwrite=True)
            self.D, self.U = self.D | {(a, b)}, self.U - {frozenset((a, b))}
            self.K = self.K | {(a, b)}
            return
        if op['op'] == 'cut':
            lines, res = ctx.count_lines(self.build().orient_by_meek_rules)
            spare = self.build()
            res = ctx.call(spare.orient_by_meek_rules, fault=[op['kind'], 1 + int(op['at'] * max(0, lines - 1))])
            if ctx.last_fired:
                ctx.check(res[0] == 'exc' and is_fault(res[1]), 'fault-swallowed', lambda: f'{self.who} {what}: {rr(res)}')
            self.look('after an interrupted orientation of a copy')
            return
        if op['op'] == 'rule':
            res = ctx.call(lambda: getattr(g, f"rule{op['k']}")(verbose=op['verbose']))
            ctx.check(res[0] == 'ok', 'error', lambda: f'{self.who} {what} raised {rr(res)}')
        else:
            res = ctx.call(lambda: g.orient_by_meek_rules(verbose=op['verbose']))
            ctx.check(res[0] == 'ok', 'error', lambda: f'{self.who} {what} raised {rr(res)}')
        D, U = self.look(what)
        if op['op'] == 'rule':
            ctx.check(bool(res[1]) == (D != self.D), 'report',
                      lambda: f'{self.who} {what}: reports {res[1]}, graph now {models.fmt_pdag(D, U)}')
        if self.s['kind'] == 'class':
            want = shared(self.members, self.K)
            ctx.check(D <= want, 'unsound', lambda: f'{self.who} {what}: {models.fmt_pdag(D, U)} with {sorted(self.K)} given; only '
                                                    f'{sorted(want)} follow')
            if op['op'] == 'close':
                ctx.check(D == want, 'incomplete', lambda: f'{self.who} {what}: {models.fmt_pdag(D, U)} with {sorted(self.K)} given; '
                                                           f'{sorted(want)} follow')
        elif op['op'] == 'close':
            left = open_rule(self.n, D, U, self.B)
            ctx.check(left is None, 'incomplete', lambda: f'{self.who} {what}: {models.fmt_pdag(D, U)}; rule {left} applies')
        self.found += len(D - self.D)
        self.D, self.U = D, U
        ctx.event(self.who + op['op'])

    def colliders(self, op):
        """Skeleton by removing edges from the complete graph, then colliders from separating sets."""
        ctx, n, names = self.ctx, self.n, self.names
        edges = [tuple(e) for e in self.s['edges']]
        adj = models.adjacency(n, edges)
        g = PDAG(names)
        res = ctx.call(g.create_complete_undirected_graph)
        ctx.check(res[0] == 'ok' and bridge.read(g, names)[1:] ==
                  (frozenset(), frozenset(map(frozenset, itertools.combinations(range(n), 2))), frozenset()), 'complete-graph',
                  lambda: f'{self.who}: {rr(res)} {bridge.read(g, names)}')
        sep = {}
        for a, b in itertools.combinations(range(n), 2):
            if b in adj[a]:
                continue
            g.remove_edge(names[a], names[b])
            # the parents of the later one; also the union with other separating sets, as the searches record it
            first = next(p for p in ({x for x, y in edges if y == a}, {x for x, y in edges if y == b})
                         if not {a, b} & p and models.dsep(n, edges, a, b, p))
            z = set(first)
            if op['extra']:
                for k in range(n):
                    t = {v for v in adj[a] if v != b and (v * 5 + k) % 3}
                    if models.dsep(n, edges, a, b, t):
                        z |= t
            sep[names[a], names[b]] = sep[names[b], names[a]] = {names[v] for v in z}
        res = ctx.call(lambda: g.rule0(sep, verbose=op['verbose']))
        ctx.check(res[0] == 'ok', 'error', lambda: f'{self.who} rule0 raised {rr(res)}')
        ok, D, U, other = bridge.read(g, names)
        want = {e for a, c, b in models.vstructs(n, edges) for e in ((a, c), (b, c))}
        sk = {frozenset(e) for e in edges}
        ctx.check(ok and D == want and U == sk - {frozenset(e) for e in want} and not other, 'colliders',
                  lambda: f'{self.who}: skeleton of {edges} with {sep}: {models.fmt_pdag(D, U)}, colliders are {sorted(want)}')
        self.g, self.D, self.U, self.K = g, D, U, self.K & frozenset() | D


def execute(c, ctx):
    subjects = [Subject(ctx, s, f'graph {i}') for i, s in enumerate(c['graphs'])]
    if c['mode'] == 'serial':
        for op in subjects[0].s['ops']:
            subjects[0].run(op)
    else:
        def client(t):
            def run():
                for op in t.s['ops']:
                    if op['op'] != 'cut':
                        ctx.op_point()
                        t.run(op)
            return run
        ctx.run_clients([client(t) for t in subjects], c['sched'])
    ctx.nontrivial = any(t.found for t in subjects)
