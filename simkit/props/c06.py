"""C06: the PC skeleton is order-independent whatever the tests answer."""
import hashlib
import itertools

import numpy as np

from .. import bridge
from ..common import InjectedFault, gen_sched, is_fault, r as rr, shrink_list
from ..models import NAME_KINDS, make_names

ID = 'C06'
QUICK, THOROUGH = 4000, 45000
RULE = ('A case is a table of symmetric p-values over 2-7 variables (a keyed hash of the query, with per-level '
        'independence rates, answers exactly at alpha, and tables that change answers of a DAG at random), a naming, and '
        'a history of searches: fits by one learner with permuted variable orders and other alphas, direct searches '
        'sharing one test object and its memory, test evaluations that raise, interrupts at a fraction of the library '
        'lines, and concurrent searches over the shared test object. Skeleton and separating sets of every completed '
        'search are compared with a direct implementation of the level-wise definition. Non-trivial: some but not all '
        'edges removed; distinct by table, orders, faults, switch points.')
MEASURE = 'distinct = different (p-value table, names, orders, fault points, context-switch points)'
REAL = ['PC', 'adjacency_search', 'PDAG orientation', 'ConditionalIndependentTest memo']
STUB = ['independence test answers (p-value table)', 'client threads scheduled by the simulator', 'node hashes']
BUDGET = 60_000_000


def setup():
    global PC, adjacency_search, Table
    from cdmir.discovery.constraint.adjacency_search import adjacency_search
    from cdmir.discovery.constraint.pc import PC
    from cdmir.utils.independence import ConditionalIndependentTest

    class Table(ConditionalIndependentTest):
        """Answers by variable identity, whatever column the variable is in."""
        def __init__(self, data, var_names=None, table=None, ident=None, fail=None):
            super().__init__(data, var_names=var_names)
            self.table, self.ident, self.fail = table, ident, fail

        def cal_stats(self, x_id, y_id, z_ids=None):
            if self.fail is not None:
                self.fail()
            v = self.ident
            return pvalue(self.table, v[x_id], v[y_id], [v[z] for z in (z_ids or ())]), 0.1


def pvalue(t, x, y, z):
    h = hashlib.sha256(repr((t['seed'], min(x, y), max(x, y), sorted(z))).encode()).digest()
    u = int.from_bytes(h[:6], 'big') / 2 ** 48
    rate = t['rates'][min(len(set(z)), len(t['rates']) - 1)]
    indep = u < rate
    v = int.from_bytes(h[6:12], 'big') / 2 ** 48
    a = t['alpha']
    if indep:
        return a if v < .2 else a + (1 - a) * v
    return a * v * .999


def reference(n, alpha, table):
    adj = {i: set(range(n)) - {i} for i in range(n)}
    sep = {}
    for k in range(n - 1):
        gone = {}
        for x, y in itertools.combinations(range(n), 2):
            if y not in adj[x]:
                continue
            s, hit = set(), False
            for a, b in ((x, y), (y, x)):
                for z in itertools.combinations(sorted(adj[a] - {b}), k):
                    if pvalue(table, x, y, z) >= alpha:
                        hit = True
                        s |= set(z)
            if hit:
                gone[(x, y)] = s
        for (x, y), s in gone.items():
            adj[x].discard(y)
            adj[y].discard(x)
            sep[(x, y)] = s
    return {frozenset((x, y)) for x in range(n) for y in adj[x]}, sep


def generate(r, tier):
    mode = r.choice(['serial', 'serial', 'serial', 'clients'])
    n = r.choice([2, 3, 4, 4, 5, 5, 6]) if mode == 'serial' else r.choice([3, 4, 4])
    big = mode == 'serial' and r.random() < .04
    if mode == 'serial' and r.random() < .05:
        n = 7
    if big:
        n = r.choice([8, 9, 10, 11])
    base = r.choice([.05, .1, .2, .3, .5])
    rates = [min(1, max(0, base * r.choice([0, .3, 1, 1, 1, 2, 3]))) for _ in range(5)]
    if big:
        rates[:2] = [.75, .6]
    alpha = r.choice([.05, .01, .3, .5])
    c = dict(mode=mode, n=n, table=dict(seed=r.getrandbits(40), rates=rates, alpha=alpha),
             names=r.choice(NAME_KINDS), nseed=r.getrandbits(30), ops=[])
    for _ in range(r.randint(1, 4) if mode == 'serial' else r.choice([2, 2, 3])):
        o = list(range(n))
        r.shuffle(o)
        op = dict(kind=r.choice(['fit', 'direct', 'direct']), order=o,
                  alpha=alpha if r.random() < .7 else r.choice([.02, .2, .4, .9]), fault=None)
        if mode == 'serial' and r.random() < .45:
            op['fault'] = [r.choice(['interrupt', 'memory', 'test', 'test']), r.random() ** r.choice([1, 2])]
        c['ops'].append(op)
    if mode == 'clients':
        c['sched'] = gen_sched(r, len(c['ops']))
        c['sched']['p'] = min(c['sched']['p'], .05)
    return c


def shrinks(c):
    for o in shrink_list(c['ops']):
        if o and (c['mode'] != 'clients' or len(o) > 1):
            yield dict(c, ops=o)
    if c['n'] > 2:
        n = c['n'] - 1
        yield dict(c, n=n, ops=[dict(o, order=[v for v in o['order'] if v < n]) for o in c['ops']])
    if c['names'] != 'int':
        yield dict(c, names='int')
    for i, o in enumerate(c['ops']):
        for k, v in (('fault', None), ('order', list(range(c['n']))), ('kind', 'fit')):
            if o[k] != v:
                yield dict(c, ops=c['ops'][:i] + [dict(o, **{k: v})] + c['ops'][i + 1:])


def describe(c):
    return f"{c['mode']} n={c['n']} table {c['table']} names={c['names']} ops " + \
        '; '.join(f"{o['kind']} order {o['order']} alpha {o['alpha']} {o['fault'] or ''}" for o in c['ops'])


def execute(c, ctx):
    n, t = c['n'], c['table']
    names = make_names(c['names'], n, c['nseed'])
    data = np.arange(3.0 * n).reshape(3, n)
    ctx.ident(n, t, c['names'], c['nseed'] if 'h' in c['names'] else 0)
    pc = PC(alpha=t['alpha'])
    shared = Table(data, names, table=t, ident=list(range(n)))
    want = {}

    def ref(alpha):
        if alpha not in want:
            want[alpha] = reference(n, alpha, t)
        return want[alpha]

    def judge(vs, graph, sep, alpha, what):
        sk, ws = ref(alpha)
        idx = {v: i for i, v in enumerate(names)}
        perm = [idx[v] for v in vs]
        order, D, U, other = bridge.read(graph, vs)
        gsk = {frozenset(perm[i] for i in e) for e in U}
        ctx.check(order, 'node-order', lambda: f'{what}: nodes {list(graph.nodes)}')
        ctx.check(not D and not other and gsk == sk, 'skeleton',
                  lambda: f'{what}: skeleton {sorted(map(sorted, gsk))} should be {sorted(map(sorted, sk))}')
        for (x, y), s in ws.items():
            for a, b in ((x, y), (y, x)):
                got = set(sep[(names[a], names[b])])
                ctx.check(got == {names[i] for i in s}, 'sep-set',
                          lambda: f'{what}: separating set of ({a}, {b}) is {got}, should be {s}')
        return gsk

    def do(op, k, pc, fail=None, fault=None):
        vs = [names[i] for i in op['order']]
        what = f"{op['kind']} {k} (n={n}, order {op['order']}, alpha {op['alpha']})"
        if op['kind'] == 'fit':
            pc.set_alpha(op['alpha'])
            res = ctx.call(lambda: pc.fit(data, vs, indep_cls=Table, table=t, ident=op['order'], fail=fail), fault=fault)
            out = lambda: (pc.skeleton, pc.sep_set, pc.causal_graph)
        else:
            shared.fail = fail
            try:
                res = ctx.call(lambda: adjacency_search(shared, vs, op['alpha']), fault=fault)
            finally:
                shared.fail = None
            out = lambda: (*res[1], None)
        return vs, what, res, out

    def finish(op, vs, what, res, out):
        ctx.check(res[0] == 'ok', 'error', lambda: f'{what} raised {rr(res)}')
        graph, sep, oriented = out()
        gsk = judge(vs, graph, sep, op['alpha'], what)
        if oriented is not None:
            order, D, U, other = bridge.read(oriented, vs)
            sk2 = [frozenset(op['order'][i] for i in e) for e in D] + [frozenset(op['order'][i] for i in e) for e in U]
            ctx.check(order and not other and len(sk2) == len(set(sk2)) and set(sk2) == gsk, 'orientation',
                      lambda: f'{what}: oriented graph {sorted(D)} {sorted(map(sorted, U))} {sorted(other)} for '
                              f'skeleton {sorted(map(sorted, gsk))}')
        return 0 < len(gsk) < n * (n - 1) // 2

    nt = False
    if c['mode'] == 'clients':
        def client(op, k):
            def run():
                ctx.op_point()
                finish(op, *do(op, k, PC(alpha=.1)))
            return run
        for op in c['ops']:
            ctx.ident(op)
        ctx.run_clients([client(o, k) for k, o in enumerate(c['ops'])], c['sched'])
        ctx.nontrivial = ctx.switches > 0
        return
    for k, op in enumerate(c['ops']):
        ctx.ident(op)
        if op['fault']:
            kind, frac = op['fault']
            calls = [0]

            def count():
                calls[0] += 1
            probe = shared
            shared = Table(data, names, table=t, ident=list(range(n)))
            lines, _ = ctx.count_lines(lambda: do(op, k, PC(alpha=.1), count))
            shared = probe
            if kind == 'test':
                at = 1 + int(frac * max(1, calls[0]))
                left = [at]

                def fail():
                    left[0] -= 1
                    if left[0] == 0:
                        raise InjectedFault('test failed')
                vs, what, res, out = do(op, k, pc, fail)
                fired = left[0] <= 0
                if fired:
                    ctx.fault('test_failure')
            else:
                vs, what, res, out = do(op, k, pc, None, [kind, 1 + int(frac * max(1, lines - 2))])
                fired = ctx.last_fired
            if fired:
                ctx.check(res[0] == 'exc' and is_fault(res[1]), 'fault-swallowed', lambda: f'{what} with {kind}: {rr(res)}')
            else:
                finish(op, vs, what, res, out)
        nt = finish(op, *do(op, k, pc)) or nt
    ctx.nontrivial = nt
