"""C03: the equivalence-class graph of a DAG is exactly its CPDAG."""
from .. import bridge, models
from ..common import gen_sched, is_fault, r as rr, shrink_list
from ..models import NAME_KINDS, make_names

ID = 'C03'
QUICK, THOROUGH = 5000, 45000
RULE = ('A case is a random DAG (2-9 nodes, all densities, plus shapes built to exercise each orientation rule), a '
        'node-name kind with simulator-chosen hashes, and one of: a plain conversion; attempts interrupted at a chosen '
        'fraction of their library lines and then repeated; 2-3 clients converting and querying the same graph under a '
        'seeded schedule; conversion of another member of the same class. Compared with colliders + Meek closure on '
        'index sets (itself checked against enumeration). Non-trivial: at least one directed and one undirected edge, '
        'or a fault or interleaving; distinct by graph, names and schedule.')
MEASURE = 'distinct = different (DAG, naming, fault points, context-switch points)'
REAL = ['cdmir.graph.dag2cpdag', 'cdmir.graph.PDAG orientation rules', 'cdmir.graph.DiGraph']
STUB = ['client threads scheduled by the simulator', 'node hashes']
BUDGET = 20_000_000


def setup():
    global dag2cpdag
    from cdmir.graph.dag2cpdag import dag2cpdag


def generate(r, tier):
    if r.random() < .18:        # dense graphs, where orientation rules interact before the closure is complete
        n = r.choice([6, 7, 7, 7, 7, 8]) if r.random() < .9 else 8
        return dict(n=n, edges=[], names='int', nseed=0, mode='dense',
                    dags=[models.random_dag(r, n, r.choice([.5, .6, .7, .8, .8, .85])) for _ in range(8 if n < 8 else 3)])
    mode = r.choice(['plain', 'plain', 'plain', 'member', 'faults', 'clients'])
    big = mode in ('plain', 'member')
    hi = 6 if big else 5
    if big and r.random() < .12:
        hi = 7
    if big and r.random() < .02:
        hi = 9
    n, e = models.gen_dag(r, 2 if hi < 7 else hi, hi)
    if big and r.random() < .35:        # 6+ nodes, medium density: rule interplay
        n, e = 6, models.random_dag(r, 6, r.choice([.4, .5, .6, .7]))
    c = dict(n=n, edges=e, names=r.choice(NAME_KINDS), nseed=r.getrandbits(30), mode=mode)
    if mode == 'faults':
        c['faults'] = [[r.choice(['interrupt', 'memory']), r.random() ** r.choice([1, 2])] for _ in range(r.randint(1, 3))]
    if mode == 'clients':
        k = r.choice([2, 2, 3])
        c['clients'] = [r.choice(['convert', 'convert', 'query']) for _ in range(k)]
        c['sched'] = gen_sched(r, k)
        c['sched']['p'] = min(c['sched']['p'], .05)
    if mode == 'member':
        c['pick'] = r.random()
    return c


def shrinks(c):
    if c['mode'] == 'dense':
        for d in c['dags']:
            yield dict(c, dags=[d])
        for i, d in enumerate(c['dags']):
            for e in shrink_list(d):
                yield dict(c, dags=c['dags'][:i] + [e] + c['dags'][i + 1:])
        used = {v for d in c['dags'] for e in d for v in e}
        if c['n'] - 1 not in used and c['n'] > 2:
            yield dict(c, n=c['n'] - 1)
        return
    for e in shrink_list(c['edges']):
        yield dict(c, edges=e)
    used = {v for e in c['edges'] for v in e}
    if c['n'] - 1 not in used and c['n'] > 2:
        yield dict(c, n=c['n'] - 1)
    if c['mode'] != 'plain':
        yield {k: v for k, v in dict(c, mode='plain').items() if k not in ('sched', 'faults', 'clients', 'pick')}
    if c['names'] != 'int':
        yield dict(c, names='int')
    for f in shrink_list(c.get('faults', [])):
        yield dict(c, faults=f)


def describe(c):
    if c['mode'] == 'dense':
        return 'dense ' + ' | '.join(models.fmt_dag(c['n'], d) for d in c['dags'])
    return f"{c['mode']} {models.fmt_dag(c['n'], c['edges'])} names={c['names']} faults={c.get('faults')} " \
           f"clients={c.get('clients')}"


def judge(ctx, c, n, edges, g, names, res, what):
    ctx.check(res[0] == 'ok', 'error', lambda: f'{what} of {models.fmt_dag(n, edges)} raised {rr(res)}')
    order, D, U, other = bridge.read(res[1], names)
    wD, wU = models.cpdag(n, edges)
    ctx.check(order, 'node-order', lambda: f'{what}: nodes {list(res[1].nodes)} for {names}')
    ctx.check((D, U) == (wD, wU) and not other, 'cpdag',
              lambda: f'{what} of {models.fmt_dag(n, edges)} names={c["names"]}: got {models.fmt_pdag(D, U)} '
                      f'{sorted(other)}, should be {models.fmt_pdag(wD, wU)}')
    return D, U


def execute(c, ctx):
    if c['mode'] == 'dense':
        names = list(range(c['n']))
        for d in c['dags']:
            d = [tuple(e) for e in d]
            ctx.ident(models.fmt_dag(c['n'], d))
            g = bridge.build_digraph(c['n'], d, names)
            judge(ctx, c, c['n'], d, g, names, ctx.call(lambda: dag2cpdag(g)), 'conversion')
        ctx.nontrivial = True
        return
    n, edges = c['n'], [tuple(e) for e in c['edges']]
    names = make_names(c['names'], n, c['nseed'])
    g = bridge.build_digraph(n, edges, names)
    before = bridge.snapshot(g)
    ctx.ident(models.fmt_dag(n, edges), c['names'], c['nseed'] if 'h' in c['names'] else 0, c['mode'])

    def untouched(what):
        ctx.check(bridge.snapshot(g) == before, 'input-changed',
                  lambda: f'{what} changed its input {models.fmt_dag(n, edges)}')

    if c['mode'] == 'clients':
        def client(kind, k):
            def run():
                if kind == 'convert':
                    ctx.op_point()
                    judge(ctx, c, n, edges, g, names, ctx.call(lambda: dag2cpdag(g)), f'client {k} conversion')
                else:
                    for x in range(n):
                        for y in range(n):
                            if x != y:
                                ctx.op_point()
                                z = [v for v in range(n) if v not in (x, y) and (v * 7 + x + y) % 3 == 0]
                                res = ctx.call(lambda: g.is_d_separate(names[x], names[y], [names[i] for i in z]))
                                w = models.dsep(n, edges, x, y, z)
                                ctx.check(res == ('ok', w), 'query', lambda: f'd-sep {x} {y} {z}: {rr(res)} should be {w}')
            return run
        ctx.run_clients([client(k, i) for i, k in enumerate(c['clients'])], c['sched'])
        untouched('concurrent conversion')
        ctx.nontrivial = ctx.switches > 0
        return
    if c['mode'] == 'faults':
        lines, res = ctx.count_lines(lambda: dag2cpdag(g))
        judge(ctx, c, n, edges, g, names, res, 'conversion')
        for kind, frac in c['faults']:
            at = 1 + int(frac * max(1, lines - 1))
            res = ctx.call(lambda: dag2cpdag(g), fault=[kind, at])
            ctx.ident('fault', kind, at)
            if ctx.last_fired:
                ctx.check(res[0] == 'exc' and is_fault(res[1]), 'fault-swallowed',
                          lambda: f'{kind} at line {at} of {lines}: {rr(res)}')
            untouched(f'conversion interrupted at line {at}')
            judge(ctx, c, n, edges, g, names, ctx.call(lambda: dag2cpdag(g)), f'conversion after {kind} at {at}')
        ctx.nontrivial = True
        return
    D, U = judge(ctx, c, n, edges, g, names, ctx.call(lambda: dag2cpdag(g)), 'conversion')
    untouched('conversion')
    ctx.nontrivial = bool(D) and bool(U)
    if c['mode'] == 'member':
        ms = models.class_members(n, D, U, 256)
        if ms:
            e2 = sorted(sorted(map(sorted_pair, ms))[int(c['pick'] * len(ms))])
            g2 = bridge.build_digraph(n, e2, names)
            judge(ctx, c, n, e2, g2, names, ctx.call(lambda: dag2cpdag(g2)), 'conversion of an equivalent DAG')
            ctx.info['equivalent_members'] += 1


def sorted_pair(m):
    return tuple(sorted(m))
