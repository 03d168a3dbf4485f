"""C04: a consistent extension is found whenever one exists, and the search ends."""
import itertools

from .. import bridge, models
from ..common import is_fault, r as rr, shrink_list
from ..models import NAME_KINDS, make_names

ID = 'C04'
QUICK, THOROUGH = 6000, 60000
RULE = ('A case is a partially directed graph (2-8 nodes; CPDAGs, CPDAGs with some edges oriented or un-oriented, '
        'chordal and non-chordal undirected graphs, arbitrary mixtures, directed cycles), a node-name kind and order, '
        'and possibly attempts interrupted at chosen fractions before the one judged. The result is checked to be a '
        'consistent extension, or, when our own decision procedure finds none, the call must fail within the step '
        'budget. Non-trivial: both directed and undirected edges, or not extendable, or a fault; distinct by graph, '
        'names and fault points.')
MEASURE = 'distinct = different (PDAG, naming, fault points)'
REAL = ['cdmir.graph.pdag2dag', 'cdmir.graph.PDAG', 'cdmir.graph.DiGraph']
STUB = ['node hashes']
STEP_LIMIT = 400_000        # far above what any extendable graph of this size needs
BUDGET = 4_000_000


def setup():
    global pdag2dag
    from cdmir.graph.pdag2dag import pdag2dag


def generate(r, tier):
    kind = r.random()
    if kind < .45:
        n, e = models.gen_dag(r, 2, 7)
        if r.random() < .1:
            n = r.randint(8, 13)
            e = models.random_dag(r, n, r.choice([.15, .25, .4]))
        D, U = map(list, models.cpdag(n, e))
        U = [sorted(x) for x in U]
        es = set(map(tuple, e))
        q = r.random()
        if q < .4 and U:                                   # orient some consistently with e
            for x in list(U):
                if r.random() < .4:
                    U.remove(x)
                    D.append(tuple(x) if tuple(x) in es else (x[1], x[0]))
        elif q < .6 and D:                                 # forget some orientations
            for x in list(D):
                if r.random() < .3:
                    D.remove(x)
                    U.append(sorted(x))
        elif q < .75 and D:                                # reverse one
            x = r.choice(D)
            D.remove(x)
            D.append((x[1], x[0]))
    elif kind < .65:
        n = r.randint(3, 7)
        p = r.choice([.3, .5, .7, 1])
        D, U = [], [[a, b] for a, b in itertools.combinations(range(n), 2) if r.random() < p]
    else:
        n = r.randint(2, 7)
        p = r.choice([.3, .5, .7, .9])
        D, U = [], []
        w = r.random()
        cyc = r.random() < .3
        for a, b in itertools.combinations(range(n), 2):
            if r.random() < p:
                if r.random() < w:
                    D.append((b, a) if cyc and r.random() < .3 else (a, b))
                else:
                    U.append([a, b])
    if r.random() < .04:        # nothing to be done about a few nodes, once many others are removed
        k, n = r.choice([3, 4, 5]), r.randint(9, 13)
        ring = list(zip(range(k), [*range(1, k), 0]))
        D, U = (ring, []) if k == 3 or r.random() < .3 else ([], [list(e) for e in ring])
        p = r.choice([.1, .2])
        D = D + [(a, b) for b in range(k, n) for a in range(b) if r.random() < p]
    D = [list(x) for x in D]
    D.sort()
    U.sort()
    perm = list(range(n))
    r.shuffle(perm)
    D = [[perm[a], perm[b]] for a, b in D]
    U = [[perm[a], perm[b]] for a, b in U]
    r.shuffle(D)
    r.shuffle(U)
    return dict(n=n, D=D, U=U, names=r.choice(NAME_KINDS), nseed=r.getrandbits(30),
                flip=[i for i in range(len(D)) if r.random() < .3],
                faults=[[r.choice(['interrupt', 'memory']), r.random()] for _ in range(r.choice([0, 0, 0, 1, 2]))])


def shrinks(c):
    for d in shrink_list(c['D']):
        yield dict(c, D=d, flip=[])
    for u in shrink_list(c['U']):
        yield dict(c, U=u)
    for f in shrink_list(c['faults']):
        yield dict(c, faults=f)
    if c['names'] != 'int':
        yield dict(c, names='int')
    used = {v for e in c['D'] + c['U'] for v in e}
    if c['n'] - 1 not in used and c['n'] > 2:
        yield dict(c, n=c['n'] - 1)


def describe(c):
    return f"n={c['n']} {models.fmt_pdag(map(tuple, c['D']), map(frozenset, c['U']))} names={c['names']} faults={c['faults']}"


def execute(c, ctx):
    n = c['n']
    D = {tuple(e) for e in c['D']}
    U = {frozenset(e) for e in c['U']}
    names = make_names(c['names'], n, c['nseed'])
    g = bridge.build_pdag(n, c['D'], c['U'], names, set(c['flip']))
    before = bridge.snapshot(g)
    text = f"n={n} {models.fmt_pdag(D, U)} names={c['names']}"
    ext = models.extendable(n, D, U)
    ctx.ident(text, c['flip'])
    ctx.info['extendable' if ext else 'not_extendable'] += 1

    def judge(res, what):
        ctx.check(bridge.snapshot(g) == before, 'input-changed', lambda: f'{what} changed its input {text}')
        if not ext:
            ctx.fault('no_consistent_extension')
            ctx.check(res[0] == 'exc', 'not-refused', lambda: f'{what} of {text}, which has no consistent extension, '
                                                              f'returned a graph')
            return
        ctx.check(res[0] == 'ok', 'error', lambda: f'{what} of {text} raised {rr(res)}')
        order, gD, gU, other = bridge.read(res[1], names)
        ctx.check(order, 'node-order', lambda: f'{what} of {text}: nodes {list(res[1].nodes)}')
        ctx.check(type(res[1]).__name__ == 'DiGraph' and not gU and not other and models.is_extension(n, D, U, gD),
                  'extension', lambda: f'{what} of {text} gave {models.fmt_pdag(gD, gU)} {sorted(other)}')

    for kind, frac in c['faults']:
        lines, res = ctx.count_lines(lambda: pdag2dag(g)) if ext else (300, None)
        at = 1 + int(frac * max(1, lines - 1))
        res = ctx.call(lambda: pdag2dag(g), fault=[kind, at], budget=STEP_LIMIT)
        ctx.ident(kind, at)
        if ctx.last_fired:
            ctx.check(res[0] == 'exc', 'fault-swallowed', lambda: f'{kind} at {at}: {rr(res)}')
            ctx.check(bridge.snapshot(g) == before, 'input-changed', lambda: f'{kind} at {at} changed {text}')
    judge(ctx.call(lambda: pdag2dag(g), budget=STEP_LIMIT), 'extension search')
    ctx.nontrivial = (bool(D) and bool(U)) or not ext or bool(c['faults'])
