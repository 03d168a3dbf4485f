"""C02: directed-graph queries answer for the graph as it is now."""
import copy

import numpy as np

from .. import models
from ..common import SUPPLIES, gen_sched, is_fault, r as rr, shrink_list, supply
from ..models import NAME_KINDS, make_names

ID = 'C02'
QUICK, THOROUGH = 5000, 50000
RULE = ('A case is 1-4 phases; each edits a digraph (additions, removals, reversals, node insertions) and then runs '
        '4-24 queries split over 1-3 clients under a seeded schedule with line-level preemption, with interrupts at a '
        'chosen library line, failing suppliers and half-consumed answers mixed in. Non-trivial: at least one answer '
        'that depends on a conditioning set, or two clients really interleaved; distinct by graphs, queries and switches.')
MEASURE = 'distinct = different (graph history, queries, context-switch points) sequences'
REAL = ['cdmir.graph.DiGraph', 'cdmir.utils.independence.dsep.Dsep']
STUB = ['client threads scheduled by the simulator', 'suppliers of conditioning nodes', 'node hashes']
BUDGET = 3_000_000


def setup():
    global DiGraph, Edge, Dsep
    from cdmir.graph import DiGraph, Edge
    from cdmir.utils.independence import Dsep


def _query(r, n):
    k = r.random()
    if k < .62 and n >= 2:
        x, y = r.sample(range(n), 2)
        rest = [i for i in range(n) if i not in (x, y)]
        z = r.sample(rest, r.choice([0, 1, 1, 2, 2, 3, len(rest)]) if len(rest) > 3 else r.randint(0, len(rest)))
        q = [r.choice(['dsep', 'dsep', 'dsep', 'test']), x, y, z]
    elif k < .8:
        x = r.randrange(n)
        rest = [i for i in range(n) if i != x]
        q = ['reach', x, None, r.sample(rest, r.randint(0, min(3, len(rest))))]
    elif k < .9:
        return ['topo', 0, None, [], 'none', None]
    else:
        return ['acyclic', 0, None, [], 'none', None]
    s = r.choice(SUPPLIES)
    if not q[3] and r.random() < .4:
        s = r.choice(['omit', 'None'])
    if r.random() < .06:
        s = ['fail', r.randint(0, 3)]
    f = [r.choice(['interrupt', 'memory']), r.randint(1, r.choice([5, 40, 200]))] if r.random() < .08 else None
    return q + [s, f]


def generate(r, tier):
    n, edges = models.gen_dag(r, 2, 8)
    if r.random() < .1:
        n = r.randint(9, 24)
        edges = models.random_dag(r, n, r.choice([1., 2., 4.]) / n)
    clients = r.choice([1, 1, 2, 2, 3])
    phases = []
    cur = n
    for p in range(r.randint(1, 4)):
        ed = []
        for _ in range(r.randint(0, 5) if p else 0):
            k = r.random()
            if k < .4:
                ed.append(['add', r.randrange(cur), r.randrange(cur)])
            elif k < .65:
                ed.append(['del', r.random()])
            elif k < .85:
                ed.append(['rev', r.random()])
            elif k < .93:
                ed.append(['node'])
                cur += 1
            elif k < .97:
                ed.append(['swap', r.randrange(cur)])     # remove a node, put it back
            else:
                ed.append(['fork'])
        cyc = r.random() < .12
        qs = [[_query(r, cur) for _ in range(r.randint(3, 9))] for _ in range(clients)]
        phases.append(dict(edits=ed, cycle=cyc, queries=qs))
    return dict(n=n, edges=edges, names=r.choice(NAME_KINDS), nseed=r.getrandbits(30), extra=cur - n, phases=phases,
                sched=gen_sched(r, clients))


def shrinks(c):
    for i in range(len(c['phases'])):
        if len(c['phases']) > 1:
            yield dict(c, phases=c['phases'][:i] + c['phases'][i + 1:])
    for i, p in enumerate(c['phases']):
        for key in ('edits',):
            for e in shrink_list(p[key]):
                yield dict(c, phases=c['phases'][:i] + [dict(p, **{key: e})] + c['phases'][i + 1:])
        for j, q in enumerate(p['queries']):
            for e in shrink_list(q):
                qs = p['queries'][:j] + [e] + p['queries'][j + 1:]
                yield dict(c, phases=c['phases'][:i] + [dict(p, queries=qs)] + c['phases'][i + 1:])
    for e in shrink_list(c['edges']):
        yield dict(c, edges=e)
    if c['names'] != 'int':
        yield dict(c, names='int')


def describe(c):
    return models.fmt_dag(c['n'], c['edges']) + f" names={c['names']} " + \
        ' | '.join(f"edits {p['edits']} queries {p['queries']}" for p in c['phases'])[:700]


def execute(c, ctx):
    total = c['n'] + c['extra']
    names = make_names(c['names'], total, c['nseed'])
    g = DiGraph([names[i] for i in range(c['n'])])
    for a, b in c['edges']:
        g.add_edge(Edge(names[a], names[b]))
    E = set(map(tuple, c['edges']))
    n = c['n']
    ctx.ident(models.fmt_dag(n, E), c['names'])
    used = {'cond': False}
    for ph in c['phases']:
        for e in ph['edits']:
            if e[0] == 'add':
                a, b = e[1] % n, e[2] % n
                if a == b or (a, b) in E or (b, a) in E or not models.is_acyclic(n, E | {(a, b)}):
                    continue
                g.add_edge(Edge(names[a], names[b]))
                E.add((a, b))
            elif e[0] == 'del' and E:
                a, b = sorted(E)[int(e[1] * len(E))]
                g.remove_edge(names[b], names[a])
                E.discard((a, b))
            elif e[0] == 'rev' and E:
                a, b = sorted(E)[int(e[1] * len(E))]
                E2 = (E - {(a, b)}) | {(b, a)}
                if models.is_acyclic(n, E2):
                    g.add_edge(Edge(names[b], names[a]), overwrite=True)
                    E = E2
            elif e[0] == 'node' and n < total:
                g.add_node(names[n])
                n += 1
            elif e[0] == 'swap':
                v = e[1] % n
                g.remove_node(names[v])
                g.add_node(names[v])
                E = {k for k in E if v not in k}
            elif e[0] == 'fork':
                h = g
                g = copy.deepcopy(g)
                for k in sorted(E)[:2]:
                    h.remove_edge(names[k[0]], names[k[1]])
            ctx.ident(e)
        cyc = None
        if ph['cycle']:
            a = sorted(E)
            for x, y in a:
                for z in range(n):
                    if z not in (x, y) and (y, z) in E and (x, z) not in E and (z, x) not in E:
                        cyc = (z, x)
                        break
                if cyc:
                    break
        if cyc:
            g.add_edge(Edge(names[cyc[0]], names[cyc[1]]))
            res = ctx.call(lambda: g.is_acyclic(), budget=200_000)
            ctx.check(res[0] == 'ok' and not res[1], 'acyclic', lambda: f'cycle in {sorted(E | {cyc})}: acyclic -> {rr(res)}')
            g.remove_edge(names[cyc[0]], names[cyc[1]])
        test = Dsep(np.zeros((3, n)), var_names=[names[i] for i in range(n)], true_graph=g)
        edges = frozenset(E)

        def client(qs):
            def run():
                for q in qs:
                    ctx.op_point()
                    ask(q)
            return run

        def ask(q):
            kind, x, y, z, s, f = q
            z = [i for i in z if i < n]
            if x >= n or (y is not None and y >= n):
                return
            zn = [names[i] for i in z]
            if s == 'omit':
                args = ()
            elif s == 'None':
                args = (None,)
            elif s == 'none':
                args = ()
            else:
                args = (supply(zn, s),)
            if kind == 'dsep':
                res = ctx.call(lambda: g.is_d_separate(names[x], names[y], *args), fault=f)
                want = models.dsep(n, edges, x, y, z)
            elif kind == 'test':
                res = ctx.call(lambda: test.test(names[x], names[y], *args)[0], fault=f)
                want = 1.0 if models.dsep(n, edges, x, y, z) else 0.0
            elif kind == 'reach':
                res = ctx.call(lambda: set(g.get_reachable_nodes(names[x], *args)), fault=f)
                want = {names[i] for i in models.dconnected_set(n, edges, x, z)}
            elif kind == 'topo':
                res = ctx.call(lambda: list(g.topo_sort()), fault=f)
                want = None
            else:
                res = ctx.call(lambda: g.is_acyclic(), fault=f)
                want = True
            if isinstance(s, list):
                ctx.fault('supplier_failure')
                # an unread supplier cannot fail the query
                ok = res[0] == 'exc' and is_fault(res[1]) or res[0] == 'ok' and res[1] == want
                ctx.check(ok, 'supplier-failure', lambda: f'{q} -> {rr(res)}')
                return
            if s in ('gen', 'iter', 'map'):
                ctx.fault('oneshot_supply')
            if res[0] == 'exc' and f is not None and ctx.last_fired:
                ctx.check(is_fault(res[1]), 'wrong-exception', lambda: f'{q} under {f}: {rr(res)}')
                return
            ctx.ident(kind, x, y, sorted(z), str(s))
            if kind == 'topo':
                ok = res[0] == 'ok' and len(res[1]) == n
                if ok:
                    pos = {k: i for i, k in enumerate(res[1])}
                    ok = len(pos) == n and all(names[i] in pos for i in range(n)) and \
                        all(pos[names[a]] < pos[names[b]] for a, b in edges)
                ctx.check(ok, 'topo', lambda: f'{models.fmt_dag(n, edges)}: order {rr(res)}')
                return
            if z:
                used['cond'] = True
            ctx.check(res[0] == 'ok' and res[1] == want, kind,
                      lambda: f'{models.fmt_dag(n, edges)} names={c["names"]}: {kind}({x},{y} | {z} as {s}) -> {rr(res)}, '
                              f'should be {want}')

        if len(ph['queries']) == 1:
            for q in ph['queries'][0]:
                ask(q)
        else:
            ctx.run_clients([client(q) for q in ph['queries']], c['sched'])
    ctx.nontrivial = used['cond'] or ctx.switches > 0
