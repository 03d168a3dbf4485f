"""C18: comparison metrics count exactly what they are defined to count."""
import itertools
import warnings

import numpy as np

from .. import models
from ..common import close, gen_sched, is_fault, r as rr, shrink_list
from ..models import NAME_KINDS, is_acyclic, make_names

ID = 'C18'
QUICK, THOROUGH = 6000, 200000
RULE = ('A case is a pair of graphs of one kind over the same nodes (any hashable names), built and edited by a history of '
        'insertions (either way round), overwrites, removals and node insertions, with comparisons in either order in between, '
        'comparisons interrupted or hit by a failed allocation at a chosen library line, comparisons of graphs that do not '
        'match, and concurrent clients comparing; or matrices (weights against 0/1 truth at a threshold; adjacency matrices '
        'of DAGs and CPDAGs, possibly malformed), read-only or in any layout. Every answer is compared with the definition '
        'evaluated on our own record of the edits. Non-trivial: both sides have an edge; distinct by case.')
MEASURE = 'distinct = different (edit and comparison history, matrices, fault and switch points)'
REAL = ['cdmir.utils.metrics', 'get_performance', 'count_accuracy', 'is_dag', 'cdmir.graph classes', 'scikit-learn metrics (third party)']
STUB = ['node hashes', 'client threads scheduled by the simulator']
METRICS = ['equal', 'skeleton', 'arrow', 'directed', 'shd']


def setup():
    global M, gp, ut, Graph, DiGraph, PDAG, Edge, Mark
    from cdmir.discovery.score_based.entropy_based.entropy_based_discovery import utils as ut
    from cdmir.graph import PDAG, DiGraph, Edge, Graph, Mark
    from cdmir.utils import metrics as M
    from cdmir.utils.metrics.graph_evaluation import get_performance as gp


# ---------------------------------------------------------------- cases
def marks(r, kind):
    if kind == 'DiGraph':
        return [-1, 1]
    return [r.choice([-1, 1] if kind == 'PDAG' else [-1, 1, 2]) for _ in range(2)]


def gen_edit(r, kind, n, g=None):
    q = r.random()
    g = r.choice([0, 1]) if g is None else g
    a, b = r.sample(range(n), 2)
    if q < .6:
        return dict(op='add', g=g, a=a, b=b, m=marks(r, kind), over=r.random() < .4)
    if q < .8:
        return dict(op='remove', g=g, a=a, b=b)
    return dict(op='copy', g=g, rev=r.random() < .5)


def gen_graphs(r):
    n = r.randint(2, 6) if r.random() < .93 else r.randint(7, 14)
    kind = r.choice(['Graph', 'DiGraph', 'PDAG', 'PDAG'])
    start = []
    pairs = list(itertools.combinations(range(n), 2))
    for g in (0, 1):
        p = r.choice([.2, .5, .9])
        es = []
        for a, b in pairs:
            if r.random() < p:
                if r.random() < .5:
                    a, b = b, a
                es.append([a, b] + marks(r, kind))
        r.shuffle(es)
        start.append(es)
    if r.random() < .35:        # near copies: the same pairs the other way round
        start[1] = [[b, a, mb, ma] if kind != 'DiGraph' and r.random() < .6 else [a, b, ma, mb] for a, b, ma, mb in start[0]]
        r.shuffle(start[1])
    c = dict(n=n, kind=kind, start=start, names=r.choice(NAME_KINDS), nseed=r.getrandbits(30))
    if r.random() < .12:
        c.update(mode='clients', sched=gen_sched(r, 2), asks=[[dict(m=r.choice(METRICS), a=r.choice([0, 1]), b=r.choice([0, 1])) for _ in range(3)] for _ in range(2)])
        return c
    ops = []
    for _ in range(r.randint(1, 7)):
        q = r.random()
        if q < .4:
            ops.append(gen_edit(r, kind, n))
        elif q < .5:
            ops.append(dict(op='cut', m=r.choice(METRICS), kind=r.choice(['interrupt', 'memory']), at=r.random()))
        elif q < .58:
            ops.append(dict(op='mismatch', m=r.choice(METRICS), what=r.choice(['type', 'order', 'extra', 'name']), swap=r.random() < .5))
        elif q < .64:
            ops.append(dict(op='node'))
        ops.append(dict(op='ask', m=r.choice(METRICS), a=r.choice([0, 0, 1]), b=r.choice([1, 1, 0])))
    c.update(mode='serial', ops=ops)
    return c


def generate(r, tier):
    q = r.random()
    if q < .7:
        return gen_graphs(r)
    n = r.randint(2, 6) if r.random() < .93 else r.randint(7, 14)
    if q < .84:
        return dict(mode='perf', n=n, seed=r.getrandbits(30), th=r.choice([0, 0, .3, 1]), diag=r.random() < .4, p=r.choice([.1, .4, .8]),
                    form=r.choice(['array', 'readonly', 'fortran', 'int', 'graph']), kw=r.choice(['none', 'pos', 'name']))
    return dict(mode='acc', n=n, seed=r.getrandbits(30), how=r.choice(['dag', 'dag', 'bool', 'cpdag', 'cpdag', 'cycle', 'twice', 'value', 'weights', 'dags']),
                p=r.choice([.2, .5, .9]), near=r.random() < .5, form=r.choice(['array', 'readonly', 'fortran', 'int']))


def shrinks(c):
    for o in shrink_list(c.get('ops', [])):
        if o:
            yield dict(c, ops=o)
    for g in (0, 1):
        for e in shrink_list(c['start'][g] if 'start' in c else []):
            yield dict(c, start=[e, c['start'][1]] if g == 0 else [c['start'][0], e])
    if c.get('names', 'int') != 'int':
        yield dict(c, names='int')


def describe(c):
    return str({k: v for k, v in c.items() if k != 'sched'})


# ---------------------------------------------------------------- definitions
def ratio(tp, fp, fn):
    p = tp / (tp + fp) if tp + fp else 0.
    q = tp / (tp + fn) if tp + fn else 0.
    f = 2 * tp / (2 * tp + fp + fn) if 2 * tp + fp + fn else 0.
    return dict(precision=p, recall=q, f1=f)


def ends(rec, a, b):
    """(mark at a, mark at b) or None, from our own record."""
    if (a, b) in rec:
        return rec[a, b]
    if (b, a) in rec:
        return rec[b, a][::-1]
    return None


def define(m, n, x, y):
    """x: the truth, y: the estimate."""
    pairs = list(itertools.combinations(range(n), 2))
    if m == 'equal':
        return all(ends(x, a, b) == ends(y, a, b) for a, b in pairs)
    if m == 'shd':
        return sum(ends(x, a, b) != ends(y, a, b) for a, b in pairs)
    if m == 'skeleton':
        t, e = ({p for p in pairs if ends(z, *p)} for z in (x, y))
    else:
        want = (lambda s: s is not None and s[1] == 1) if m == 'arrow' else (lambda s: s == (-1, 1))
        t, e = ({(a, b) for a in range(n) for b in range(n) if a != b and want(ends(z, a, b))} for z in (x, y))
    return ratio(len(t & e), len(e - t), len(t - e))


def metric(m):
    return dict(equal=M.graph_equal, skeleton=M.skeleton_evaluation, arrow=M.arrow_evaluation, directed=M.directed_edge_evaluation, shd=M.shd)[m]


def same(m, got, want):
    if m == 'equal':
        return isinstance(got, (bool, np.bool_)) and bool(got) == want
    if m == 'shd':
        return int(got) == got and got == want
    return isinstance(got, dict) and set(got) == set(want) and all(close(float(got[k]), want[k]) for k in want)


# ---------------------------------------------------------------- runs
def execute(c, ctx):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        ctx.ident({k: v for k, v in c.items() if k != 'sched'})
        dict(perf=perf, acc=accuracy).get(c['mode'], graphs)(c, ctx)


def put(g, names, e):
    a, b, ma, mb = e
    g.add_edge(Edge(names[a], names[b], Mark(ma), Mark(mb)))


def graphs(c, ctx):
    n, kind = c['n'], c['kind']
    names = make_names(c['names'], n + 9, c['nseed'])
    extra = names[n:]
    names = names[:n]
    cls = dict(Graph=Graph, DiGraph=DiGraph, PDAG=PDAG)[kind]
    gs, rec = [cls(names), cls(names)], [{}, {}]
    for k in (0, 1):
        for e in c['start'][k]:
            put(gs[k], names, e)
            rec[k][e[0], e[1]] = (e[2], e[3])
    ctx.nontrivial = all(rec)

    def snap(k):
        return [ends(rec[k], a, b) for a, b in itertools.combinations(range(n), 2)]

    def views_ok(who):
        for k in (0, 1):
            got = [gs[k].get_edge(names[a], names[b]) for a, b in itertools.combinations(range(n), 2)]
            got = [None if e is None else (int(e.mark_u), int(e.mark_v)) for e in got]
            ctx.check(got == snap(k) and list(gs[k].nodes) == list(names), 'input-changed', lambda: f'{who} changed graph {k}')

    def ask(m, a, b, who):
        want = define(m, n, rec[a], rec[b])
        o = ctx.call(lambda: metric(m)(gs[a], gs[b]))
        ctx.check(o[0] == 'ok', 'error', lambda: f'{who}: {m} of graphs {a} and {b} raised {rr(o)}')
        ctx.check(same(m, o[1], want), 'wrong', lambda: f'{who}: {m} of truth {rec[a]} and estimate {rec[b]} ({kind}) gives {rr(o)}, its definition gives {want}')

    if c['mode'] == 'clients':
        def client(k):
            def run():
                for i, q in enumerate(c['asks'][k]):
                    ctx.op_point()
                    ask(q['m'], q['a'], q['b'], f'client {k} question {i}')
            return run
        ctx.run_clients([client(0), client(1)], c['sched'])
        views_ok('comparing')
        return
    for k, op in enumerate(c['ops']):
        who = f'operation {k}'
        if op['op'] == 'add':
            a, b, m, R = op['a'], op['b'], op['m'], rec[op['g']]
            o = ctx.call(lambda: gs[op['g']].add_edge(Edge(names[a], names[b], Mark(m[0]), Mark(m[1])), overwrite=op['over']))
            if ends(R, a, b) is None or op['over']:
                R.pop((b, a), None)
                R[a, b] = tuple(m)
            else:
                ctx.fault('rejected_edit')
                ctx.check(o[0] == 'exc', 'edit-accepted', lambda: f'{who}: second edge accepted')
        elif op['op'] == 'remove':
            ctx.call(lambda: gs[op['g']].remove_edge(names[op['a']], names[op['b']]))
            rec[op['g']].pop((op['a'], op['b']), None)
            rec[op['g']].pop((op['b'], op['a']), None)
        elif op['op'] == 'copy':        # the other graph's edges, inserted anew, either way round
            k0, k1 = op['g'], 1 - op['g']
            gs[k0], rec[k0] = cls(names), {}
            for (a, b), (ma, mb) in sorted(rec[k1].items()):
                e = [b, a, mb, ma] if op['rev'] and kind != 'DiGraph' else [a, b, ma, mb]
                put(gs[k0], names, e)
                rec[k0][e[0], e[1]] = (e[2], e[3])
        elif op['op'] == 'node' and extra:
            x = extra.pop(0)
            names = names + [x]
            n += 1
            for g in gs:
                g.add_node(x)
        elif op['op'] == 'cut':
            f = lambda: metric(op['m'])(gs[0], gs[1])
            lines, o = ctx.count_lines(f)
            ctx.check(o[0] == 'ok', 'error', lambda: f"{who}: {op['m']} raised {rr(o)}")
            o = ctx.call(f, fault=[op['kind'], 1 + int(op['at'] * max(0, lines - 1))])
            if ctx.last_fired:
                ctx.check(o[0] == 'exc' and is_fault(o[1]), 'fault-swallowed', lambda: f'{who}: {rr(o)}')
        elif op['op'] == 'mismatch':
            ctx.fault('rejected_call')
            q, w = gs[0], op['what']
            other = [d for d in (Graph, DiGraph, PDAG) if d is not cls][k % 2] if w == 'type' else cls
            ns = dict(type=list(names), order=list(names[1:]) + [names[0]], extra=list(names) + ['another one'], name=['another one'] + list(names[1:]))[w]
            x = (other(ns), q) if op['swap'] else (q, other(ns))
            o = ctx.call(lambda: metric(op['m'])(*x))
            ctx.check(o[0] == 'exc', 'mismatch-accepted', lambda: f"{who}: {op['m']} compared graphs that differ in {w} and gave {rr(o)}")
        elif op['op'] == 'ask':
            ask(op['m'], op['a'], op['b'], who)
        views_ok(who)


def lay(x, form):
    if form == 'readonly':
        x = x.copy()
        x.flags.writeable = False
    elif form == 'fortran':
        x = np.asfortranarray(x)
    elif form == 'int':
        x = x.astype(int)
    return x


def perf(c, ctx):
    g = np.random.default_rng(c['seed'])
    n = c['n']
    real = (g.random((n, n)) < c['p']) * 1.
    est = np.where(g.random((n, n)) < .5, real, (g.random((n, n)) < c['p']) * 1.) * np.round(g.normal(size=(n, n)) * 1.2, 2)
    if g.random() < .3:
        est[g.random((n, n)) < .3] = c['th']        # exactly at the threshold
    if c['form'] == 'graph':
        gr = PDAG(range(n))
        for a, b in itertools.combinations(range(n), 2):
            if g.random() < .5:
                gr.add_edge(Edge(a, b, Mark.Tail, Mark(int(g.choice([-1, 1])))))
        x, est = gr, gr.to_numpy().astype(float)
        y = real
    elif c['form'] == 'int':
        est = np.round(est * 2)
        x, y = lay(est, 'int'), lay(real, 'int')
    else:
        x, y = lay(est.copy(), c['form']), lay(real.copy(), c['form'])
    th, drop = (0, True) if c['kw'] == 'none' else (c['th'], not c['diag'])
    t = real.copy()
    e = np.abs(est) > th
    if drop:
        np.fill_diagonal(t, 0)
        e = np.abs(est - np.diag(np.diag(est))) > th
    t = t == 1
    want = ratio(int((t & e).sum()), int((e & ~t).sum()), int((t & ~e).sum()))
    ctx.nontrivial = bool(t.any() and e.any())
    f = {'none': lambda: gp(x, y), 'pos': lambda: gp(x, y, c['th'], not c['diag']), 'name': lambda: gp(fitted=x, real=y, threshold=c['th'], drop_diag=not c['diag'])}[c['kw']]
    for again in range(2):
        o = ctx.call(f)
        ctx.check(o[0] == 'ok', 'error', lambda: f'{c}: raised {rr(o)}')
        d = o[1]
        ctx.check(list(d.columns) == ['F1', 'Precision', 'Recall', 'threshold'] and len(d) == 1, 'shape', lambda: f'{c}: {d}')
        got = [float(v) for v in d.iloc[0]]
        ctx.check(all(close(a, b) for a, b in zip(got, [want['f1'], want['precision'], want['recall'], th])), 'wrong',
                  lambda: f'{c}: {got}, the definition gives {want} (matrix {est.tolist()}, truth {real.tolist()})')
        ctx.check(np.array_equal(y, real) and (c['form'] == 'graph' or np.array_equal(x, est)), 'input-changed', lambda: f'{c}: a matrix changed')


def accuracy(c, ctx):
    g = np.random.default_rng(c['seed'])
    n, how = c['n'], c['how']

    def dag():
        A = np.triu((g.random((n, n)) < c['p']) * 1., 1)
        p = g.permutation(n)
        return A[np.ix_(p, p)]
    if how == 'dags':       # the acyclicity test itself
        A = (g.random((n, n)) < c['p'] / 2) * np.round(g.normal(size=(n, n)) + .001, 3)
        if g.random() < .7:
            np.fill_diagonal(A, 0)
        if g.random() < .3:
            A = dag() * g.choice([-2., .5, 1e-9], size=(n, n))
        x = lay(A.copy(), c['form'] if c['form'] != 'int' else 'array')
        o = ctx.call(lambda: ut.is_dag(x))
        want = is_acyclic(n, [(a, b) for a in range(n) for b in range(n) if A[a, b]])
        ctx.nontrivial = bool(A.any())
        ctx.check(o[0] == 'ok' and bool(o[1]) == want, 'wrong', lambda: f'{A.tolist()}: acyclic {rr(o)}, should be {want}')
        ctx.check(np.array_equal(x, A), 'input-changed', 'the acyclicity test changed its matrix')
        return
    T = dag()
    E = dag()
    if c['near']:
        E = T.copy()
        for _ in range(int(g.integers(0, 4))):
            a, b = g.choice(n, 2, replace=False)
            F = E.copy()
            F[a, b], F[b, a] = (0, F[a, b]) if F[a, b] and g.random() < .5 else (1 - F[a, b], 0)
            if is_acyclic(n, [(i, j) for i in range(n) for j in range(n) if F[i, j]]):
                E = F
    edges = [(a, b) for a in range(n) for b in range(n) if E[a, b]]
    bad = False
    if how == 'cpdag':
        D, U = models.cpdag(n, edges)
        E = np.zeros((n, n))
        for a, b in D:
            E[a, b] = 1
        for u in U:
            a, b = sorted(u) if g.random() < .5 else sorted(u)[::-1]
            E[a, b] = -1
    elif how in ('cycle', 'twice', 'value', 'weights'):
        a, b = g.choice(n, 2, replace=False)
        E[a, b], E[b, a] = {'cycle': (1, 1), 'twice': (-1, -1), 'value': (2, -1), 'weights': (.5, 0)}[how]
        bad = True
    x = E.astype(bool) if how == 'bool' else lay(E.copy(), c['form'] if how != 'weights' else 'array')
    y = lay(T.copy(), c['form'])
    ctx.nontrivial = bool(T.any() and E.any())
    o = ctx.call(lambda: ut.count_accuracy(y, x))
    ctx.check(np.array_equal(x, E) and np.array_equal(y, T), 'input-changed', lambda: f'{c}: a matrix changed')
    if bad:
        ctx.fault('rejected_call')
        ctx.check(o[0] == 'exc', 'mismatch-accepted', lambda: f'{c}: estimate {E.tolist()} was accepted: {rr(o)}')
        return
    ctx.check(o[0] == 'ok', 'error', lambda: f'{c}: raised {rr(o)}')
    tp = rev = fp = extra = miss = cond = size = 0
    for a, b in itertools.combinations(range(n), 2):
        t = (1 if T[a, b] else -1 if T[b, a] else 0)          # direction of the true edge
        u = E[a, b] == -1 or E[b, a] == -1
        e = 0 if u else (1 if E[a, b] == 1 else -1 if E[b, a] == 1 else 0)
        there = u or e != 0
        cond += t != 0
        size += there
        tp += t != 0 and (u or e == t)
        rev += t != 0 and e == -t
        fp += there and t == 0
        extra += there and t == 0
        miss += t != 0 and not there
    want = dict(fdr=(rev + fp) / max(size, 1), tpr=tp / max(cond, 1), fpr=(rev + fp) / max(n * (n - 1) / 2 - cond, 1), shd=extra + miss + rev, nnz=size)
    got = o[1]
    ctx.check(isinstance(got, dict) and set(got) == set(want) and all(close(float(got[k]), float(want[k])) for k in want), 'wrong',
              lambda: f'truth {T.tolist()} estimate {E.tolist()}: {got}, the definitions give {want}')
