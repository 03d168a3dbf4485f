"""C16: ICA-LiNGAM recovers a linear non-Gaussian model in any column order."""
import numpy as np
import pandas as pd

from ..common import gen_sched, is_fault, r as rr, shrink_list
from ..models import is_acyclic
from ..runner import in_child

ID = 'C16'
QUICK, THOROUGH = 420, 9000
RULE = ('A case is 1-2 data sets from acyclic linear models with strong effects and noise of one clearly non-Gaussian family '
        '(uniform, Laplace, exponential, two-humped), with their columns in any order, centred (or, for all but recovery, with offsets), as array, read-only '
        'array, Fortran-ordered array or frame, pruning levels, random-generator states, and a history of fits by two '
        'learners: alternation, interrupts and failed allocations at a chosen library line, other users of the random '
        'generator, bad data; or two learners fitting as concurrent clients. Every completed fit is checked against the '
        'true model, against least squares on the reported parents, for acyclicity and for agreement with a fit of a '
        'fresh learner in a process that did nothing else. Non-trivial: a model with an effect; distinct by models, '
        'column order, history, faults, switch points.')
MEASURE = 'distinct = different (models, column orders, settings, fit history, fault and switch points)'
REAL = ['ICA_LINGAM', 'FastICA and LinearRegression (scikit-learn)', "NumPy's global generator"]
STUB = ['other users of the global random stream', 'client threads scheduled by the simulator']
NOISE = ['uniform', 'laplace', 'exp', 'two']


def setup():
    global ICA_LINGAM
    from cdmir.discovery.funtional_based import ICA_LINGAM


def gen_model(r):
    n = r.choice([2, 3, 3, 4]) if r.random() < .92 else r.choice([5, 6])
    order = list(range(n))
    r.shuffle(order)
    p = r.choice([.4, .7, 1])
    e = [[order[i], order[j]] for i in range(n) for j in range(i + 1, n) if r.random() < p]
    return dict(n=n, edges=e, w=[round(r.choice([-1, 1]) * r.uniform(.8, 1.5), 3) for _ in e], noise=r.choice(NOISE),
                scale=[round(r.uniform(.7, 1.4), 2) for _ in range(n)], off=[r.choice([0, 5, -40]) for _ in range(n)] if r.random() < .25 else [0] * n,
                rows=3000, seed=r.getrandbits(30), form=r.choice(['array', 'readonly', 'fortran', 'frame', 'named']))


def generate(r, tier):
    clients = r.random() < .12
    c = dict(mode='clients' if clients else 'serial', models=[gen_model(r)], alpha=r.choice([None, .05, .01, .2]))
    if clients or r.random() < .5:
        c['models'].append(gen_model(r))
    if clients:
        c['sched'] = gen_sched(r, 2)
        c['sched']['p'] = min(c['sched']['p'], .02)
        return c
    ops = []
    for _ in range(r.choice([1, 2, 3, 4])):
        q = r.random()
        if q < .45:
            ops.append(dict(op='cut', who=r.choice([0, 1]), data=r.randrange(len(c['models'])), kind=r.choice(['interrupt', 'memory']),
                            at=[r.choice(['all', 'start', 'end']), r.random()]))
        elif q < .65:
            ops.append(dict(op='foreign', what=r.choice(['draw', 'seed']), k=r.getrandbits(16)))
        elif q < .75:
            ops.append(dict(op='bad', who=r.choice([0, 1]), what=r.choice(['nan', 'text', 'flat'])))
        ops.append(dict(op='fit', who=r.choice([0, 1]), data=r.randrange(len(c['models'])), seed=r.getrandbits(16)))
    c['ops'] = ops
    return c


def shrinks(c):
    if c['mode'] == 'serial':
        for o in shrink_list(c['ops']):
            if o:
                yield dict(c, ops=o)
    for i, m in enumerate(c['models']):
        for t in (dict(m, off=[0] * m['n']), dict(m, form='array')):
            if t != m:
                yield dict(c, models=c['models'][:i] + [t] + c['models'][i + 1:])


def describe(c):
    return f"{c['mode']} level {c['alpha']} {c['models']} {c.get('ops')}"


def data(m):
    g = np.random.default_rng(m['seed'])
    n, N = m['n'], m['rows']
    e = {'uniform': lambda: g.uniform(-1.7, 1.7, (N, n)), 'laplace': lambda: g.laplace(0, .7, (N, n)),
         'exp': lambda: g.exponential(1, (N, n)) - 1,
         'two': lambda: np.where(g.uniform(size=(N, n)) < .5, -1, 1) + .3 * g.normal(size=(N, n))}[m['noise']]()
    B = truth(m)
    x = (e * m['scale']) @ np.linalg.inv(np.eye(n) - B).T
    return x - x.mean(0) + np.array(m['off'], float)


def truth(m):
    B = np.zeros((m['n'], m['n']))
    for (a, b), w in zip(m['edges'], m['w']):
        B[b, a] = w
    return B


def shape(x, form):
    if form == 'readonly':
        x = x.copy()
        x.flags.writeable = False
    elif form == 'fortran':
        x = np.asfortranarray(x)
    elif form == 'frame':
        x = pd.DataFrame(x)
    elif form == 'named':
        x = pd.DataFrame(x, columns=[f'v{(7 * i) % 5}' for i in range(x.shape[1])], index=range(10, 10 + len(x)))
    return x


def result(learner):
    return np.array(learner.get_coef(), float), np.array(learner.get_causal_graph())


def right(m, C):
    return np.abs(C - truth(m)).max() < .25


def judge(ctx, m, x, out, who, again=None):
    C, G = out
    n, B = m['n'], truth(m)
    ctx.check(C.shape == (n, n) and G.shape == (n, n) and np.isfinite(C).all(), 'shape', lambda: f'{who}: {C} {G}')
    ctx.check(np.array_equal(G, (C != 0) * 1), 'graph', lambda: f'{who}: coefficients {C.tolist()} but graph {G.tolist()}')
    e = [(a, b) for a in range(n) for b in range(n) if C[b, a] != 0]
    ctx.check(not np.diag(C).any() and is_acyclic(n, e), 'cyclic', lambda: f'{who}: coefficients {C.tolist()} are cyclic')
    z = x - x.mean(0)
    for v in range(n):
        pa = [a for a in range(n) if C[v, a] != 0]
        if pa:
            b = np.linalg.lstsq(z[:, pa], z[:, v], rcond=None)[0]
            ctx.check(np.allclose(b, C[v, pa], rtol=1e-5, atol=1e-7), 'not-least-squares',
                      lambda: f'{who}: variable {v} on {pa} has coefficients {C[v, pa]}, least squares gives {b}')
    if again is None or right(m, C) or (any(m['off']) and not ctx.probe):
        return      # the model is promised for centred columns (see KNOWN_FINDINGS)
    # FastICA stops at once when its random start is next to a saddle point; other starts must do
    ok = 0
    for s in range(4):
        np.random.seed(7919 + 13 * s)
        o = ctx.call(lambda: again.fit(x))
        ctx.check(o[0] == 'ok', 'error', lambda: f'{who}: fit raised {rr(o)}')
        ok += right(m, result(again)[0])
    ctx.fault('saddle_start')
    ctx.check(ok >= 3, 'wrong-model', lambda: f'{who}: found {C.round(3).tolist()} (and {4 - ok} of 4 other random states '
                                              f'are as wrong), the model is {B.tolist()}')


def place(at, lines):
    where, f = at
    if where == 'start':
        return 1 + int(f * min(lines, 80))
    if where == 'end':
        return max(1, lines - int(f * 60))
    return 1 + int(f * (lines - 1))


def execute(c, ctx):
    models = c['models']
    ctx.ident(c['mode'], models, c['alpha'])
    ctx.probe = c.get('probe', False)
    xs = [data(m) for m in models]
    given = [shape(x, m['form']) for x, m in zip(xs, models)]
    ctx.nontrivial = any(m['edges'] for m in models)

    def new():
        return ICA_LINGAM() if c['alpha'] is None else ICA_LINGAM(wald_alpha=c['alpha'])

    def untouched(who):
        for x, y in zip(xs, given):
            ctx.check(np.array_equal(x, np.asarray(y)), 'input-changed', lambda: f'{who} changed its input')

    if c['mode'] == 'clients':
        np.random.seed(models[0]['seed'] % 2 ** 32)

        got = [None, None]

        def client(k):
            def run():
                ctx.op_point()
                a = new()
                o = ctx.call(lambda: a.fit(given[k]))
                ctx.check(o[0] == 'ok', 'error', lambda: f'client {k}: fit raised {rr(o)}')
                got[k] = result(a)
            return run
        ctx.run_clients([client(0), client(1)], c['sched'])
        for k in (0, 1):
            judge(ctx, models[k], xs[k], got[k], f'client {k}', new())
        untouched('a concurrent fit')
        return

    fits = {(o['data'], o['seed']) for o in c['ops'] if o['op'] == 'fit'}

    def alone():
        out = {}
        for d, s in sorted(fits):
            def go():
                np.random.seed(s)
                a = new()
                a.fit(shape(xs[d], 'array'))
                return [z.tolist() for z in result(a)]
            o = ctx.call(go)
            out[d, s] = [o[0], o[1] if o[0] == 'ok' else rr(o)]
        return out
    want = in_child(alone)
    lines = {}
    if any(o['op'] == 'cut' for o in c['ops']):
        for d in {o['data'] for o in c['ops'] if o['op'] == 'cut'}:
            lines[d], o = ctx.count_lines(lambda: new().fit(given[d]))
            ctx.check(o[0] == 'ok', 'error', lambda: f'fit raised {rr(o)}')
    learners = [new(), new()]
    handed = []
    for k, op in enumerate(c['ops']):
        ctx.ident(op)
        who = f'operation {k}'
        if op['op'] == 'foreign':
            ctx.fault('foreign_' + op['what'])
            if op['what'] == 'seed':
                np.random.seed(op['k'])
            else:
                np.random.normal(size=1 + op['k'] % 9)
        elif op['op'] == 'bad':
            ctx.fault('bad_data')
            x = {'nan': lambda: np.full((20, 3), np.nan), 'text': lambda: np.array([['a', 'b']] * 9, dtype=object),
                 'flat': lambda: np.zeros((0, 3))}[op['what']]()
            o = ctx.call(lambda: learners[op['who']].fit(x))
            ctx.check(o[0] == 'exc', 'bad-accepted', lambda: f"{who}: fit of {op['what']} data was accepted")
        elif op['op'] == 'cut':
            o = ctx.call(lambda: learners[op['who']].fit(given[op['data']]), fault=[op['kind'], place(op['at'], lines[op['data']])])
            if ctx.last_fired:
                ctx.check(o[0] == 'exc' and is_fault(o[1]), 'fault-swallowed', lambda: f'{who}: {rr(o)}')
            else:
                ctx.check(o[0] == 'ok', 'error', lambda: f'{who}: fit raised {rr(o)}')
        else:
            a, m = learners[op['who']], models[op['data']]
            np.random.seed(op['seed'])
            o = ctx.call(lambda: a.fit(given[op['data']]))
            w = want[op['data'], op['seed']]
            ctx.check(o[0] == 'ok', 'error', lambda: f'{who}: fit raised {rr(o)}')
            ctx.check(w[0] == 'ok', 'error', lambda: f'a first fit raised {w[1]}')
            got = result(a)
            judge(ctx, m, xs[op['data']], got, who, new())
            ctx.check(np.allclose(got[0], w[1][0], rtol=1e-6, atol=1e-8) and np.array_equal(got[1], w[1][1]), 'not-fresh',
                      lambda: f"{who}: {got[0].tolist()}; a fresh learner with this random state gives {w[1][0]}")
            live = (a.get_coef(), a.get_causal_graph())
            handed.append((live, got, k))
        untouched(who)
        for live, got, j in handed:
            ctx.check(np.array_equal(live[0], got[0]) and np.array_equal(live[1], got[1]), 'earlier-result',
                      lambda: f'{who} changed the result handed out by operation {j}')
