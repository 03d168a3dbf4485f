"""C13: simulated data satisfy the model they were asked for."""
from collections import Counter

import numpy as np

from .. import gens
from ..common import is_fault, r as rr
from ..models import is_acyclic
from ..runner import in_child

ID = 'C13'
QUICK, THOROUGH = 7000, 120000
RULE = ('A case is one generator call: a data simulator (linear, nonlinear, post-nonlinear; samples or series; every noise '
        'family; scale absent, scalar, or per variable with some switched off), a random graph, lag matrices, or event '
        'sequences, run from a global random state set by the simulator, seeded or not, optionally after the same call '
        'was interrupted or a malformed request was rejected. The output is checked against the equations, the noise '
        'family and the requested ranges. Non-trivial: output with at least one relation to check; distinct by call, '
        'random state, preceding fault.')
MEASURE = 'distinct = different (generator call, random state, preceding faults)'
REAL = ['IIDSimulator', 'TimeLagSimulator', 'entropy-based simulate_*', 'HawkesSimulator', 'erdos_renyi', 'generate_lag_transitions',
        'NumPy, Python and torch generators', 'tick event simulation (third party)']
STUB = ['state of the global random streams', 'interrupts and rejected requests before the call']
ASSUMPTIONS = ['noise families are told apart by moments of at least 300 samples with bounds at least six standard '
               'errors wide; equations, bounds, shapes and graph properties are checked exactly']


def setup():
    gens.setup()


def generate(r, tier):
    kind = r.choice(gens.GLOBAL + ['er', 'lag'] + gens.PRIVATE)
    rows = r.choice([12, 3000, 3000])
    s = gens.gen_spec(r, kind, rows)
    if kind in ('nonlin', 'pnl', 'tlin') and r.random() < .5:
        s['scale'] = [r.choice([0., 0., 1., 2.]) for _ in range(s['n'])]
        s['as'] = r.choice(['list', 'array'])
    if kind == 'er' and r.random() < .3:
        s['n'], s['m'] = 12, 144
    c = dict(spec=s, seed=r.choice([None, None, 5, r.getrandbits(31)]), ambient=r.getrandbits(30), before=[])
    for _ in range(r.choice([0, 0, 1, 2])):
        c['before'].append(r.choice([['bad', r.choice(gens.BADS)], ['cut', r.choice(['interrupt', 'memory']), r.random()]]))
    return c


def shrinks(c):
    if c['before']:
        yield dict(c, before=c['before'][1:])
        yield dict(c, before=c['before'][:-1])
    s = c['spec']
    for i in range(len(s.get('edges', []))):
        t = dict(s, edges=s['edges'][:i] + s['edges'][i + 1:])
        if 'w' in s:
            t['w'] = s['w'][:i] + s['w'][i + 1:]
        yield dict(c, spec=t)
    for k, v in (('scale', None), ('hidden', None), ('frame', False), ('noise', 'uniform')):
        if k in s and s[k] != v:
            yield dict(c, spec=dict(s, **{k: v}))


def describe(c):
    return f"{c['spec']} seed {c['seed']} random state {c['ambient']} after {c['before']}"


def execute(c, ctx):
    s = c['spec']
    ctx.ident(c)
    gens.ambient(c['ambient'])
    for b in c['before']:
        if b[0] == 'bad':
            ctx.fault('rejected_call')
            res = ctx.call(lambda: gens.bad_call(b[1], c['seed']))
            ctx.check(res[0] == 'exc', 'bad-accepted', lambda: f'malformed request {b[1]} was accepted')
        else:
            lines = in_child(lambda: ctx.count_lines(lambda: gens.call(s, c['seed']))[0])
            res = ctx.call(lambda: gens.call(s, c['seed']), fault=[b[1], 1 + int(b[2] * (lines - 1))])
            ctx.check(not ctx.last_fired or (res[0] == 'exc' and is_fault(res[1])), 'fault-swallowed', lambda: rr(res))
    a = gens.arrays(s)
    res = ctx.call(lambda: gens.call(s, c['seed'], a))
    ctx.check(res[0] == 'ok', 'error', lambda: f'{s} raised {rr(res)}')
    for x, y in zip(gens.arrays(s).values(), a.values()):
        ctx.check(np.array_equal(np.asarray(x, dtype=object), np.asarray(y, dtype=object)), 'input-changed', 'an argument changed')
    CHECK[s['kind']](ctx, s, res[1])
    ctx.nontrivial = True


# --------------------------------------------------------------------- pieces
def scales(s):
    sc, n = s['scale'], s['n']
    return [1. if sc is None else float(sc)] * n if not isinstance(sc, list) else [float(x) for x in sc]


def matrix(ctx, s, X, rows):
    ctx.check(isinstance(X, np.ndarray) and X.shape == (rows, s['n']), 'shape',
              lambda: f"{s}: {type(X).__name__} of shape {getattr(X, 'shape', None)}, should be {(rows, s['n'])}")
    ctx.check(np.isfinite(X).all(), 'not-finite', lambda: f'{s}: not all values are finite')


def noise(ctx, s, R, scale, j, what='noise'):
    """R: the noise that variable j shows."""
    kind = s['noise']
    eps = 1e-8 * (1 + np.abs(R).max())
    say = lambda m: (lambda: f'{s}: {what} of variable {j} {m}')
    if scale == 0:
        ctx.check(np.abs(R).max() <= 1e-9 * s.get('big', 1), 'equation', say(f'is {np.abs(R).max():.3g} though switched off'))
        return
    ctx.check(len(np.unique(np.round(R / scale, 13))) == len(R), 'constant', say('repeats values'))
    if kind == 'uniform':
        ctx.check(np.abs(R).max() <= scale + eps, 'noise', say(f'reaches {np.abs(R).max()}, the scale is {scale}'))
    if kind == 'exp':
        ctx.check(R.min() >= -eps, 'noise', say(f'is {R.min()}, below zero'))
    if len(R) < 300:
        return
    m, sd, ab = R.mean() / scale, R.std() / scale, np.abs(R).mean() / scale
    w = 6.5 / np.sqrt(len(R))
    want = {'gauss': (0, 1, .798), 'laplace': (0, 1.414, 1.), 'uniform': (0, .577, .5), 'exp': (1, 1, 1), 'gumbel': (.577, 1.283, 1.)}
    wm, ws, wa = want[kind]
    ctx.check(abs(m - wm) <= w * ws, 'noise', say(f'has mean {m * scale:.3g}, should be near {wm * scale:.3g}'))
    wide = {'gauss': .71, 'laplace': 1.6, 'uniform': .26, 'exp': 1.5, 'gumbel': 1.35}[kind]     # standard error of the deviation x sqrt(n)
    ctx.check(abs(sd - ws) <= 1.2 * w * wide, 'noise', say(f'has deviation {sd * scale:.3g}, should be near {ws * scale:.3g}'))
    if kind in ('gauss', 'laplace'):
        ctx.check(abs(ab - wa) <= w * ws, 'noise', say(f'has mean size {ab * scale:.3g}, should be near {wa * scale:.3g}'))
    if kind == 'gumbel':
        ctx.check(R.min() < 0, 'noise', say('is never negative'))


def parents(s):
    out = [[] for _ in range(s['n'])]
    for (a, b) in s['edges']:
        out[b].append(a)
    return out


def sig(x):
    return 1 / (1 + np.exp(-x))


def check_lin(ctx, s, X):
    n = s['n']
    W = np.zeros((n, n))
    for (a, b), w in zip(s['edges'], s['w']):
        W[a, b] = w
    sc = scales(s)
    if s['rows'] is None:
        matrix(ctx, s, X, n)
        A = np.linalg.inv(np.eye(n) - W)
        C = A.T @ np.diag(np.square(sc)) @ A
        ctx.check(np.abs(X.T @ X / n - C).max() <= 1e-9 * (1 + np.abs(C).max()), 'equation',
                  lambda: f'{s}: second moments {X.T @ X / n}, should be {C}')
        return
    matrix(ctx, s, X, s['rows'])
    s = dict(s, big=1 + np.abs(X).max())
    for j in range(n):
        drive = X @ W[:, j]
        if s['noise'] in ('logistic', 'poisson'):
            v = X[:, j]
            p = sig(drive) if s['noise'] == 'logistic' else np.exp(drive)
            var = p * (1 - p) if s['noise'] == 'logistic' else p
            ctx.check(np.all(v == np.round(v)) and v.min() >= 0 and (s['noise'] == 'poisson' or v.max() <= 1), 'noise',
                      lambda: f'{s}: variable {j} has values {np.unique(v)[:6]}')
            groups = [np.ones(len(v), bool)] + [X[:, q] >= 1 for q in parents(s)[j]] + [X[:, q] < 1 for q in parents(s)[j]]
            for g in groups:
                if g.sum() >= 300:
                    gap, se = abs((v[g] - p[g]).sum()), np.sqrt(var[g].sum())
                    ctx.check(gap <= 7 * se + 5, 'noise', lambda: f'{s}: variable {j} is off its mean by {gap / se:.1f} standard errors')
        else:
            noise(ctx, s, X[:, j] - drive, sc[j], j)


def order(s):
    left, out = set(range(s['n'])), []
    while left:
        v = min(x for x in left if not any(b == x and a in left for a, b in s['edges']))
        out.append(v)
        left.discard(v)
    return out


def mim_fit(a, x):
    """best weights of x = tanh(u a) + cos(v a) + sin(w a) and the largest error, or None when they cannot be told"""
    from scipy.optimize import least_squares
    i = np.flatnonzero(np.abs(a) <= 4)
    if len(i) < 12 or not .25 < np.median(np.abs(a[i])):
        return None
    i = i[np.unique(np.linspace(0, len(i) - 1, 40).astype(int))]
    p, q = a[i], x[i]
    pos = np.arange(.5, 2.01, .05)
    both = np.r_[-pos, pos]
    T, C, S = np.tanh(np.outer(both, p)), np.cos(np.outer(pos, p)), np.sin(np.outer(both, p))
    R = q - T[:, None] - S[None]
    err = (R ** 2).sum(-1)[:, :, None] - 2 * R @ C.T + (C ** 2).sum(-1)
    best = (np.inf, None)
    for k in np.argsort(err.ravel())[:30]:
        u, w, v = np.unravel_index(k, err.shape)
        o = least_squares(lambda t: np.tanh(t[0] * p) + np.cos(t[1] * p) + np.sin(t[2] * p) - q, [both[u], pos[v], both[w]], xtol=1e-15, ftol=1e-15, gtol=1e-15)
        best = min(best, (float(np.abs(o.fun).max()), [float(abs(t)) for t in o.x]), key=lambda b: b[0])
        if best[0] < 1e-8:
            break
    return best


def check_nonlin(ctx, s, X):
    matrix(ctx, s, X, s['rows'])
    sc, pa = scales(s), parents(s)
    const = {}
    h = 100 if s['hidden'] is None else s['hidden']
    bound = 3 if s['func'] == 'mim' else 2 * h
    for j in order(s):
        x = X[:, j]
        fixed = all(const[p] for p in pa[j])
        const[j] = fixed and sc[j] == 0
        same = np.ptp(x) <= 1e-9 * (1 + np.abs(x).max())
        say = lambda m: (lambda: f'{s}: variable {j} {m}')
        if not pa[j]:
            noise(ctx, s, x, sc[j], j)
            continue
        if const[j]:
            ctx.check(same, 'equation', say('varies though its parents and noise do not'))
        else:
            ctx.check(not same, 'constant', say('is constant though its parents or noise vary'))
        if sc[j] == 0:
            ctx.check(np.abs(x).max() <= bound + 1e-9, 'equation', say(f'reaches {np.abs(x).max()}, {s["func"]} is within {bound}'))
            if s['func'] == 'mim' and all(sc[p] == 0 and not pa[p] for p in pa[j]):
                ctx.check(np.abs(x - 1).max() <= 1e-9, 'equation', say(f'is {x[0]}, mim of zeros is 1'))
            if s['func'] == 'mim' and len(pa[j]) == 1:
                fit = mim_fit(X[:, pa[j][0]], x)
                if fit:
                    ctx.check(fit[0] < 1e-4, 'equation', say(f'is at least {fit[0]} away from every sum of a tanh, a cos and a sin of its parent'))
                    ctx.check(fit[0] > 1e-8 or min(abs(a - b) for a, b in zip(fit[1], fit[1][1:] + fit[1][:1])) > 1e-6, 'equation', say(f'has one weight twice: {fit[1]}'))
                    ctx.info['mim fitted'] += 1
            if s['func'] == 'mlp' and all(sc[p] == 0 and not pa[p] for p in pa[j]):
                ctx.check(np.abs(x).max() <= h + 1e-9, 'equation', say(f'is {x[0]}, mlp of zeros is within {h}'))
        else:
            if s['noise'] == 'uniform':
                ctx.check(np.abs(x).max() <= bound + sc[j] + 1e-9, 'equation', say(f'reaches {np.abs(x).max()}'))
            if s['noise'] == 'exp':
                ctx.check(x.min() >= -bound - 1e-9, 'equation', say(f'reaches {x.min()}'))
            if fixed:
                noise(ctx, s, x - fixed_part(s, x, sc[j]), sc[j], j)


def fixed_part(s, x, scale):
    """Parents do not vary: the offset is unknown, so centre at the family's mean."""
    m = {'gauss': 0, 'laplace': 0, 'uniform': 0, 'exp': 1, 'gumbel': .5772}[s['noise']] * scale
    if s['noise'] == 'uniform':
        return (x.max() + x.min()) / 2
    if s['noise'] == 'exp':
        return x.min()
    return x.mean() - m


PLAIN = {'tanh': np.tanh, 'cos': np.cos}


def plain_func(f, slope):
    fs = [f] if isinstance(f, str) else f
    if 'linear' in fs:
        return None

    def g(x):
        for q in fs:
            x = np.where(x > 0, x, slope * x) if q == 'leaky_relu' else PLAIN[q](x)
        return x
    return g


def bounded(f):
    return (f if isinstance(f, str) else f[-1]) in ('tanh', 'cos')


def check_pnl(ctx, s, X):
    matrix(ctx, s, X, s['rows'])
    sc, pa = scales(s), parents(s)
    const = {}
    f1, f2 = plain_func(s['f1'], s['slope']), plain_func(s['f2'], s['slope'])
    for j in order(s):
        x, k = X[:, j], len(pa[j])
        const[j] = all(const[p] for p in pa[j]) and sc[j] == 0
        same = np.ptp(x) <= 1e-12 * (1 + np.abs(x).max())
        say = lambda m: (lambda: f'{s}: variable {j} {m}')
        if not k:
            noise(ctx, s, x, sc[j], j)
            continue
        if const[j]:
            ctx.check(np.ptp(x) <= 1e-9 * (1 + np.abs(x).max()), 'equation', say('varies though its parents and noise do not'))
        elif not bounded(s['f2']) or len(np.unique(X[:, pa[j][0]])) > 2:
            ctx.check(not same, 'constant', say('is constant though its parents or noise vary'))
        if sc[j] == 0 and f1 and f2:
            want = f2(f1(X[:, pa[j]])).sum(1)
            ctx.check(np.abs(x - want).max() <= 1e-9 * (1 + np.abs(want).max()), 'equation',
                      say(f'is off f2(f1(parents)) by {np.abs(x - want).max():.3g} though its noise is off'))
        if bounded(s['f2']):
            ctx.check(np.abs(x).max() <= k + 1e-9, 'equation', say(f'reaches {np.abs(x).max()}, more than {k}'))
        if bounded(s['f1']) and s['f2'] == 'leaky_relu' and s['noise'] == 'uniform':
            ctx.check(np.abs(x).max() <= k * (1 + sc[j]) + 1e-9, 'equation', say(f'reaches {np.abs(x).max()}'))
        if f1 and s['f2'] == 'leaky_relu' and s['noise'] == 'exp':
            ctx.check((x - f2(f1(X[:, pa[j]])).sum(1)).min() >= -1e-9, 'equation', say('is below f2(f1(parents)) though its noise is positive'))
        if f1 and s['f2'] == 'tanh' and s['noise'] == 'exp':
            ctx.check((x - f2(f1(X[:, pa[j]])).sum(1)).min() >= -1e-9, 'equation', say('is below f2(f1(parents)) though its noise is positive'))


def check_tlin(ctx, s, X):
    L, n = s['L'], s['n']
    matrix(ctx, s, X, s['rows'] + L)
    W, sc = np.array(s['W']), scales(s)
    T = len(X)
    drive = sum(X[k:T - L + k] @ W[k] for k in range(L))
    s = dict(s, big=1 + np.abs(X).max())
    for j in range(n):
        v = X[L:, j]
        if s['noise'] == 'logistic':
            p = sig(drive[:, j])
            ctx.check(set(np.unique(v)) <= {0., 1.}, 'noise', lambda: f'{s}: variable {j} has values {np.unique(v)[:5]}')
            gap, se = abs((v - p).sum()), np.sqrt((p * (1 - p)).sum())
            ctx.check(gap <= 7 * se + 2, 'noise', lambda: f'{s}: variable {j} is off its mean by {gap / se:.1f} standard errors')
            continue
        noise(ctx, s, v - drive[:, j], sc[j], j)
        start = X[:L, j]
        if sc[j] == 0:
            ctx.check(not start.any(), 'equation', lambda: f'{s}: variable {j} starts at {start} though its noise is off')
        else:
            ctx.check(len(np.unique(start)) == L, 'constant', lambda: f'{s}: variable {j} starts at {start}')


def check_tnonlin(ctx, s, X):
    L = s['L']
    matrix(ctx, s, X, s['rows'] + L)
    A, sc = np.array(s['W']) != 0, scales(s)
    bound = 3 if s['func'] == 'mim' else 2 * (100 if s['hidden'] is None else s['hidden'])
    for j in range(s['n']):
        x = X[L:, j]
        say = lambda m: (lambda: f'{s}: variable {j} {m}')
        alone = not A[:, :, j].any()
        if sc[j] == 0:
            ctx.check(np.abs(x).max() <= bound + 1e-9, 'equation', say(f'reaches {np.abs(x).max()}, {s["func"]} is within {bound}'))
            if s['func'] == 'mim' and alone:
                ctx.check(np.abs(x - 1).max() <= 1e-9, 'equation', say(f'is {x[:3]}, mim of zeros is 1'))
        else:
            ctx.check(len(np.unique(x)) == len(x), 'constant', say('repeats values'))
            if s['noise'] == 'uniform':
                ctx.check(np.abs(x).max() <= bound + sc[j] + 1e-9, 'equation', say(f'reaches {np.abs(x).max()}'))
            if s['noise'] == 'exp':
                ctx.check(x.min() >= -bound - 1e-9, 'equation', say(f'reaches {x.min()}'))
            if s['func'] == 'mim' and alone:
                noise(ctx, s, x - 1, sc[j], j)
        start = X[:L, j]
        ctx.check((not start.any()) if sc[j] == 0 else len(np.unique(start)) == L, 'equation', say(f'starts at {start}'))


def check_tpnl(ctx, s, X):
    L, n = s['L'], s['n']
    matrix(ctx, s, X, s['rows'] + L)
    A, sc = (np.array(s['W']) != 0).astype(float), scales(s)
    f1, f2 = plain_func(s['f1'], s['slope']), plain_func(s['f2'], s['slope'])
    T = len(X)
    for j in range(n):
        x = X[L:, j]
        say = lambda m: (lambda: f'{s}: variable {j} {m}')
        if f1 and f2 and (sc[j] == 0 or s['noise'] == 'exp' and s['f2'] in ('tanh', 'leaky_relu')):
            inner = sum(f1(X[k:T - L + k] * A[k][:, j][None, :]) for k in range(L))
            want = f2(inner).sum(1)
            gap = x - want
            if sc[j] == 0:
                ctx.check(np.abs(gap).max() <= 1e-9 * (1 + np.abs(want).max()), 'equation',
                          say(f'is off f2(sum f1(parents)) by {np.abs(gap).max():.3g} though its noise is off'))
            else:
                ctx.check(gap.min() >= -1e-9, 'equation', say('is below f2(sum f1(parents)) though its noise is positive'))
        if sc[j] and not bounded(s['f2']):
            ctx.check(np.ptp(x) > 0, 'constant', say('is constant though its noise varies'))
        start = X[:L, j]
        ctx.check((not start.any()) if sc[j] == 0 else len(np.unique(start)) == L, 'equation', say(f'starts at {start}'))


def check_er(ctx, s, W):
    n, m = s['n'], s['m']
    ctx.check(isinstance(W, np.ndarray) and W.shape == (n, n), 'shape', lambda: f'{s}: shape {getattr(W, "shape", None)}')
    E = [(int(a), int(b)) for a, b in np.argwhere(W != 0)]
    ctx.check(is_acyclic(n, E), 'cyclic', lambda: f'{s}: edges {E}')
    full = n * (n - 1) // 2
    if 2 * m >= n * n:
        ctx.check(len(E) == full, 'edges', lambda: f'{s}: {len(E)} edges, every pair should have one')
    if m == 0:
        ctx.check(not E, 'edges', lambda: f'{s}: edges {E}')
    v = W[W != 0]
    if s['range'] is None:
        ctx.check(np.all(v == 1), 'weights', lambda: f'{s}: weights {np.unique(v)[:5]}')
    else:
        lo, hi = s['range']
        ctx.check(np.all((np.abs(v) >= lo) & (np.abs(v) <= hi)), 'weights', lambda: f'{s}: weights from {v.min()} to {v.max()}')
        ctx.check(len(np.unique(v)) == len(v), 'weights', lambda: f'{s}: repeated weights')
        if len(v) >= 60:
            ctx.check(v.min() < 0 < v.max(), 'weights', lambda: f'{s}: all {len(v)} weights have one sign')


def check_lag(ctx, s, B):
    ctx.check(isinstance(B, np.ndarray) and B.shape == (s['L'], s['n'], s['n']), 'shape', lambda: f'{s}: shape {getattr(B, "shape", None)}')
    ctx.check(np.isfinite(B).all() and np.abs(np.sqrt((B ** 2).sum(1)) - 1).max() <= 1e-9, 'weights',
              lambda: f'{s}: columns have lengths {np.sqrt((B ** 2).sum(1))}')
    if s['n'] > 1:
        ctx.check(len({b.tobytes() for b in B}) == s['L'], 'weights', lambda: f'{s}: two lags have the same matrix')


def check_hawkes(ctx, s, out):
    n = s['n']
    table, E, alpha, mu, events = out
    want = min(round(s['rate'] * n), n * (n - 1) // 2)
    ctx.check(E.shape == (n, n) and set(np.unique(E)) <= {0., 1.} and int(E.sum()) == want, 'edges',
              lambda: f'{s}: {int(E.sum())} edges, should be {want}')
    ctx.check(is_acyclic(n, [(int(a), int(b)) for a, b in np.argwhere(E)]), 'cyclic', lambda: f'{s}: {E.tolist()}')
    ctx.check(np.array_equal(alpha != 0, E != 0), 'weights', lambda: f'{s}: influences {alpha.tolist()} on edges {E.tolist()}')
    v = alpha[E != 0]
    ctx.check(np.all((v >= s['alpha'][0]) & (v <= s['alpha'][1])), 'weights', lambda: f'{s}: influences {v}')
    ctx.check(len(mu) == n and np.all((mu >= s['mu'][0]) & (mu <= s['mu'][1])), 'weights', lambda: f'{s}: base rates {mu}')
    ctx.check(list(table.columns) == ['seq_id', 'time_stamp', 'event_type'], 'table', lambda: f'{s}: columns {list(table.columns)}')
    ctx.check(set(table['seq_id']) <= set(range(s['seqs'])) and set(table['event_type']) <= set(range(n)), 'table',
              lambda: f"{s}: sequences {set(table['seq_id'])} event types {set(table['event_type'])}")
    per = Counter(table['seq_id'])
    ctx.check(all(1 <= per[q] <= np.ceil(s['size'] / s['seqs']) for q in range(s['seqs'])), 'table',
              lambda: f'{s}: events per sequence {dict(per)}')
    t = table['time_stamp'].to_numpy(float)
    ctx.check(np.isfinite(t).all() and t.min() >= 0, 'table', lambda: f'{s}: times from {t.min()}')
    if s['unit'] is not None:
        q = t / s['unit']
        ctx.check(np.abs(q - np.round(q)).max() <= 1e-6, 'table', lambda: f"{s}: times are not multiples of {s['unit']}")
    for q, g in table.groupby(['seq_id', 'event_type']):
        d = np.diff(g['time_stamp'].to_numpy(float))
        ctx.check(len(d) == 0 or (d.min() >= 0 and (s['unit'] or d.min() > 0)), 'table', lambda: f'{s}: times of {q} do not increase')
    types = sorted(set(table['event_type']))
    flat = [[list(map(float, table[(table.seq_id == q) & (table.event_type == e)].time_stamp)) for e in types]
            for q in table['seq_id'].unique()]
    ctx.check([[list(map(float, x)) for x in row] for row in events] == flat, 'table', lambda: f'{s}: event lists and table disagree')


def check_insem(ctx, s, table):
    ctx.check(list(table.columns) == ['seq_id', 'time_stamp', 'event_type'], 'table', lambda: f'{s}: columns {list(table.columns)}')
    ctx.check(set(table.seq_id) <= {0} and set(table.event_type) <= {0, 1}, 'table', lambda: f'{s}: {table.head()}')
    t = table.time_stamp.to_numpy(float)
    ctx.check(np.all(t == np.round(t)) and t.min() >= 0 and t.max() < s['size'], 'table', lambda: f'{s}: times {t.min()}..{t.max()}')
    x, y = (Counter(table[table.event_type == e].time_stamp.astype(int)) for e in (0, 1))
    if s['theta'] == 1 and s['le'] == 0:
        ctx.check(x == y, 'equation', lambda: f'{s}: causes {dict(x)} effects {dict(y)}')
    if s['theta'] == 1:
        ctx.check(all(y[k] >= x[k] for k in x), 'equation', lambda: f'{s}: causes {dict(x)} effects {dict(y)}')
    if s['le'] == 0:
        ctx.check(all(y[k] <= x[k] for k in y), 'equation', lambda: f'{s}: causes {dict(x)} effects {dict(y)}')
    if s['theta'] == 0 and s['le'] == 0:
        ctx.check(not y, 'equation', lambda: f'{s}: effects {dict(y)}')


def unit(s):
    """The same request with noise in the units of the other simulators."""
    return {'uniform': np.sqrt(3), 'gumbel': np.sqrt(6) / np.pi}.get(s['noise'], 1.)


def check_nt_dag(ctx, s, B):
    n = s['n']
    ctx.check(isinstance(B, np.ndarray) and B.shape == (n, n) and set(np.unique(B)) <= {0, 1}, 'shape', lambda: f'{s}: {B}')
    E = [(int(a), int(b)) for a, b in np.argwhere(B != 0)]
    ctx.check(is_acyclic(n, E), 'cyclic', lambda: f'{s}: edges {E}')
    if s['how'] != 'SF':
        ctx.check(len(E) == s['m'], 'edges', lambda: f"{s}: {len(E)} edges, should be {s['m']}")
    else:
        ctx.check(n - 1 <= len(E) <= s['m'], 'edges', lambda: f'{s}: {len(E)} edges')
    if s['how'] == 'BP':
        ctx.check(not {a for a, b in E} & {b for a, b in E}, 'edges', lambda: f'{s}: edges {E} are not bipartite')
        ctx.check(len({a for a, b in E}) <= int(.2 * n), 'edges', lambda: f'{s}: more than {int(.2 * n)} causes in {E}')


def check_nt_param(ctx, s, W):
    n = s['n']
    A = gens.arrays(s)['A']
    ctx.check(isinstance(W, np.ndarray) and W.shape == (n, n) and np.array_equal(W != 0, A != 0), 'weights', lambda: f'{s}: {W}')
    rs = s['ranges'] or [[-2., -.5], [.5, 2.]]
    v = W[W != 0]
    ctx.check(all(any(lo <= x <= hi for lo, hi in rs) for x in v) and len(np.unique(v)) == len(v), 'weights', lambda: f'{s}: weights {v}')


def check_nt_lin(ctx, s, X):
    u = unit(s)
    check_lin(ctx, dict(s, scale=[x * u for x in scales(s)]), X)


def check_nt_var(ctx, s, X):
    n = s['n']
    if s['noise'] in ('logistic', 'poisson'):
        return check_lin(ctx, s, X)
    matrix(ctx, s, X, s['rows'])
    W = gens.arrays(s)['A']
    R = X - X @ W
    found = []
    for j in range(n):
        z = R[:, j]
        say = lambda m: (lambda: f'{s}: noise of variable {j} {m}')
        ctx.check(len(np.unique(np.round(z, 13))) == len(z), 'constant', say('repeats values'))
        if s['noise'] == 'uniform':
            ctx.check(np.abs(z).max() <= np.sqrt(3) * s['high'] + 1e-8 * (1 + np.abs(X).max()), 'noise', say(f'reaches {np.abs(z).max()}'))
        if s['noise'] == 'exp':
            ctx.check(z.min() >= -1e-8 * (1 + np.abs(X).max()), 'noise', say(f'is {z.min()}, below zero'))
        if len(z) >= 300:
            wide = {'gauss': .71, 'uniform': .45, 'exp': 1.5, 'gumbel': 1.1}[s['noise']] * 8 / np.sqrt(len(z))
            sd = z.std()
            found.append(sd)
            ctx.check(s['low'] * (1 - wide) <= sd <= s['high'] * (1 + wide), 'noise', say(f"has deviation {sd:.3g}, should be in {s['low']}..{s['high']}"))
            mean = {'gauss': 0, 'uniform': 0, 'exp': 1, 'gumbel': .45}[s['noise']]
            ctx.check(abs(z.mean() / sd - mean) <= 8 / np.sqrt(len(z)) + wide * mean, 'noise', say(f'has mean {z.mean():.3g} for deviation {sd:.3g}'))


def check_nt_nonlin(ctx, s, X):
    u = unit(s)
    t = dict(s, scale=[x * u for x in scales(s)])
    if s['func'] in ('mlp', 'mim'):
        return check_nonlin(ctx, t, X)
    matrix(ctx, s, X, s['rows'])
    sc, pa = scales(t), parents(s)
    const = {}
    for j in order(s):
        x = X[:, j]
        const[j] = all(const[p] for p in pa[j]) and sc[j] == 0
        if not pa[j]:
            noise(ctx, t, x, sc[j], j)
            continue
        big = 1 + np.abs(x).max() + max(np.abs(X[:, p]).max() for p in pa[j])
        if const[j] and s['func'][:3] == 'pow':
            ctx.check(np.ptp(x) <= 1e-6 * big, 'equation', lambda: f'{s}: variable {j} varies though its parents and noise do not')
        if not const[j]:
            ctx.check(np.ptp(x) > 0, 'constant', lambda: f'{s}: variable {j} is constant though its parents or noise vary')
        if sc[j] == 0 and s['func'][:3] == 'pow' and len(pa[j]) == 1:     # a fixed multiple of a power of the parent
            q = X[:, pa[j][0]] ** int(s['func'][3])
            k = (q @ x) / (q @ q) if q.any() else 0
            ctx.check(np.abs(x - k * q).max() <= 1e-8 * (1 + np.abs(x).max()), 'equation', lambda: f"{s}: variable {j} is no multiple of its parent's power")


def check_nt_pair(ctx, s, X):
    s = dict(s, big=1)
    matrix(ctx, s, X, s['rows'])
    c, e = (X[:, 0], X[:, 1]) if s['direct'] == 0 else (X[:, 1], X[:, 0])
    z = e - (s['weight'] * c if s['linear'] else np.tanh(c) + np.cos(c) + np.sin(c))
    if s['noise'] in ('logistic', 'poisson'):
        rate = .6 if s['noise'] == 'logistic' else 1.
        for v in (c, z):
            ctx.check(np.abs(v - np.round(v)).max() <= 1e-9 and v.min() > -.5 and (s['noise'] == 'poisson' or v.max() < 1.5), 'noise', lambda: f'{s}: values {np.unique(v)[:6]}')
            ctx.check(abs(v.mean() - rate) <= 7 * np.sqrt(rate / len(v)) + 5 / len(v), 'noise', lambda: f'{s}: mean {v.mean()}')
        return
    u = np.sqrt(3) if s['noise'] == 'uniform' else 1
    noise(ctx, s, c, np.sqrt(s['vc']) * u, 0, 'cause')
    noise(ctx, s, z, np.sqrt(s['ve']) * u, 1)


CHECK = dict(nt_dag=check_nt_dag, nt_param=check_nt_param, nt_lin=check_nt_lin, nt_var=check_nt_var, nt_nonlin=check_nt_nonlin, nt_pair=check_nt_pair,
             lin=check_lin, nonlin=check_nonlin, pnl=check_pnl, tlin=check_tlin, tnonlin=check_tnonlin, tpnl=check_tpnl,
             er=check_er, lag=check_lag, hawkes=check_hawkes, insem=check_insem)
