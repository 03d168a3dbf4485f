"""C08: a remembered kernel matrix is always the one of its arguments."""
import numpy as np
import pandas as pd

from ..common import gen_sched, is_fault, r as rr, shrink_list

ID = 'C08'
QUICK, THOROUGH = 6000, 60000
RULE = ('A case is one kernel object (Gaussian with each width rule, linear, polynomial), a pool of arrays (both sides of '
        'the 1000-element text-summary threshold and of the 200-row width thresholds; copies differing in one entry by '
        '1e-7 to 1, reshapes, transposes, other dtypes, orders and frames), and a history of evaluations, in-place '
        'changes of inputs or of returned matrices, centring of returned matrices, parameter changes and interrupted evaluations, or 2-4 concurrent clients evaluating the shared object. '
        'Every matrix is compared with our own formula. Non-trivial: at least two evaluations with different arguments, '
        'or a fault, or an interleaving; distinct by kernel, arrays, history, switch points.')
MEASURE = 'distinct = different (kernel, array pool, history, fault points, context-switch points)'
REAL = ['GaussianKernel', 'LinearKernel', 'PolynomialKernel', 'BaseKernel']
STUB = ['client threads scheduled by the simulator']
TOL = 1e-10


def setup():
    global GaussianKernel, LinearKernel, PolynomialKernel
    from cdmir.utils.kernel import GaussianKernel, LinearKernel, PolynomialKernel


def generate(r, tier):
    mode = r.choice(['serial', 'serial', 'clients'])
    kind = r.choice(['gauss', 'gauss', 'gauss', 'linear', 'poly'])
    strat = r.choice(['manual', 'median', 'empirical_kci', 'empirical_hsic']) if kind == 'gauss' else None
    c = dict(mode=mode, kind=kind, strat=strat, width=r.choice([.1, 1., 2.5]), degree=r.choice([1, 2, 3]),
             const=r.choice([0., 1., .5]), pool=[], clients=[])
    d = r.choice([1, 2, 3])
    rows = r.choice([3, 8, 20, 20, 60, 150, 199, 200, 201, 210, 340, 400])
    if strat in ('empirical_kci', 'empirical_hsic') and r.random() < .03:
        rows = r.choice([1050, 1150, 1199, 1200, 1201, 1300])
        d = 1
    c['pool'].append(dict(base=None, seed=r.getrandbits(30), rows=rows, d=d))
    for _ in range(r.randint(1, 4) if rows < 1000 else 1):
        b = r.randrange(len(c['pool']))
        q = r.random()
        if q < .6:
            c['pool'].append(dict(base=b, change='entry', at=r.random(), delta=r.choice([1e-7, 1e-6, 1e-3, .5, 1.])))
        elif q < .65 and rows * d < 1000:      # same bytes, other numbers; same numbers, other shape
            if r.random() < .5:
                c['pool'].append(dict(base=b, change='count'))
                c['pool'].append(dict(base=len(c['pool']) - 1, change='bits'))
            else:
                c['pool'].append(dict(base=b, change='reshape'))
        elif q < .75:
            c['pool'].append(dict(base=b, change=r.choice(['copy', 'fortran', 'frame', 'round', 'perm', 'neg'])))
        else:
            c['pool'].append(dict(base=None, seed=r.getrandbits(30), rows=r.choice([rows, rows, 5, 30]), d=d))
    k = 1 if mode == 'serial' else r.choice([2, 2, 3, 4])
    P = len(c['pool'])
    for _ in range(k):
        ops = []
        for _ in range(r.randint(2, 8) if mode == 'serial' else r.randint(1, 4)):
            q = r.random()
            if mode == 'serial' and q < .15:
                ops.append(dict(op='mutate', x=r.randrange(P), at=r.random(), delta=r.choice([1e-7, 1e-3, .5])))
            elif mode == 'serial' and q < .3:
                ops.append(dict(op='param', v=r.choice([0, 1, 2, 3]), w=r.choice([.2, 1., 1.0000001, 3.])))
            else:
                x = r.randrange(P)
                o = dict(op='eval', x=x, y=r.choice([x, x, r.randrange(P), r.randrange(P)]), fault=None, spoil=r.random() < .25,
                         centre=r.random() < .3)
                if kind == 'gauss' and r.random() < .1:
                    o['y'] = None
                if mode == 'serial' and r.random() < .2:
                    o['fault'] = [r.choice(['interrupt', 'memory']), r.random()]
                ops.append(o)
        c['clients'].append(ops)
    if mode == 'clients':
        c['sched'] = gen_sched(r, k)
        c['sched']['p'] = max(c['sched']['p'], .05)
    return c


def shrinks(c):
    for i, ops in enumerate(c['clients']):
        for o in shrink_list(ops):
            yield dict(c, clients=c['clients'][:i] + [o] + c['clients'][i + 1:])
    for i, ops in enumerate(c['clients']):
        for j, op in enumerate(ops):
            if op.get('fault'):
                yield dict(c, clients=c['clients'][:i] + [ops[:j] + [dict(op, fault=None)] + ops[j + 1:]] + c['clients'][i + 1:])
    for i, p in enumerate(c['pool']):
        if p['base'] is None:
            for rows in (3, 20, 150):
                if rows < p['rows']:
                    yield dict(c, pool=c['pool'][:i] + [dict(p, rows=rows)] + c['pool'][i + 1:])


def describe(c):
    k = {'gauss': f"Gaussian({c['strat']}, width {c['width']})", 'linear': 'Linear',
         'poly': f"Polynomial({c['degree']}, {c['const']})"}[c['kind']]
    return f"{c['mode']} {k} pool {c['pool']} :: " + ' || '.join('; '.join(
        f"eval({o['x']},{o['y']}) {o['fault'] or ''}" if o['op'] == 'eval' else str(o) for o in ops) for ops in c['clients'])


def build_pool(specs):
    out = []
    for s in specs:
        if s['base'] is None:
            a = np.random.default_rng(s['seed']).normal(size=(s['rows'], s['d']))
        else:
            b = out[s['base']]
            a = np.array(b, dtype=float)
            ch = s['change']
            if ch == 'count':
                a = np.abs(np.round(2 * a)).astype(np.int64)
            elif ch == 'bits':
                a = np.asarray(b).view(np.float64).copy() if np.asarray(b).dtype == np.int64 else a
            elif ch == 'reshape':
                a = a.T.reshape(a.shape[1], a.shape[0]) if a.shape[0] <= 4 or a.shape[1] > 4 else a.reshape(-1, 1) \
                    if a.shape[1] > 1 or a.shape[0] % 2 else a.reshape(-1, 2)
            elif ch == 'entry':
                i = int(s['at'] * a.size)
                a[i // a.shape[1], i % a.shape[1]] += s['delta']
            elif ch == 'fortran':
                a = np.asfortranarray(a)
            elif ch == 'frame':
                a = pd.DataFrame(a)
            elif ch == 'round':
                a = np.round(a).astype(int)
            elif ch == 'perm':
                a = a[::-1].copy()
            elif ch == 'neg':
                a = -a
        out.append(a)
    return out


def reference(c, par, x, y):
    x = np.asarray(x, float)
    y_ = x if y is None else np.asarray(y, float)
    if c['kind'] == 'linear':
        return x @ y_.T
    if c['kind'] == 'poly':
        return (par['const'] + x @ y_.T) ** par['degree']
    n, d = x.shape
    sq = lambda a, b: ((a[:, None, :] - b[None, :, :]) ** 2).sum(-1)
    s = par['strat']
    if s == 'manual':
        w = par['width']
    elif s == 'median':
        ds = np.sqrt(sq(x, x))
        w = 1 / (2 * np.median(ds[ds > 0]) ** 2)
    elif s == 'empirical_kci':
        w = 1 / (1.2 if n < 200 else .7 if n < 1200 else .4) ** 2 / d
    else:
        w = 1 / (.8 if n < 200 else .5 if n < 1200 else .3) ** 2 * d
    return np.exp(-.5 * w * sq(x, y_))


def execute(c, ctx):
    pool = build_pool(c['pool'])
    par = {k: c[k] for k in ('strat', 'width', 'degree', 'const')}
    if c['kind'] == 'gauss':
        k = GaussianKernel(par['width'], GaussianKernel.WidthStrategyEnum[par['strat']])
    elif c['kind'] == 'linear':
        k = LinearKernel()
    else:
        k = PolynomialKernel(par['degree'], par['const'])
    ctx.ident(c['mode'], c['kind'], par, c['pool'])
    pairs = set()

    def do(op, who):
        if op['op'] == 'mutate':
            a = pool[op['x']]
            if isinstance(a, np.ndarray):
                i = int(op['at'] * a.size)
                a[i // a.shape[1], i % a.shape[1]] += op['delta'] if a.dtype.kind == 'f' else 1
                ctx.fault('input_changed_in_place')
            return
        if op['op'] == 'param':
            if c['kind'] == 'poly':
                par['degree'], par['const'] = k.degree, k.const = op['v'], op['w']
            elif c['kind'] == 'gauss' and par['strat'] == 'manual':
                par['width'] = k.width = op['w']
            ctx.fault('parameter_changed')
            return
        x, y = pool[op['x']], None if op['y'] is None else pool[op['y']]
        if y is not None and np.shape(y)[1] != np.shape(x)[1]:
            y = x
        if isinstance(x, pd.DataFrame) or isinstance(y, pd.DataFrame):
            if c['kind'] != 'gauss':
                x, y = np.asarray(x), np.asarray(y)
        what = f"{who} evaluation of ({op['x']}, {op['y']})"
        if op['fault']:
            kind, frac = op['fault']
            res = ctx.call(lambda: k(x, y), fault=[kind, 1 + int(frac * 22)])
            if ctx.last_fired:
                ctx.check(res[0] == 'exc' and is_fault(res[1]), 'fault-swallowed', lambda: f'{what}: {rr(res)}')
        res = ctx.call(lambda: k(x, y))
        ctx.check(res[0] == 'ok', 'error', lambda: f'{what} raised {rr(res)}')
        want = reference(c, par, x, y)
        if np.isnan(want).any():       # median width of identical rows is undefined
            return
        got = np.asarray(res[1], float)
        ctx.check(got.shape == want.shape, 'shape', lambda: f'{what}: shape {got.shape}, should be {want.shape}')
        err = float(np.max(np.abs(got - want)))
        ctx.check(err <= TOL * (1 + float(np.max(np.abs(want)))), 'value',
                  lambda: f'{what} with {par} on shapes {x.shape}: off by {err:.3g}')
        pairs.add((op['x'], op['y']))
        if op.get('centre') and got.shape[0] == got.shape[1] and np.allclose(got.T, got, rtol=0, atol=1e-14 * float(np.max(np.abs(got)))):
            n, kept = len(got), got.copy()
            mid = ctx.call(lambda: k.center_kernel_matrix(res[1]))
            h = np.eye(n) - 1 / n
            ctx.check(mid[0] == 'ok' and np.asarray(mid[1]).shape == (n, n)
                      and np.abs(mid[1] - h @ kept @ h).max() <= 1e-9 * (1 + np.abs(kept).max()), 'centred',
                      lambda: f'{what}: centred matrix {rr(mid)}, should be {h @ kept @ h}')
            if c['kind'] == 'gauss' and n <= 150:
                eps = .01
                reg = ctx.call(lambda: k.center_kernel_matrix_regression(res[1], res[1], eps))
                rz = eps * np.linalg.inv(kept + eps * np.eye(n))
                ctx.check(reg[0] == 'ok' and np.abs(reg[1][1] - rz).max() <= 1e-6
                          and np.abs(reg[1][0] - rz @ kept @ rz).max() <= 1e-6, 'centred',
                          lambda: f'{what}: matrix after regression {rr(reg)}, should be {rz @ kept @ rz}')
            ctx.check(np.array_equal(np.asarray(res[1], float), kept), 'input-changed', lambda: f'{what}: centring changed its argument')
        if op.get('spoil'):
            try:
                res[1][...] = 7             # the result is the caller's; later answers must not follow it
                ctx.fault('result_changed_by_caller')
            except ValueError:
                pass                        # handed out read-only: fine too
        ctx.event(what)

    for ops in c['clients']:
        ctx.ident(ops)
    if c['mode'] == 'serial':
        for op in c['clients'][0]:
            do(op, 'client 0')
    else:
        def client(ops, i):
            def run():
                for op in ops:
                    ctx.op_point()
                    do(op, f'client {i}')
            return run
        ctx.run_clients([client(ops, i) for i, ops in enumerate(c['clients'])], c['sched'])
    ctx.nontrivial = len(pairs) > 1 or bool(ctx.faults) or ctx.switches > 0
