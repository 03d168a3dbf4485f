"""C09: a kernel independence test depends only on its own data and query."""
import numpy as np
import pandas as pd
from scipy.stats import gamma
from sklearn.gaussian_process import GaussianProcessRegressor
from sklearn.gaussian_process.kernels import ConstantKernel, RBF, WhiteKernel

from ..common import InjectedFault, is_fault, r as rr, resplit, shrink_list
from ..runner import in_child

ID = 'C09'
QUICK, THOROUGH = 700, 9000
ISOLATE = True
RULE = ('A case is 1-3 KCI objects (default or explicit kernels, kernels shared between the two variables and between '
        'objects, every width rule, closed-form or sampled null, equal or different ridge terms, spectral cuts, explicit z-kernel or Gaussian process) on data sets that '
        'are unrelated, equal, or equal up to reordered middle rows of one column, arrays or frames, and a history of '
        'queries by position or name, kernels that raise, and interrupts at a chosen fraction of the library lines, with '
        'the global random stream moved between queries. Every completed query is compared with our own formula and with '
        'the answer in a process that asked nothing before. Non-trivial: at least two queries or a fault; distinct by '
        'objects, history, faults.')
MEASURE = 'distinct = different (data sets, objects, query history, fault points)'
REAL = ['KCI', 'BaseConditionalIndependenceTest memo', 'GaussianKernel', 'LinearKernel', 'functional KCI',
        'sklearn Gaussian process (third party)']
STUB = ['failing kernel collaborator', 'in 70% of the runs: the optimiser of sklearn\'s Gaussian process (smooth stand-in, so that the formula around it can be compared exactly)', 'global random state set by the simulator']
ASSUMPTIONS = ['Gaussian-process answers are compared with a tolerance of 1e-3: they come from a numerical optimiser']


def setup():
    global KCI, SimpleKCI, GaussianKernel, LinearKernel, FailKernel
    from cdmir.utils.independence import KCI
    from cdmir.utils.independence.functional.kci import KCI as SimpleKCI
    from cdmir.utils.kernel import GaussianKernel, LinearKernel

    class FailKernel(GaussianKernel):
        def __init__(self, width):
            super().__init__(width)
            self.left = None

        def __call__(self, xs, ys, *a, **k):
            if self.left is not None:
                self.left -= 1
                if self.left < 0:
                    self.left = None
                    raise InjectedFault('kernel failed')
            return super().__call__(xs, ys, *a, **k)


def generate(r, tier):
    big = r.random() < .25
    cols = r.choice([3, 4, 5]) if big else r.choice([3, 4, 5, 5, 13])
    rows = r.choice([340, 360]) if big else r.choice([25, 30, 40, 60])
    if r.random() < .04:
        rows = 1005
    data = [dict(base=None, seed=r.getrandbits(30), rows=rows, cols=cols)]
    for _ in range(r.choice([0, 1, 1, 2])):
        q = r.random()
        if q < .6:
            data.append(dict(base=0, change='shuffle', col=r.randrange(cols), seed=r.getrandbits(30)))
        elif q < .7:
            data.append(dict(base=0, change='copy'))
        elif q < .8:
            data.append(dict(base=0, change='scale', col=r.randrange(cols)))
        elif q < .9:
            data.append(dict(base=0, change='const', col=r.randrange(cols)))
        else:
            data.append(dict(base=None, seed=r.getrandbits(30), rows=rows if r.random() < .5 else 24, cols=cols))
    kernels = [dict(kind=r.choice(['gauss', 'gauss', 'fail', 'linear']), width=r.choice([.5, 1., 2.]),
                    strat=r.choice(['manual', 'manual', 'median', 'empirical_kci', 'empirical_hsic']))
               for _ in range(r.choice([1, 2, 3]))]
    objs = []
    for i in range(r.choice([1, 2, 2, 3])):
        gp = not big and rows < 100 and r.random() < .3
        objs.append(dict(data=r.randrange(len(data)), frame=r.random() < .4,
                         kx=r.choice([None, None, r.randrange(len(kernels))]),
                         ky=r.choice([None, None, r.randrange(len(kernels))]),
                         kz=None if gp else r.randrange(len(kernels)), approx=r.random() < .85, gp=gp,
                         eps=r.choice([None, 1e-2, [1e-3, .05], [.1, 1e-2]]), thr=r.choice([None, None, 1e-3, 1e-8]),
                         draws=r.choice([25, 25, 1500]) if rows < 100 or rows > 1000 else 25))
    ops = []
    for _ in range(r.randint(2, 5)):
        if ops and r.random() < .4:
            o = dict(r.choice(ops), fault=None, form=r.choice(['id', 'list', 'name', 'array']))
            q = r.random()
            if q < .4:
                o['obj'] = r.randrange(len(objs))
            elif q < .75 and not big and o['form'] != 'simple':      # the same variables or digits, divided differently
                ids = o['x'] + o['y'] + o['z']
                ids = cols > 10 and resplit(r, cols, ids) or ids
                if 2 <= len(ids) <= 5:
                    a = r.randint(1, len(ids) - 1)
                    b = r.randint(a + 1, len(ids)) if rows < 500 else len(ids)
                    o.update(x=ids[:a], y=ids[a:b], z=ids[b:])
            elif o['z'] and o['form'] != 'simple' and rows < 500:     # the same but for one condition more, less or other
                rest = [v for v in range(cols) if v not in o['x'] + o['y'] + o['z']]
                j = r.randrange(len(o['z']))
                z = o['z'][:j] + o['z'][j + 1:]
                o['z'] = z[:j] + [r.choice(rest)] + z[j:] if rest and (not z or r.random() < .6) else z
            ops.append(o)
        else:
            vs = list(range(cols))
            r.shuffle(vs)
            if cols > 10 and r.random() < .6:
                vs.sort(key=lambda v: (any(d not in '12' for d in str(v)), r.random()))
            i = r.randrange(len(objs))
            mult = big and r.random() < .8
            x = vs[:3] if mult else vs[:1]
            y = [vs[0]] if mult and cols == 3 else [vs[3]] if mult else vs[1:2]
            rest = [v for v in vs if v not in x and v not in y]
            z = [] if mult or rows > 500 or r.random() < .45 else rest[:r.choice([1, 1, 2, 3])]
            ops.append(dict(obj=i, x=x, y=y, z=z, form=r.choice(['id', 'list', 'name', 'array']), fault=None))
        if r.random() < .3:
            ops[-1]['fault'] = [r.choice(['interrupt', 'memory', 'kernel']), r.random()]
    if r.random() < .1:
        ops.append(dict(obj=0, x=[0], y=[1], z=[], form='simple', fault=None))
    for o in ops:                    # a constant variable has no test of its own
        const = {d['col'] for d in [data[objs[o['obj']]['data']]] if d.get('change') == 'const'}
        if const >= set(o['x']) or const >= set(o['y']):
            o['obj'] = 0
            objs[0]['data'] = 0
    if rows > 1000:                  # the median width then takes a random subsample, by design
        for k in kernels:
            k['strat'] = k['strat'] if k['strat'] != 'median' else 'manual'
    for o in ops:
        if o['fault'] and o['fault'][0] == 'kernel' and o['form'] != 'simple':
            kernels[0]['kind'] = 'fail'
            objs[o['obj']]['kx'] = 0
    return dict(data=data, kernels=kernels, objs=objs, ops=ops, seed=r.getrandbits(30), quickfit=r.random() < .7)


def shrinks(c):
    for o in shrink_list(c['ops']):
        if o:
            yield dict(c, ops=o)
    for i, o in enumerate(c['ops']):
        for k, v in (('fault', None), ('form', 'list'), ('z', []), ('x', o['x'][:1])):
            if o[k] != v:
                yield dict(c, ops=c['ops'][:i] + [dict(o, **{k: v})] + c['ops'][i + 1:])
    for i, o in enumerate(c['objs']):
        for k, v in (('frame', False), ('kx', None), ('ky', None), ('approx', True), ('eps', None), ('thr', None), ('draws', 25)):
            if o[k] != v:
                yield dict(c, objs=c['objs'][:i] + [dict(o, **{k: v})] + c['objs'][i + 1:])
    if c['data'][0]['rows'] > 30:
        yield dict(c, data=[dict(d, rows=25) if d['base'] is None else d for d in c['data']])


def describe(c):
    return f"data {c['data']} kernels {c['kernels']} objects {c['objs']} :: " + '; '.join(
        f"#{o['obj']}({o['x']},{o['y']}|{o['z']} by {o['form']}) {o['fault'] or ''}" for o in c['ops'])


def build_data(specs):
    out = []
    for s in specs:
        if s['base'] is None:
            g = np.random.default_rng(s['seed'])
            a = g.normal(size=(s['rows'], s['cols']))
            a[:, 1] = a[:, 0] + a[:, 1]
            a[:, -1] = np.sin(a[:, 1]) + a[:, -1]
        else:
            a = out[s['base']].copy()
            if s['change'] == 'shuffle':
                g = np.random.default_rng(s['seed'])
                m = a[4:-4, s['col']]
                a[4:-4, s['col']] = m[g.permutation(len(m))]
            elif s['change'] == 'scale':
                a[:, s['col']] *= 3.
            elif s['change'] == 'const':
                a[:, s['col']] = 1.5
        out.append(a)
    return out


# ------------------------------------------------------- reference computation
def zs(a):
    m, s = a.mean(0), a.std(0, ddof=1)
    with np.errstate(all='ignore'):
        z = (a - m) / s
    z[np.isnan(z)] = 0
    return z


def kmat(k, a):
    if k['kind'] == 'linear':
        return a @ a.T
    sq = ((a[:, None, :] - a[None, :, :]) ** 2).sum(-1)
    n, d = a.shape
    s = k['strat'] if k['kind'] == 'gauss' else 'manual'
    if s == 'manual':
        w = k['width']
    elif s == 'median':
        ds = np.sqrt(sq)
        w = 1 / (2 * np.median(ds[ds > 0]) ** 2)
    elif s == 'empirical_kci':
        w = 1 / (1.2 if n < 200 else .7 if n < 1200 else .4) ** 2 / d
    else:
        w = 1 / (.8 if n < 200 else .5 if n < 1200 else .3) ** 2 * d
    return np.exp(-.5 * w * sq)


def center(K):
    return K - K.mean(0)[None, :] - K.mean(1)[:, None] + K.mean()


def quick_fit(self, X, y):
    """Stands in for the optimiser: a smooth function of what it is given, whichever basis that is written in."""
    G, th = y @ y.T / len(y), []
    for h in self.kernel.hyperparameters:
        if h.name.endswith('constant_value'):
            th.append([np.log(.5 + np.trace(G) / len(y))])
        elif h.name.endswith('length_scale'):
            th.append(.2 * np.log1p((X * (G @ X)).sum(0) / len(y)))
        else:
            th.append([np.log(.02 + .1 * np.linalg.norm(G) / len(y))])
    self.kernel_ = self.kernel.clone_with_theta(np.concatenate(th))
    self.X_train_, self.y_train_ = X, y
    return self


def learned(K, Z, thr):
    """The kernel of the condition and the noise a Gaussian process finds for the leading components of K."""
    n = len(K)
    w, v = np.linalg.eigh((K + K.T) / 2)
    w, v = w[::-1][:min(400, n // 4)], v[:, ::-1][:, :min(400, n // 4)]
    v, w = v[:, w > w[0] * thr], w[w > w[0] * thr]
    gp = GaussianProcessRegressor(ConstantKernel(1., (1e-3, 1e3)) * RBF(np.ones(Z.shape[1]), (1e-2, 1e2))
                                  + WhiteKernel(.1, (1e-10, 10.)))
    gp.fit(Z, 2 * np.sqrt(n) * v * np.sqrt(w / w[0]))
    return gp.kernel_.k1(Z, Z), np.exp(gp.kernel_.theta[-1])


DEFAULT = dict(kind='gauss', width=1., strat='manual')


def reference(c, o, data, x, y, z):
    """(p or None, statistic, tolerance of p), or None where only the fresh process can tell."""
    kx = DEFAULT if o['kx'] is None else c['kernels'][o['kx']]
    ky = DEFAULT if o['ky'] is None else c['kernels'][o['ky']]
    X, Y = zs(data[:, x]), zs(data[:, y])
    n = len(data)
    if not z:
        A, B = center(kmat(kx, X)), center(kmat(ky, Y))
        stat = (A * B).sum()
        mean = np.trace(A) * np.trace(B) / n
        var = 2 * (A ** 2).sum() * (B ** 2).sum() / n ** 2
    else:
        Z = zs(data[:, z])
        X = np.concatenate([X, .5 * Z], axis=1)
        A, B = center(kmat(kx, X)), center(kmat(ky, Y))
        if o['gp'] and not c['quickfit']:
            return None                 # two optima can be equally good: only the fresh process can tell
        if o['gp']:
            (C, ex), (D, ey) = learned(A, Z, o['thr'] or 1e-5), learned(B, Z, o['thr'] or 1e-5)
        else:
            C = D = center(kmat(c['kernels'][o['kz']], Z))
            ex, ey = o['eps'] if isinstance(o['eps'], list) else (o['eps'] or 1e-3,) * 2
        Rx, Ry = ex * np.linalg.inv(C + ex * np.eye(n)), ey * np.linalg.inv(D + ey * np.eye(n))
        A, B = Rx @ A @ Rx, Ry @ B @ Ry
        stat = (A * B).sum()

        def cut(K):
            w, v = np.linalg.eigh((K + K.T) / 2)
            keep = w > w.max() * (o['thr'] or 1e-5)
            return (v[:, keep] * w[keep]) @ v[:, keep].T
        P = cut(A) * cut(B)
        mean, var = np.trace(P), 2 * (P ** 2).sum()
    if o['approx']:
        return 1 - gamma.cdf(stat, mean ** 2 / var, 0, var / mean), stat, 0
    if o['draws'] < 1000:
        return None, stat, 0
    # null distribution: a weighted sum of independent chi-squares
    if z:
        w = np.linalg.eigvalsh((P + P.T) / 2)
    else:
        w = np.outer(np.linalg.eigvalsh(A), np.linalg.eigvalsh(B)).ravel() / n
    w = np.sort(w[w > w.max() * (o['thr'] or (1e-5 if z else 1e-6))])[::-1]
    g = np.random.default_rng(c['seed'])
    q = np.mean([w @ g.chisquare(1, (len(w), 1000)) > stat for _ in range(8)])
    return q, stat, 6 * np.sqrt(max(q * (1 - q), 5e-4) * (1 / o['draws'] + 1 / 8000)) + 1 / o['draws']


def execute(c, ctx):
    fit = GaussianProcessRegressor.fit
    if c['quickfit']:
        GaussianProcessRegressor.fit = quick_fit
    try:
        run(c, ctx)
    finally:
        GaussianProcessRegressor.fit = fit


def run(c, ctx):
    data = build_data(c['data'])
    kernels = []
    for k in c['kernels']:
        if k['kind'] == 'linear':
            kernels.append(LinearKernel())
        elif k['kind'] == 'fail':
            kernels.append(FailKernel(k['width']))
        else:
            kernels.append(GaussianKernel(k['width'], GaussianKernel.WidthStrategyEnum[k['strat']]))
    objs, names = [], []
    for o in c['objs']:
        a = data[o['data']]
        nm = [f'v{i}' for i in range(a.shape[1])][::-1] if o['frame'] else [f'x{i}' for i in range(a.shape[1])]
        kw = dict(approximate_mode=o['approx'], null_distribution_sample_size=o['draws'])
        if o['thr']:
            kw['lambda_product_threshold'] = o['thr']
        for key, kk in (('kernel_x', 'kx'), ('kernel_y', 'ky'), ('kernel_z', 'kz')):
            if o[kk] is not None:
                kw[key] = kernels[o[kk]]
        if o['eps']:
            ex, ey = o['eps'] if isinstance(o['eps'], list) else (o['eps'], o['eps'])
            kw.update(epsilon_x=ex, epsilon_y=ey)
        objs.append(KCI(pd.DataFrame(a, columns=nm) if o['frame'] else a, **kw))
        names.append(nm)

    def ask(op):
        i = op['obj']
        conv = {'id': lambda v: v[0] if len(v) == 1 else list(v), 'list': list, 'array': np.array,
                'name': lambda v: names[i][v[0]] if len(v) == 1 else [names[i][q] for q in v], 'simple': list}[op['form']]
        if op['form'] == 'simple':
            a = data[c['objs'][i]['data']]
            return lambda: SimpleKCI().test(a[:, op['x']], a[:, op['y']])
        z = conv(op['z']) if op['z'] else None
        return lambda: objs[i](conv(op['x']), conv(op['y']), z)

    def pure(op):
        """The answer in a process that asked nothing else."""
        def go():
            np.random.seed(11)
            p, s = ask(op)()
            return float(p), float(s)
        return in_child(go)

    ctx.ident(c['data'], c['kernels'], c['objs'], c['quickfit'])
    fresh = [pure(op) for op in c['ops']]
    given = [np.array(d) for d in data]
    seen = {}
    for j, op in enumerate(c['ops']):
        ctx.ident(op)
        o = c['objs'][op['obj']]
        simple = op['form'] == 'simple'
        src = c['data'][o['data']]
        if src.get('change') == 'const' and ({src['col']} >= set(op['x']) or {src['col']} >= set(op['y'])):
            continue                    # a constant variable has no test of its own
        what = f"query {j} #{op['obj']}({op['x']}, {op['y']} | {op['z']} by {op['form']})"
        np.random.seed((c['seed'] + j) % 2 ** 32)
        before = np.random.get_state()
        if op['fault'] and not simple:
            kind, frac = op['fault']
            if kind == 'kernel':
                ks = [k for k in kernels if isinstance(k, FailKernel)]
                for k in ks:
                    k.left = int(frac * 3)
                res = ctx.call(ask(op))
                fired = any(k.left is None for k in ks)
                for k in ks:
                    k.left = None
                if fired:
                    ctx.fault('kernel_failure')
            else:
                lines = in_child(lambda: ctx.count_lines(ask(op))[0])
                res = ctx.call(ask(op), fault=[kind, 1 + int(frac * (lines - 1))])
                fired = ctx.last_fired
            if fired:
                ctx.check(res[0] == 'exc' and is_fault(res[1]), 'fault-swallowed', lambda: f'{what} with {kind}: {rr(res)}')
        res = ctx.call(ask(op))
        ctx.check(res[0] == 'ok', 'error', lambda: f'{what} raised {rr(res)}')
        p, s = float(res[1][0]), float(res[1][1])
        after = np.random.get_state()
        if o['approx'] or simple:
            ctx.check(before[2] == after[2] and np.array_equal(before[1], after[1]), 'random-state',
                      lambda: f'{what} moved the global random generator')
        gp = o['gp'] and op['z'] and not simple and not c['quickfit']
        tol = 1e-3 if gp else 1e-6
        fp, fs = fresh[j]
        ctx.check(abs(s - fs) <= tol * (1 + abs(fs)), 'history',
                  lambda: f'{what}: statistic {s}, a new process gives {fs}')
        if o['approx'] or simple:
            ctx.check(abs(p - fp) <= tol, 'history', lambda: f'{what}: p {p}, a new process gives {fp}')
        else:
            ctx.check(0 <= p <= 1, 'p-range', lambda: f'{what}: p {p}')
        ref = reference(c, dict(o, kx=None, ky=None, approx=True, thr=None) if simple else o, data[o['data']], op['x'], op['y'], op['z'])
        if ref is not None:
            ctx.check(abs(s - ref[1]) <= 1e-6 * (1 + abs(ref[1])), 'value', lambda: f'{what}: statistic {s}, should be {ref[1]}')
            if ref[0] is not None:
                ctx.check(abs(p - ref[0]) <= (ref[2] or 1e-4), 'value', lambda: f'{what}: p {p}, should be {ref[0]}')
        key = (op['obj'], tuple(op['x']), tuple(op['y']), tuple(op['z']), simple)
        if key in seen:
            ctx.check(seen[key] == (p, s), 'answer-changed', lambda: f'{what}: {(p, s)}, earlier {seen[key]}')
        seen[key] = (p, s)
    ctx.check(all(np.array_equal(a, b) for a, b in zip(data, given)), 'input-changed', 'the data changed')
    ctx.nontrivial = len(c['ops']) > 1 or bool(ctx.faults)
