"""Specifications of data and graph generator calls, shared by C12 and C13."""
import random

import numpy as np
import pandas as pd

NOISE = ['gauss', 'exp', 'gumbel', 'uniform', 'laplace']
SEM = ['nt_dag', 'nt_param', 'nt_lin', 'nt_lin', 'nt_var', 'nt_nonlin', 'nt_pair']     # the entropy-based package's own
GLOBAL = ['lin', 'lin', 'nonlin', 'pnl', 'tlin', 'tnonlin', 'tpnl', 'er', 'lag'] + SEM
PRIVATE = ['hawkes', 'insem']


def setup():
    global IID, TL, HK, U, NT, torch
    from cdmir.discovery.score_based.entropy_based.entropy_based_discovery import utils as NT
    import torch
    from cdmir.datasets import utils as U
    from cdmir.datasets.simlulators import HawkesSimulator as HK
    from cdmir.datasets.simlulators import IIDSimulator as IID
    from cdmir.datasets.simlulators import TimeLagSimulator as TL


def gen_spec(r, kind, rows):
    n = r.choice([1, 2, 3, 3, 4, 5]) if r.random() < .94 else r.randint(6, 12)
    order = list(range(n))
    r.shuffle(order)
    p = r.choice([.3, .6, .9])
    edges = [[order[i], order[j]] for i in range(n) for j in range(i + 1, n) if r.random() < p]
    s = dict(kind=kind, n=n)
    scale = r.choice([None, 1.0, .5, 3, 'list', 'list', 'list', 'array', 'array', 'zero'])
    if scale in ('list', 'array'):
        s['as'] = scale
        scale = [r.choice([0., 0., .5, 1., 2.]) for _ in range(n)]
    elif scale == 'zero':
        scale = 0.
    s['scale'] = scale
    s['noise'] = r.choice(NOISE)
    if kind == 'lin':
        s['noise'] = r.choice(NOISE + ['logistic', 'poisson'])
        top = .4 if s['noise'] == 'poisson' else 2
        s.update(edges=edges, w=[round(r.choice([-1, 1]) * r.uniform(.2, top), 3) for _ in edges], rows=rows,
                 frame=r.random() < .2)
        if s['noise'] == 'poisson' and n > 2:   # positive effects on counts compound to rates no generator can draw
            s['w'] = [-abs(x) for x in s['w']]
        if s['noise'] == 'gauss' and r.random() < .2:
            s['rows'] = None
    elif kind == 'nonlin':
        s.update(edges=edges, rows=min(rows, 600), func=r.choice(['mlp', 'mim']), hidden=r.choice([None, 5, 20]),
                 cells=r.choice(['int', 'float', 'weights']))
    elif kind in ('pnl', 'tpnl'):
        fs = ['tanh', 'leaky_relu', 'cos', 'linear']
        ls = [['linear', 'tanh', 'linear'], ['tanh', 'leaky_relu'], ['linear', 'leaky_relu'], ['tanh']]
        s.update(rows=min(rows, 300), f1=r.choice(fs + ls), f2=r.choice(fs + ls), slope=r.choice([.2, .5]), hidden=None)
        if kind == 'pnl':
            s['edges'] = edges
        if r.random() < .2:
            s.update(f1='linear', f2='linear', hidden=r.choice([2, 7]))
    if kind in ('tlin', 'tnonlin', 'tpnl'):
        L = r.choice([1, 2, 3])
        s.update(L=L, give=r.random() < .5, rows=min(rows, 400),
                 W=[[[round(r.uniform(-1, 1) / (L * n), 3) if r.random() < p else 0 for _ in range(n)] for _ in range(n)]
                    for _ in range(L)])
        if kind == 'tlin':
            s['noise'] = r.choice(NOISE + ['logistic'])
        if kind == 'tpnl' and not any((f if isinstance(f, str) else f[-1]) in ('tanh', 'cos') for f in (s['f1'], s['f2'])):
            s['rows'] = min(s['rows'], 12)      # such a series may grow without bound
        if kind == 'tnonlin':
            s.update(func=r.choice(['mlp', 'mim']), hidden=r.choice([None, 5]), rows=60)
    if kind == 'er':
        n = r.choice([1, 2, 3, 5, 8, 12])
        s = dict(kind=kind, n=n, m=r.choice([0, 1, n, 2 * n, n * n]), range=r.choice([None, [.5, 2.], [1., 1.5]]))
    if kind in SEM:
        return dict(gen_sem(r, s, kind, edges, rows), by=r.choice([0, 1]))
    if kind == 'lag':
        s = dict(kind=kind, n=r.choice([1, 2, 3]), L=r.choice([1, 2, 3]), per=r.choice([25, 50, 90]), it=r.choice([20, 60]))
    if kind == 'hawkes':
        s = dict(kind=kind, n=r.choice([2, 3, 4]), mu=[.05, .1], alpha=r.choice([[.3, .5], [.1, .2]]),
                 size=r.choice([60, 150]), seqs=r.choice([1, 3, 6]), rate=r.choice([.5, 1., 1.5]),
                 decay=r.choice([.1, 1.]), unit=r.choice([None, None, 5, .5]), text=r.random() < .2)
        if s['text']:
            s['unit'] = None
    if kind == 'insem':
        s = dict(kind=kind, size=r.choice([10, 25]), lx=r.choice([1, 2]), theta=r.choice([0, .5, 1]), le=r.choice([0, 1]))
    return s


def gen_sem(r, s, kind, edges, rows):
    if kind == 'nt_dag':
        how = r.choice(['ER', 'ER', 'SF', 'BP'])
        n = r.choice([5, 8, 11, 12]) if how == 'BP' else r.choice([2, 3, 6, 10])
        top = int(.2 * n)
        full = top * (n - top) if how == 'BP' else n * (n - 1) // 2
        return dict(kind=kind, n=n, how=how, m=r.choice([1, 2, 3]) * n if how == 'SF' else r.choice([0, full, r.randint(0, full)]))
    if kind == 'nt_param':
        return dict(kind=kind, n=s['n'], edges=edges, cells=r.choice(['int', 'float']),
                    ranges=r.choice([None, [[.5, 1.]], [[-2., -1.5], [.1, .2], [3., 4.]], [[-.8, -.4], [.4, .8]]]))
    s['noise'] = r.choice(['gauss', 'exp', 'gumbel', 'uniform'])
    if kind in ('nt_lin', 'nt_var'):
        s['noise'] = r.choice([s['noise'], s['noise'], 'logistic', 'poisson'])
        top = .4 if s['noise'] == 'poisson' else 2
        s.update(edges=edges, w=[round(r.choice([-1, 1]) * r.uniform(.2, top), 3) for _ in edges], rows=rows)
        if s['noise'] == 'poisson' and s['n'] > 2:
            s['w'] = [-abs(x) for x in s['w']]
        if kind == 'nt_lin' and s['noise'] == 'gauss' and r.random() < .2:
            s['rows'] = None
        if kind == 'nt_var':
            s.update(scale=None, low=r.choice([1., .5, 2.]))
            s['high'] = s['low'] * r.choice([1, 1.5, 4])
    elif kind == 'nt_nonlin':
        s.update(edges=edges, func=r.choice(['mlp', 'mim', 'gp', 'gp-add', 'pow2', 'pow3']), cells=r.choice(['int', 'float']), hidden=None)
        s['rows'] = min(rows, 40 if s['func'][:2] == 'gp' else 600)
        if s['scale'] is not None and not isinstance(s['scale'], list):     # documented: an array with one scale per variable
            s.update(scale=[s['scale']] * s['n'])
            s['as'] = 'array'
        if s['func'][:3] == 'pow' and len(edges) > 3:       # powers of powers overflow
            s['edges'] = edges[:1]
    elif kind == 'nt_pair':
        s = dict(kind=kind, n=2, noise=r.choice([s['noise'], 'logistic', 'poisson']), rows=rows, weight=r.choice([1., -2., .5, 0.]), linear=r.random() < .7,
                 direct=r.choice([0, 1]), vc=r.choice([1., .25, 4.]), ve=r.choice([1., .25, 4.]), scale=None)
    return s


def arrays(s):
    """The array arguments of a call, as fresh objects."""
    n = s['n'] if 'n' in s else None
    out = {}
    if 'edges' in s:
        w = s.get('w') or [1] * len(s['edges'])
        A = np.zeros((n, n))
        for (a, b), x in zip(s['edges'], w):
            A[a, b] = x
        if s.get('cells') == 'int':
            A = A.astype(int)
        elif s.get('cells') == 'weights':
            A = A * -1.7
        out['A'] = pd.DataFrame(A) if s.get('frame') else A
    if 'W' in s:
        W = np.array(s['W'])
        out['A'] = W if s['kind'] == 'tlin' else (W != 0).astype(float)
    if 'scale' in s:
        sc = s['scale']
        if isinstance(sc, list):
            sc = np.array(sc) if s.get('as') == 'array' else [float(x) for x in sc]
        out['scale'] = sc
    return out


def call(s, seed, a=None):
    a = arrays(s) if a is None else a
    k = s['kind']
    if k == 'lin':
        return IID.simulate_linear_anm(a['A'], s['rows'], s['noise'], a['scale'], seed)
    if k == 'nonlin':
        return IID.simulate_nonlinear_anm(a['A'], s['rows'], s['noise'], a['scale'], seed, s['func'], s['hidden'])
    if k == 'pnl':
        return IID.simulate_pnl(a['A'], s['rows'], s['noise'], a['scale'], seed, s['f1'], s['f2'], s['slope'], s['hidden'])
    lag = s['L'] if s.get('give') else None
    if k == 'tlin':
        return TL.simulate_linear_anm(a['A'], lag, s['rows'], s['noise'], a['scale'], seed)
    if k == 'tnonlin':
        return TL.simulate_nonlinear_anm(a['A'], lag, s['rows'], s['noise'], a['scale'], seed, s['func'], s['hidden'])
    if k == 'tpnl':
        return TL.simulate_pnl(a['A'], lag, s['rows'], s['noise'], a['scale'], seed, s['f1'], s['f2'], s['slope'], s['hidden'])
    if k == 'er':
        return U.erdos_renyi(s['n'], s['m'], s['range'], seed)
    if k == 'lag':
        return U.generate_lag_transitions(s['n'], s['L'], seed, s['per'], s['it'])
    if k in SEM:
        if seed is not None:
            (NT.set_seed if s.get('by') else NT.set_random_seed)(seed)
        if k == 'nt_dag':
            return NT.simulate_dag(s['n'], s['m'], s['how'])
        if k == 'nt_param':
            return NT.simulate_parameter(a['A']) if s['ranges'] is None else NT.simulate_parameter(a['A'], tuple(map(tuple, s['ranges'])))
        if k == 'nt_lin':
            return NT.simulate_linear_sem(a['A'], np.inf if s['rows'] is None else s['rows'], s['noise'], a['scale'])
        if k == 'nt_var':
            return NT.simulate_linear_sem_variable_scale(a['A'], s['rows'], s['noise'], s['low'], s['high'])
        if k == 'nt_nonlin':
            return NT.simulate_nonlinear_sem(a['A'], s['rows'], s['func'], s['noise'], a['scale'])
        return NT.simulate_pariwise(s['weight'], s['rows'], s['linear'], s['noise'], s['direct'], s['vc'], s['ve'])
    if k == 'hawkes':
        if s['text']:
            return HK.generate_data(s['n'], ','.join(map(str, s['mu'])), ','.join(map(str, s['alpha'])), s['size'],
                                    s['rate'], s['seqs'], s['decay'], seed)
        return HK.get_artificial_data(tuple(s['mu']), tuple(s['alpha']), s['n'], s['size'], s['rate'], s['seqs'],
                                      s['decay'], s['unit'], seed)
    return HK.INSEM_data(s['size'], s['lx'], s['theta'], s['le'], seed)


BAD = ['cycle', 'noise', 'scale', 'nodes', 'lag', 'func']


def bad_call(which, seed):
    """A malformed request, which must be rejected with an error."""
    loop = np.array([[0, 1.], [1., 0]])
    ok = np.array([[0, 1.], [0, 0]])
    return {'cycle': lambda: IID.simulate_linear_anm(loop, 10, seed=seed),
            'cycle2': lambda: IID.simulate_nonlinear_anm(loop, 10, seed=seed),
            'cycle3': lambda: IID.simulate_pnl(loop, 10, seed=seed),
            'self': lambda: IID.simulate_linear_anm(np.eye(2), 10, seed=seed),
            'noise': lambda: IID.simulate_linear_anm(ok, 10, 'cauchy', seed=seed),
            'noise2': lambda: TL.simulate_linear_anm(ok[None], 1, 10, 'cauchy', seed=seed),
            'noise3': lambda: IID.simulate_pnl(ok, 10, 'logistic', seed=seed),
            'scale': lambda: IID.simulate_linear_anm(ok, 10, noise_scale=[1., 1., 1.], seed=seed),
            'scale2': lambda: IID.simulate_nonlinear_anm(ok, 10, noise_scale=[1.], seed=seed),
            'scale3': lambda: TL.simulate_linear_anm(ok[None], 1, 10, noise_scale=[1.], seed=seed),
            'nodes': lambda: U.erdos_renyi(0, 3, seed=seed),
            'lags': lambda: U.generate_lag_transitions(2, 0, seed=seed),
            'lag': lambda: TL.simulate_linear_anm(ok[None], 2, 10, seed=seed),
            'lag2': lambda: TL.simulate_pnl(ok[None], 2, 10, seed=seed),
            'func': lambda: IID.simulate_nonlinear_anm(ok, 10, func_type='gp', seed=seed),
            'func2': lambda: IID.simulate_pnl(ok, 10, func1_type='relu', seed=seed),
            'hidden': lambda: IID.simulate_pnl(ok, 10, hidden=5, seed=seed),
            'nt_cycle': lambda: NT.simulate_linear_sem(loop, 10, 'gauss'),
            'nt_cycle2': lambda: NT.simulate_linear_sem_variable_scale(loop, 10, 'gauss'),
            'nt_noise': lambda: NT.simulate_linear_sem(ok, 10, 'cauchy'),
            'nt_noise2': lambda: NT.simulate_nonlinear_sem(ok, 10, 'mim', 'cauchy'),
            'nt_noise3': lambda: NT.simulate_pariwise(1., 10, distribution='cauchy'),
            'nt_func': lambda: NT.simulate_nonlinear_sem(ok, 10, 'relu'),
            'nt_scale': lambda: NT.simulate_linear_sem(ok, 10, 'gauss', [1., 1., 1.]),
            'nt_graph': lambda: NT.simulate_dag(4, 3, 'XX'),
            'nt_infinite': lambda: NT.simulate_linear_sem(ok, np.inf, 'exp'),
            'infinite': lambda: IID.simulate_linear_anm(ok, None, 'exp', seed=seed)}[which]()


BADS = ['cycle', 'cycle2', 'cycle3', 'self', 'noise', 'noise2', 'noise3', 'scale', 'scale2', 'scale3', 'nodes', 'lags',
        'lag', 'lag2', 'func', 'func2', 'hidden', 'infinite', 'nt_cycle', 'nt_cycle2', 'nt_noise', 'nt_noise2', 'nt_noise3',
        'nt_func', 'nt_scale', 'nt_graph', 'nt_infinite']


def ambient(seed):
    """Put every global random stream into a chosen state."""
    np.random.seed(seed % 2 ** 32)
    random.seed(seed)
    torch.manual_seed(seed)


def streams():
    s = np.random.get_state()
    return s[2], s[1].tobytes(), s[3], s[4], random.getstate(), torch.random.get_rng_state().numpy().tobytes()


def plain(out):
    """Output as comparable plain values."""
    if isinstance(out, tuple):
        return [plain(x) for x in out]
    if isinstance(out, pd.DataFrame):
        return ['frame', list(out.columns), out.to_numpy().tolist()]
    if isinstance(out, np.ndarray):
        return ['array', list(out.shape), out.tolist()]
    if isinstance(out, list):
        return [plain(x) for x in out]
    return out
