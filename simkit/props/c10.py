"""C10: a remembered local score is always the freshly computed one."""
from math import exp, lgamma, log, pi, sqrt

import numpy as np
import pandas as pd

from ..common import gen_sched, is_fault, r as rr, resplit, shrink_list, supply

ID = 'C10'
QUICK, THOROUGH = 2400, 26000
RULE = ('A case is 1-2 score objects (BIC, BDeu, general or multi-dimensional cross-validated or marginal likelihood; arrays or frames; settings '
        'varied; a second object on changed data) and a history of evaluations of (variable, parents) with the parents '
        'supplied as list, tuple, set, array, dict view, generator, iterator, map or an iterable that fails half way, '
        'with interrupts and failed allocations at chosen lines, or 2-4 clients sharing the objects. Every value is '
        'compared with our own formula. Non-trivial: a repeated family in another form, a fault or an interleaving; '
        'distinct by objects, history, faults, switch points.')
MEASURE = 'distinct = different (score objects, data, history, fault points, context-switch points)'
REAL = ['BICScore', 'BDeuScore', 'GeneralCVScore', 'MultiCVScore', 'GeneralMarginalScore', 'MultiMarginalScore', 'BaseLocalScoreFunction memo']
STUB = ['parent iterables (failing, one-shot)', 'client threads scheduled by the simulator']
FORMS = ['list', 'list', 'tuple', 'set', 'frozenset', 'gen', 'iter', 'keys', 'map', 'array', 'npint']


def setup():
    global CLS
    from cdmir.utils.local_score import BDeuScore, BICScore, GeneralCVScore, MultiCVScore
    from cdmir.utils.local_score.marginal_base import GeneralMarginalScore, MultiMarginalScore
    CLS = dict(bic=BICScore, bdeu=BDeuScore, gcv=GeneralCVScore, mcv=MultiCVScore, gml=GeneralMarginalScore, mml=MultiMarginalScore)


def generate(r, tier):
    mode = r.choice(['serial', 'serial', 'clients'])
    kind = r.choice(['bic', 'bic', 'bdeu', 'bdeu', 'gcv', 'mcv', 'gml', 'mml'])
    cols = r.choice([3, 4, 5, 13]) if kind in ('bic', 'bdeu') else r.choice([3, 4, 5])
    rows = {'bic': r.choice([20, 60, 400]), 'bdeu': r.choice([12, 40, 90]), 'gcv': r.choice([20, 23, 30]),
            'mcv': r.choice([20, 23, 30]), 'gml': r.choice([8, 12, 20, 30]), 'mml': r.choice([8, 12, 20, 30])}[kind]
    obj = dict(seed=r.getrandbits(30), rows=rows, cols=cols, frame=r.random() < .4, change=None, kw={})
    if r.random() < .5:
        obj['kw'] = {'bic': dict(lambda_value=r.choice([.5, 2, 4])),
                     'bdeu': dict(sample_prior=r.choice([.5, 2, 10]), structure_prior=r.choice([.5, 1, 2])),
                     'gcv': dict(lambda_value=r.choice([.1, .05]), k_fold=r.choice([2, 3, 5, 10])),
                     'mcv': dict(lambda_value=r.choice([.1, .05]), k_fold=r.choice([2, 3, 5, 10]))}.get(kind, {})
    if kind in ('mcv', 'mml') and r.random() < .5 and cols >= 4:
        obj['groups'] = [[0, 1], [2]] + [[v] for v in range(3, cols)]
    objs = [obj]
    if r.random() < .5:
        objs.append(dict(obj, change=r.choice(['perm', 'row' if kind != 'mml' else 'perm', 'same', 'sign']), frame=r.random() < .4))
    nv = len(obj.get('groups') or range(cols))
    clients = []
    k = 1 if mode == 'serial' else r.choice([2, 2, 3, 4])
    fam = []
    for _ in range(k):
        ops = []
        for _ in range(r.randint(2, 9) if mode == 'serial' else r.randint(1, 4)):
            if fam and r.random() < .6:
                i, pa = r.choice(fam)
                pa = list(pa)
                r.shuffle(pa)
                if r.random() < .2 and pa:
                    i, pa = pa[0], [i] + pa[1:]
                if nv > 10 and r.random() < .6:      # same digits, split differently
                    t = resplit(r, nv, [i] + sorted(pa))
                    if t:
                        i, pa = t[0], t[1:]
            else:
                vs = list(range(nv))
                r.shuffle(vs)
                if nv > 10 and r.random() < .6:      # small digits, so that other splits exist
                    vs.sort(key=lambda v: (any(d not in '12' for d in str(v)), r.random()))
                i, pa = vs[0], vs[1:1 + r.choice([0, 1, 1, 2, 2, 3, 5 if kind in ('bic', 'bdeu') else 4])]
                fam.append((i, pa))
            o = dict(obj=r.randrange(len(objs)), i=i, pa=pa, form=r.choice(FORMS), fault=None)
            if r.random() < (.25 if mode == 'serial' else .1):
                o['fault'] = [r.choice(['interrupt', 'memory', 'iterable']), r.random()]
            ops.append(o)
        clients.append(ops)
    c = dict(mode=mode, kind=kind, objs=objs, clients=clients)
    if mode == 'clients':
        c['sched'] = gen_sched(r, k)
        c['sched']['p'] = max(c['sched']['p'], .03)
    return c


def shrinks(c):
    for i, ops in enumerate(c['clients']):
        for o in shrink_list(ops):
            yield dict(c, clients=c['clients'][:i] + [o] + c['clients'][i + 1:])
    for i, ops in enumerate(c['clients']):
        for j, op in enumerate(ops):
            for k, v in (('fault', None), ('form', 'list'), ('pa', op['pa'][:-1])):
                if op[k] != v:
                    yield dict(c, clients=c['clients'][:i] + [ops[:j] + [dict(op, **{k: v})] + ops[j + 1:]] + c['clients'][i + 1:])
    for i, o in enumerate(c['objs']):
        if o['kw'] or o['frame']:
            yield dict(c, objs=c['objs'][:i] + [dict(o, kw={}, frame=False)] + c['objs'][i + 1:])


def describe(c):
    return f"{c['mode']} {c['kind']} {c['objs']} :: " + ' || '.join('; '.join(
        f"#{o['obj']}({o['i']} | {o['pa']} as {o['form']}) {o['fault'] or ''}" for o in ops) for ops in c['clients'])


def build(kind, s):
    g = np.random.default_rng(s['seed'])
    if kind == 'bdeu':
        a = g.integers(0, g.choice([1, 2, 3, 3, 3, 5, 9], s['cols']), (s['rows'], s['cols']))
        a[:, 0] = a[:, 0] % 2
        a[:, 1] = (a[:, 0] + a[:, 1] // 2) % 3
        a = a * (np.arange(s['cols']) + 1) - 2          # values need not start at zero
    else:
        a = g.normal(size=(s['rows'], s['cols'])) * (1 + np.arange(s['cols']))
        a[:, 1] += a[:, 0]
        a[:, -1] -= a[:, 1]
    if s['change'] == 'perm':
        a[:, -1] = a[g.permutation(len(a)), -1]
    elif s['change'] == 'row':
        a[5] = a[6]
    elif s['change'] == 'sign':
        a[::2, -1] = -a[::2, -1]
    return a


# ------------------------------------------------------------------ references
def bic(a, i, pa, lambda_value=1):
    n = len(a)
    if not pa:
        return 0.
    z = (a - a.mean(0)) / a.std(0)
    b = np.linalg.lstsq(z[:, pa], z[:, i], rcond=None)[0]
    return -(n * log(((z[:, i] - z[:, pa] @ b) ** 2).mean()) + log(n) * len(pa) * lambda_value)


def bdeu(a, i, pa, sample_prior=1, structure_prior=1, mult=None):
    """mult: how often each row occurs."""
    mult = np.ones(len(a), int) if mult is None else mult
    r = lambda v: len(np.unique(a[:, v]))
    q = 1
    for p in pa:
        q *= r(p)

    def counts(cols):
        code = np.zeros(len(a), int)
        for v in cols:
            code = code * r(v) + np.unique(a[:, v], return_inverse=True)[1]
        n = np.bincount(code, weights=mult)
        return n[n > 0]
    vm = mult.sum() - 1
    s = len(pa) * log(structure_prior / vm) + (vm - len(pa)) * log(1 - structure_prior / vm)
    u, w = sample_prior / q, sample_prior / (q * r(i))
    return (s + sum(lgamma(u) - lgamma(n + u) for n in counts(pa))
            + sum(lgamma(n + w) - lgamma(w) for n in counts(list(pa) + [i])))


def cv(a, i, pa, multi, lambda_value=.01, k_fold=10, groups=None):
    T = len(a)
    n0, gam, lam = T // k_fold, .01, lambda_value
    cols = lambda v: a[:, groups[v]] if groups else a[:, [v]]

    def gram(x):
        d = ((x[:, None, :] - x[None, :, :]) ** 2).sum(-1)
        up = d[np.triu_indices(T, 1)]
        w = np.sqrt(.5 * np.median(up[up > 0])) * (3 if multi else 2)
        return np.exp(-d / (2 * w ** 2 * (x.shape[1] if multi else 1)))
    H = np.eye(T) - 1 / T
    K = H @ gram(cols(i)) @ H
    P = np.ones((T, T))
    for p in pa:
        P = P * gram(cols(p))
    P = H @ P @ H
    tot = 0
    for k in range(k_fold):
        te = np.arange(k * n0, T if k == k_fold - 1 else (k + 1) * n0)
        tr = np.setdiff1d(np.arange(T), te)
        nv, n1 = len(te), T - len(te)
        Ke, Kt, Kte = K[np.ix_(te, te)], K[np.ix_(tr, tr)], K[np.ix_(tr, te)]
        I = np.eye(n1)
        if pa:
            Pt, Pte = P[np.ix_(tr, tr)], P[np.ix_(tr, te)]
            t1 = np.linalg.inv(Pt + n1 * lam * I)
            t2 = t1 @ Kt @ t1
            f = n1 * lam ** 2 / gam
            t3 = t1 @ np.linalg.inv(I + f * t2) @ t1
            A = (Ke + Pte.T @ t2 @ Pte - 2 * Kte.T @ t1 @ Pte - f * Kte.T @ t3 @ Kte
                 - f * Pte.T @ t1 @ Kt @ t3 @ Kt @ t1 @ Pte + 2 * f * Kte.T @ t3 @ Kt @ t1 @ Pte) / gam
            B = f * t2 + I
        else:
            A = (Ke - Kte.T @ np.linalg.inv(I + Kt / (gam * n1)) @ Kte / (gam * n1)) / gam
            B = Kt / (gam * n1) + I
        tot += (nv * nv * log(2 * np.pi) + nv * np.log(np.diag(np.linalg.cholesky(B))).sum() + np.trace(A)) / 2
    return -tot / k_fold


def marginal(a, i, pa, groups=None):
    """Log marginal likelihood of a Gaussian process from the parents to the leading kernel features of the variable, at the
    best noise level; None if there is no clear best level."""
    from scipy.optimize import minimize_scalar
    T = len(a)
    cols = lambda v: a[:, groups[v]] if groups else a[:, [v]]
    sq = lambda x: ((x[:, None, :] - x[None, :, :]) ** 2).sum(-1)

    def width(d):
        d = d[np.triu_indices(T, 1)]
        return 2.5 * sqrt(.5 * np.median(d[d > 0]))
    d = sq(cols(i))
    H = np.eye(T) - 1 / T
    w, V = np.linalg.eigh(H @ np.exp(-d / 2 / width(d) ** 2) @ H)
    w, V = w[::-1], V[:, ::-1]
    n = min(400, T // 4)
    if w[n - 1] - w[n] < 1e-6 * w[0] and w[n - 1] > 9e-6 * w[0] or (abs(w / w[0] - 1e-5) < 1e-8).any():
        return None
    keep = np.flatnonzero(w[:n] > 1e-5 * w[0])
    Y = 2 * sqrt(T) * V[:, keep] * np.sqrt(w[keep] / w[0])
    e, U = np.linalg.eigh(np.exp(-.5 * sum((sq(cols(p)) / width(sq(cols(p))) ** 2 for p in pa), np.zeros((T, T)))))
    e, P, m = np.maximum(e, 0), ((U.T @ Y) ** 2).sum(1), Y.shape[1]
    nl = lambda t: .5 * (P / (e + exp(2 * t))).sum() + .5 * m * np.log(e + exp(2 * t)).sum() + .5 * m * T * log(2 * pi)
    ts = np.linspace(-6, 5, 221)
    v = [nl(t) for t in ts]
    low = [k for k in range(1, 220) if v[k] < v[k - 1] and v[k] <= v[k + 1]]
    if len(low) != 1 or min(v) < v[low[0]] or ts[low[0]] < -4:
        return None
    return -minimize_scalar(nl, bounds=(ts[low[0] - 1], ts[low[0] + 1]), method='bounded', options=dict(xatol=1e-9)).fun


def reference(kind, s, a, i, pa):
    a = np.asarray(a)
    if kind == 'bic':
        return bic(a, i, pa, **s['kw'])
    if kind == 'bdeu':
        return bdeu(a, i, pa, **s['kw'])
    if kind in ('gml', 'mml'):
        return marginal(a, i, pa, s.get('groups'))
    return cv(a, i, pa, kind == 'mcv', groups=s.get('groups'), **s['kw'])


def execute(c, ctx):
    kind = c['kind']
    data = [build(kind, s) for s in c['objs']]
    given = []
    objs = []
    for s, a in zip(c['objs'], data):
        b = pd.DataFrame(a, columns=[f'c{v}' for v in range(a.shape[1])][::-1]) if s['frame'] else a.copy()
        given.append(b)
        kw = dict(s['kw'])
        if s.get('groups'):
            kw['d_label'] = {v: list(g) for v, g in enumerate(s['groups'])}
        objs.append(CLS[kind](b, **kw))
    ctx.ident(c['mode'], kind, c['objs'])
    seen, want = {}, {}

    def do(op, who):
        i, pa, o = op['i'], op['pa'], op['obj']
        what = f"{who} score #{o}({i} | {pa} as {op['form']})"

        def sup():
            if op['form'] == 'array':
                return np.array(pa, dtype=int)
            if op['form'] == 'npint':
                return [np.int64(p) for p in pa]
            return supply(pa, op['form'])
        f = op['fault']
        if f and f[0] == 'iterable':
            res = ctx.call(lambda: objs[o](i, supply(pa, ['fail', int(f[1] * (len(pa) + 1))])))
            ctx.fault('iterable_failure')
            ctx.check(res[0] == 'exc' and is_fault(res[1]), 'fault-swallowed', lambda: f'{what} from a failing iterable: {rr(res)}')
        elif f:
            res = ctx.call(lambda: objs[o](i, sup()), fault=[f[0], 1 + int(f[1] * (12 if f[1] < .3 else 90 if kind not in ('gml', 'mml') else 3000))])
            if ctx.last_fired and not (kind in ('gml', 'mml') and f[0] == 'memory'):    # the optimiser documents that it copes with errors
                ctx.check(res[0] == 'exc' and is_fault(res[1]), 'fault-swallowed', lambda: f'{what} with {f[0]}: {rr(res)}')
        res = ctx.call(lambda: objs[o](i, sup()))
        key = (o, i, frozenset(pa))
        if key not in want:
            want[key] = reference(kind, c['objs'][o], data[o], i, sorted(pa))
        if want[key] is None and res[0] != 'ok':
            return
        ctx.check(res[0] == 'ok', 'error', lambda: f'{what} raised {rr(res)}')
        v = float(res[1])
        ctx.check(want[key] is None or abs(v - want[key]) <= 1e-7 * (1 + abs(want[key])) * (1 if kind in ('bic', 'bdeu') else 100), 'value',
                  lambda: f'{what}: {v}, should be {want[key]}')
        seen.setdefault(key, set()).add((op['form'], tuple(pa)))
        ctx.event(what)

    for ops in c['clients']:
        ctx.ident(ops)
    if c['mode'] == 'serial':
        for op in c['clients'][0]:
            do(op, 'client 0')
    else:
        def client(ops, k):
            def run():
                for op in ops:
                    ctx.op_point()
                    do(op, f'client {k}')
            return run
        ctx.run_clients([client(ops, k) for k, ops in enumerate(c['clients'])], c['sched'])
    for a, b in zip(data, given):
        ctx.check(np.array_equal(a, np.asarray(b)), 'input-changed', 'the data changed')
    ctx.nontrivial = any(len(s) > 1 for s in seen.values()) or bool(ctx.faults) or ctx.switches > 0


