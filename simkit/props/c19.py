"""C19: dependence measures equal their definitions on the data given."""
import itertools
import math
import sys
import warnings

import numpy as np

from .. import core
from ..common import clone, close, gen_sched, is_fault, r as rr, shrink_list

ID = 'C19'
QUICK, THOROUGH = 2600, 60000
RULE = ('A case is 1-3 data sets (linear, non-linear, one- and two-factor, tied or rounded, 8-260 rows; arrays in any layout, '
        'read-only, frames) and a history of questions: HSIC statistic, gamma threshold and decision; the simplified kernel independence test; additive-noise scores of a '
        'pair in both orders; nearest-neighbour entropy and mutual information, histogram mutual information; tetrad p-values and the cluster decisions '
        'built on them; cluster finding; introduction of latent variables; generalised independent noise weights, decisions and causal orders; fourth cumulants; combined p-values; overlap merging; '
        'with other questions, interrupts and failed allocations at a chosen library line, other users of the random streams '
        'in between, or two clients asking concurrently. Every answer is compared with the definition evaluated directly, '
        'and inputs must stay as they were. Non-trivial: at least two questions, or a fault; distinct by data, questions, '
        'faults, switch points.')
MEASURE = 'distinct = different (data sets, question history, fault and switch points)'
REAL = ['cdmir.utils.independence.functional.HSIC, fisherz and kci', 'HSIC test objects (statistics, block, permutation, spectral)', 'ANM', 'olc helpers (xcum4, fisher_test)', 'LearningHierarchicalStructure: HSIC, mutual, '
        'independence, VanishedTest, TetradMethod, GIN2, Infer_Causal_Order, Overlap_Merge, FisherTest, FindCausalCluster, UpdataData', 'scikit-learn, lingam.hsic (third party)']
STUB = ['kernel object handed to the test objects (kerpy is not part of the repository)', 'client threads scheduled by the simulator', 'other users of the global random streams']
ASSUMPTIONS = ['permutation and spectral p-values are judged within six standard errors of our own replicates',
               'the hierarchical-structure modules are imported the way their own runner does, with their directory on the path',
               'decisions within 1e-6 of their threshold are not judged']
BUDGET = 6_000_000
LHM = 'cdmir.discovery.funtional_based.LearningHierarchicalStructure.'
KINDS = ['hsic', 'hsic', 'hsictest', 'anm', 'score', 'entropy', 'mi', 'mi2d', 'tetrad', 'tetrad', 'cluster', 'pure', 'omega', 'gin',
         'ginmi', 'order', 'cum4', 'fisher', 'merge', 'merge', 'partial', 'partial', 'hstat', 'hstat', 'htest',
         'phase', 'update', 'update', 'kci']


def setup():
    global H, HL, HI, ANMmod, MU, VT, TM, GIN2, ICO, OM, PS, FT, OLC, lhsic, FZ, HTO, HPT, HST, HBT, FCC, UPD
    import importlib
    base = core.REPO + '/cdmir/discovery/funtional_based'
    sys.path += [base, base + '/LearningHierarchicalStructure']
    from cdmir.discovery.funtional_based.anm import ANM as ANMmod
    from cdmir.discovery.funtional_based.one_component import olc as OLC
    from cdmir.utils.independence.functional import HSIC as H
    import lingam.hsic as lhsic
    m = importlib.import_module
    HL, HI, MU, VT = m(LHM + 'HSIC'), m(LHM + 'indTest.HSIC'), m(LHM + 'mutual'), m(LHM + 'VanishedTest')
    TM, GIN2, ICO = m(LHM + 'TetradMethod'), m(LHM + 'GIN2'), m(LHM + 'Infer_Causal_Order')
    OM, PS, FT = m(LHM + 'Overlap_Merge'), m(LHM + 'Paper_simulation'), m(LHM + 'indTest.FisherTest')
    FCC, UPD = m(LHM + 'FindCausalCluster'), m(LHM + 'UpdataData')
    FZ = m('cdmir.utils.independence.functional.fisherz')
    global KC, KCI_SHARED
    KC = m('cdmir.utils.independence.functional.kci')
    KCI_SHARED = KC.KCI()
    HTO, HPT, HST, HBT = (m(f'{LHM}indTest.HSIC{t}TestObject') for t in ('', 'Permutation', 'Spectral', 'Block'))


# ---------------------------------------------------------------- cases
def gen_data(r):
    return dict(seed=r.getrandbits(30), rows=r.choice([8, 20, 40, 40, 90, 90, 150, 260]), cols=r.choice([4, 5, 6, 8]),
                how=r.choice(['linear', 'nonlin', 'factor', 'factor', 'factor2', 'factor2', 'tied', 'indep']),
                form=r.choice(['array', 'readonly', 'fortran', 'strided', 'frame']))


def gen_ask(r, nd):
    k = r.choice(KINDS)
    q = dict(k=k, d=r.randrange(nd), c=[r.randrange(100) for _ in range(8)], dim=r.choice([1, 1, 2, 3]), dim2=r.choice([1, 1, 2]),
             alpha=r.choice([.01, .05, .2, .5]), nn=r.choice([1, 2, 3, 5, 10]), which=r.choice([0, 1, 2]), flag=r.random() < .5)
    if k in ('merge', 'fisher'):
        q['seed'] = r.getrandbits(30)
    return q


def generate(r, tier):
    data = [gen_data(r) for _ in range(r.choice([1, 1, 2, 3]))]
    if r.random() < .12:
        for d in data:
            d['rows'] = min(d['rows'], 40)
        return dict(mode='clients', data=data, asks=[[gen_ask(r, len(data)) for _ in range(r.randint(1, 3))] for _ in range(2)], sched=gen_sched(r, 2))
    ops = []
    for _ in range(r.randint(1, 6)):
        q = r.random()
        if q < .12:
            ops.append(dict(op='noise', k=r.randint(0, 9)))
        elif q < .27:
            ops.append(dict(gen_ask(r, len(data)), op='cut', kind=r.choice(['interrupt', 'memory']), at=r.random()))
        ops.append(dict(gen_ask(r, len(data)), op='ask'))
        if r.random() < .2:
            ops.append(clone(ops[-1]))
    return dict(mode='serial', data=data, ops=ops)


def shrinks(c):
    if c['mode'] == 'clients':
        for k in (0, 1):
            for a in shrink_list(c['asks'][k]):
                yield dict(c, asks=[a, c['asks'][1]] if k == 0 else [c['asks'][0], a])
    else:
        for o in shrink_list(c['ops']):
            if o:
                yield dict(c, ops=o)
    for i, d in enumerate(c['data']):
        for rows in (8, 20, 40):
            if rows < d['rows']:
                yield dict(c, data=c['data'][:i] + [dict(d, rows=rows)] + c['data'][i + 1:])
        if d['form'] != 'array':
            yield dict(c, data=c['data'][:i] + [dict(d, form='array')] + c['data'][i + 1:])


def describe(c):
    return str({k: v for k, v in c.items() if k != 'sched'})


def make(d):
    import pandas as pd
    g = np.random.default_rng(d['seed'])
    n, m = d['rows'], d['cols']
    e = g.uniform(-1, 1, (n, m)) if g.random() < .5 else g.exponential(size=(n, m)) - 1
    x = e.copy()
    if d['how'] in ('linear', 'nonlin', 'tied'):
        for j in range(1, m):
            for i in range(j):
                if g.random() < .5:
                    x[:, j] += g.choice([-1.5, -.8, .8, 1.5]) * (x[:, i] if d['how'] != 'nonlin' else 3 * np.tanh(x[:, i]) + np.cos(x[:, i]))
    elif d['how'].startswith('factor'):
        L = g.uniform(-1, 1, (n, 2)) * 2
        if d['how'] == 'factor2':
            L[:, 1] += g.choice([0., .8]) * L[:, 0]
        for j in range(m):
            x[:, j] = e[:, j] * g.choice([.3, 1.]) + g.choice([-2., -.5, .5, 1., 2.]) * L[:, 0 if d['how'] == 'factor' or j < m // 2 else 1]
    if d['how'] == 'tied':
        x = np.round(x * 2) / 2 + 0.
    if g.random() < .3:
        x = x * g.choice([.1, 1., 20.], size=m) + g.choice([0., 5.], size=m)
    y = x
    if d['form'] == 'readonly':
        y = x.copy()
        y.flags.writeable = False
    elif d['form'] == 'fortran':
        y = np.asfortranarray(x)
    elif d['form'] == 'strided':
        y = np.repeat(x, 2, axis=1)[:, ::2]
    f = pd.DataFrame(x.copy(), columns=[f'v{j + 1}' for j in range(m)])
    return x.copy(), y, f


# ---------------------------------------------------------------- definitions
def sq(a):
    a = a.reshape(len(a), -1)
    return ((a[:, None, :] - a[None, :, :]) ** 2).sum(-1)


def width(D, raw=None):
    up = D[np.triu_indices(len(D), 1)]
    return math.sqrt(.5 * np.median(up[up > 0]))


def tie_free(a):
    """the median width is the same in exact arithmetic and with rounding left between equal points"""
    b = (a - a.mean(0)) / a.std(0)
    return not any((sq(v)[np.triu_indices(len(a), 1)] <= 1e-11 * (1 + (v ** 2).sum(1).max())).any() for v in (a, b))


def gram(a, w=None):
    D = sq(a)
    w = width(D) if w is None else w
    return np.exp(-D / 2 / w ** 2)


def hsic_gamma(x, y, alpha):
    from scipy.stats import gamma
    n = len(x)
    K, L = gram(x), gram(y)
    J = np.eye(n) - 1 / n
    Kc, Lc = J @ K @ J, J @ L @ J
    stat = (Kc * Lc).sum() / n
    v = (Kc * Lc / 6) ** 2
    v = (v.sum() - np.trace(v)) / n / (n - 1) * 72 * (n - 4) * (n - 5) / n / (n - 1) / (n - 2) / (n - 3)
    mx, my = ((k.sum() - np.trace(k)) / n / (n - 1) for k in (K, L))
    m = (1 + mx * my - mx - my) / n
    return stat, float(gamma.ppf(1 - alpha, m ** 2 / v, scale=v * n / m))


def fast_hsic(x, y, maxpnt, wx=-1, wy=-1):
    m = len(x)
    if m > maxpnt:
        i = np.floor(np.arange(0, m, float(m - 1) / (maxpnt - 1))).astype(int)
        x, y = x[i], y[i]
        m = len(x)
    J = np.eye(m) - 1 / m
    return float(((J @ gram(x, None if wx == -1 else wx) @ J) * (J @ gram(y, None if wy == -1 else wy) @ J)).sum() / m)


def anm(u, v):
    """HSIC of the residuals of the Gaussian-process regression (unit RBF kernel) with the regressor, or None if it interpolates"""
    u, v = ((z - z.mean()) / z.std() for z in (u, v))
    K = np.exp(-sq(u) / 2)
    e = v - K @ np.linalg.solve(K + 1e-10 * np.eye(len(u)), v)
    if e.std() < .03:
        return None
    return fast_hsic(((e - e.mean()) / e.std())[:, None], u[:, None], 2000)


def direction(q, n):
    """a pair with a clear additive-noise direction"""
    g = np.random.default_rng(q['c'][0] * 100 + q['c'][1])
    n = 120 + n // 2
    ask = []
    for _ in range(4):
        a = g.uniform(-2, 2, n)
        b = {0: a ** 3 / 2, 1: 3 * np.abs(a), 2: 2 * a ** 2}[q['which']] + g.uniform(-1, 1, n)
        ask.append((a * 3 + 1, b) if q['c'][2] % 2 else (a, b))
    turn = q['c'][3] % 2

    def judge(o):
        good = lambda s: s[turn] < s[1 - turn]
        if good(o):
            return None
        rest = [ANMmod.ANM().cause_or_effect(*p[::-1 if turn else 1]) for p in ask[1:]]
        return None if sum(map(good, rest)) == 3 else f'{o} point from effect to cause (argument {turn} is the cause; three more pairs: {rest})'
    return 'additive-noise direction', lambda: ANMmod.ANM().cause_or_effect(*ask[0][::-1 if turn else 1]), judge, ask[0]


def knn_entropy(x, k):
    from scipy.special import gamma, psi
    n, d = x.shape
    r = np.sqrt(np.sort(sq(x), axis=1)[:, k])
    return d * np.mean(np.log(r + np.finfo(float).eps)) + math.log(math.pi ** (.5 * d) / gamma(.5 * d + 1)) + psi(n) - psi(k)


def mutual(xs, k):
    return sum(knn_entropy(x, k) for x in xs) - knn_entropy(np.hstack(xs), k)


def mutual2d(x, y, sigma, normalized):
    from scipy import ndimage
    p = ndimage.gaussian_filter(np.histogram2d(x, y, bins=(256, 256))[0], sigma=sigma, mode='constant') + np.finfo(float).eps
    p = p / p.sum()
    h = lambda q: -(q * np.log(q)).sum()
    a, b, ab = h(p.sum(0)), h(p.sum(1)), h(p)
    return (a + b) / ab - 1 if normalized else a + b - ab


def tetrad(i, j, k, m):
    """Wishart's test of s_ik s_jm = s_im s_jk."""
    from scipy.stats import norm
    C = np.cov([i, j, k, m])
    n = len(i)
    t = C[0, 2] * C[1, 3] - C[0, 3] * C[1, 2]
    det = lambda a, b: C[a, a] * C[b, b] - C[a, b] ** 2
    v = (n + 1) / ((n - 1) * (n - 2)) * det(0, 1) * det(2, 3) - np.linalg.det(C) / (n - 2)
    return float(2 * norm.cdf(-abs(t) / math.sqrt(abs(v))))


def omega(f, X, Z):
    C = f[X + Z].cov().to_numpy()[:len(X), len(X):]
    return np.linalg.svd(C.T)[2][len(X) - 1]


def root(cl, f, K, turn=None):
    """cluster with the least total mutual information between its weighted surrogates and the other sides; turn orders
    the surrogates (their weights are unique only when there is one surrogate more than other sides)"""
    best = []
    for clu in cl:
        tot = 0
        for o in cl:
            if o is clu:
                continue
            X, Z = list(clu[:-(-len(clu) // 2)]), list(clu[-(-len(clu) // 2):])
            X += o[:-(-len(o) // 2)]
            for done in K:
                X += done[:len(done) // 2]
                Z += done[len(done) // 2:]
            tot += gin_mi(f, turn(X) if turn else X, Z)
        best.append(tot)
    return best


def partial(v):
    """partial correlation of the first two columns given the others, and its two-sided p-value"""
    from scipy.stats import norm
    v = v - v.mean(0)
    z = v[:, 2:]
    e = v[:, :2] - z @ np.linalg.lstsq(z, v[:, :2], rcond=None)[0]
    c = float(e[:, 0] @ e[:, 1] / math.sqrt((e[:, 0] @ e[:, 0]) * (e[:, 1] @ e[:, 1])))
    a = min(abs(c), .9999999)
    return 2 * float(norm.sf(math.sqrt(len(v) - z.shape[1] - 3) * math.atanh(a))), c


class Rbf:
    """The kernel object the test objects expect."""

    def __init__(self, w):
        self.w = w

    def kernel(self, a, b=None):
        return gram(np.asarray(a, dtype=float), self.w)


def hsic_u(K, L):
    m = len(K)
    K, L = K - np.diag(np.diag(K)), L - np.diag(np.diag(L))
    return float(((K * L).sum() + K.sum() * L.sum() / (m - 1) / (m - 2) - 2 * (K.sum(0) @ L.sum(0)) / (m - 2)) / m / (m - 3))


def hsic_v(K, L):
    J = np.eye(len(K)) - 1 / len(K)
    return float(((J @ K @ J) * (J @ L @ J)).sum())


def rff_v(p, q):
    return float(((np.cov(p.T, q.T, bias=True)[:p.shape[1], p.shape[1]:]) ** 2).sum())


def gin_mi(f, X, Z):
    e = f[X].to_numpy() @ omega(f, X, Z)
    k = 15 if len(f) > 3000 else 10
    return float(np.mean([abs(mutual((e[:, None], f[z].to_numpy()[:, None]), k)) for z in Z]))


def unions(ls):
    sets = [set(s) for s in ls]
    out = []
    for s in sets:
        hit = [t for t in out if t & s]
        for t in hit:
            s = s | t
            out.remove(t)
        out.append(s)
    return sorted(sorted(s) for s in out)


# ---------------------------------------------------------------- questions
def question(q, D):
    """-> (what, call, judge(result) -> None or complaint); None when the data are out of the definition's domain"""
    x, y, f = D
    n, m = x.shape
    col = [a for a in dict.fromkeys(v % m for v in q['c'])]
    col += [a for a in range(m) if a not in col]
    k, names = q['k'], [f'v{a + 1}' for a in col]

    def near(got, want, tol=1e-6):
        return None if np.ndim(got) <= 2 and np.size(got) == 1 and close(float(np.ravel(got)[0]), want, tol, 1e-9) else f'is {got}, its definition gives {want}'

    def decide(v, th, pos=True):
        """expected truth of v > th, or None if too close to call"""
        return None if abs(v - th) < 1e-6 * (1 + abs(th)) or math.isnan(v) else (v > th)

    if k in ('hsic', 'hsictest'):
        d1, d2 = (q['dim'], q['dim2']) if k == 'hsic' else (1, 1)
        d2 = min(d2, m - 1)
        d1 = min(d1, m - d2)
        a, b = x[:, col[:d1]], x[:, col[d1:d1 + d2]]
        if not (tie_free(a) and tie_free(b)):
            return None
        s, t = hsic_gamma(a, b, q['alpha'])
        mod = [H, HL, HI][q['which']]
        if k == 'hsic':
            A, B = y[:, col[:d1]], y[:, col[d1:d1 + d2]]

            def judge(o):
                return near(o[0], s) or near(o[1], t)
            return f'HSIC of {d1} and {d2} columns', lambda: mod.hsic_gam(A, B, q['alpha']), judge, (A, B)
        fn = mod.test if hasattr(mod, 'test') else mod.independent
        A, B = y[:, col[0]], y[:, col[1]]
        w = decide(t, s)
        return f"HSIC decision at {q['alpha']}", lambda: fn(A, B, q['alpha']), lambda o: None if w is None or bool(o) == bool(w) else f'is {o}, statistic {s}, threshold {t}', (A, B)
    if k == 'anm':
        if q['flag'] or not (tie_free(x[:, col[:1]]) and tie_free(x[:, col[1:2]])):
            return direction(q, n)
        a, b = y[:, col[0]], y[:, col[1]]
        w = [anm(x[:, col[0]], x[:, col[1]]), anm(x[:, col[1]], x[:, col[0]])]

        def judge(o):
            for g, v in zip(o, w):
                if v is not None and near(g, v, 2e-2):
                    return f'{o}, should be {w}'
        return 'additive-noise scores', lambda: ANMmod.ANM().cause_or_effect(a, b), judge, (a, b)
    if k == 'score':
        mp = [200, 9, 33][q['which']]
        a, b = x[:, col[:1]], x[:, col[1:2]]
        if not (tie_free(a) and tie_free(b)):
            return None
        A, B = y[:, col[:1]], y[:, col[1:2]]
        if q['flag']:
            w = fast_hsic((a - a.mean()) / a.std(), (b - b.mean()) / b.std(), 2000)
            return 'normalised HSIC', lambda: ANMmod.normalized_hsic(A, B), lambda o: near(o, w), (A, B)
        sig = [[-1, -1], [.5, -1], [-1, 2.]][q['c'][7] % 3]
        w = fast_hsic(a, b, mp, *sig)
        return f'HSIC with {mp} points', lambda: ANMmod.FastHsicTestGamma(A, B, sig, mp), lambda o: near(o, w), (A, B)
    if k in ('entropy', 'mi'):
        kk = min(q['nn'], n - 2)
        if not tie_free(x[:, col[:1]]) or not tie_free(x[:, col[1:2]]) or not tie_free(x[:, col[2:3]]):
            return None
        if k == 'entropy':
            A = y[:, col[:q['dim']]]
            w = knn_entropy(x[:, col[:q['dim']]], kk)
            return 'entropy', lambda: MU.entropy(A, kk), lambda o: near(o, w), (A,)
        parts = [col[:q['dim2']], col[2:3]] + ([col[3:4]] if q['flag'] else [])
        if len(parts) == 3 and not tie_free(x[:, col[3:4]]):
            return None
        A = [y[:, p] for p in parts]
        w = mutual([x[:, p] for p in parts], kk)
        return 'mutual information', lambda: MU.mutual_information(tuple(A), kk), lambda o: near(o, w), A
    if k == 'mi2d':
        A, B = y[:, col[0]], y[:, col[1]]
        w = mutual2d(x[:, col[0]], x[:, col[1]], 1 + q['which'], q['flag'])
        return 'histogram mutual information', lambda: MU.mutual_information_2d(A, B, 1 + q['which'], q['flag']), lambda o: near(o, w), (A, B)
    if k == 'tetrad':
        w = tetrad(*x[:, col[:4]].T)
        A = [y[:, a] for a in col[:4]] if q['which'] else [f[v] for v in names[:4]]
        if q['flag']:
            d = decide(w, q['alpha'])
            return 'tetrad decision', lambda: VT.vanishes(*A, q['alpha']), lambda o: None if d is None or bool(o) == bool(d) else f'is {o}, p-value {w}', A
        return 'tetrad p-value', lambda: VT.vanishes_Pval(*A), lambda o: near(o, w), A
    if k in ('cluster', 'pure'):
        C = names[:2 if k == 'pure' or q['flag'] else 3]
        rest = [v for v in f.columns if v not in C]
        g = {v: f[v].to_numpy() for v in f.columns}
        al = q['alpha'] / [1, 10, 100][q['which']]
        if k == 'pure':
            ps = [tetrad(g[C[0]], g[a], g[C[1]], g[b]) for a, b in itertools.combinations(rest, 2)]
            w = any(p > al for p in ps)
            fn = TM.JudgePureCluster
        else:
            ps = [tetrad(g[a], g[b], g[c], g[d]) for a, b in itertools.combinations(C, 2) for c, d in itertools.combinations(rest, 2)]
            w = len(rest) >= 2 and all(p > al for p in ps)
            fn = TM.CheckCausalCluster
        if any(abs(p - al) < 1e-6 for p in ps):
            return None
        return f'{k} cluster {C} at {al}', lambda: fn(list(C), f, al), lambda o: None if bool(o) == w else f'is {o}, tetrad p-values {ps}', (f,)
    if k in ('omega', 'gin', 'ginmi'):
        nz = q['dim2']
        X, Z = names[:nz + 1], names[nz + 1:2 * nz + 1]
        if len(Z) < nz:
            return None
        w = omega(f, X, Z)
        s = np.linalg.svd(f[X + Z].cov().to_numpy()[:len(X), len(X):])[1]
        if s[-1] < 1e-3 * s[0]:
            return None
        if k == 'omega':
            return f'weights of {X} given {Z}', lambda: GIN2.getomega(f, list(X), list(Z)), lambda o: None if np.size(o) == len(w) and (
                np.allclose(np.ravel(o), w, atol=1e-6) or np.allclose(np.ravel(o), -w, atol=1e-6)) else f'are {o}, should be {w} up to sign', (f,)
        if not all(tie_free(f[[z]].to_numpy()) for z in Z):
            return None
        if k == 'ginmi':
            if n < 20:
                return None
            v = gin_mi(f, X, Z)
            return f'GIN information of {X} given {Z}', lambda: GIN2.GIN_MI(list(X), list(Z), f), lambda o: near(o, v, 1e-5), (f,)
        e = (f[X].to_numpy() @ w)[:, None]
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            ps = [float(lhsic.hsic_test_gamma(e, f[z].to_numpy())[1]) for z in Z]
        if any(abs(p - q['alpha']) < 1e-4 for p in ps):
            return None
        v = all(p > q['alpha'] for p in ps)
        return f'GIN of {X} given {Z}', lambda: GIN2.GIN(list(X), list(Z), f, q['alpha']), lambda o: None if bool(o) == v else f'is {o}, p-values {ps}', (f,)
    if k == 'kci':      # columns standardised with the sample deviation; a constant one stays constant
        d1 = min(q['dim'], m - 1)
        d2 = min(q['dim2'], m - d1)
        z = [(v - v.mean(0)) / v.std(0, ddof=1) for v in (x[:, col[:d1]], x[:, col[d1:d1 + d2]])]
        J = np.eye(n) - 1 / n
        K, L = (J @ np.exp(-.5 * sq(v)) @ J for v in z)
        s = hsic_v(K, L)
        from scipy.stats import gamma
        mean, var = np.trace(K) * np.trace(L) / n, 2 * (K ** 2).sum() * (L ** 2).sum() / n ** 2
        w = float(gamma.sf(s, mean ** 2 / var, scale=var / mean))
        A, B = y[:, col[:d1]], y[:, col[d1:d1 + d2]]
        shared = KCI_SHARED if q['flag'] else KC.KCI()
        return f'kernel independence of {d1} and {d2} columns', lambda: shared.test(A, B), \
            lambda o: near(o[1], s, 1e-8) or (None if abs(o[0] - w) < 1e-7 else f'p-value {o[0]}, its definition gives {w}'), (A, B)
    if k == 'partial':
        cond = q['dim2'] if q['flag'] else q['which']
        use = col[:2 + min(cond, m - 2)]
        v = x[:, use]
        if np.linalg.cond(np.corrcoef(v.T)) > 1e6 or n < len(use) + 2:
            return None
        p, c = partial(v)
        A = [y[:, a] for a in use[:2]] if q['c'][6] % 2 or len(use) == 2 else [y[:, [a]] for a in use[:2]]
        Z = None if len(use) == 2 else y[:, use[2]] if len(use) == 3 and q['c'][7] % 2 else y[:, use[2:]]
        return f'partial correlation of {len(use)} columns', lambda: FZ.fisherz(*A, Z) if Z is not None or q['c'][5] % 2 else FZ.fisherz(*A), \
            lambda o: near(o[0], p, 1e-5) or near(o[1], c), A
    if k == 'hstat':
        w1, w2 = [(1., 2.), (.3, 5.), (4., .7)][q['which']]
        d1 = min(q['dim'], m - 1)
        a, b = x[:, col[:d1]], x[:, col[d1:d1 + 1]]
        K, L = gram(a, w1), gram(b, w2)
        A, B = y[:, col[:d1]], y[:, col[d1:d1 + 1]]
        how = q['c'][7] % 7
        if how in (2, 3) and min(hsic_u(K, K), hsic_u(L, L)) < 1e-4:
            return None
        cor = lambda h, s, t: h(s, t) / math.sqrt(h(s, s) * h(t, t))
        S = HTO.HSICTestObject
        obj = lambda: HPT.HSICPermutationTestObject(n, kernelX=Rbf(w1), kernelY=Rbf(w2))
        cols = [gram(a[:, [i]], w1) for i in range(d1)]
        if how == 6 and min(hsic_u(t, t) for t in cols + [L]) < 1e-4:
            return None
        want, fn = [(lambda: hsic_u(K, L), lambda: S.HSIC_U_statistic(K.copy(), L.copy())),
                    (lambda: hsic_v(K, L), lambda: S.HSIC_V_statistic(K.copy(), L.copy())),
                    (lambda: cor(hsic_u, K, L), lambda: S.dCor_HSIC_statistic(K.copy(), L.copy(), True)),
                    (lambda: cor(hsic_v, K, L), lambda: S.dCor_HSIC_statistic(K.copy(), L.copy())),
                    (lambda: rff_v(a, b), lambda: S.HSIC_V_statistic_rff(A, B)) if not q['flag'] else (lambda: cor(rff_v, a, b), lambda: S.dCor_HSIC_statistic_rff(A, B)),
                    (lambda: float(np.mean([(hsic_u if q['flag'] else hsic_v)(t, L) for t in cols])), lambda: obj().SubHSIC_statistic(A, B, q['flag'])),
                    (lambda: float(np.mean([cor(hsic_u if q['flag'] else hsic_v, t, L) for t in cols])), lambda: obj().SubdCor_HSIC_statistic(A, B, q['flag']))][how]
        w = want()
        return f'kernel statistic {how}', fn, lambda o: near(o, w, 1e-7), (A, B)
    if k == 'htest':
        w1, w2 = 1., 2.
        A, B = y[:, col[:1]], y[:, col[1:2]]
        K, L = gram(x[:, col[:1]], w1), gram(x[:, col[1:2]], w2)
        g = np.random.default_rng(q['c'][0])
        kw = dict(kernelX=Rbf(w1), kernelY=Rbf(w2))
        if q['which'] == 0:
            bs = max(5, n // [3, 4, 6][q['c'][6] % 3])
            if n // bs < 2:
                return None
            parts = [slice(i * bs, (i + 1) * bs) for i in range(n // bs)]
            st = [hsic_u(K[s, s], L[s, s]) for s in parts]
            v = float(np.var(st)) if q['flag'] else 2 * 2 * np.mean([hsic_u(K[s, s], K[s, s]) for s in parts]) * 2 * np.mean([hsic_u(L[s, s], L[s, s]) for s in parts])
            if v < 1e-12:
                return None
            from scipy.stats import norm
            w = float(norm.sf(math.sqrt(n * bs) * np.mean(st) / math.sqrt(v)))
            return 'block test', lambda: HBT.HSICBlockTestObject(n, blocksize=bs, nullvarmethod='across' if q['flag'] else 'direct', **kw).compute_pvalue(A, B), \
                lambda o: near(o, w, 1e-5), (A, B)
        N = 49
        if q['which'] == 1:
            u = hsic_u if q['flag'] else hsic_v
            s = u(K, L)
            null = np.array([u(K, L[np.ix_(p, p)]) for p in (g.permutation(n) for _ in range(300))])
            fn = lambda: HPT.HSICPermutationTestObject(n, num_shuffles=N, unbiased=q['flag'], **kw).compute_pvalue(A, B)
        else:
            J = np.eye(n) - 1 / n
            s = n * hsic_v(K, L)
            ev = [np.linalg.eigvalsh(J @ t @ J) for t in (K, L)]
            null = np.array([ev[0] @ g.standard_normal((n, n)) ** 2 @ ev[1] for _ in range(300)])
            fn = lambda: HST.HSICSpectralTestObject(n, num_nullsims=N, **kw).compute_pvalue(A, B)
        lo, hi = float((null > s * (1 + 1e-9) + 1e-12).mean()), float((null > s * (1 - 1e-9) - 1e-12).mean())

        def judge(o):
            o, t = float(o), (float(o) * (N + 1) - 1) / N
            if abs(t * N - round(t * N)) > 1e-6:
                return f'is {o}, no multiple of one in {N + 1}'
            slack = lambda p: 6 * math.sqrt(max(p * (1 - p), .02) * (1 / N + 1 / 300))
            return None if lo - slack(lo) <= t <= hi + slack(hi) else f'is {o}, {lo} to {hi} of our own replicates exceed the statistic'
        return ['', 'permutation test', 'spectral test'][q['which']], fn, judge, (A, B)
    if k == 'phase':
        use = [f'v{a + 1}' for a in sorted(col[:5 + q['flag']])]
        if len(use) < 5 or n > 150:
            return None
        sub, al = f[use], q['alpha'] / [1, 10, 100][q['which']]
        g = {v: sub[v].to_numpy() for v in use}
        ps = {}

        def p4(*t):
            if t not in ps:
                ps[t] = tetrad(*(g[v] for v in t))
            return ps[t] > al
        holds = lambda C: all(p4(a, b, c, d) for a, b in itertools.combinations(C, 2) for c, d in itertools.combinations([v for v in use if v not in C], 2))
        pairs = [C for C in itertools.combinations(use, 2) if holds(C)]
        B = [v for v in use if not any(v in C for C in pairs)]
        learned, pure, impure = unions(pairs), [], []
        for C in learned:
            pure_pair = len(C) == 2 and any([p4(C[0], a, C[1], b) for a, b in itertools.combinations([v for v in use if v not in C], 2)])
            (pure if len(C) > 2 or pure_pair else impure).append(C)
        size = 3
        while len(B) >= size and len(use) > size + 2:
            more = [C for C in itertools.combinations(B, size) if holds(C)]
            learned, impure = learned + more, impure + more
            B = [v for v in B if not any(v in C for C in more)]
            size += 1
        if any(abs(p - al) < 1e-6 for p in ps.values()):
            return None
        norm = lambda ls: sorted(sorted(C) for C in ls)
        want = [norm(t) for t in (learned, pure, impure, pairs)]
        return f'clusters of {use} at {al}', lambda: FCC.FindCausalCluster(sub, [], [], al), lambda o: None if [norm(t) for t in o] == want else f'are {[norm(t) for t in o]}, should be {want}', (sub,)
    if k == 'update':
        g = np.random.default_rng(q['c'][:4])
        use = [f'v{a + 1}' for a in g.permutation(m)]
        sub = f[use].rename(columns={use[-1]: 'L1'}) if q['flag'] else f[use].copy()
        names, groups = list(sub.columns), []
        left = list(g.permutation(names))
        while len(left) > 1 and len(groups) < 3:
            size = int(g.integers(2, 4))
            groups.append([str(v) for v in left[:size]])
            left = left[size:]
        merged, intro = groups[:int(g.integers(0, len(groups) + 1))], []
        intro = groups[len(merged):]
        early = []
        if len(left) > 1 and q['c'][5] % 2:
            early, left = [[str(v) for v in left[:2]]], left[2:]
        keep, num = sub.copy(), 2 + q['which']
        before = {'L1': ['w1', 'w2']} if q['flag'] else {}
        gone = {v for G in groups for v in G} | {v for G in early for v in G[1:]}
        stay = [v for v in names if v not in gone]

        def ask():
            return UPD.UpdataData([clone(merged), [], clone(early), clone(intro), [str(v) for v in left]], num, clone(before), sub)

        def judge(o):
            d, nxt, idx = o
            new = [f'L{num + i}' for i in range(len(groups))]
            if sorted(d.columns) != sorted(stay + new):
                return f'has columns {list(d.columns)}, should have {stay + new}'
            if nxt != num + len(groups) or {a: sorted(b) for a, b in idx.items()} != {a: sorted(b) for a, b in {**before, **dict(zip(new, merged + intro))}.items()}:
                return f'numbers the new variables {nxt}, {idx}'
            for v in stay:
                if not np.array_equal(d[v], keep[v]):
                    return f'gives {v} other values'
            for v, G in zip(new, merged + intro):
                if not any(np.array_equal(d[v], keep[w]) for w in G):
                    return f'gives {v}, introduced for {G}, the values of none of them'
            if not sub.equals(keep):
                return 'changes its argument'
        return f'introducing latent variables for {groups}', ask, judge, ()
    if k == 'order':
        if n < 20 or m < 6 or not all(tie_free(f[[z]].to_numpy()) for z in names[:8]):
            return None
        sizes = [(2, 2, 2), (2, 2, 2), (3, 3), (2, 3), (3, 2), (4, 2), (3, 3, 2), (2, 3, 3), (2, 2, 2, 2), (4, 4), (3, 5)][sum(q['c'][4:]) % 11]
        if sum(sizes) > m:
            sizes = (2, 2, 2)
        cl = [names[sum(sizes[:i]):sum(sizes[:i + 1])] for i in range(len(sizes))]
        K, left = [], [list(a) for a in cl]
        while left:
            if len(left) > 1:
                b = root(left, f, K)
                for turn in (None,) if len(set(sizes)) == 1 and sizes[0] == 2 else (None, lambda X: X[::-1], lambda X: X[1:] + X[:1]):
                    t = root(left, f, K, turn) if turn else b
                    s = sorted(t)
                    if s[1] - s[0] < 1e-6 or t.index(s[0]) != b.index(min(b)):
                        return None
                K.append(left.pop(b.index(min(b))))
            else:
                K.append(left.pop())
        arg = {0: [list(a) for a in cl]} if q['flag'] else {0: [list(cl[0])], 1: [list(a) for a in cl[1:]]}
        return f'causal order of {cl}', lambda: ICO.LearnCausalOrder(arg, f), lambda o: None if [list(a) for a in o] == K else f'is {o}, should be {K}', (f,)
    if k == 'cum4':
        z = x[:, col[:4]]
        c = z - z.mean(0)
        M = lambda *i: float(np.prod(c[:, i], axis=1).sum())
        w = ((n + 1) * n * M(0, 1, 2, 3) - (n - 1) * (M(0, 1) * M(2, 3) + M(0, 2) * M(1, 3) + M(0, 3) * M(1, 2))) / ((n - 1) * (n - 2) * (n - 3))
        A = y[:, col[:4]]
        scale = float(np.prod(c.std(0))) * n
        return 'fourth cumulant', lambda: OLC.xcum4(A), lambda o: None if abs(float(o) - w) <= 1e-9 * scale + 1e-9 * abs(w) else f'is {o}, should be {w}', (A,)
    if k == 'fisher':
        from scipy.stats import chi2
        g = np.random.default_rng(q['seed'])
        ps = list(g.random(int(g.integers(1, 6))) ** g.choice([1, 2, 6, 20]))
        if g.random() < .3:
            ps[0] = 0.
        if q['flag']:
            w = 1 - chi2.cdf(-2 * sum(math.log(max(p, 1e-5)) for p in ps), 2 * len(ps))
            return 'combined p-value', lambda: OLC.fisher_test(list(ps)), lambda o: near(o, w), ()
        w = 1 - chi2.cdf(-2 * sum(math.log(p or 1e-5) for p in ps), 2 * len(ps))
        d = decide(w, q['alpha'])
        return 'combined decision', lambda: FT.FisherTest(list(ps), q['alpha']), lambda o: near(o[1], w) or (None if d is None or bool(o[0]) == d else f'is {o}'), ()
    g = np.random.default_rng(q['seed'])
    pool = [f'x{i}' for i in range(1, 3 + int(g.integers(0, 9)))]
    ls = [tuple(g.choice(pool, size=min(len(pool), int(g.integers(1, 4))), replace=False).tolist()) for _ in range(int(g.integers(0, 7)))]
    if not q['flag']:
        ls = [list(s) for s in ls]
    w, keep = unions(ls), clone(ls)
    mod = OM if q['which'] else PS

    def judge(o):
        if sorted(sorted(s) for s in o) != w:
            return f'of {keep} is {o}, should be {w}'
        if [list(s) for s in ls] != keep:
            return 'changed its argument'
    return 'merging', lambda: mod.merge_list(ls), judge, ()


def execute(c, ctx):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        run(c, ctx)


def run(c, ctx):
    ctx.ident({k: v for k, v in c.items() if k != 'sched'})
    data = [make(d) for d in c['data']]
    D = [tuple(t) for t in data]
    frames = [f.copy() for _, _, f in data]
    ctx.nontrivial = c['mode'] == 'clients' or len(c['ops']) > 1

    def untouched(who):
        for i, (x, y, f) in enumerate(D):
            ctx.check(np.array_equal(x, y) and f.equals(frames[i]), 'input-changed', lambda: f'{who}: data set {i} was changed')

    def ask(q, who, prepared=None):
        p = prepared or question(q, D[q['d']])
        if p is None:
            return
        what, call, judge, args = p
        kept = [np.array(a) for a in args]
        o = ctx.call(call)
        ctx.check(o[0] == 'ok', 'error', lambda: f'{who}: {what} of data set {q["d"]} raised {rr(o)}')
        ctx.check(all(np.array_equal(a, b) for a, b in zip(args, kept)), 'input-changed', lambda: f'{who}: {what} changed its arguments')
        bad = judge(o[1])
        ctx.check(bad is None, 'wrong', lambda: f'{who}: {what} of data set {q["d"]} (columns {q["c"]}) {bad}')
        ctx.info[q['k']] += 1

    if c['mode'] == 'clients':
        ready = [[question(q, D[q['d']]) for q in qs] for qs in c['asks']]

        def client(k):
            def go():
                for i, q in enumerate(c['asks'][k]):
                    ctx.op_point()
                    if ready[k][i]:
                        ask(q, f'client {k} question {i}', ready[k][i])
            return go
        ctx.run_clients([client(0), client(1)], c['sched'])
        untouched('the clients')
        return
    for i, q in enumerate(c['ops']):
        who = f'operation {i}'
        if q['op'] == 'noise':
            np.random.seed(q['k'])
            np.random.rand(q['k'])
            ctx.fault('random_stream_used')
        elif q['op'] == 'cut':
            p = question(q, D[q['d']])
            if p is None:
                continue
            kept = [np.array(a) for a in p[3]]
            lines, o = ctx.count_lines(p[1])
            ctx.check(o[0] == 'ok', 'error', lambda: f'{who}: {p[0]} raised {rr(o)}')
            o = ctx.call(p[1], fault=[q['kind'], 1 + int(q['at'] * max(0, lines - 1))])
            if ctx.last_fired:
                ctx.check(o[0] == 'exc' and is_fault(o[1]), 'fault-swallowed', lambda: f'{who}: {rr(o)}')
            ctx.check(all(np.array_equal(a, b) for a, b in zip(p[3], kept)), 'input-changed', lambda: f'{who}: {p[0]} changed its arguments')
        else:
            ask(q, who)
        untouched(who)
