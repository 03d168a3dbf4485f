"""C23: learning a hierarchy of latent variables finds its clusters."""
import itertools
import math
import threading
import warnings

import numpy as np

from .. import core
from ..common import clone, gen_sched, is_fault, r as rr, shrink_list
from .c19 import tetrad

ID = 'C23'
QUICK, THOROUGH = 450, 12000
RULE = ('A case is 1-2 models of latent variables with 6-16 observed ones (a measurement model whose latent variables are related in '
        'any dense way, with direct effects inside clusters; a two-level hierarchy; one with observed children at two levels) and '
        'data whose sample covariances are exactly those of the model, columns named and ordered at random, and a history of: the '
        'whole procedure up to the graph it draws; one merging step on clusters in any order, with and without latent variables '
        'introduced too early; merge rules on arbitrary data, set operations, index building; with interrupts and failed '
        'allocations at a chosen library line, other users of the random streams in between, or two clients learning '
        'concurrently. Models with a tetrad too close to the decision are drawn again. Non-trivial: at least two operations or a fault; '
        'distinct by models, history, faults, switch points.')
MEASURE = 'distinct = different (models, operation history, fault and switch points)'
REAL = ['LearningHierarchicalStructure: Causal_Discovery_in_LHM, FindCausalCluster, MergeCluster, UpdataData, TetradMethod, '
        'VanishedTest, Overlap_Merge, Orientation, MakeGraph (index building), Utils', 'pandas, numpy, scipy (third party)']
STUB = ['MakeGraph.Make_graph (needs graphviz; records the graph it is given)', 'client threads scheduled by the simulator', 'other users of the global random streams']
ASSUMPTIONS = ['the modules are imported the way their own runner does, with their directory on the path',
               'sampling error is taken out: sample covariances equal the model\'s, other tetrads are at least 1.7 times their threshold']
LHM = 'cdmir.discovery.funtional_based.LearningHierarchicalStructure.'


def setup():
    global CD, MC, UPD, UT, MG
    import importlib
    import sys
    base = core.REPO + '/cdmir/discovery/funtional_based'
    sys.path += [base, base + '/LearningHierarchicalStructure']
    m = importlib.import_module
    CD, MC, UPD = m(LHM + 'Causal_Discovery_in_LHM'), m(LHM + 'MergeCluster'), m(LHM + 'UpdataData')
    UT, MG = m(LHM + 'Utils'), m(LHM + 'MakeGraph')
    Drawn.install()


class Drawn:
    """Stands in for the drawing: keeps, per thread, the graph it was asked to draw."""
    got = {}

    @classmethod
    def install(cls):
        import sys

        def draw(LatentIndex, order=[], ShareCommonChild=[]):
            cls.got.setdefault(threading.get_ident(), []).append({k: list(v) for k, v in LatentIndex.items()})
        for mod in (MG, sys.modules.get('MakeGraph')):
            if mod is not None:
                mod.Make_graph = draw

    @classmethod
    def take(cls):
        return cls.got.pop(threading.get_ident(), [])


# ---------------------------------------------------------------- cases
def gen_model(r, small=False):
    kind = r.choice(['measure', 'measure', 'measure', 'star', 'mixed']) if not small else 'measure'
    m = dict(kind=kind, seed=r.getrandbits(30), n=r.choice([4000, 9000]), alpha=r.choice([.05, .01, .01, .001]), names=r.choice(['x', 'x', 'v1', 'odd']))
    if kind == 'measure':
        k = 2 if small else r.choice([2, 2, 3, 3, 4])
        m['groups'] = [r.choice(['3', '3', '4', '2+2i', '2i+2i'] if not small else ['3', '3', '4']) for _ in range(k)]
        if not small and r.random() < .15:
            m['groups'][0] = '2+2i+2i'
        if k == 4 and sum(size(g) for g in m['groups']) > 15:
            m['groups'] = ['3', '3', '3', '4']
    elif kind == 'star':
        m['groups'] = ['3'] * r.choice([4, 4, 4, 5])
    else:
        m['groups'] = [r.choice(['2', '2', '3'])] + ['3'] * r.choice([3, 3, 4])
    return m


def size(g):
    return sum(int(p.rstrip('i')) for p in g.split('+'))


def gen_op(r, models, kinds=('learn', 'learn', 'merge', 'merge', 'early', 'early', 'rule', 'rule', 'rule', 'sets', 'index')):
    d = r.randrange(len(models))
    k = r.choice(kinds)
    if models[d]['kind'] != 'measure' and k in ('merge', 'early'):
        k = r.choice(['learn', 'rule', 'index'])
    return dict(k=k, d=d, seed=r.getrandbits(30))


def generate(r, tier):
    if r.random() < .08:
        models = [gen_model(r, True)]
        return dict(mode='clients', models=models, seqs=[[gen_op(r, models, ('learn', 'merge', 'rule', 'sets')) for _ in range(r.randint(1, 2))]
                                                         for _ in range(2)], sched=gen_sched(r, 2))
    models = [gen_model(r) for _ in range(r.choice([1, 1, 1, 2]))]
    ops = []
    for _ in range(r.randint(1, 5)):
        z = r.random()
        if z < .12:
            ops.append(dict(op='noise', k=r.randint(0, 9)))
        elif z < .25:
            ops.append(dict(gen_op(r, models), op='cut', kind=r.choice(['interrupt', 'memory']), at=r.random()))
        ops.append(dict(gen_op(r, models), op='do'))
    return dict(mode='serial', models=models, ops=ops)


def shrinks(c):
    if c['mode'] == 'clients':
        for k in (0, 1):
            for a in shrink_list(c['seqs'][k]):
                yield dict(c, seqs=[a, c['seqs'][1]] if k == 0 else [c['seqs'][0], a])
        return
    for o in shrink_list(c['ops']):
        if o:
            yield dict(c, ops=o)
    for i, m in enumerate(c['models']):
        def put(x):
            return dict(c, models=c['models'][:i] + [x] + c['models'][i + 1:])
        if m['kind'] == 'measure':
            for g in shrink_list(m['groups']):
                if len(g) >= 2:
                    yield put(dict(m, groups=g))
            for j, g in enumerate(m['groups']):
                if g != '3':
                    yield put(dict(m, groups=m['groups'][:j] + ['3'] + m['groups'][j + 1:]))
        if m['names'] != 'x':
            yield put(dict(m, names='x'))


def describe(c):
    return str({k: v for k, v in c.items() if k != 'sched'})


# ---------------------------------------------------------------- models
def clear(S, n, least):
    """every tetrad of the covariance matrix vanishes or is beyond `least` standard errors"""
    q = np.array(list(itertools.combinations(range(len(S)), 4)))
    for a in ((0, 1, 2, 3), (0, 2, 1, 3), (0, 3, 1, 2)):
        w, x, y, z = q[:, a].T
        t = S[w, y] * S[x, z] - S[w, z] * S[x, y]
        det = lambda u, v: S[u, u] * S[v, v] - S[u, v] ** 2
        M = S[q[:, a][:, :, None], q[:, a][:, None, :]]
        v = (n + 1) / ((n - 1) * (n - 2)) * det(w, x) * det(y, z) - np.linalg.det(M) / (n - 2)
        e = np.abs(t) / np.sqrt(np.abs(v))
        if ((e > 1e-7) & (e < least)).any():
            return False
    return True


def covariance(g, groups, latent):
    """observed covariances, clusters per group ([members, pure]) for latent covariances and direct effects inside clusters"""
    K = sum(map(size, groups))
    lam, E, parts, at = np.zeros((K, len(groups))), np.zeros((K, K)), [], 0
    for i, s in enumerate(groups):
        parts.append([])
        for p in s.split('+'):
            ids = list(range(at, at + int(p.rstrip('i'))))
            at += len(ids)
            if p.endswith('i'):
                E[ids[1], ids[0]] = g.choice([-1, 1]) * g.uniform(.8, 1.6)
            parts[-1].append((ids, not p.endswith('i')))
            for v in ids:
                lam[v, i] = g.choice([-1, 1]) * g.uniform(.7, 1.5)
    T = np.linalg.inv(np.eye(K) - E)
    return T @ (lam @ latent @ lam.T + np.diag(g.uniform(.2, .5, K))) @ T.T, parts


def latents(g, kind, m):
    if kind == 'measure':
        B = np.tril(g.choice([-1, 1], (m, m)) * g.uniform(.5, 1.3, (m, m)), -1)
        T = np.linalg.inv(np.eye(m) - B)
        return T @ np.diag(g.uniform(.7, 1.3, m)) @ T.T
    a = g.choice([-1, 1], m) * g.uniform(.8, 1.3, m)
    own = g.uniform(.5, .9, m)
    if kind == 'mixed':     # the first latent variable is the parent of the others
        a[0], own[0] = 1., 0.
    return np.outer(a, a) + np.diag(own)


def table(g, S, n, names):
    import pandas as pd
    Z = g.normal(size=(n, len(S)))
    Z = np.linalg.qr(Z - Z.mean(0))[0] * math.sqrt(n - 1)
    return pd.DataFrame(Z @ np.linalg.cholesky(S).T + g.choice([0., 3.], len(S)), columns=names)


def naming(g, kind, k):
    return [str(v) for v in g.permutation({'x': [f'x{i + 1}' for i in range(k)], 'v1': [f'v{"1" * (i + 1)}' for i in range(k)],
                                           'odd': [f'{"abcd"[i % 4]} {i // 4}' for i in range(k)]}[kind])]


class Model:
    def __init__(self, d):
        from scipy.stats import norm
        self.d, self.least = d, 1.7 * norm.isf(d['alpha'] / 2)
        self.n = d['n']
        for t in range(40):
            g = np.random.default_rng([d['seed'], t])
            S, parts = covariance(g, d['groups'], latents(g, d['kind'], len(d['groups'])))
            if clear(S, self.n, self.least):
                break
        else:
            self.ok = False
            return
        self.ok = True
        nm = naming(g, d['names'], len(S))
        self.names = nm
        self.f = table(g, S, self.n, nm)
        self.parts = [[([nm[v] for v in ids], pure) for ids, pure in p] for p in parts]
        self.groups = [frozenset(v for ids, _ in p for v in ids) for p in self.parts]


# ---------------------------------------------------------------- references
class Tetrads:
    def __init__(self, f, alpha):
        self.g, self.alpha, self.near, self.asked, self.false = {v: f[v].to_numpy() for v in f.columns}, alpha, False, 0, 0

    def __call__(self, *t):
        p = tetrad(*(self.g[v] for v in t))
        self.near |= abs(p - self.alpha) < 1e-6
        self.asked += 1
        self.false += p <= self.alpha
        return p > self.alpha


def pure_pure(C1, C2, f, alpha, t):
    i, j, k = C1[0], C1[1], C2[0]
    if len(C2) >= 2:
        s = C2[1]
        return all([t(i, k, j, s), t(i, j, k, s), t(i, s, j, k)])
    return all([t(i, k, j, s) for s in f.columns if s not in (*C1, *C2)])


def pure_impure(C1, C2, f, alpha, t):
    return all([t(C1[0], C2[0], C1[1], s) for s in f.columns if s not in (*C1, *C2)])


def impure_impure(C1, C2, f, alpha, t):
    return all([t(C1[0], C2[0], a, b) for a, b in itertools.combinations([s for s in f.columns if s not in (*C1, *C2)], 2)])


def asks(rule, C1, C2, f, alpha):
    t = Tetrads(f, alpha)
    w = rule(C1, C2, f, alpha, t)
    return w, t.near


def sets_of(ls):
    return sorted(sorted(map(str, s)) for s in ls)


# ---------------------------------------------------------------- operations: (what, call, judge, inputs)
def learn(q, M):
    g = np.random.default_rng(q['seed'])
    f = M.f[[str(v) for v in g.permutation(M.f.columns)]]
    kind = M.d['kind']

    def call():
        Drawn.take()
        CD.Causal_Discovery_LHM(f, M.d['alpha'])
        return Drawn.take()

    def judge(o):
        if len(o) != 1:
            return f'drew {len(o)} graphs'
        G, obs = o[0], set(f.columns)
        own = {L: frozenset(v for v in c if v in obs) for L, c in G.items()}
        if any(len(set(c)) != len(c) or set(c) - obs - set(G) for c in G.values()):
            return f'has clusters {G}'
        up = [L for L in G if not own[L]]
        if kind == 'star' and len(up) != 1 or kind != 'star' and up:
            return f'has latent variables {G}, the clusters are {sets_of(M.groups)}'
        if sets_of(own[L] for L in G if own[L]) != sets_of(M.groups):
            return f'finds clusters {G}, should find {sets_of(M.groups)}'
        high = {L: set(c) - obs for L, c in G.items()}
        if kind == 'measure':
            for a, b in itertools.combinations(G, 2):
                if (b in high[a]) + (a in high[b]) != 1:
                    return f'relates {a} and {b} {(b in high[a]) + (a in high[b])} times in {G}'
            return
        top = up[0] if kind == 'star' else next(L for L in G if own[L] == M.groups[0])
        if high[top] != set(G) - {top} or any(high[L] for L in G if L != top):
            return f'has the hierarchy {G}, the top is {top}'
    return f'learning from {len(f.columns)} variables at {M.d["alpha"]}', call, judge, (f,)


def as_learned(g, clusters):
    out = [[str(v) for v in g.permutation(C)] for C in clusters]
    g.shuffle(out)
    return out


def merge(q, M):
    """one merging step: clusters that share a parent are merged, the others sorted by purity"""
    if M.d['kind'] != 'measure':
        return None
    g = np.random.default_rng(q['seed'])
    flat = [(i, C, p) for i, ps in enumerate(M.parts) for C, p in ps]
    keep = [t for t in flat if g.random() < .85]
    pure = [sorted(C) for _, C, p in keep if p]
    impure = [sorted(C) for _, C, p in keep if not p]
    f, al = M.f, M.d['alpha']
    got = as_learned(g, [C for _, C, _ in keep])
    of = {frozenset(C): (i, p) for i, C, p in keep}
    for a, b in itertools.combinations(got, 2):       # the rules must be able to tell
        (i, p), (j, s) = of[frozenset(a)], of[frozenset(b)]
        if p and s:
            continue
        for x, y in itertools.permutations((a, b)):
            if p != s and not of[frozenset(x)][1]:
                continue
            w, near = asks(pure_impure if p != s else impure_impure, x, y, f, al)
            if near or w != (i == j):
                return None
    want = [[], [], [], []]
    for i in range(len(M.parts)):
        mine = [(C, p) for j, C, p in keep if i == j]
        if len(mine) > 1:
            want[0].append([v for C, _ in mine for v in C])
        elif mine:
            want[3 if mine[0][1] else 1].append(mine[0][0])
    rest = [v for v in f.columns if not any(v in C for C in got)] if got else []
    P, I, A = clone(pure), clone(impure), clone(got)

    def call():
        return MC.MergeCausalCluster(clone(got), clone(P), clone(I), clone(A), [], {}, f, f.copy(), al)

    def judge(o):
        parts, p2, i2, _, _, idx = o
        if [sets_of(x) for x in parts[:4]] != [sets_of(x) for x in want] or sorted(parts[4]) != sorted(rest):
            return f'of {got} (pure {pure}) gives {parts}, should give {want} and {rest}'
        if sets_of(p2) != sets_of(P) or sets_of(i2) != sets_of(I + ([list(f.columns)] if not got else [])) or idx:
            return f'of {got} records {p2}, {i2}, {idx}'
    return 'merging clusters', call, judge, (f,)


def early(q, M):
    """a latent variable was introduced for two members of a group; what else belongs to it is recognised"""
    g = np.random.default_rng(q['seed'])
    if M.d['kind'] != 'measure':
        return None
    al = M.d['alpha']
    gi = int(g.integers(len(M.parts)))
    pures = [C for C, p in M.parts[gi] if p]
    if not pures:
        return None
    C = [str(v) for v in g.permutation(pures[0])]
    head, more = C[:2], C[2:]
    imp = [X for X, p in M.parts[gi] if not p]
    others = [v for i, ps in enumerate(M.parts) if i != gi for X, _ in ps for v in X]
    how = g.choice(['inner', 'outer', 'foreign'])
    f = M.f
    data = f.drop(columns=head[1:]).rename(columns={head[0]: 'L1'})
    data = data[[str(v) for v in g.permutation(data.columns)]]
    tdata = f[[v for v in f.columns]]
    idx, pl = {'L1': list(head)}, [list(head)]
    if how == 'inner':
        if not more:
            return None
        K = ['L1'] + more
        w, near = asks(pure_pure, head, more, tdata, al)
        pure, true = [sorted(K)], True
    elif how == 'outer':
        if not imp:
            return None
        K = [str(v) for v in g.permutation(imp[0])]
        w, near = asks(pure_impure, head, K, tdata, al)
        if not w or asks(pure_impure, head[::-1], K, tdata, al)[0] != w:
            return None
        pure, true = [], True
    else:
        z = str(g.choice(others))
        K = ['L1', z]
        w, near = asks(pure_impure, head, [z], tdata, al)
        pure, true = ([sorted(K)] if g.random() < .5 else []), False
    if near or w != true:
        return None
    if g.random() < .5:
        K = [str(v) for v in g.permutation(K)]
    impure = [] if pure else [sorted(K)]
    rest = [v for v in data.columns if v not in K]
    add = [v for v in K if v != 'L1'] if true else []
    want = [[], [] if true or pure else [K], [['L1'] + add] if true else [], [K] if pure and not true else []]

    def call():
        return MC.MergeCausalCluster([list(K)], pl + clone(pure), clone(impure), [list(head), list(K)], [], clone(idx), data, f, al)

    def judge(o):
        parts, _, _, _, _, new = o
        if [sets_of(x) for x in parts[:4]] != [sets_of(x) for x in want] or sorted(parts[4]) != sorted(rest):
            return f'of {K} with L1 for {head} gives {parts}, should give {want} and {rest}'
        if {k: sorted(v) for k, v in new.items()} != {'L1': sorted(head + add)}:
            return f'of {K} with L1 for {head} leaves {new}, should add {add}'
        if true and parts[2][0][0] != 'L1':
            return f'of {K} with L1 for {head} does not name L1 first: {parts[2]}'
    return f'recognising an early latent variable ({how})', call, judge, (data, f)


def rule(q, _):
    import pandas as pd
    g = np.random.default_rng(q['seed'])
    rare = g.random() < .6          # a decision that hangs on one or two of the tetrads
    for _ in range(12 if rare else 1):
        n, m = int(g.choice([20, 60, 200])), int(g.integers(4, 9))
        L = g.normal(size=(n, 3)) @ np.array([[1, .7, 0], [0, 1, .5], [0, 0, 1.]])
        X = g.normal(size=(n, m)) * g.choice([.2, 1.]) + L[:, g.integers(0, 1 + int(g.integers(0, 3)), m)] * g.uniform(-2, 2, m)
        names = naming(g, str(g.choice(['x', 'v1', 'odd'])), m)
        f = pd.DataFrame(X, columns=names)
        al = float(g.choice([.3, .05, .01, 1e-4]))
        o = [str(v) for v in g.permutation(names)]
        k = int(g.integers(2, min(4, m - 1) + 1)) if m > 3 else 2
        C1, C2 = o[:k], o[k:k + int(g.integers(1, 4))]
        which = int(g.integers(3))
        t = Tetrads(f, al)
        want = (pure_pure, pure_impure, impure_impure)[which](C1, C2, f, al, t)
        if 0 < t.false <= 2 and t.false < t.asked:
            break
    near = t.near
    if near:
        return None
    fn = (MC.TestPureWithPure, MC.TestPureWithImpure, MC.TestImpureWithImpure)[which]
    kept = clone([C1, C2])

    def judge(r):
        if bool(r) != want:
            return f'of {C1} and {C2} at {al} in {m} variables is {r}, its tetrads say {want}'
        if [C1, C2] != kept:
            return 'changed its arguments'
    return f'merge rule {which}', lambda: fn(C1, C2, f, al), judge, (f,)


def sets(q, _):
    g = np.random.default_rng(q['seed'])
    pool = [f'x{i}' for i in range(6)]
    some = lambda lo=1: [str(v) for v in g.choice(pool, int(g.integers(lo, 5)), replace=False)]
    S, Ls = some(), [some() for _ in range(int(g.integers(0, 5)))]
    if Ls and g.random() < .5:
        Ls[int(g.integers(len(Ls)))] = [str(v) for v in g.permutation(S)][:len(S) - int(g.integers(0, 2)) or 1]
    D = {f'L{i}': c for i, c in enumerate(Ls)}
    s = set(S)
    ops = {'>': lambda a, b: a > b, '>=': lambda a, b: a >= b, '=': lambda a, b: a == b, '<': lambda a, b: a < b, '<=': lambda a, b: a <= b}
    same = [set(c) == s for c in Ls]
    more = [some() for _ in range(int(g.integers(0, 4)))] + ([S] if g.random() < .5 else [])

    def extended():
        out = clone(Ls)
        for c in more:
            if not any(set(c) == set(d) for d in out):
                out.append(c)
        return out
    want = [{k: any(f(s, set(c)) for c in Ls) for k, f in ops.items()}, any(same), any(s <= set(c) for c in Ls), any(s < set(c) for c in Ls),
            any(same), f'L{same.index(True)}' if any(same) else '', sets_of(extended()), bool(Ls and s & set(Ls[0]))]

    def call():
        return [{k: bool(UT.GeneralSetOperator(S, Ls, k)) for k in ops}, UT.GeneralSetContains(S, Ls), UT.GeneralSetCover(S, Ls), UT.GeneralSetStrictCover(S, Ls),
                UT.GeneralDicContains(S, D), UT.GetEarlyLearningByDic(S, D), sets_of(UT.ExtendList(clone(Ls), clone(more))), bool(Ls and MC.TestOverlap(S, Ls[0]))]
    return 'set operations', call, lambda o: None if o == want else f'on {S}, {Ls}, {more} are {o}, should be {want}', ()


def index(q, _):
    g = np.random.default_rng(q['seed'])
    if g.random() < .5:     # clusters by number of factors, and an order, to an index of latent variables
        pool = [f'x{i}' for i in range(14)]
        g.shuffle(pool)
        cl, at = {}, 0
        for key in g.permutation([1, 2, 3])[:int(g.integers(1, 4))]:
            cl[str(key)] = []
            for _ in range(int(g.integers(1, 3))):
                k = int(g.integers(1, 4))
                if pool[at:at + k]:
                    cl[str(key)].append([str(v) for v in pool[at:at + k]])
                at += k
        every = [C for ls in cl.values() for C in ls]
        order = [[str(v) for v in g.permutation(every[i])] for i in g.permutation(len(every))]
        order = order[:int(g.integers(0, len(order) + 1))] if g.random() < .4 else order
        want, share, num = {}, [], 1
        for key, ls in cl.items():
            for C in ls:
                share.append([f'L{num + i}' for i in range(int(key))])
                want.update({L: C for L in share[-1]})
                num += int(key)
        roots = [L for R in order for L, C in want.items() if set(C) == set(R)]
        pairs = list(itertools.permutations(want, 2))
        near = [any(a in s and b in s for s in share) for a, b in pairs]

        def judge(o):
            if ({k: list(v) for k, v in o[0][0].items()}, list(o[0][1]), [list(s) for s in o[0][2]]) != (want, roots, share):
                return f'of {cl}, {order} is {o[0]}, should be {(want, roots, share)}'
            if o[1] != near:
                return f'of {cl}: {o[1]} for {pairs}, latent variables of one cluster are {share}'

        def call():
            t = MG.Transfer2Index(clone(cl), clone(order))
            return t, [bool(MG.RmoveEdgeBetweenN_factor(a, b, t[2])) for a, b in pairs]
        return 'index of clusters', call, judge, ()
    k = int(g.integers(1, 6))
    idx = {f'L{i + 1}': [f'x{3 * i + j}' for j in range(3)] + [f'L{i}'] * int(i > 1 and g.random() < .4) for i in range(k)}
    pool = list(idx) + ['x0', 'x1', 'x5', 'x99']
    imp = [[str(v) for v in g.choice(pool, min(len(pool), int(g.integers(1, 4))), replace=False)] for _ in range(int(g.integers(0, 4)))]
    want = {L: set(c) for L, c in idx.items()}
    for C in imp:
        for a, b in itertools.combinations(C, 2):
            if a in want:
                want[a].add(b)

    def judge(o):
        if {L: sorted(c) for L, c in o.items()} != {L: sorted(c) for L, c in want.items()}:
            return f'of {idx}, {imp} is {o}, should be {want}'
    return 'index with impure clusters', lambda: MG.tranImpureToLatentIndex(clone(idx), clone(imp)), judge, ()


OPS = dict(learn=learn, merge=merge, early=early, rule=rule, sets=sets, index=index)


# ---------------------------------------------------------------- execution
def execute(c, ctx):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        run(c, ctx)


def run(c, ctx):
    ctx.ident({k: v for k, v in c.items() if k != 'sched'})
    models = [Model(d) for d in c['models']]
    kept = [m.f.copy() if m.ok else None for m in models]
    ctx.nontrivial = c['mode'] == 'clients' or len(c['ops']) > 1

    def prepare(q):
        M = models[q['d']]
        return OPS[q['k']](q, M) if M.ok or q['k'] in ('rule', 'sets', 'index') else None

    def untouched(who):
        for i, (m, f) in enumerate(zip(models, kept)):
            ctx.check(not m.ok or m.f.equals(f), 'input-changed', lambda: f'{who}: data set {i} was changed')

    def do(q, who, p):
        if p is None:
            ctx.info['skipped ' + q['k'] + ('' if models[q['d']].ok else ' (unclear model)')] += 1
            return
        what, call, judge, args = p
        copies = [a.copy() for a in args]
        o = ctx.call(call, budget=3_000_000)
        ctx.check(o[0] == 'ok', 'error', lambda: f'{who}: {what} raised {rr(o)}')
        ctx.check(all(a.equals(b) for a, b in zip(args, copies)), 'input-changed', lambda: f'{who}: {what} changed its data')
        bad = judge(o[1])
        ctx.check(bad is None, 'wrong', lambda: f'{who}: {what} {bad}')
        ctx.info[q['k']] += 1

    if c['mode'] == 'clients':
        ready = [[prepare(q) for q in s] for s in c['seqs']]

        def client(k):
            def go():
                for i, q in enumerate(c['seqs'][k]):
                    ctx.op_point()
                    do(q, f'client {k} operation {i}', ready[k][i])
            return go
        ctx.run_clients([client(0), client(1)], c['sched'])
        untouched('the clients')
        return
    for i, q in enumerate(c['ops']):
        who = f'operation {i}'
        if q['op'] == 'noise':
            np.random.seed(q['k'])
            np.random.rand(q['k'])
            ctx.fault('random_stream_used')
            continue
        p = prepare(q)
        if q['op'] == 'do':
            do(q, who, p)
        elif p and not (q['k'] == 'learn' and len(models[q['d']].names) > 8):
            copies = [a.copy() for a in p[3]]
            lines, o = ctx.count_lines(p[1])
            ctx.check(o[0] == 'ok', 'error', lambda: f'{who}: {p[0]} raised {rr(o)}')
            o = ctx.call(p[1], fault=[q['kind'], 1 + int(q['at'] * max(0, lines - 1))])
            if ctx.last_fired:
                ctx.check(o[0] == 'exc' and is_fault(o[1]), 'fault-swallowed', lambda: f'{who}: {rr(o)}')
            ctx.check(all(a.equals(b) for a, b in zip(p[3], copies)), 'input-changed', lambda: f'{who}: {p[0]} changed its data')
        untouched(who)
