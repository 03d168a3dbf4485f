"""C11: greedy equivalence search returns the score it claims and the true class."""
import itertools
from math import log

import numpy as np
import pandas as pd

from .. import models as M
from ..bridge import read
from ..common import InjectedFault, gen_sched, is_fault, r as rr, shrink_list
from ..models import cpdag, dsep, fmt_dag, fmt_pdag, gen_dag, is_acyclic
from .c10 import bdeu, bic

ID = 'C11'
QUICK, THOROUGH = 1800, 24000
RULE = ('A case is a data set (random Gaussian or discrete; Gaussian with exactly the covariance, or discrete with exactly '
        'the frequencies, of a faithful DAG model whose every dependence outweighs the penalty), a score (BIC, BDeu, '
        'cross-validated, or a user-defined one made from a random set function), a parent limit, and a history of searches '
        'by one or more objects on the shared score, with score evaluations that fail at a chosen call, interrupts at a chosen fraction of the library lines, '
        'or two clients searching concurrently. Checked on every completed search: valid CPDAG, the class that greedy search '
        'over classes reaches by its definition, score = sum of local '
        'scores by our own formula over members of the class, no single deletion improves, equality with an undisturbed '
        'search, and the true class for exact models. Non-trivial: a class with an edge; distinct by data, score, limit, '
        'history, faults, switch points.')
MEASURE = 'distinct = different (data set, score, parent limit, search history, fault and switch points)'
REAL = ['GES', 'BICScore', 'BDeuScore', 'GeneralCVScore', 'MultiCVScore', 'PDAG', 'pdag2dag', 'dag2cpdag']
STUB = ['score evaluations that fail on demand', 'client threads scheduled by the simulator']
BUDGET = 8_000_000


def setup():
    global GES, CLS, FAIL, MultiCVScore
    from cdmir.discovery.score_based.greedy_equivalence_search import GES
    from cdmir.utils.local_score import BaseLocalScoreFunction, BDeuScore, BICScore, GeneralCVScore, MultiCVScore

    class SetScore(BaseLocalScoreFunction):
        """A user's score: differences of an arbitrary set function, hence score-equivalent."""
        table = None

        def _score_function(self, i, parent_i):
            m = sum(1 << int(p) for p in parent_i)
            return self.table[m | 1 << int(i)] - self.table[m]
    CLS = dict(bic=BICScore, bdeu=BDeuScore, gcv=GeneralCVScore, mcv=MultiCVScore, set=SetScore)

    def failing(base):
        class Failing(base):
            left = None

            def __call__(self, *a, **k):
                if self.left is not None:
                    self.left -= 1
                    if self.left < 0:
                        self.left = None
                        raise InjectedFault('score failed')
                return super().__call__(*a, **k)
        return Failing
    FAIL = {k: failing(v) for k, v in CLS.items() if k != 'mcv'}


def cov_of(n, edges, w, s):
    B = np.zeros((n, n))
    for (a, b), x in zip(edges, w):
        B[b, a] = x
    A = np.linalg.inv(np.eye(n) - B)
    return A @ np.diag(s) @ A.T


def pcor(C, i, j, Z):
    k = [i, j] + list(Z)
    P = np.linalg.inv(C[np.ix_(k, k)])
    return -P[0, 1] / np.sqrt(P[0, 0] * P[1, 1])


def queries(n):
    for i, j in itertools.combinations(range(n), 2):
        rest = [v for v in range(n) if v not in (i, j)]
        for k in range(len(rest) + 1):
            for Z in itertools.combinations(rest, k):
                yield i, j, Z


def gauss_model(r, N, least):
    """A DAG model every dependence of which outweighs the BIC penalty at N."""
    while True:
        n, edges = gen_dag(r, least, 5)
        if len(edges) > 8 or least > 3 and len(edges) < 4:
            continue
        for _ in range(12):
            w = [round(r.choice([-1, 1]) * r.uniform(.5, 1.6), 3) for _ in edges]
            s = [round(r.uniform(.5, 2), 3) for _ in range(n)]
            C = cov_of(n, edges, w, s)
            if all(dsep(n, edges, i, j, set(Z)) or -N * log(1 - pcor(C, i, j, Z) ** 2) > 2 * log(N)
                   for i, j, Z in queries(n)):
                return n, edges, w, s


def discrete_model(r):
    """A binary DAG model given by exact counts (conditional tables in eighths)."""
    while True:
        n, edges = gen_dag(r, 3, 4)
        den = 8 if n == 3 else 4
        pa = [[a for a, b in edges if b == v] for v in range(n)]
        for _ in range(12):
            t = [{k: r.randint(1, den - 1) for k in itertools.product((0, 1), repeat=len(p))} for p in pa]
            cells, mult = [], 8 if n == 3 else 16
            for x in itertools.product((0, 1), repeat=n):
                m = 1
                for v in range(n):
                    q = t[v][tuple(x[p] for p in pa[v])]
                    m *= q if x[v] else den - q
                cells.append([list(x), m * mult])
            a, m = np.array([x for x, _ in cells]), np.array([m for _, m in cells])
            ok = True
            for i, j, Z in queries(n):
                for u, v in ((i, j), (j, i)):
                    gain = bdeu(a, v, list(Z) + [u], mult=m) - bdeu(a, v, list(Z), mult=m)
                    if (gain > -1) if dsep(n, edges, i, j, set(Z)) else (gain < 1):
                        ok = False
                        break
                if not ok:
                    break
            if ok:
                return n, edges, cells


def expand(cells):
    return np.repeat(np.array([x for x, _ in cells]), [m for _, m in cells], axis=0)


def generate(r, tier):
    q = r.random()
    c = dict(seed=r.getrandbits(30), frame=r.random() < .4, max_p=None)
    clients = r.random() < .15
    only = r.random() < .6              # one undisturbed search, on a larger model
    if r.random() < .55:
        n = r.choice([2, 3, 4, 4] if not only else [4, 5, 5, 5, 6, 6] if r.random() < .95 else [7])
        c.update(kind='set', model='random', n=n, edges=[], w=[], rows=4, max_p=r.choice([n, n, n, n, n, None, 1, 2]),
                 penalty=r.choice([0, .2, .5, 1, 1.5, 2.5]), law=r.choice(['normal', 'normal', 'pairs', 'cubes']))
    elif q < .5:
        N = r.choice([400, 2000])
        n, edges, w, s = gauss_model(r, N, 4 if only else 3)
        c.update(kind='bic', model='exact', n=n, edges=edges, w=w, s=s, rows=N, max_p=n)
    elif q < .58:
        n, edges, cells = discrete_model(r)
        c.update(kind='bdeu', model='exact', n=n, edges=edges, cells=cells, max_p=n)
    else:
        kind = r.choice(['bic', 'bic', 'bic', 'bdeu', 'gcv', 'mcv'])
        n, edges = gen_dag(r, 2, 3 if clients or kind in ('gcv', 'mcv') else 5 if kind == 'bic' else 4)
        c.update(kind=kind, model='random', n=n, edges=edges, rows=20 if kind in ('gcv', 'mcv') else r.choice([20, 60, 300]),
                 w=[round(r.choice([-1, 1]) * r.uniform(.2, 2), 3) for _ in edges],
                 max_p=r.choice([None, n, n, 1, 2]))
    if clients and n <= 3 and c['kind'] in ('bic', 'bdeu', 'set'):
        c['mode'] = 'clients'
        c['ops'] = [dict(ges=0, fault=None), dict(ges=1, fault=None)]
        c['sched'] = gen_sched(r, 2)
        return c
    c['mode'] = 'serial'
    c['ops'] = []
    for _ in range(0 if only else r.choice([1, 2, 2, 3])):
        f = None
        if r.random() < .6:
            f = [r.choice(['interrupt', 'memory', 'score', 'score']), r.random()]
        c['ops'].append(dict(ges=r.choice([0, 0, 1]), fault=f))
    return c


def shrinks(c):
    if c['mode'] == 'clients':
        yield dict(c, mode='serial', ops=[dict(ges=0, fault=None)])
    for o in shrink_list(c['ops']):
        yield dict(c, ops=o)
    for i, o in enumerate(c['ops']):
        for k, v in (('fault', None), ('ges', 0)):
            if o[k] != v:
                yield dict(c, ops=c['ops'][:i] + [dict(o, **{k: v})] + c['ops'][i + 1:])
    if c['frame']:
        yield dict(c, frame=False)
    if c['model'] == 'random':
        for i in range(len(c['edges'])):
            yield dict(c, edges=c['edges'][:i] + c['edges'][i + 1:], w=c['w'][:i] + c['w'][i + 1:])
        if c['rows'] > 20:
            yield dict(c, rows=20)


def describe(c):
    how = f"counts {c['cells']}" if 'cells' in c else f"weights {c['w']} rows {c['rows']}"
    return (f"{c['mode']} {c['model']} {c['kind']} {fmt_dag(c['n'], c['edges'])} {how} max_p {c['max_p']} :: "
            + '; '.join(f"search #{o['ges']} {o['fault'] or ''}" for o in c['ops']))


def set_function(c):
    g = np.random.default_rng(c['seed'])
    n, k = c['n'], 1 << c['n']
    size = np.array([bin(m).count('1') for m in range(k)])
    t = g.normal(size=k)
    if c['law'] == 'pairs':             # pairwise effects with small perturbations
        t *= .15
        for a, b in itertools.combinations(range(n), 2):
            w = g.normal() * 1.5
            t += [w if m >> a & m >> b & 1 else 0 for m in range(k)]
    elif c['law'] == 'cubes':
        t = t ** 3
    t -= c['penalty'] * size * (size - 1) / 2
    t[0] = 0
    return t.tolist()


def build(c):
    n = c['n']
    g = np.random.default_rng(c['seed'])
    if 'cells' in c:
        a = expand(c['cells'])
        return a[g.permutation(len(a))]
    if c['model'] == 'exact':
        z = g.normal(size=(c['rows'], n))
        z -= z.mean(0)
        z = z @ np.linalg.inv(np.linalg.cholesky(z.T @ z / len(z))).T
        return z @ np.linalg.cholesky(cov_of(n, c['edges'], c['w'], c['s'])).T
    a = g.normal(size=(c['rows'], n))
    order = M.topological(n, c['edges'])
    for v in order:
        for (p, q), w in zip(c['edges'], c['w']):
            if q == v:
                a[:, v] += w * a[:, p]
    if c['kind'] == 'bdeu':
        a = np.digitize(a, [-.6, .6])
        a[0, :], a[1, :], a[2, :] = 0, 1, 2
    return a


def execute(c, ctx):
    n, kind = c['n'], c['kind']
    a = build(c)
    data = pd.DataFrame(a) if c['frame'] else a
    names = [f'x{v}' for v in range(n)]
    ctx.ident(kind, c['model'], c['edges'], c['seed'], c.get('rows'), c['max_p'], c['ops'])

    def new_score():
        s = (FAIL.get(kind) or CLS[kind])(data)
        if kind == 'set':
            s.table = set_function(c)
        return s

    def outcome(ges):
        ok, D, U, other = read(ges.get_causal_graph(), names)
        return ok, D, U, other, float(ges.get_score())

    what = f'{kind} search'
    base = GES(new_score(), max_p=c['max_p'])
    if any(o['fault'] and o['fault'][0] != 'score' for o in c['ops']):
        lines, res = ctx.count_lines(base.fit)
    else:
        res = ctx.call(base.fit)
    ctx.check(res[0] == 'ok', 'error', lambda: f'{what} raised {rr(res)}')
    want = outcome(base)
    first_graph = base.get_causal_graph()
    first_read = read(first_graph, names)
    judge(c, ctx, a, want)

    score = new_score()
    searches = {0: GES(score, max_p=c['max_p']), 1: GES(score, max_p=c['max_p'])}

    def same(got, who):
        ctx.check(got[:4] == want[:4] and abs(got[4] - want[4]) <= 1e-9 * (1 + abs(want[4])), 'not-undisturbed',
                  lambda: f'{who}: {fmt_pdag(got[1], got[2])} score {got[4]}; an undisturbed search gives '
                          f'{fmt_pdag(want[1], want[2])} score {want[4]}')

    if c['mode'] == 'clients':
        def client(k):
            def run():
                ctx.op_point()
                res = ctx.call(searches[k].fit)
                ctx.check(res[0] == 'ok', 'error', lambda: f'concurrent {what} raised {rr(res)}')
                same(outcome(searches[k]), f'client {k}')
            return run
        ctx.run_clients([client(0), client(1)], c['sched'])
    else:
        earlier = {}
        for k, op in enumerate(c['ops']):
            g = searches[op['ges']]
            if op['fault']:
                how, frac = op['fault']
                if how == 'score':
                    if kind != 'mcv':
                        score.left = int(frac ** 2 * 60)
                        res = ctx.call(g.fit)
                        fired = score.left is None
                        score.left = None
                        if fired:
                            ctx.fault('score_failure')
                    else:
                        fired = False
                else:
                    res = ctx.call(g.fit, fault=[how, 1 + int(frac * (lines - 1))])
                    fired = ctx.last_fired
                if fired:
                    ctx.check(res[0] == 'exc' and is_fault(res[1]), 'fault-swallowed',
                              lambda: f'search {k} with {op["fault"]}: {rr(res)}')
            res = ctx.call(g.fit)
            ctx.check(res[0] == 'ok', 'error', lambda: f'search {k} raised {rr(res)}')
            same(outcome(g), f'search {k}')
            for og in earlier.values():
                ctx.check(read(og, names)[:4] == want[:4], 'earlier-result', lambda: f'search {k} changed an earlier result')
            earlier[k] = g.get_causal_graph()
    ctx.check(read(first_graph, names) == first_read, 'earlier-result', 'a later search changed the result of an earlier one')
    ctx.check(np.array_equal(a, np.asarray(data)) and np.array_equal(a, build(c)), 'input-changed', 'the data changed')
    ctx.nontrivial = bool(want[1] or want[2])


def judge(c, ctx, a, out):
    """The result against the definitions, on our own local scores."""
    n, kind = c['n'], c['kind']
    ok, D, U, other, total = out
    show = fmt_pdag(D, U)
    ctx.check(ok and not other, 'graph', lambda: f'result has odd nodes or edges {other}')
    one = M.one_member(n, D, U)
    ctx.check(one is not None and is_acyclic(n, one) and cpdag(n, one) == (D, U), 'not-cpdag',
              lambda: f'{show} is not the CPDAG of a DAG')
    members = M.equivalents(n, one)
    if c['model'] == 'exact':
        want = cpdag(n, c['edges'])
        ctx.check((D, U) == want, 'wrong-class', lambda: f'found {show}, the model is {fmt_pdag(*want)}')
    if kind not in ('bic', 'bdeu', 'set'):
        return
    memo, table = {}, set_function(c) if kind == 'set' else None

    def loc(v, pa):
        k = (v, frozenset(pa))
        if table:
            m = sum(1 << p for p in pa)
            return table[m | 1 << v] - table[m]
        if k not in memo:
            memo[k] = (bic if kind == 'bic' else bdeu)(a, v, sorted(pa))
        return memo[k]
    tol = 1e-6 * (1 + abs(total))
    for g in members[:64]:
        pa = [{p for p, q in g if q == v} for v in range(n)]
        s = sum(loc(v, pa[v]) for v in range(n))
        ctx.check(abs(s - total) <= tol, 'score', lambda: f'reported {total} for {show}; {fmt_dag(n, g)} scores {s}')
        for p, q in g:
            gain = loc(q, pa[q] - {p}) - loc(q, pa[q])
            ctx.check(gain <= tol, 'not-optimal', lambda: f'{show}: deleting {p}>{q} from {fmt_dag(n, g)} gains {gain}')
    if c['max_p'] is not None and c['max_p'] >= n:
        want = greedy(n, loc)
        if want is None:
            ctx.info['ties'] += 1
        else:
            ctx.info['greedy_reference'] += 1
            ctx.check((D, U) == want, 'not-greedy', lambda: f'found {show}, best-first search over classes ends at '
                                                            f'{fmt_pdag(*want)}')


def greedy(n, loc):
    """Greedy search over equivalence classes by definition: the neighbours of a class are the classes of all
    one-edge additions to (then removals from) all of its members.  None when a choice is too close to call."""
    dag = frozenset()
    for adding in (True, False):
        while True:
            cand = []
            for g in M.equivalents(n, dag):
                pa = [{p for p, q in g if q == v} for v in range(n)]
                for p, q in itertools.permutations(range(n), 2):
                    if adding and p not in pa[q] and q not in pa[p] and is_acyclic(n, list(g) + [(p, q)]):
                        cand.append((loc(q, pa[q] | {p}) - loc(q, pa[q]), g, (p, q)))
                    elif not adding and p in pa[q]:
                        cand.append((loc(q, pa[q] - {p}) - loc(q, pa[q]), g, (p, q)))
            if not cand:
                break
            best = max(c[0] for c in cand)
            if abs(best) < 1e-6:
                return None
            if best < 0:
                break
            top = [g | {e} if adding else g - {e} for gain, g, e in cand if gain > best - 1e-6]
            if len({(frozenset(map(frozenset, h)), frozenset(M.vstructs(n, h))) for h in top}) > 1:
                return None
            dag = top[0]
    return cpdag(n, dag)
