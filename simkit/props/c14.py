"""C14: Hawkes structure search is consistent, locally optimal and history-free."""
import itertools
import math
import random

import numpy as np
import pandas as pd

from ..common import gen_sched, is_fault, r as rr, shrink_list

ID = 'C14'
QUICK, THOROUGH = 900, 16000
RULE = ('A case is one or two event tables (2-4 event types exciting each other, integer or fractional times, integer or '
        'text labels, rows in any order), a time unit or none, decay, penalty, seed and acyclic starting structure, and a '
        'history on one search object: structure evaluations (acyclic and cyclic), searches, evaluations and searches cut '
        'by an interrupt or failed allocation at a chosen library line, other users drawing from and reseeding the global '
        'random streams, other search objects built and run in between; or two search objects run as concurrent clients. '
        'Every reported score is recomputed from the events and the reported parameters, every searched structure is '
        'compared with all single edge changes, repeated evaluations and equal new objects must agree, and the table must '
        'stay as it was. Non-trivial: a result with an edge; distinct by tables, settings, history, switch points.')
MEASURE = 'distinct = different (event tables, settings, operation history, fault and switch points)'
REAL = ['SHP (table preparation, EM, EM_not_HC, Hill_Climb)', 'get_interval_events', 'NumPy generators']
STUB = ['other users of the global random streams', 'client threads scheduled by the simulator']
BUDGET = 8_000_000


def setup():
    global SHP, get_interval_events
    from cdmir.discovery.point_process.SHP import SHP, get_interval_events


# ------------------------------------------------------------------ generation
def gen_table(r, n, big):
    """Events of a self-exciting process, drawn by our own generator."""
    order = list(range(n))
    r.shuffle(order)
    edges = [(order[i], order[j]) for i in range(n) for j in range(i + 1, n) if r.random() < .5]
    whole = r.random() < .5
    rows = []
    for s in range(r.choice([1, 2, 3])):
        start, span = r.choice([0, 0, 3, 250]), r.choice([20, 60])
        todo = [(r.uniform(0, span), r.randrange(n)) for _ in range(r.randint(4, 28 if big else 12))]
        got = []
        while todo and len(got) < 60:
            t, v = todo.pop(0)
            got.append((t, v))
            for a, b in edges:
                if a == v and r.random() < .7:
                    d = t + r.expovariate(1)
                    if d < span:
                        todo.append((d, b))
        rows += [[s, start + (int(t) if whole else round(t, 2)), v] for t, v in got]
    for v in range(n):                      # every type occurs, every table has a time span
        rows.append([0, r.choice([1, 7]), v])
    rows.append([0, 11, 0])
    r.shuffle(rows)
    return rows


def gen_spec(r, big=True):
    n = r.choice([2, 3, 3, 4] if r.random() < .95 else [5, 6]) if big else r.choice([2, 3])
    order = list(range(n))
    r.shuffle(order)
    p = r.choice([0, 0, .3, .7])
    init = [[order[i], order[j]] for i in range(n) for j in range(i + 1, n) if r.random() < p]
    if p and r.random() < .3:
        init += [[v, v] for v in range(n) if r.random() < .5]
    return dict(n=n, rows=gen_table(r, n, big), types=r.choice(['int', 'str', 'sparse']), seqs=r.choice(['int', 'str']),
                unit=r.choice([None, None, 1, 5, 2.5]), decay=r.choice([.1, .5, 1, 3]), penalty=r.choice(['BIC', 'BIC', 'AIC']),
                reg=r.choice([1., .5, 3.]), seed=r.choice([0, 1, r.getrandbits(30)]), init=init if p else None,
                cells=r.choice(['int', 'float']))


def gen_mat(r, n):
    p = r.choice([.2, .5, .8])
    if r.random() < .75:
        order = list(range(n))
        r.shuffle(order)
        m = [[order[i], order[j]] for i in range(n) for j in range(i + 1, n) if r.random() < p]
    else:
        m = [[i, j] for i in range(n) for j in range(n) if i != j and r.random() < p]
    if r.random() < .2:
        m += [[v, v] for v in range(n) if r.random() < .5]
    return m


def generate(r, tier):
    clients = r.random() < .2
    c = dict(mode='clients' if clients else 'serial', specs=[gen_spec(r, not clients)])
    if clients:
        c['specs'].append(gen_spec(r, False))
        c['sched'] = gen_sched(r, 2)
        return c
    n = c['specs'][0]['n']
    ops = []
    for _ in range(r.randint(2, 9)):
        q = r.random()
        if q < .35:
            ops.append(dict(op='em', m=gen_mat(r, n), nohc=r.random() < .15, spoil=r.random() < .4))
        elif q < .5:
            ops.append(dict(op='climb', spoil=r.random() < .4))
        elif q < .75:
            ops.append(dict(op='cut', kind=r.choice(['interrupt', 'memory']), at=r.random(),
                            m=gen_mat(r, n) if r.random() < .6 else None))
        elif q < .85:
            ops.append(dict(op='foreign', what=r.choice(['draw', 'seed']), k=r.choice([0, 1, r.getrandbits(20)])))
        elif q < .93:
            ops.append(dict(op='other', k=r.getrandbits(20)))
        else:
            ops.append(dict(op='interval', unit=r.choice([1, 5, 20])))
    ops.insert(r.randint(0, len(ops)), dict(op='climb'))
    c['ops'] = ops
    c['flat'] = r.random() < .05            # a table without a time span must be refused
    return c


def shrinks(c):
    if c['mode'] == 'serial':
        for o in shrink_list(c['ops']):
            if o:
                yield dict(c, ops=o)
        if c['flat']:
            yield dict(c, flat=False)
    s = c['specs'][0]
    for o in shrink_list(s['rows']):
        t = dict(s, rows=o)
        if len({x[2] for x in o}) == s['n'] and span(t) > 0:
            yield dict(c, specs=[t] + c['specs'][1:])
    for k, v in (('init', None), ('unit', None), ('types', 'int'), ('seqs', 'int'), ('penalty', 'BIC'), ('reg', 1.), ('seed', 0)):
        if s[k] != v:
            yield dict(c, specs=[dict(s, **{k: v})] + c['specs'][1:])


def describe(c):
    return f"{c['mode']} {c['specs']} {c.get('ops')}"


# ------------------------------------------------------------------- reference
def frame(s, shuffle=None):
    t = {'int': lambda v: v, 'str': lambda v: f'e{v}', 'sparse': lambda v: 10 * v + 3}[s['types']]
    q = {'int': lambda v: v, 'str': lambda v: f's{v}'}[s['seqs']]
    rows = list(s['rows'])
    if shuffle is not None:
        random.Random(shuffle).shuffle(rows)
    df = pd.DataFrame(dict(seq_id=[q(a) for a, _, _ in rows], time_stamp=[b for _, b, _ in rows],
                           event_type=[t(v) for _, _, v in rows]))
    if shuffle is not None:
        df.columns = ['which', 'when', 'what']
        df.index = [5 * i + 2 for i in range(len(df))]
    return df


def binned(s):
    """{seq: {time: counts}} after rounding to the time unit and starting every sequence at zero."""
    out = {}
    for q, t, v in s['rows']:
        if s['unit'] is not None:
            t = int(t / s['unit']) * s['unit']
        out.setdefault(q, {}).setdefault(t, [0] * s['n'])[v] += 1
    return {q: {t - min(d): x for t, x in d.items()} for q, d in out.items()}


def span(s):
    return sum(max(d) for d in binned(s).values())


class Likelihood:
    """The penalised log-likelihood, directly from its definition."""

    def __init__(self, s):
        self.s, self.bins, self.T = s, binned(s), span(s)
        self.total = len(s['rows'])
        # excitation of every bin by each type: decayed counts of this and earlier bins (influence below 1e-4 is nil)
        self.x, self.e = [], []
        for d in self.bins.values():
            ts = sorted(d)
            for t in ts:
                self.x.append(d[t])
                self.e.append([sum(d[u][j] * math.exp(-s['decay'] * (t - u)) for u in ts
                                   if u <= t and math.exp(-s['decay'] * (t - u)) >= .0001) for j in range(s['n'])])
        self.x, self.e = np.array(self.x, float), np.array(self.e, float)

    def __call__(self, alpha, mu, edges, nohc=False):
        s, tot = self.s, 0.
        for i in range(s['n']):
            lam = self.e @ alpha[:, i] + mu[i]
            tot += float(self.x[:, i] @ np.log(lam)) - float((self.x.sum(0) / s['decay']) @ alpha[:, i]) - mu[i] * self.T
        k = s['n'] + edges
        if s['penalty'] == 'BIC':
            return tot - k * math.log(self.total) * s['reg']
        return tot - k * (s['reg'] if nohc else 1)


def mat(s, pairs):
    m = np.zeros((s['n'], s['n']), dtype=int if s['cells'] == 'int' else float)
    for a, b in pairs:
        m[a, b] = 1
    return m


def acyclic(m):
    a = (np.array(m) != 0).astype(int)
    np.fill_diagonal(a, 0)
    p = a.copy()
    for _ in range(len(a)):
        if np.trace(p):
            return False
        p = p @ a
    return True


def neighbours(m):
    n = len(m)
    for i, j in itertools.combinations(range(n), 2):
        for a, b in ((0, 0), (1, 0), (0, 1)):
            if (m[i, j], m[j, i]) != (a, b):
                t = m.copy()
                t[i, j], t[j, i] = a, b
                yield t


def near(a, b, tol=1e-7):
    return a == b or abs(a - b) <= tol * (1 + abs(a))


def same(p, q):
    return near(p[0], q[0]) and np.allclose(p[1], q[1], rtol=1e-6, atol=1e-9) and np.allclose(p[2], q[2], rtol=1e-6, atol=1e-9)


# ------------------------------------------------------------------- execution
def build(s, df=None):
    return SHP(frame(s) if df is None else df, s['decay'], s['unit'], None if s['init'] is None else mat(s, s['init']),
               s['penalty'], s['seed'], s['reg'])


def spoil(ctx, arrays):
    """What was returned belongs to the caller: later answers must not follow it."""
    ctx.fault('result_changed_by_caller')
    for a in arrays:
        try:
            a[...] = 7
        except (TypeError, ValueError):
            pass                        # handed out read-only: fine too


def judge(ctx, s, lik, obj, res, m, who, nohc=False):
    """One reported (score, alpha, mu) for structure m."""
    L, alpha, mu = float(res[0]), np.array(res[1], float), np.array(res[2], float)
    ctx.check(alpha.shape == (s['n'], s['n']) and mu.shape == (s['n'],) and (alpha >= 0).all() and (mu > 0).all()
              and np.isfinite(alpha).all() and np.isfinite(mu).all(), 'parameters', lambda: f'{who}: alpha {alpha} mu {mu}')
    ctx.check(not (alpha[m == 0] != 0).any(), 'parameters', lambda: f'{who}: influence outside the structure {alpha} {m}')
    want = lik(alpha, mu, m.sum(), nohc)
    ctx.check(near(L, want), 'score', lambda: f'{who}: reported {L}, the reported parameters score {want}')
    for i in range(s['n']):
        if not m[:, i].any():       # a Poisson stream: the rate is its maximum-likelihood rate
            rate = lik.x[:, i].sum() / lik.T
            gain = lik.x[:, i].sum() * math.log(rate) - rate * lik.T - (lik.x[:, i].sum() * math.log(mu[i]) - mu[i] * lik.T)
            ctx.check(gain < .01, 'rate', lambda: f'{who}: type {i} without causes has rate {mu[i]}, its mean rate is {rate}')


def judge_climb(ctx, s, lik, obj, res, who, again=True):
    m = (np.array(res[1]) != 0).astype(int)
    ctx.check(acyclic(m), 'cyclic', lambda: f'{who}: the structure {m.tolist()} is cyclic')
    ctx.check(math.isfinite(res[0]), 'score', lambda: f'{who}: reported score {res[0]}')
    full = mat(s, [[i, j] for i in range(s['n']) for j in range(s['n']) if m[i, j]])
    judge(ctx, s, lik, obj, res, full, who)
    if not again:
        return
    # pairs of a starting structure with self-influence keep it: only pairs of different types are searched
    back = ctx.call(lambda: obj.EM(full))
    ctx.check(back[0] == 'ok' and near(float(back[1][0]), float(res[0])), 'not-repeatable',
              lambda: f'{who}: reported {res[0]}, evaluating that structure gives {rr(back)}')
    for t in neighbours(full):
        o = ctx.call(lambda: obj.EM(t))
        ctx.check(o[0] == 'ok', 'error', lambda: f'{who}: evaluating {t.tolist()} raised {rr(o)}')
        ctx.check(not o[1][0] > res[0] + 1e-9 * (1 + abs(res[0])), 'not-optimal',
                  lambda: f'{who}: {m.tolist()} scores {res[0]}, one change away {t.tolist()} scores {o[1][0]}')


def execute(c, ctx):
    s = c['specs'][0]
    ctx.ident(c['mode'], c['specs'])
    liks = [Likelihood(x) for x in c['specs']]
    lik = liks[0]
    table = frame(s)
    start = build(s, table)
    if c['mode'] == 'serial' and any(o['op'] == 'cut' for o in c['ops']):
        lines, base = ctx.count_lines(start.Hill_Climb)
    else:
        lines, base = 0, ctx.call(start.Hill_Climb, budget=4_000_000)
    ctx.check(base[0] == 'ok', 'error', lambda: f'search raised {rr(base)}')
    base = base[1]
    keep = (float(base[0]), np.array(base[1]), np.array(base[2]))
    judge_climb(ctx, s, lik, start, base, 'first search')
    ctx.nontrivial = bool((keep[1] != 0).any())

    if c['mode'] == 'clients':
        objs = [build(x) for x in c['specs']]
        other = ctx.call(build(c['specs'][1]).Hill_Climb)
        ctx.check(other[0] == 'ok', 'error', lambda: f'search raised {rr(other)}')
        want = [keep, other[1]]
        got = [None, None]

        def client(k):
            def run():
                ctx.op_point()
                o = ctx.call(objs[k].Hill_Climb)
                ctx.check(o[0] == 'ok', 'error', lambda: f'client {k}: search raised {rr(o)}')
                got[k] = o[1]
            return run
        ctx.run_clients([client(0), client(1)], c['sched'])
        for k in (0, 1):
            ctx.check(same(got[k], want[k]), 'not-undisturbed', lambda: f'client {k}: {got[k]}; alone {want[k]}')
            judge_climb(ctx, c['specs'][k], liks[k], objs[k], got[k], f'client {k}')
        return

    obj = build(s, table)
    known, touched = {}, False
    for k, op in enumerate(c['ops']):
        ctx.ident(op)
        who = f'operation {k}'
        if op['op'] == 'em':
            m = mat(s, op['m'])
            if op['nohc'] and not acyclic(m):
                continue
            o = ctx.call(lambda: (obj.EM_not_HC if op['nohc'] else obj.EM)(m), budget=2_000_000)
            ctx.check(o[0] == 'ok', 'error', lambda: f'{who}: evaluating {m.tolist()} raised {rr(o)}')
            ctx.check(np.array_equal(m, mat(s, op['m'])), 'input-changed', lambda: f'{who}: the structure passed in changed')
            touched = True
            if not acyclic(m):
                ctx.check(o[1][0] == -np.inf, 'cyclic', lambda: f'{who}: cyclic {m.tolist()} scores {o[1][0]}')
                continue
            judge(ctx, s, lik, obj, o[1], m, who, op['nohc'])
            key = (m.tobytes(), op['nohc'])
            if key in known:
                ctx.check(same(known[key], o[1]), 'not-repeatable',
                          lambda: f'{who}: {m.tolist()} scores {o[1][0]}, before {known[key][0]}')
            known[key] = (float(o[1][0]), np.array(o[1][1]), np.array(o[1][2]))
            if op.get('spoil'):
                spoil(ctx, o[1][1:])
                back = ctx.call(lambda: (obj.EM_not_HC if op['nohc'] else obj.EM)(m), budget=2_000_000)
                ctx.check(back[0] == 'ok' and same(known[key], back[1]), 'not-repeatable',
                          lambda: f'{who}: after the caller changed the arrays returned for {m.tolist()}: {rr(back)}, before {known[key]}')
        elif op['op'] == 'climb':
            o = ctx.call(obj.Hill_Climb, budget=4_000_000)
            ctx.check(o[0] == 'ok', 'error', lambda: f'{who}: search raised {rr(o)}')
            if not touched:
                ctx.check(same(o[1], keep), 'not-undisturbed', lambda: f'{who}: {o[1]}; the first equal object gave {keep}')
            judge_climb(ctx, s, lik, obj, o[1], who)
            touched = True
            if op.get('spoil'):
                spoil(ctx, o[1][1:])
        elif op['op'] == 'cut':
            if op['m'] is None:
                o = ctx.call(obj.Hill_Climb, fault=[op['kind'], 1 + int(op['at'] * (lines - 1))])
            else:
                m = mat(s, op['m'])
                per = max(1, lines // (3 * s['n'] * s['n']))
                o = ctx.call(lambda: obj.EM(m), fault=[op['kind'], 1 + int(op['at'] * per)])
            touched = True
            if ctx.last_fired:
                ctx.check(o[0] == 'exc' and is_fault(o[1]), 'fault-swallowed', lambda: f'{who}: {rr(o)}')
            else:
                ctx.check(o[0] == 'ok', 'error', lambda: f'{who}: raised {rr(o)}')
        elif op['op'] == 'foreign':
            ctx.fault('foreign_' + op['what'])
            if op['what'] == 'seed':
                np.random.seed(op['k'])
                random.seed(op['k'])
            else:
                np.random.rand(1 + op['k'] % 7)
                random.random()
        elif op['op'] == 'other':
            ctx.fault('foreign_object')
            if op['k'] % 3 == 0:            # another object on other data with the same types
                t = dict(s, rows=s['rows'][len(s['rows']) // 2:] + [[0, 3, v] for v in range(s['n'])] + [[0, 9, 0]], seed=op['k'])
                o = ctx.call(build(t).Hill_Climb, budget=4_000_000)
                ctx.check(o[0] == 'ok', 'error', lambda: f'{who}: search raised {rr(o)}')
            else:                           # an equal object: rows in another order, other column names and index
                st = np.random.get_state()
                twin = build(s, frame(s, op['k']))
                o = ctx.call(twin.Hill_Climb, budget=4_000_000)
                ctx.check(o[0] == 'ok' and same(o[1], keep), 'not-undisturbed',
                          lambda: f'{who}: an equal object with rows in another order gives {rr(o)}; before {keep}')
                after = np.random.get_state()
                ctx.check(st[2] == after[2] and np.array_equal(st[1], after[1]), 'global-stream',
                          lambda: f'{who}: the search moved the global random stream')
        elif op['op'] == 'interval':
            df = frame(s)
            o = ctx.call(lambda: get_interval_events(df, op['unit']))
            ctx.check(o[0] == 'ok', 'error', lambda: f'{who}: get_interval_events raised {rr(o)}')
            ctx.check(df.equals(frame(s)), 'input-changed', lambda: f'{who}: get_interval_events changed the table')
            want = [[[float(int(t / op['unit']) * op['unit']) for q2, t, v2 in s['rows'] if q2 == q and v2 == v] for v in range(s['n'])]
                    for q in dict.fromkeys(x[0] for x in s['rows'])]
            ctx.check([[list(map(float, z)) for z in y] for y in o[1]] == want, 'interval',
                      lambda: f'{who}: get_interval_events gave {o[1]}, should be {want}')
        ctx.check(table.equals(frame(s)), 'input-changed', lambda: f'{who}: the event table changed')
    ctx.check(same(base, keep), 'earlier-result', 'a later operation changed an earlier result')
    if c['flat']:
        t = dict(s, rows=[[q, 4, v] for q, _, v in s['rows']])
        o = ctx.call(lambda: build(t).Hill_Climb(), budget=300_000)
        ctx.check(o[0] == 'exc' and isinstance(o[1], ValueError), 'no-span', lambda: f'events without a time span: {rr(o)}')
