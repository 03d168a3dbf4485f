"""C05: PC with exact independence answers returns the true equivalence class."""
import numpy as np
import pandas as pd

from .. import bridge, models
from ..common import InjectedFault, gen_sched, is_fault, r as rr, shrink_list
from ..models import NAME_KINDS, make_names

ID = 'C05'
QUICK, THOROUGH = 3500, 40000
RULE = ('A case is 1-3 fits by 1-2 learners (DAGs of 2-8 nodes, both adjacency searches, significance levels, verbose '
        'flag, node-name kinds with simulator-chosen hashes and variable order, array/frame/positional/keyword forms of '
        'the call), run one after the other or as concurrent clients sharing a graph, with independence tests that '
        'raise at a chosen evaluation, and interrupts or failed allocations at a chosen fraction of the library lines, '
        'followed by a refit. The exact answers come from the library d-separation test or from our own oracle with '
        'p-values straddling alpha. Every completed fit is compared with our CPDAG and skeleton. Non-trivial: the class '
        'has directed and undirected edges, or a fault, or an interleaving; distinct by graphs, call forms, faults, '
        'switch points.')
MEASURE = 'distinct = different (DAGs, names, call forms, fault points, context-switch points)'
REAL = ['PC', 'adjacency_search', 'fast_adjacency_search', 'PDAG orientation', 'ConditionalIndependentTest memo',
        'Dsep', 'DiGraph.is_d_separate', 'argument adapter']
STUB = ['oracle independence test (own d-separation) in half of the runs', 'failing test collaborator',
        'client threads scheduled by the simulator', 'node hashes']
BUDGET = 60_000_000


def setup():
    global PC, Dsep, METHODS, Oracle, Flaky
    from cdmir.discovery.constraint.adjacency_search import adjacency_search, fast_adjacency_search
    from cdmir.discovery.constraint.pc import PC
    from cdmir.utils.independence import ConditionalIndependentTest, Dsep
    METHODS = {'std': adjacency_search, 'fast': fast_adjacency_search}

    class Oracle(ConditionalIndependentTest):
        def __init__(self, data, var_names=None, model=None, lohi=(0.0, 1.0), fail=None):
            super().__init__(data, var_names=var_names)
            self.model, self.lohi, self.fail = model, lohi, fail

        def cal_stats(self, x_id, y_id, z_ids=None):
            if self.fail is not None:
                self.fail()
            n, edges, names = self.model
            sep = models.dsep(n, edges, x_id, y_id, list(z_ids or ()))
            return (self.lohi[1] if sep else self.lohi[0]), 0.5

    class Flaky(Dsep):
        def __init__(self, data, var_names=None, true_graph=None, fail=None):
            super().__init__(data, var_names=var_names, true_graph=true_graph)
            self.fail = fail

        def cal_stats(self, x_id, y_id, z_ids=None):
            if self.fail is not None:
                self.fail()
            return super().cal_stats(x_id, y_id, z_ids)


FORMS = ['array', 'array_kw', 'array_pos', 'array_default', 'frame', 'frame_names', 'frame_pos']


def gen_model(r, mode, nmax):
    n, e = models.gen_dag(r, 2, nmax)
    if mode == 'plain' and r.random() < .3:
        n, e = 6, models.random_dag(r, 6, r.choice([.3, .4, .5, .6]))
    if mode == 'plain' and r.random() < .04:
        n = r.choice([10, 11, 12])
        e = models.random_dag(r, n, r.choice([.08, .12, .16]))
    order = list(range(n))
    r.shuffle(order)
    return dict(n=n, edges=e, names=r.choice(NAME_KINDS), nseed=r.getrandbits(30), order=order)


def generate(r, tier):
    mode = r.choice(['plain', 'plain', 'plain', 'faults', 'faults', 'clients'])
    nmax = 7 if mode == 'plain' else 5
    if mode == 'plain' and r.random() < .05:
        nmax = 8
    ms = [gen_model(r, mode, nmax) for _ in range(1 if mode == 'plain' and r.random() < .6 else 2)]
    fits = []
    k = len(ms) if mode == 'plain' else r.randint(2, 3)
    for i in range(k):
        q = r.random()
        lo, alpha, hi = (0.0, r.choice([.05, .5, .01, .999, 1e-9]), 1.0)
        own = r.random() < .5
        if own:
            alpha = r.choice([.05, .01, .5, .2])
            lo, hi = r.choice([(0.0, 1.0), (alpha * .99, alpha * 1.01), (alpha - 1e-6, alpha + 1e-6)])
        fits.append(dict(learner=r.randrange(2), model=r.randrange(len(ms)), method=r.choice(['std', 'fast']),
                         alpha=alpha, lo=lo, hi=hi, own=own, verbose=r.random() < .15, form=r.choice(FORMS),
                         faults=[[r.choice(['interrupt', 'memory', 'test', 'test']), r.random() ** r.choice([1, 2])]
                                 for _ in range(r.choice([0, 1, 1, 2]))] if mode == 'faults' else []))
    c = dict(mode=mode, models=ms, fits=fits)
    if mode == 'clients':
        for i, f in enumerate(fits):
            f['learner'] = i
        c['sched'] = gen_sched(r, len(fits))
        c['sched']['p'] = min(c['sched']['p'], .03)
    return c


def shrinks(c):
    for fs in shrink_list(c['fits']):
        if fs and (c['mode'] != 'clients' or len(fs) > 1):
            yield dict(c, fits=fs)
    for i, m in enumerate(c['models']):
        for e in shrink_list(m['edges']):
            yield dict(c, models=c['models'][:i] + [dict(m, edges=e)] + c['models'][i + 1:])
        last = m['n'] - 1
        if m['n'] > 2 and all(last not in e for e in m['edges']):
            m2 = dict(m, n=last, order=[v for v in m['order'] if v != last])
            yield dict(c, models=c['models'][:i] + [m2] + c['models'][i + 1:])
        if m['names'] != 'int':
            yield dict(c, models=c['models'][:i] + [dict(m, names='int')] + c['models'][i + 1:])
    for i, f in enumerate(c['fits']):
        for fl in shrink_list(f['faults']):
            yield dict(c, fits=c['fits'][:i] + [dict(f, faults=fl)] + c['fits'][i + 1:])
        for k, v in (('verbose', False), ('form', 'array'), ('own', True)):
            if f[k] != v:
                yield dict(c, fits=c['fits'][:i] + [dict(f, **{k: v})] + c['fits'][i + 1:])


def describe(c):
    return f"{c['mode']} " + ' | '.join(models.fmt_dag(m['n'], m['edges']) + ' ' + m['names'] for m in c['models']) + \
        ' :: ' + '; '.join(f"L{f['learner']} fit M{f['model']} {f['method']} a={f['alpha']} {f['form']} "
                           f"{'oracle' if f['own'] else 'dsep'} {f['faults']}" for f in c['fits'])


class Script:
    """Counts test evaluations; the k-th raises."""

    def __init__(self, at=None):
        self.n, self.at = 0, at

    def __call__(self):
        self.n += 1
        if self.at is not None and self.n == self.at:
            raise InjectedFault('independence test failed')


def execute(c, ctx):
    M = []
    for m in c['models']:
        n, edges = m['n'], [tuple(e) for e in m['edges']]
        names = make_names(m['names'], n, m['nseed'])
        g = bridge.build_digraph(n, edges, names)
        order = m['order']
        pos = {v: i for i, v in enumerate(order)}
        # variables in the order of the data columns
        M.append(dict(n=n, edges=[(pos[a], pos[b]) for a, b in edges], vars=[names[v] for v in order], g=g,
                      before=bridge.snapshot(g), txt=models.fmt_dag(n, edges) + ' ' + m['names'] + str(order), m=m))
        ctx.ident(M[-1]['txt'], m['nseed'] if 'h' in m['names'] else 0)
    learners = {}
    shown = []

    def make_fit(f, script):
        m = M[f['model']]
        n, vs = m['n'], list(m['vars'])
        data = np.arange(3.0 * n).reshape(3, n)
        fresh = f['learner'] not in learners
        pc = learners.setdefault(f['learner'], PC(alpha=f['alpha'], adjacency_search_method=METHODS[f['method']],
                                                  verbose=f['verbose']))
        if not fresh:
            pc.set_alpha(f['alpha'])
            pc.set_verbose(f['verbose'])
            pc.adjacency_search_method = METHODS[f['method']]
        if f['own']:
            cls, kw = Oracle, dict(model=(n, m['edges'], vs), lohi=(f['lo'], f['hi']), fail=script)
        else:
            cls, kw = Flaky, dict(true_graph=m['g'], fail=script)
        form = f['form']
        plain_cols = all(type(v) in (int, str) for v in vs)
        if form.startswith('frame') and not plain_cols:
            form = 'array'
        if form == 'array_default' and vs != list(range(n)):
            form = 'array_kw'
        if form == 'array':
            return pc, lambda: pc.fit(data, vs, indep_cls=cls, **kw)
        if form == 'array_kw':
            return pc, lambda: pc.fit(data=data, var_names=tuple(vs), indep_cls=cls, **kw)
        if form == 'array_pos':
            return pc, lambda: pc.fit(data, vs, cls, *kw.values())
        if form == 'array_default':
            return pc, lambda: pc.fit(data, indep_cls=cls, **kw)
        df = pd.DataFrame(data, columns=vs)
        if form == 'frame':
            return pc, lambda: pc.fit(df, indep_cls=cls, **kw)
        if form == 'frame_names':
            d2 = pd.DataFrame(data, columns=[f'c{i}' for i in range(n)])
            return pc, lambda: pc.fit(d2, var_names=vs, indep_cls=cls, **kw)
        return pc, lambda: pc.fit(df, vs, cls, *kw.values())

    def judge(f, pc, res, what):
        m = M[f['model']]
        t = f"{what} of {m['txt']} ({f['method']}, alpha {f['alpha']}, {f['form']})"
        ctx.check(res[0] == 'ok', 'error', lambda: f'{t} raised {rr(res)}')
        wD, wU = models.cpdag(m['n'], m['edges'])
        order, D, U, other = bridge.read(pc.causal_graph, m['vars'])
        ctx.check(order, 'node-order', lambda: f'{t}: nodes {list(pc.causal_graph.nodes)}')
        ctx.check((D, U) == (wD, wU) and not other, 'class',
                  lambda: f'{t}: got {models.fmt_pdag(D, U)} {sorted(other)}, should be {models.fmt_pdag(wD, wU)}')
        order, D2, U2, other = bridge.read(pc.skeleton, m['vars'])
        sk = frozenset(frozenset(e) for e in m['edges'])
        ctx.check(order and not D2 and not other and U2 == sk, 'skeleton',
                  lambda: f'{t}: skeleton {models.fmt_pdag(D2, U2)} {sorted(other)}')
        ctx.check(bridge.snapshot(m['g']) == m['before'], 'input-changed', lambda: f'{t} changed the oracle graph')
        shown.append((pc.causal_graph, bridge.snapshot(pc.causal_graph), t))
        return bool(D) and bool(U)

    nt = False
    for f in c['fits']:
        ctx.ident(f['learner'], f['model'], f['method'], f['alpha'], f['form'], f['own'], f['faults'])
    if c['mode'] == 'clients':
        def client(f, k):
            def run():
                pc, fit = make_fit(f, None)
                ctx.op_point()
                judge(f, pc, ctx.call(fit), f'fit by client {k}')
            return run
        ctx.run_clients([client(f, k) for k, f in enumerate(c['fits'])], c['sched'])
        nt = ctx.switches > 0
    else:
        for f in c['fits']:
            if f['faults']:
                s = Script()
                keep = learners.pop(f['learner'], None)
                pc, fit = make_fit(f, s)
                lines, res = ctx.count_lines(fit)
                judge(f, pc, res, 'undisturbed fit')
                evals = s.n
                if keep is not None:
                    learners[f['learner']] = keep
                for kind, frac in f['faults']:
                    if kind == 'test':
                        if not evals:
                            continue
                        s = Script(1 + int(frac * (evals - 1e-9)))
                        pc, fit = make_fit(f, s)
                        res = ctx.call(fit)
                        fired = s.n >= s.at
                        if fired:
                            ctx.fault('test_failure')
                    else:
                        pc, fit = make_fit(f, None)
                        res = ctx.call(fit, fault=[kind, 1 + int(frac * (lines - 1))])
                        fired = ctx.last_fired
                    if fired:
                        ctx.check(res[0] == 'exc' and is_fault(res[1]), 'fault-swallowed',
                                  lambda: f'{kind} at {frac:.3f} of a fit: {rr(res)}')
                        nt = True
            pc, fit = make_fit(f, None)
            res = ctx.call(fit)
            nt = judge(f, pc, res, 'refit' if f['faults'] else 'fit') or nt
    for g, snap, t in shown:
        ctx.check(bridge.snapshot(g) == snap, 'result-changed', lambda: f'the result of {t} changed afterwards')
    ctx.nontrivial = nt
