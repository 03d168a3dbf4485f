"""C15: learners never modify caller data and a failed fit leaves nothing behind."""
import random

import numpy as np
import pandas as pd

from ..common import InjectedFault, gen_sched, is_fault, r as rr, shrink_list
from ..models import fmt_dag, gen_dag, topological
from ..runner import in_child

ID = 'C15'
QUICK, THOROUGH = 640, 12000
RULE = ('A case is 1-3 data sets and a history of jobs on two long-lived instances of each learner (PC with Fisher-Z and '
        'kernel tests, greedy search, ICA-LiNGAM, Hawkes search, one-component latent search, additive noise model, '
        'kernel and correlation tests, local scores, continuous optimisation, simulators, graph conversions, metrics), '
        'input as array, read-only, Fortran-ordered, strided view or frame, some jobs cut by an interrupt or failed '
        'allocation at a chosen library line, some given unusable data, with other users of the random streams in '
        'between; or two jobs as concurrent clients. After every job every object handed in is compared byte by byte with '
        'its snapshot and every earlier result with what it was; every completed job must give what it gives in a process '
        'that did nothing else. Non-trivial: two jobs or a fault; distinct by jobs, data, forms, faults, switch points.')
MEASURE = 'distinct = different (data sets, job history, input forms, fault and switch points)'
REAL = ['PC', 'FisherZ', 'KCI', 'GES', 'BICScore', 'BDeuScore', 'GeneralCVScore', 'ICA_LINGAM', 'SHP', 'olc', 'ANM',
        'notears_linear', 'IIDSimulator', 'TimeLagSimulator', 'dag2cpdag', 'pdag2dag', 'get_performance',
        'functional fisherz, fisherz_from_corr, hsic_gam, KCI', 'fast_adjacency_search']
STUB = ['other users of the random streams', 'client threads scheduled by the simulator']
KINDS = ['pc', 'pc', 'pckci', 'ges', 'ges', 'ica', 'shp', 'olc', 'olc', 'anm', 'kci', 'fz', 'score', 'cv', 'hsic', 'notears',
         'sim', 'tsim', 'conv', 'perf', 'simple']
ITERATIVE = ('ica', 'notears')
FORMS = ['array', 'readonly', 'fortran', 'strided', 'frame', 'named']
BUDGET = 8_000_000


def setup():
    global PC, FisherZ, KCI, GES, BICScore, BDeuScore, GeneralCVScore, ICA_LINGAM, SHP, olc, ANM, notears_linear
    global IID, TL, dag2cpdag, pdag2dag, get_performance, SimpleKCI, fisherz, fisherz_from_corr, hsic_gam, torch, Kernel, fast_adjacency_search
    import torch
    from cdmir.datasets.simlulators import IIDSimulator as IID
    from cdmir.datasets.simlulators import TimeLagSimulator as TL
    from cdmir.discovery.constraint.adjacency_search import fast_adjacency_search
    from cdmir.discovery.constraint.pc import PC
    from cdmir.discovery.funtional_based import ICA_LINGAM
    from cdmir.discovery.funtional_based.anm.ANM import ANM
    from cdmir.discovery.funtional_based.one_component.olc import olc
    from cdmir.discovery.point_process.SHP import SHP
    from cdmir.discovery.score_based.entropy_based.entropy_based_discovery.linear import notears_linear
    from cdmir.discovery.score_based.greedy_equivalence_search import GES
    from cdmir.graph.dag2cpdag import dag2cpdag
    from cdmir.graph.pdag2dag import pdag2dag
    from cdmir.utils.independence import KCI, ConditionalIndependentTest, FisherZ
    from cdmir.utils.independence.functional.fisherz import fisherz, fisherz_from_corr
    from cdmir.utils.independence.functional.HSIC import hsic_gam
    from cdmir.utils.independence.functional.kci import KCI as SimpleKCI
    from cdmir.utils.local_score import BDeuScore, BICScore, GeneralCVScore
    from cdmir.utils.metrics.graph_evaluation import get_performance

    class Kernel(ConditionalIndependentTest):
        """A user's test built on the kernel test."""

        def __init__(self, data, var_names=None):
            super().__init__(data, var_names)
            self.kci = KCI(data)

        def cal_stats(self, x, y, z=None):
            return self.kci([x], [y], None if not z else list(z))[:2]


# ------------------------------------------------------------------ generation
def gen_data(r):
    n, edges = gen_dag(r, 3, 4)
    return dict(n=n, edges=edges, w=[round(r.choice([-1, 1]) * r.uniform(.5, 1.5), 3) for _ in edges], seed=r.getrandbits(30),
                rows=r.choice([30, 40]), noise=r.choice(['normal', 'uniform']))


def gen_job(r, datasets, kinds=KINDS):
    return dict(kind=r.choice(kinds), data=r.randrange(datasets), form=r.choice(FORMS), slot=r.choice([0, 0, 1]), fault=None,
                k=r.getrandbits(16))


def generate(r, tier):
    data = [gen_data(r) for _ in range(r.choice([1, 2, 2, 3]))]
    c = dict(mode='serial', data=data)
    if r.random() < .15:
        c['mode'] = 'clients'
        quick = ['pc', 'ges', 'olc', 'kci', 'fz', 'score', 'hsic', 'conv', 'perf', 'simple', 'anm']
        c['jobs'] = [gen_job(r, len(data), quick) for _ in range(r.choice([2, 2, 3]))]
        for k, j in enumerate(c['jobs']):
            j['slot'] = k
        c['sched'] = gen_sched(r, len(c['jobs']))
        return c
    mine = r.sample(KINDS, r.choice([1, 1, 2, 3, 5]))
    jobs = []
    for _ in range(r.choice([2, 3, 4, 6])):
        q = r.random()
        if q < .3:
            jobs.append(dict(gen_job(r, len(data), mine), fault=[r.choice(['interrupt', 'memory']), r.choice(['all', 'end', 'start']),
                                                                 r.random()]))
        elif q < .4:
            jobs.append(dict(kind='foreign', what=r.choice(['draw', 'seed', 'dtype']), k=r.getrandbits(16)))
        elif q < .5:
            jobs.append(dict(gen_job(r, len(data), mine), kind=r.choice(['pc', 'ges', 'ica', 'olc', 'kci', 'anm', 'notears']),
                             form=r.choice(['nan', 'text']), bad=True))
        jobs.append(gen_job(r, len(data), mine))
    c['jobs'] = jobs
    return c


def shrinks(c):
    if c['mode'] == 'clients':
        for j in c['jobs']:
            yield dict(c, mode='serial', jobs=[j])
        return
    for o in shrink_list(c['jobs']):
        if o:
            yield dict(c, jobs=o)
    for i, j in enumerate(c['jobs']):
        for k, v in (('fault', None), ('slot', 0), ('form', 'array')):
            if k in j and j[k] != v and not j.get('bad'):
                yield dict(c, jobs=c['jobs'][:i] + [dict(j, **{k: v})] + c['jobs'][i + 1:])


def describe(c):
    return f"{c['mode']} {[(fmt_dag(d['n'], d['edges']), d['seed']) for d in c['data']]} {c['jobs']}"


# ----------------------------------------------------------------------- inputs
def base(d):
    g = np.random.default_rng(d['seed'])
    size = (d['rows'], d['n'])
    a = g.normal(size=size) if d['noise'] == 'normal' else g.uniform(-1.7, 1.7, size=size)
    for v in topological(d['n'], d['edges']):
        for (p, q), w in zip(d['edges'], d['w']):
            if q == v:
                a[:, v] += w * a[:, p]
    return a


def shape(a, form):
    if form == 'readonly':
        a = a.copy()
        a.flags.writeable = False
    elif form == 'fortran':
        a = np.asfortranarray(a)
    elif form == 'strided':
        b = np.full((len(a) * 2, a.shape[1] + 1), 7.5)
        b[::2, :-1] = a
        a = b[::2, :-1]
    elif form == 'frame':
        a = pd.DataFrame(a)
    elif form == 'named':
        a = pd.DataFrame(a, columns=[f'v{i}' for i in range(a.shape[1])])
    elif form == 'nan':
        a = a * np.nan
    elif form == 'text':
        a = np.array([['a'] * a.shape[1]] * len(a), dtype=object)
    return a


def freeze(x):
    """An object handed to the library, as comparable bytes."""
    if isinstance(x, pd.DataFrame):
        return ('frame', tuple(map(str, x.columns)), tuple(map(str, x.index)), tuple(x.dtypes.astype(str)), repr(x.to_numpy().tolist()))
    if isinstance(x, np.ndarray):
        return ('array', x.shape, str(x.dtype), repr(x.tolist()), repr(x.base.tolist()) if x.base is not None else '')
    if isinstance(x, (list, tuple)):
        return (type(x).__name__,) + tuple(freeze(y) for y in x)
    if hasattr(x, 'edges') and hasattr(x, 'nodes'):
        return graph(x)
    return repr(x)


def graph(g):
    return ('graph', repr(list(g.nodes)), tuple((repr(e.node_u), repr(e.node_v), int(e.mark_u), int(e.mark_v)) for e in g.edges))


def plain(x):
    if isinstance(x, (np.ndarray, pd.DataFrame)):
        return np.asarray(x).tolist()
    if isinstance(x, (list, tuple)):
        return [plain(y) for y in x]
    if isinstance(x, (np.floating, np.integer, np.bool_)):
        return x.item()
    if hasattr(x, 'edges') and hasattr(x, 'nodes'):
        g = graph(x)
        return [g[1], sorted(g[2])]
    if isinstance(x, dict):
        return [[repr(k), plain(v)] for k, v in sorted(x.items(), key=lambda t: repr(t[0]))]
    if isinstance(x, (set, frozenset)):
        return sorted(map(repr, x))
    return x if isinstance(x, (str, int, float, bool, type(None))) else repr(x)


def alike(a, b):
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(alike(x, y) for x, y in zip(a, b))
    if isinstance(a, float) or isinstance(b, float):
        return a == b or (a != a and b != b) or abs(a - b) <= 1e-7 + 1e-6 * abs(a)
    return a == b


# ------------------------------------------------------------------------- jobs
class World:
    """Long-lived learners, one per kind and slot."""

    def __init__(self):
        self.kept = {}

    def get(self, kind, slot, make):
        if (kind, slot) not in self.kept:
            self.kept[kind, slot] = make()
        return self.kept[kind, slot]


def job(world, j, d, x):
    """(objects handed in, function to run, function giving the live result)."""
    kind, n, slot = j['kind'], d['n'], j['slot']
    names = [f'v{i}' for i in range(n)]
    arr = np.asarray(x)
    out = []
    if kind in ('pc', 'pckci'):
        fast = j['k'] % 3 == 0
        pc = world.get((kind, fast), slot, lambda: PC(.05, fast_adjacency_search) if fast else PC(alpha=.05))
        lst = list(names)
        ins = [x, lst]
        if j['form'] == 'named' and j['k'] % 2:
            run = lambda: pc.fit(x, indep_cls=FisherZ if kind == 'pc' else Kernel)
        else:
            run = lambda: pc.fit(x, lst, indep_cls=FisherZ if kind == 'pc' else Kernel)
        live = lambda: (pc.causal_graph, pc.skeleton, pc.sep_set)
        return ins, run, live
    if kind == 'ges':
        run = lambda: (lambda g: (g.fit(), out.append(g)))(GES(BICScore(x), max_p=n))
        return [x], run, lambda: (out[-1].get_causal_graph(), float(out[-1].get_score()))
    if kind == 'ica':
        m = world.get(kind, slot, lambda: ICA_LINGAM(wald_alpha=.3))
        return [x], lambda: m.fit(x), lambda: (m.get_coef(), m.get_causal_graph())
    if kind == 'shp':
        t = table(d, j['form'])
        init = np.zeros((3, 3)) if j['k'] % 2 else None
        run = lambda: out.append(SHP(t, .5, None, init, seed=3, reg=.5).Hill_Climb())
        return [t] + ([init] if init is not None else []), run, lambda: out[-1]
    if kind == 'olc':
        a = arr if not isinstance(x, np.ndarray) else x
        return [a], lambda: out.append(olc(a)), lambda: out[-1]
    if kind == 'anm':
        m = world.get(kind, slot, ANM)
        a, b = arr[:, 0], arr[:, 1]
        return [a, b], lambda: out.append(m.cause_or_effect(a, b)), lambda: out[-1]
    if kind == 'kci':
        xs, ys, zs = [0], [1], [2] if j['k'] % 2 else None
        if n > 3 and j['k'] % 3 == 0:
            zs = [3, 2]
        elif j['k'] % 6 == 2:
            xs, ys = [2, 0], [1]
        return [x, xs, ys, zs], lambda: out.append(KCI(x)(xs, ys, zs)), lambda: out[-1]
    if kind == 'fz':
        vs = random.Random(j['k']).sample(range(n), n)
        (u, v), zs = vs[:2], vs[2:]
        a, b, z, corr = arr[:, u], arr[:, v], arr[:, zs], np.corrcoef(arr, rowvar=False)
        run = lambda: out.append([FisherZ(arr, None).itest(u, v, zs), fisherz(a, b, z), fisherz(a, b),
                                  fisherz_from_corr(corr, len(arr), u, v, zs)])
        return [arr, a, b, z, corr, zs], run, lambda: out[-1]
    if kind == 'score':
        pa = [[0, 2], [2, 0]][j['k'] // 2 % 2] + ([3] if n > 3 else [])
        if j['k'] % 2:
            q = np.digitize(arr, [-.5, .5])
            q = pd.DataFrame(q) if j['form'] == 'frame' else q
            q.flags.writeable = False if isinstance(q, np.ndarray) else None
            return [q, pa], lambda: out.append(BDeuScore(q)(1, pa)), lambda: out[-1]
        return [x, pa], lambda: out.append(BICScore(x)(1, pa)), lambda: out[-1]
    if kind == 'cv':
        pa = [[0], [2, 0]][j['k'] % 2]
        return [x, pa], lambda: out.append(GeneralCVScore(x)(1, pa)), lambda: out[-1]
    if kind == 'hsic':
        a, b = arr[:, :1], arr[:, 1:2]
        return [a, b, arr], lambda: out.append(hsic_gam(a, b)), lambda: out[-1]
    if kind == 'simple':
        m = world.get(kind, slot, SimpleKCI)
        a, b = arr[:, :1], arr[:, 1:2]
        return [a, b, arr], lambda: out.append(m.test(a, b)), lambda: out[-1]
    if kind == 'notears':
        return [arr], lambda: out.append(notears_linear(arr, .05, 'l2', max_iter=20)), lambda: out[-1]
    A = np.zeros((n, n))
    for (a, b), w in zip(d['edges'], d['w']):
        A[a, b] = w
    if kind == 'sim':
        A = shape(A, j['form']) if j['form'] in ('readonly', 'fortran', 'frame') else A
        scale = [1., .5, 2., 1.][:n]
        run = {0: lambda: IID.simulate_linear_anm(A, 20, 'uniform', scale, None),
               1: lambda: IID.simulate_linear_anm(A, 20, 'gauss', scale, 5),
               2: lambda: IID.simulate_nonlinear_anm(np.asarray(A), 20, 'gauss', scale, 5),
               3: lambda: IID.simulate_pnl(np.asarray(A), 20, 'gauss', scale, 5)}[j['k'] % 4]
        return [A, scale], lambda: out.append(run()), lambda: out[-1]
    if kind == 'tsim':
        W = np.stack([A.T * .2, np.eye(n) * .3])
        if j['form'] == 'readonly':
            W.flags.writeable = False
        scale = np.ones(n)
        run = {0: lambda: TL.simulate_linear_anm(W, 2, 20, 'uniform', scale, None),
               1: lambda: TL.simulate_linear_anm(W, 2, 20, 'gauss', scale, 5),
               2: lambda: TL.simulate_nonlinear_anm((W != 0) * 1., 2, 10, 'gauss', scale, 5)}[j['k'] % 3]
        return [W, scale], lambda: out.append(run()), lambda: out[-1]
    if kind == 'conv':
        from ..bridge import build_digraph
        g = build_digraph(n, d['edges'], names)
        return [g, names], lambda: out.append((lambda p: (p, pdag2dag(p)))(dag2cpdag(g))), lambda: out[-1]
    if kind == 'perf':
        real = (A != 0) * 1
        est = arr[:n, :n]
        return [real, est, arr], lambda: out.append(get_performance(est, real, .5)), lambda: out[-1]
    raise ValueError(kind)


def table(d, form):
    r = random.Random(d['seed'])
    rows = [[r.choice('ab'), r.randint(0, 25), r.randrange(3)] for _ in range(25)] + [['a', 3, v] for v in range(3)] + [['a', 9, 0]]
    t = pd.DataFrame(rows, columns=['seq_id', 'time_stamp', 'event_type'])
    if form in ('named', 'frame'):
        t.columns = ['s', 't', 'e']
        t.index = range(5, 5 + len(t))
    if form == 'strided':
        t['time_stamp'] = t['time_stamp'] * 1.
    return t


# -------------------------------------------------------------------- execution
def seeds(j):
    np.random.seed(j['k'])
    random.seed(j['k'])
    torch.manual_seed(j['k'])


def execute(c, ctx):
    ctx.ident(c['mode'], c['data'], c['jobs'])
    ctx.nontrivial = len(c['jobs']) > 1
    real = [j for j in c['jobs'] if j['kind'] != 'foreign' and not j.get('bad')]
    bases = [base(d) for d in c['data']]

    def alone(j):
        def go():
            seeds(j)
            # the form must not matter, so the reference gets a plain array (numerical optimisers amplify rounding)
            form = j['form'] if j['kind'] in ITERATIVE else 'array'
            _, run, live = job(World(), dict(j, form=form), c['data'][j['data']], shape(bases[j['data']], form))
            lines, o = ctx.count_lines(run) if j['fault'] else (0, ctx.call(run))
            return lines, o[0], plain(live()) if o[0] == 'ok' else rr(o)
        return in_child(go)

    want, seen = [], {}
    for j in c['jobs']:
        if j in real:
            key = repr({k: v for k, v in j.items() if k != 'slot'})
            if key not in seen:
                seen[key] = alone(j)
            w = seen[key]
            ctx.check(isinstance(w, tuple), 'died', lambda: f'{j}: {w}')
            ctx.check(w[1] == 'ok', 'error', lambda: f'{j} raised {w[2]}')
        else:
            w = None
        want.append(w)

    if c['mode'] == 'clients':
        world = World()
        made = []
        for j in c['jobs']:
            ins, run, live = job(world, j, c['data'][j['data']], shape(bases[j['data']], j['form']))
            made.append((ins, [freeze(i) for i in ins], run, live))

        def client(k):
            def go():
                ctx.op_point()
                ins, before, run, live = made[k]
                o = ctx.call(run)
                ctx.check(o[0] == 'ok', 'error', lambda: f'client {k} {c["jobs"][k]} raised {rr(o)}')
            return go
        ctx.run_clients([client(k) for k in range(len(made))], c['sched'])
        for k, (ins, before, run, live) in enumerate(made):
            ctx.check([freeze(i) for i in ins] == before, 'input-changed', lambda: f'client {k} {c["jobs"][k]} changed its input')
            ctx.check(alike(plain(live()), want[k][2]), 'not-fresh',
                      lambda: f'client {k} {c["jobs"][k]}: {plain(live())}; alone {want[k][2]}'[:600])
        return

    world, handed = World(), []
    for k, j in enumerate(c['jobs']):
        who = f'job {k} {j}'
        if j['kind'] == 'foreign':
            ctx.fault('foreign_' + j['what'])
            if j['what'] == 'seed':
                seeds(j)
            elif j['what'] == 'dtype':
                torch.set_default_dtype([torch.double, torch.float][j['k'] % 2])
            else:
                np.random.rand(1 + j['k'] % 5), random.random(), torch.rand(1)
            continue
        seeds(j)
        ins, run, live = job(world, j, c['data'][j['data']], shape(bases[j['data']], j['form']))
        before = [freeze(i) for i in ins]
        if j.get('bad'):
            ctx.fault('bad_data')
            ctx.call(run)
        elif j['fault']:
            how, where, f = j['fault']
            lines = want[k][0]
            at = {'all': 1 + int(f * (lines - 1)), 'start': 1 + int(f * min(lines - 1, 60)), 'end': max(1, lines - int(f * 40))}[where]
            o = ctx.call(run, fault=[how, at])
            if ctx.last_fired:
                ctx.check(o[0] == 'exc' and is_fault(o[1]), 'fault-swallowed', lambda: f'{who}: {rr(o)}')
            else:
                ctx.check(o[0] == 'ok', 'error', lambda: f'{who} raised {rr(o)}')
        else:
            o = ctx.call(run)
            ctx.check(o[0] == 'ok', 'error', lambda: f'{who} raised {rr(o)}')
            got = live()
            ctx.check(alike(plain(got), want[k][2]), 'not-fresh',
                      lambda: f'{who}: {plain(got)}; in a new process {want[k][2]}'[:900])
            handed.append((k, got, repr(plain(got))))
        ctx.check([freeze(i) for i in ins] == before, 'input-changed', lambda: f'{who} changed its input')
        for i, got, was in handed:
            ctx.check(repr(plain(got)) == was, 'earlier-result', lambda: f'{who} changed the result of job {i}')
