"""C12: seeded generators are reproducible whatever else uses randomness."""
import random

import numpy as np

from .. import gens
from ..common import gen_sched, is_fault, r as rr, shrink_list
from ..runner import in_child

ID = 'C12'
QUICK, THOROUGH = 1600, 26000
RULE = ('A case is 1-3 generator calls (data simulators, random graphs, lag transitions, event sequences; arguments and '
        'noise drawn) with seeds (or none), run as a history with other users of the NumPy, Python and torch global '
        'streams drawing from and reseeding them in between, rejected calls, interrupts and failed allocations at chosen '
        'library lines; or as concurrent clients when at most one of them uses the global streams. Each output is '
        'compared with the output of the same call in a process that did nothing before; private-stream generators must '
        'leave the global streams in place. Non-trivial: at least one disturbance; distinct by calls, disturbances, '
        'switch points.')
MEASURE = 'distinct = different (generator calls and seeds, disturbance history, fault and switch points)'
REAL = ['IIDSimulator', 'TimeLagSimulator', 'entropy-based simulate_*', 'HawkesSimulator', 'erdos_renyi', 'generate_lag_transitions',
        'set_random_seed', 'NumPy, Python and torch generators', 'tick event simulation (third party)']
STUB = ['other users of the global random streams', 'client threads scheduled by the simulator']


def setup():
    gens.setup()


def gen_noise(r):
    q = r.random()
    if q < .35:
        return dict(op='draw', what=r.choice(['np', 'py', 'torch', 'normal']), k=r.randint(1, 5))
    if q < .6:
        return dict(op='seed', what=r.choice(['np', 'py', 'torch', 'all']), k=r.choice([0, 1, 7, r.getrandbits(20)]))
    if q < .75:
        return dict(op='bad', which=r.choice(gens.BADS), seed=r.choice([None, 3, 7]))
    return dict(op='cut', call=0, kind=r.choice(['interrupt', 'memory']), at=r.random(), seed=r.choice([None, 3, 7]))


def generate(r, tier):
    clients = r.random() < .2
    specs = []
    for k in range(r.choice([2, 2, 3]) if clients else r.choice([1, 1, 2, 3])):
        kind = r.choice(gens.PRIVATE if clients and k else gens.GLOBAL + gens.PRIVATE)
        s = gens.gen_spec(r, kind, r.choice([6, 25]))
        if clients:
            if kind == 'lag':
                s['it'] = 5
            if kind in ('tlin', 'tnonlin', 'tpnl'):
                s['rows'] = 3
            if kind == 'insem':
                s['size'] = 5
        specs.append(dict(spec=s, seed=r.choice([0, 3, 7, r.getrandbits(31), None]), ambient=r.getrandbits(30)))
    c = dict(mode='clients' if clients else 'serial', specs=specs)
    if clients:
        for s in specs:
            s['seed'] = r.getrandbits(30) if s['seed'] is None else s['seed']
        if specs[0]['spec']['kind'] in gens.PRIVATE:
            c['user'] = r.randint(3, 12)
        c['sched'] = gen_sched(r, len(specs) + ('user' in c))
        c['sched']['p'] = max(c['sched']['p'], .02)
        return c
    ops = []
    for _ in range(r.randint(2, 6)):
        while r.random() < .55:
            o = gen_noise(r)
            if o['op'] == 'cut':
                o['call'] = r.randrange(len(specs))
            ops.append(o)
        ops.append(dict(op='call', call=r.randrange(len(specs))))
    c['ops'] = ops
    return c


def shrinks(c):
    if c['mode'] == 'serial':
        for o in shrink_list(c['ops']):
            if o:
                yield dict(c, ops=o)
    for i, s in enumerate(c['specs']):
        sp = s['spec']
        for k, v in (('scale', None), ('edges', []), ('hidden', None), ('frame', False)):
            if k in sp and sp[k] != v:
                t = dict(sp, **{k: v})
                if k == 'edges' and 'w' in t:
                    t['w'] = []
                yield dict(c, specs=c['specs'][:i] + [dict(s, spec=t)] + c['specs'][i + 1:])


def describe(c):
    return f"{c['mode']} calls {c['specs']} " + (str(c.get('ops')) if c['mode'] == 'serial' else f"user {c.get('user')}")


def execute(c, ctx):
    specs = c['specs']
    ctx.ident(c['mode'], specs)
    private = [s['spec']['kind'] in gens.PRIVATE for s in specs]

    def ref(s):
        """The output, and how many library lines the call has, in a process that did nothing else."""
        def go():
            if s['seed'] is None:
                gens.ambient(s['ambient'])
            lines, res = ctx.count_lines(lambda: gens.call(s['spec'], s['seed']))
            return lines, (res[0], gens.plain(res[1]) if res[0] == 'ok' else rr(res))
        return in_child(go)

    want = [ref(s) for s in specs]
    for s, (_, w) in zip(specs, want):
        ctx.check(w[0] == 'ok', 'error', lambda: f"{s['spec']} seed {s['seed']} raised {w[1]}")
    # another seed gives other output, where output varies at all
    for s, (_, w) in zip(specs, want):
        sp = s['spec']
        if s['seed'] is not None and varies(sp):
            other = ref(dict(s, seed=s['seed'] + 1))[1]
            ctx.check(other[1] != w[1], 'seed-ignored', lambda: f"{sp}: seeds {s['seed']} and {s['seed'] + 1} give the same output")

    def judge(k, res, who):
        s, w = specs[k], want[k][1]
        ctx.check(res[0] == 'ok', 'error', lambda: f"{who} {s['spec']} seed {s['seed']} raised {rr(res)}")
        if s['seed'] is None and private[k]:
            return
        ctx.check(gens.plain(res[1]) == w[1], 'not-reproduced',
                  lambda: f"{who} {s['spec']} with seed {s['seed']} differs from the same call in a new process")

    def one(k, who, lone=True):
        s = specs[k]
        if s['seed'] is None:
            gens.ambient(s['ambient'])
        before = gens.streams() if private[k] and lone else None
        res = ctx.call(lambda: gens.call(s['spec'], s['seed']))
        judge(k, res, who)
        if before is not None:
            ctx.check(gens.streams() == before, 'global-stream', lambda: f"{who} {s['spec']} moved a global random stream")

    if c['mode'] == 'clients':
        fns = [(lambda k: lambda: (ctx.op_point(), one(k, f'client {k}', lone=False)))(k) for k in range(len(specs))]
        if 'user' in c:
            gens.ambient(99)
            mine = [(np.random.rand(), random.random(), float(gens.torch.rand(1))) for _ in range(c['user'])]
            gens.ambient(99)

            def user():
                for i in range(c['user']):
                    ctx.op_point()
                    got = (np.random.rand(), random.random(), float(gens.torch.rand(1)))
                    ctx.check(got == mine[i], 'global-stream', lambda: f'another user of the global streams drew {got}, should be {mine[i]}')
            fns.append(user)
        ctx.run_clients(fns, c['sched'])
        ctx.nontrivial = ctx.switches > 0
        return
    for j, op in enumerate(c['ops']):
        ctx.ident(op)
        if op['op'] == 'draw':
            ctx.fault('foreign_draw')
            for _ in range(op['k']):
                {'np': np.random.rand, 'py': random.random, 'torch': lambda: gens.torch.rand(2), 'normal': np.random.normal}[op['what']]()
        elif op['op'] == 'seed':
            ctx.fault('foreign_seed')
            if op['what'] in ('np', 'all'):
                np.random.seed(op['k'])
            if op['what'] in ('py', 'all'):
                random.seed(op['k'])
            if op['what'] in ('torch', 'all'):
                gens.torch.manual_seed(op['k'])
        elif op['op'] == 'bad':
            ctx.fault('rejected_call')
            res = ctx.call(lambda: gens.bad_call(op['which'], op['seed']))
            ctx.check(res[0] == 'exc', 'bad-accepted', lambda: f"malformed request {op['which']} was accepted")
        elif op['op'] == 'cut':
            k = op['call']
            at = 1 + int(op['at'] * (want[k][0] - 1))
            res = ctx.call(lambda: gens.call(specs[k]['spec'], op['seed']), fault=[op['kind'], at])
            if ctx.last_fired:
                ctx.check(res[0] == 'exc' and is_fault(res[1]), 'fault-swallowed', lambda: f'operation {j}: {rr(res)}')
        else:
            one(op['call'], f'operation {j}')
    ctx.nontrivial = bool(ctx.faults)


def varies(s):
    if s['kind'] in ('lag', 'tnonlin'):
        return s['n'] > 1
    if s['kind'] == 'nt_dag':
        return False
    if s['kind'] == 'nt_param':
        return bool(s['edges'])
    if s['kind'] == 'er':
        return s['range'] is not None and s['m'] >= s['n'] ** 2 and s['n'] > 2
    if s['kind'] in gens.PRIVATE:
        return s['kind'] == 'hawkes'
    if s.get('rows') is None or s['noise'] in ('logistic', 'poisson'):
        return False
    sc = s['scale']
    return sc is None or (any(sc) if isinstance(sc, list) else sc > 0)
