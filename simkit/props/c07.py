"""C07: a remembered independence answer is always the freshly computed one."""
import math

import numpy as np
import pandas as pd

from .. import bridge, models
from ..common import InjectedFault, close, gen_sched, is_fault, r as rr, shrink_list, supply
from ..models import NAME_KINDS, make_names

ID = 'C07'
QUICK, THOROUGH = 15000, 150000
RULE = ('A case is 1-3 shared test objects (correlation-based, d-separation-based, user-defined deterministic or '
        'randomised, over different data or graphs and namings) and a history of queries by name or position, repeated, '
        'exchanged, permuted, with the conditioning set absent or supplied as any iterable (one-shot, failing), with '
        'unknown names, evaluations that raise and interrupts at chosen lines, serially or by 2-4 concurrent clients. '
        'Every answer is compared with our own formula and with a fresh object. Non-trivial: some canonical query asked '
        'at least twice, or a fault, or an interleaving; distinct by objects, history, faults, switch points.')
MEASURE = 'distinct = different (objects, query history, fault points, context-switch points)'
REAL = ['ConditionalIndependentTest', 'FisherZ', 'fisherz_from_corr', 'Dsep', 'DiGraph.is_d_separate']
STUB = ['user-defined test class', 'client threads scheduled by the simulator', 'iterables supplied by the simulator']


def setup():
    global FisherZ, Dsep, Custom
    from cdmir.utils.independence import ConditionalIndependentTest, Dsep, FisherZ

    class Custom(ConditionalIndependentTest):
        def __init__(self, data, var_names=None, salt=0, randomised=False):
            super().__init__(data, var_names=var_names)
            self.salt, self.randomised, self.calls, self.fail_at = salt, randomised, 0, None

        def cal_stats(self, x_id, y_id, z_ids=None):
            self.calls += 1
            if self.fail_at is not None and self.calls >= self.fail_at:
                self.fail_at = None
                raise InjectedFault('test failed')
            zs = list(z_ids) if z_ids is not None else []
            if self.randomised:
                return self.calls / 7.0, float(self.calls)
            return custom_value(self.salt, x_id, y_id, zs)


def custom_value(salt, x, y, z):
    v = (min(x, y) * 31 + max(x, y) * 101 + sum((i + 1) ** 3 * 1009 for i in z) + len(z) * 7 + salt * 13) % 9973
    return v / 9973.0, float(v)


def make_data(seed, n, rows):
    g = np.random.default_rng(seed)
    a = g.normal(size=(n, n))
    return g.normal(size=(rows, n)) @ (a + np.eye(n) * 1.5)


def fisher(data, x, y, z):
    v = [x, y] + list(z)
    c = np.linalg.inv(np.cov(data[:, v], rowvar=False))
    s = -c[0, 1] / math.sqrt(c[0, 0] * c[1, 1])
    s_ = min(0.9999999, abs(s))
    return math.erfc(math.sqrt(len(data) - len(z) - 3) * math.atanh(s_) / math.sqrt(2)), s


def twin(r, n, x, y, z):
    """Another query whose numbers read alike when their digits are run together."""
    keep = r.choice([0, 0, 2])               # the pair may stay, the conditioning set differ
    zs = sorted(z)
    digits = ''.join(map(str, ([x, y] + zs)[keep:]))
    for _ in range(12):
        ids, i = [x, y][:keep], 0
        while i < len(digits):
            k = 2 if digits[i] in '12' and i + 1 < len(digits) and r.random() < .5 else 1
            ids.append(int(digits[i:i + k]))
            i += k
        if len(ids) >= 2 and len(set(ids)) == len(ids) and max(ids) < n and (ids[0], ids[1], sorted(ids[2:])) != (x, y, zs):
            return ids[0], ids[1], ids[2:]
    return None


def generate(r, tier):
    mode = r.choice(['serial', 'serial', 'clients'])
    objs = []
    for _ in range(r.choice([1, 1, 2, 3])):
        n = r.choice([3, 4, 5, 5, 6, 13, 24])
        o = dict(kind=r.choice(['fisher', 'fisher', 'dsep', 'custom', 'custom']), n=n, names=r.choice(NAME_KINDS),
                 nseed=r.getrandbits(30), seed=r.getrandbits(30), rows=r.choice([20, 30, 200]), frame=r.choice([None, None, 'own', 'given']))
        if o['kind'] == 'dsep':
            o['n'] = n = min(n, 6)
            o['edges'] = models.random_dag(r, n, r.choice([.2, .4, .6]))
        if o['kind'] == 'custom':
            o['randomised'] = mode == 'serial' and r.random() < .3
        objs.append(o)
    k = 1 if mode == 'serial' else r.choice([2, 2, 3, 4])
    pool = []
    clients = []
    for _ in range(k):
        ops = []
        for _ in range(r.randint(30, 90) if mode == 'serial' and r.random() < .04 else r.randint(3, 14) if mode == 'serial' else r.randint(2, 6)):
            o = r.randrange(len(objs))
            n = objs[o]['n']
            if pool and r.random() < .65:        # a related query
                o, x, y, z = r.choice(pool)
                z, n = list(z), objs[o]['n']
                if r.random() < .5:
                    x, y = y, x
                r.shuffle(z)
                if r.random() < .15 and z:
                    z.pop()
                if n > 10 and r.random() < .6:   # same digits, split differently
                    t = twin(r, n, x, y, z)
                    if t:
                        x, y, z = t
                elif r.random() < .1:            # the same query of another object
                    o = r.randrange(len(objs))
                    z = [v for v in z if v < objs[o]['n']]
                    n = objs[o]['n']
                    x, y = x % n, y % n
                    if x == y or {x, y} & set(z):
                        continue
            else:
                vs = list(range(n))
                r.shuffle(vs)
                if n > 10 and r.random() < .6:   # small digits, so that other splits exist
                    vs.sort(key=lambda v: (any(d not in '12' for d in str(v)), r.random()))
                x, y = vs[:2]
                z = vs[2:2 + r.choice([0, 0, 1, 1, 2, 3, r.randint(3, 9)])]
            pool.append((o, x, y, list(z)))
            op = dict(o=o, x=x, y=y, z=list(z), form=r.choice(['name', 'id']),
                      sup=r.choice(['list', 'list', 'tuple', 'set', 'gen', 'iter', 'map', 'keys']), fault=None)
            if not z and r.random() < .5:
                op['sup'] = 'none'
            q = r.random()
            if q < .06:
                op['fault'] = ['supply', r.randrange(len(z) + 1)]
            elif q < .12:
                op['fault'] = ['unknown', r.randrange(3)]
            elif q < .22 and objs[o]['kind'] == 'custom':
                op['fault'] = ['test', 0]
            elif q < .42 and mode == 'serial':
                op['fault'] = [r.choice(['interrupt', 'memory']), r.random()]
            ops.append(op)
        clients.append(ops)
    c = dict(mode=mode, objs=objs, clients=clients)
    if mode == 'clients':
        c['sched'] = gen_sched(r, k)
    return c


def shrinks(c):
    for i, ops in enumerate(c['clients']):
        for o in shrink_list(ops):
            yield dict(c, clients=c['clients'][:i] + [o] + c['clients'][i + 1:])
    for i, ops in enumerate(c['clients']):
        for j, op in enumerate(ops):
            for k, v in (('fault', None), ('form', 'id'), ('sup', 'list')):
                if op[k] != v:
                    yield dict(c, clients=c['clients'][:i] + [ops[:j] + [dict(op, **{k: v})] + ops[j + 1:]]
                               + c['clients'][i + 1:])
    for i, o in enumerate(c['objs']):
        if o['names'] != 'int':
            yield dict(c, objs=c['objs'][:i] + [dict(o, names='int')] + c['objs'][i + 1:])


def describe(c):
    return f"{c['mode']} objects {[(o['kind'], o['n'], o['names']) for o in c['objs']]} :: " + ' || '.join(
        '; '.join(f"#{o['o']}.{o['form']}({o['x']},{o['y']}|{o['z']} as {o['sup']}) {o['fault'] or ''}" for o in ops)
        for ops in c['clients'])


class Unknown:
    __hash__ = None


def execute(c, ctx):
    O = []
    for o in c['objs']:
        names = make_names(o['names'], o['n'], o['nseed'])
        data = make_data(o['seed'], o['n'], o['rows'])
        arg, raw = names, data
        if o.get('frame') and all(type(v) in (int, str) for v in names):
            raw = pd.DataFrame(data, columns=names if o['frame'] == 'own' else [f'c{i}' for i in range(o['n'])])
            arg = None if o['frame'] == 'own' else names
        if o['kind'] == 'fisher':
            make = lambda raw=raw, arg=arg: FisherZ(raw, arg)
        elif o['kind'] == 'dsep':
            g = bridge.build_digraph(o['n'], o['edges'], names)
            make = lambda raw=raw, arg=arg, g=g: Dsep(raw, arg, true_graph=g)
        else:
            make = lambda raw=raw, arg=arg, o=o: Custom(raw, arg, o['seed'] % 1000, o['randomised'])
        O.append(dict(o, vars=names, data=data, make=make, obj=make(), asked={}))
        ctx.ident(o)

    def expect(O_, x, y, z):
        if O_['kind'] == 'fisher':
            return fisher(O_['data'], x, y, z)
        if O_['kind'] == 'dsep':
            v = 1.0 if models.dsep(O_['n'], [tuple(e) for e in O_['edges']], x, y, z) else 0.0
            return v, v
        return custom_value(O_['seed'] % 1000, x, y, z)

    def same(a, b):
        return len(a) == 2 and close(float(a[0]), float(b[0]), 1e-6, 1e-9) and close(float(a[1]), float(b[1]), 1e-7, 1e-9)

    def query(obj, op, sup=None, vars_=None, unknown=None):
        x, y, z = op['x'], op['y'], list(op['z'])
        if op['form'] == 'name':
            x, y, z = vars_[x], vars_[y], [vars_[i] for i in z]
        if unknown is not None:
            bad = ('no such variable', 3.25) if op['form'] == 'name' else 10 ** 6
            if unknown == 0:
                x = bad
            elif unknown == 1 or not z:
                y = bad
            else:
                z[-1] = bad
        sup = op['sup'] if sup is None else sup
        fn = obj.test if op['form'] == 'name' else obj.itest
        if sup == 'none':
            return lambda: fn(x, y)
        return lambda: fn(x, y, supply(z, sup))

    def do(op, who):
        o = O[op['o']]
        f = op['fault']
        key = (min(op['x'], op['y']), max(op['x'], op['y']), tuple(sorted(op['z'])))
        what = f"{who} {o['kind']} {op['form']} query ({op['x']}, {op['y']} | {op['z']} as {op['sup']})"
        if f:
            if f[0] == 'supply':
                res = ctx.call(query(o['obj'], op, ['fail', f[1]], o['vars']))
                ctx.fault('supply_failure')
                ctx.check(res[0] == 'exc' and is_fault(res[1]), 'fault-swallowed', lambda: f'{what} with failing supply: {rr(res)}')
            elif f[0] == 'unknown':
                if o['kind'] != 'custom' or op['form'] == 'name':
                    res = ctx.call(query(o['obj'], op, None, o['vars'], f[1]))
                    ctx.fault('unknown_variable')
                    ctx.check(res[0] == 'exc', 'unknown-accepted', lambda: f'{what} with an unknown variable: {rr(res)}')
            elif f[0] == 'test':
                o['obj'].fail_at = o['obj'].calls + 1
                res = ctx.call(query(o['obj'], op, None, o['vars']))
                if c['mode'] == 'serial' and o['obj'].fail_at is None:
                    ctx.fault('test_failure')
                    ctx.check(res[0] == 'exc' and is_fault(res[1]), 'fault-swallowed', lambda: f'{what}: {rr(res)}')
                if c['mode'] == 'serial':
                    o['obj'].fail_at = None
                elif res[0] == 'exc' and is_fault(res[1]):
                    ctx.fault('test_failure')
            else:
                lines, _ = ctx.count_lines(query(o['make'](), op, None, o['vars']))
                res = ctx.call(query(o['obj'], op, None, o['vars']), fault=[f[0], 1 + int(f[1] * (lines - 1))])
                if ctx.last_fired:
                    ctx.check(res[0] == 'exc' and is_fault(res[1]), 'fault-swallowed', lambda: f'{what}: {rr(res)}')
        for attempt in (0, 1):
            res = ctx.call(query(o['obj'], op, None, o['vars']))
            # another client's planned failure may hit this evaluation
            if not (c['mode'] == 'clients' and res[0] == 'exc' and is_fault(res[1])):
                break
            ctx.fault('test_failure')
        else:
            return
        ctx.check(res[0] == 'ok', 'error', lambda: f'{what} raised {rr(res)}')
        v = tuple(res[1])
        if o.get('randomised'):
            key = (*key, op['sup'] == 'none')      # no set and an empty set may be two memo entries
            if key in o['asked']:
                ctx.check(v == o['asked'][key], 'answer-changed', lambda: f'{what}: {v}, earlier {o["asked"][key]}')
        else:
            w = expect(o, *key[:2], key[2])
            ctx.check(same(v, w), 'value', lambda: f'{what}: {v}, should be {w}')
            if key in o['asked']:
                ctx.check(same(v, o['asked'][key]), 'answer-changed', lambda: f'{what}: {v}, earlier {o["asked"][key]}')
        if key in o['asked']:
            ctx.info['repeats'] += 1
            ctx.nontrivial = True
        o['asked'][key] = v
        ctx.event(what, [round(float(x), 6) for x in v])

    for ops in c['clients']:
        ctx.ident(ops)
    if c['mode'] == 'serial':
        for op in c['clients'][0]:
            do(op, 'client 0')
        for o in O:                       # and a fresh object agrees, in the original form
            if not o.get('randomised'):
                fresh = o['make']()
                for key, v in o['asked'].items():
                    w = tuple(fresh.itest(key[0], key[1], list(key[2])))
                    ctx.check(same(v, w), 'fresh', lambda: f'{o["kind"]} answer to {key} was {v}, a new object says {w}')
    else:
        def client(ops, k):
            def run():
                for op in ops:
                    ctx.op_point()
                    do(op, f'client {k}')
            return run
        ctx.run_clients([client(ops, k) for k, ops in enumerate(c['clients'])], c['sched'])
    ctx.nontrivial = ctx.nontrivial or ctx.switches > 0 or bool(ctx.faults)
