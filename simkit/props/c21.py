"""C21: matrix exponentials and their derivatives are exact."""
import math
import warnings

import numpy as np

from ..common import gen_sched, is_fault, r as rr, shrink_list

ID = 'C21'
QUICK, THOROUGH = 2500, 100000
RULE = ('A case is a history of matrix exponentials (Taylor and Padé routines, single and double precision, single matrices and '
        'batches of any shape) of dense, non-negative, triangular nilpotent, sparse, symmetric, skew and zero matrices with norms from 1e-9 to 30, '
        'handed over contiguous, transposed or as views, with derivatives by back-propagation, earlier answers overwritten by the '
        'caller, malformed calls, interrupts and failed allocations at a chosen library line (in the computation or in '
        'back-propagation), matrices changed between computation and back-propagation, other users of the default precision and '
        'of the random streams, and concurrent clients. Values are compared with an independent double-precision exponential and its '
        'Fréchet derivative. Non-trivial: a non-zero matrix of order at least two; distinct by case.')
MEASURE = 'distinct = different (matrices, routines, history, fault and switch points)'
REAL = ['expm_taylor', 'expm_pade', 'expm32, expm64', 'torch autograd (third party)']
STUB = ['other users of torch settings and random streams', 'client threads scheduled by the simulator']
ASSUMPTIONS = ['one torch thread is used']
KINDS = ['dense', 'positive', 'dag', 'dag', 'sparse', 'sym', 'skew', 'zero', 'perm', 'jordan']


def setup():
    global torch, T, P, expm32, expm64, sl
    import scipy.linalg as sl
    import torch
    torch.set_num_threads(1)
    from cdmir.discovery.score_based.entropy_based.pytorch_expm import expm_pade as P
    from cdmir.discovery.score_based.entropy_based.pytorch_expm import expm_taylor as T
    from cdmir.discovery.score_based.entropy_based.pytorch_expm.expm32 import expm32
    from cdmir.discovery.score_based.entropy_based.pytorch_expm.expm64 import expm64


# ---------------------------------------------------------------- cases
def gen_ask(r):
    f = r.choice(['taylor', 'taylor', 'taylor', 'pade', 'pade', 'plain', 'e32', 'e64'])
    d = dict(f=f, single=f == 'e32' or f != 'e64' and r.random() < .3, n=r.choice([1, 2, 2, 3, 3, 4, 5, 7, r.randint(8, 16)]), seed=r.getrandbits(30),
             form=r.choice(['plain', 'plain', 'transposed', 'view', 'expanded' if f in ('taylor', 'plain') else 'view']), batch=[])
    if f in ('taylor', 'plain') and r.random() < .45:
        d['batch'] = r.choice([[1], [2], [3], [5], [2, 2], [1, 3], [2, 1, 2], [r.randint(6, 12)]])
    d['mats'] = [[r.choice(KINDS), round(r.uniform(-9, 1.5 if not d['single'] else .9), 3)] for _ in range(max(1, math.prod(d['batch'])))]
    if r.random() < .3:     # near the places where the routines change their method
        d['mats'] = [[k, round(math.log10(r.choice([5.8e-4, 5.1e-2, .25, .58, .95, 1.09, 1.46, 2.1, 3.01, 4.25, 5.4]) * r.uniform(.8, 1.3)), 3)] for k, _ in d['mats']]
    d['grad'] = r.choice([None, None, 'go', 'go', 'cut', 'changed']) if f in ('taylor', 'pade') else None
    d['cut'] = [r.choice(['interrupt', 'memory']), r.random()]
    return d


def generate(r, tier):
    if r.random() < .15:
        return dict(mode='clients', sched=gen_sched(r, 2), asks=[[gen_ask(r) for _ in range(2)] for _ in range(2)])
    ops = []
    for _ in range(r.randint(1, 4)):
        q = r.random()
        if q < .15:
            ops.append(dict(op='cut', ask=gen_ask(r), kind=r.choice(['interrupt', 'memory']), at=r.random()))
        elif q < .25:
            ops.append(dict(op='bad', what=r.choice(['rect', 'vector', 'number']), f=r.choice(['taylor', 'pade', 'plain', 'e32', 'e64'])))
        elif q < .35:
            ops.append(dict(op='foreign', what=r.choice(['dtype', 'seed', 'nograd'])))
        elif q < .5:
            ops.append(dict(op='again'))
        ops.append(dict(op='ask', ask=gen_ask(r), spoil=r.random() < .3))
    return dict(mode='serial', ops=ops)


def shrinks(c):
    for o in shrink_list(c.get('ops', [])):
        if o:
            yield dict(c, ops=o)
    for i, o in enumerate(c.get('ops', [])):
        if 'ask' in o:
            a = o['ask']
            for t in (dict(a, form='plain'), dict(a, grad=None), dict(a, n=2)):
                if t != a:
                    yield dict(c, ops=c['ops'][:i] + [dict(o, ask=t)] + c['ops'][i + 1:])


def describe(c):
    return str({k: v for k, v in c.items() if k != 'sched'})


# ---------------------------------------------------------------- matrices and what is right
def matrix(g, kind, n):
    A = g.normal(size=(n, n))
    if kind == 'positive':
        return np.abs(A)
    if kind == 'dag':
        p = g.permutation(n)
        return np.triu(A, 1)[np.ix_(p, p)]
    if kind == 'sparse':
        return A * (g.random((n, n)) < .35)
    if kind == 'sym':
        return A + A.T
    if kind == 'skew':
        return A - A.T
    if kind == 'zero':
        return A * 0
    if kind == 'perm':
        return np.eye(n)[g.permutation(n)]
    if kind == 'jordan':
        return np.eye(n) * g.normal() + np.eye(n, k=1)
    return A


def data(d):
    g = np.random.default_rng(d['seed'])
    out = []
    for kind, size in d['mats']:
        A = matrix(g, kind, d['n'])
        s = np.abs(A).sum()
        out.append(A * 10 ** size / s if s else A)
    A = np.stack(out)
    if d['form'] == 'expanded':
        A[:] = A[0]
    A = A.reshape(tuple(d['batch']) + (d['n'], d['n']))
    G = g.normal(size=A.shape)
    if d['single']:
        A, G = A.astype(np.float32).astype(float), G.astype(np.float32).astype(float)
    return A, G


def tensor(d, A):
    dt = torch.float32 if d['single'] else torch.float64
    t = torch.tensor(A, dtype=dt)
    if d['form'] == 'transposed':
        return t.transpose(-1, -2).contiguous().transpose(-1, -2)
    if d['form'] == 'view':
        big = torch.full(A.shape[:-2] + (A.shape[-2] + 2, A.shape[-1] + 1), 7., dtype=dt)
        big[..., 1:-1, 1:] = t
        return big[..., 1:-1, 1:]
    if d['form'] == 'expanded' and d['batch']:
        first = t.reshape((-1,) + t.shape[-2:])[0]
        return first.expand_as(t)
    return t


def routine(f):
    return dict(taylor=T.expm, plain=T.expm_taylor, pade=P.expm, e32=expm32, e64=expm64)[f]


def off(d, got, want, A):
    """Error relative to what the precision allows (below 1: right)."""
    tol = 2e-6 if d['single'] else 1e-14
    worst = 0.
    for x, w, a in zip(got.reshape((-1,) + A.shape[-2:]), want.reshape((-1,) + A.shape[-2:]), A.reshape((-1,) + A.shape[-2:])):
        if not np.isfinite(x).all():
            return math.inf
        worst = max(worst, np.abs(x - w).max() / (tol * (1 + np.abs(a).sum()) ** 2 * max(np.abs(w).max(), 1e-300)))
    return worst


def truth(A, G):
    flat, gf = A.reshape((-1,) + A.shape[-2:]), G.reshape((-1,) + A.shape[-2:])
    E = np.stack([sl.expm(a) for a in flat]).reshape(A.shape)
    F = np.stack([sl.expm_frechet(a.T, g, compute_expm=False) for a, g in zip(flat, gf)]).reshape(A.shape)
    return E, F


# ---------------------------------------------------------------- runs
def execute(c, ctx):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        ctx.ident({k: v for k, v in c.items() if k != 'sched'})
        torch.set_default_dtype(torch.float32)
        torch.manual_seed(0)
        try:
            run(c, ctx)
        finally:
            torch.set_default_dtype(torch.float64)
            torch.set_grad_enabled(True)


def ask(ctx, d, who, nograd=False):
    A, G = data(d)
    E, F = truth(A, G)
    if d['n'] > 1 and A.any():
        ctx.nontrivial = True
    x = tensor(d, A)
    grad = d['grad'] is not None and not nograd
    leaf = x
    if grad and d['form'] == 'expanded' and d['batch']:
        grad = False
    if grad:
        x.requires_grad_(True)
    o = ctx.call(lambda: routine(d['f'])(x))
    ctx.check(o[0] == 'ok', 'error', lambda: f'{who}: {d} of {A.tolist()} raised {rr(o)}')
    y = o[1]
    ctx.check(tuple(y.shape) == A.shape and y.dtype == x.dtype, 'shape', lambda: f'{who}: {d}: {y.shape} {y.dtype}')
    val = y.detach().numpy().astype(float)
    e = off(d, val, E, A)
    ctx.check(e <= 1, 'value', lambda: f'{who}: {d} of {A.tolist()} gives {val.tolist()}, should be {E.tolist()} ({e:.2g} times the precision)')
    ctx.check(np.array_equal(x.detach().numpy(), A), 'input-changed', lambda: f'{who}: {d} changed its matrix')
    if grad:
        ctx.check(y.requires_grad, 'no-derivative', lambda: f'{who}: {d} gives no derivative')
        g = torch.tensor(G, dtype=x.dtype)
        back = lambda: y.backward(g)
        if d['grad'] == 'changed':
            ctx.fault('changed_before_backward')
            with torch.no_grad():
                x.mul_(1.5)
            o = ctx.call(back)
            if o[0] == 'ok' and x.grad is not None:
                q = off(d, x.grad.numpy().astype(float), F, A)
                ctx.check(q <= 3, 'derivative', lambda: f'{who}: {d}: silently wrong derivative after the matrix was changed')
            with torch.no_grad():
                x.copy_(torch.tensor(A, dtype=x.dtype))
            return x, y, val
        if d['grad'] == 'cut':
            lines, o = ctx.count_lines(lambda: torch.autograd.grad(routine(d['f'])(x), x, g))
            o = ctx.call(lambda: torch.autograd.grad(routine(d['f'])(x), x, g), fault=[d['cut'][0], 1 + int(d['cut'][1] * max(0, lines - 1))])
            if ctx.last_fired:
                ctx.check(o[0] == 'exc', 'fault-swallowed', lambda: f'{who}: {rr(o)}')
        o = ctx.call(back)
        ctx.check(o[0] == 'ok', 'error', lambda: f'{who}: derivative of {d} at {A.tolist()} raised {rr(o)}')
        got = x.grad.numpy().astype(float)
        q = off(d, got, F, A) / 10
        ctx.check(q <= 1, 'derivative', lambda: f'{who}: derivative of {d} at {A.tolist()} along {G.tolist()} is {got.tolist()}, should be {F.tolist()} ({q:.2g})')
        ctx.check(np.array_equal(g.numpy(), G) and np.array_equal(x.detach().numpy(), A) and np.array_equal(y.detach().numpy(), val),
                  'input-changed', lambda: f'{who}: back-propagation changed what it was given')
    return x, y, val


def run(c, ctx):
    if c['mode'] == 'clients':
        def client(k):
            def go():
                for i, d in enumerate(c['asks'][k]):
                    ctx.op_point()
                    ask(ctx, d, f'client {k} question {i}')
            return go
        ctx.run_clients([client(0), client(1)], c['sched'])
        return
    kept = []
    last = None
    nograd = False
    for i, op in enumerate(c['ops']):
        who = f'operation {i}'
        if op['op'] == 'foreign':
            ctx.fault('foreign_' + op['what'])
            if op['what'] == 'dtype':
                torch.set_default_dtype(torch.float64 if torch.get_default_dtype() is torch.float32 else torch.float32)
            elif op['what'] == 'seed':
                torch.manual_seed(i)
                np.random.seed(i)
            else:
                nograd = not nograd
                torch.set_grad_enabled(not nograd)
            continue
        if op['op'] == 'bad':
            ctx.fault('rejected_call')
            t = dict(rect=torch.ones(2, 3), vector=torch.ones(3), number=torch.tensor(1.))[op['what']]
            if op['f'] in ('e64',):
                t = t.double()
            o = ctx.call(lambda: routine(op['f'])(t))
            ctx.check(o[0] == 'exc', 'malformed-accepted', lambda: f"{who}: {op['f']} accepted a {op['what']}: {rr(o)}")
            continue
        if op['op'] == 'again':
            if last is not None:
                ask(ctx, last, who + ' (again)', nograd)
            continue
        if op['op'] == 'cut':
            d = op['ask']
            A, _ = data(d)
            x = tensor(d, A)
            f = lambda: routine(d['f'])(x)
            lines, o = ctx.count_lines(f)
            ctx.check(o[0] == 'ok', 'error', lambda: f'{who}: {d} raised {rr(o)}')
            o = ctx.call(f, fault=[op['kind'], 1 + int(op['at'] * max(0, lines - 1))])
            if ctx.last_fired:
                ctx.check(o[0] == 'exc' and is_fault(o[1]), 'fault-swallowed', lambda: f'{who}: {rr(o)}')
            ctx.check(np.array_equal(x.numpy(), A), 'input-changed', lambda: f'{who}: an interrupted {d} changed its matrix')
            last = d
            continue
        x, y, val = ask(ctx, op['ask'], who, nograd)
        last = op['ask']
        for px, pA, py, pv in kept:
            ctx.check(np.array_equal(py.detach().numpy(), pv) and np.array_equal(px.detach().numpy(), pA), 'answer-changed', lambda: f'{who} changed an earlier matrix or answer')
        if op['spoil']:
            ctx.fault('answer_overwritten')
            try:
                with torch.no_grad():
                    y.fill_(3.)
            except RuntimeError:        # torch refuses to overwrite an expanded tensor
                pass
            ctx.check(np.array_equal(x.detach().numpy(), data(op['ask'])[0]), 'aliased', lambda: f"{who}: the answer to {op['ask']} is the matrix itself")
        else:
            kept.append((x, x.detach().numpy().copy(), y, val.copy()))
