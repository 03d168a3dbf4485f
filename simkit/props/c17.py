"""C17: optimisation-based discovery returns an acyclic stationary point of its objective."""
import math

import numpy as np

from ..common import gen_sched, is_fault, r as rr, shrink_list
from ..models import is_acyclic
from ..runner import in_child

ID = 'C17'
QUICK, THOROUGH = 220, 12000
RULE = ('A case is 1-2 data sets (from equal-variance acyclic linear models, or arbitrary mixed data, or 0/1, or counts), each with '
        'a learner (NOTEARS with squared, logistic or Poisson loss, entropy-based linear, entropy-based neural network, '
        'entropy-based Sobolev expansion, the last two also with squared loss) and its settings, initial weights and data layout, and a history of fits: new learners, '
        'further training of a learner that was interrupted or hit by a failed allocation at a chosen library line, other users of the '
        'random generators, rejected calls; or two learners as concurrent clients; or the bounded optimiser on a convex '
        'quadratic with tensors of several shapes and bounds. Every completed fit is checked against the objective written out '
        'independently (stationarity on the found edges), for acyclicity, the edge threshold and the true model where it '
        'is identified, and against the same fit in a process that did nothing else. Non-trivial: at least two variables; '
        'distinct by data, settings, history, faults, switch points.')
MEASURE = 'distinct = different (data, learner settings, fit history, fault and switch points)'
REAL = ['notears_linear', 'linear_nonGauss, train_LBFGSB', 'NotearsMLP, NotearsSobolev, notears_nonlinear', 'LBFGSBScipy, LocallyConnected',
        'entropy_loss_mentappr', "scipy's L-BFGS-B, torch autograd (third party)"]
STUB = ['other users of the global random streams', 'client threads scheduled by the simulator']
ASSUMPTIONS = ['torch default dtype is float64 and one torch thread is used, as the library requires for its own runs']
LINEAR = ('l2', 'logistic', 'poisson')
LIMIT = {'l2': .03, 'logistic': .03, 'poisson': .3, 'ent': .15, 'mlp': .02, 'sob': .02}


def setup():
    global torch, notears_linear, le, ne, nl, ut, LBFGSBScipy, LocallyConnected
    import torch
    torch.set_default_dtype(torch.double)
    torch.set_num_threads(1)
    from cdmir.discovery.score_based.entropy_based.entropy_based_discovery import linear_ent as le
    from cdmir.discovery.score_based.entropy_based.entropy_based_discovery import nonlinear_ent as ne
    from cdmir.discovery.score_based.entropy_based.entropy_based_discovery import nonlinear as nl
    from cdmir.discovery.score_based.entropy_based.entropy_based_discovery import utils as ut
    from cdmir.discovery.score_based.entropy_based.entropy_based_discovery.lbfgsb_scipy import LBFGSBScipy
    from cdmir.discovery.score_based.entropy_based.entropy_based_discovery.linear import notears_linear
    from cdmir.discovery.score_based.entropy_based.entropy_based_discovery.locally_connected import LocallyConnected


# ---------------------------------------------------------------- cases
def gen_problem(r, small=False):
    how = r.choice(['l2', 'l2', 'l2', 'logistic', 'logistic', 'poisson', 'ent', 'ent', 'mlp', 'sob', 'sob'])
    n = r.choice([2, 3] if small or how in ('mlp', 'ent') else [2, 3, 3, 4, 4, 5] if how in LINEAR else [2, 3, 4])
    m = dict(how=how, n=n, seed=r.getrandbits(30), form=r.choice(['array', 'array', 'readonly', 'fortran']))
    m['kind'] = 'model' if how in ('l2', 'ent') and n < 5 and r.random() < .55 else 'mixed'
    if m['kind'] == 'model':
        order = list(range(n))
        r.shuffle(order)
        m.update(rows=1000, edges=[[order[i], order[j]] for i in range(n) for j in range(i + 1, n) if r.random() < .65],
                 noise=r.choice(['uniform', 'exp'] + ['gauss'] * (how == 'l2')), lam=.01 if how == 'l2' else .005,
                 lam2=0., beta=1., gama=0., th=None, off=r.choice([0, 0, 4]) if how == 'l2' else 0)
    else:
        m.update(rows=r.choice([60, 100, 200]), lam=r.choice([.01, .05, .1]), lam2=r.choice([0., .01, .1, .3]),
                 off=r.choice([0, 0, 3]), th=r.choice([None, 0., 0., 0., .1, .3]), scale=[round(r.uniform(.5, 1.5), 2) for _ in range(n)],
                 noise=r.choice(['uniform', 'gauss', 'exp']), beta=1., gama=0.)
        if how == 'ent':
            m['beta'], m['gama'] = r.choice([(1., 0.), (1., 1.), (.5, 1.)])
    if how in ('mlp', 'sob'):
        m['mse'] = r.random() < .4
    if how == 'mlp':
        m.update(dims=[n] + r.choice([[2], [3], [3], [2, 2]]) + [1], bias=r.random() < .8)
    if how == 'sob':
        m['k'] = r.choice([1, 2, 3])
    m['init'] = r.getrandbits(16)
    return m


def gen_bounds(r, shape):
    return None if r.random() < .35 else [r.choice([[0, None], [0, 0], [None, 0], [-.5, .5], [None, None], [.2, 1]]) for _ in range(math.prod(shape))]


def gen_box(r):
    shapes = [r.choice([[2], [3], [2, 2], [1, 3], [2, 1, 2]]) for _ in range(r.choice([1, 2, 3]))]
    return dict(shapes=shapes, bounds=[gen_bounds(r, s) for s in shapes], seed=r.getrandbits(30), frozen=r.random() < .3, late=r.random() < .4,
                again=[[gen_bounds(r, s) for s in shapes] for _ in range(r.choice([0, 0, 1, 2]))])


def generate(r, tier):
    q = r.random()
    if q < .12:
        return dict(mode='box', box=[gen_box(r) for _ in range(r.choice([1, 2]))], cut=r.choice([None, ['interrupt', r.random()], ['memory', r.random()]]))
    clients = q < .22
    c = dict(mode='clients' if clients else 'serial', data=[gen_problem(r, clients)])
    if clients or r.random() < .4:
        c['data'].append(gen_problem(r, clients))
    if clients:
        for m in c['data']:
            m['rows'] = min(m['rows'], 100)
            if m['kind'] == 'model':
                m.update(kind='mixed', scale=[1.] * m['n'], th=0.)
        c['sched'] = gen_sched(r, 2)
        c['sched']['p'] = min(c['sched']['p'], .02)
        return c
    ops = []
    for _ in range(r.choice([1, 1, 2, 3])):
        q = r.random()
        d = r.randrange(len(c['data']))
        if q < .4:
            ops.append(dict(op='cut', data=d, kind=r.choice(['interrupt', 'memory']), at=[r.choice(['all', 'start', 'end']), r.random()],
                            again=r.random() < .5))
        elif q < .6:
            ops.append(dict(op='foreign', what=r.choice(['draw', 'seed']), k=r.getrandbits(16)))
        elif q < .75:
            ops.append(dict(op='bad', data=d, what=r.choice(['shape', 'text', 'loss'])))
        ops.append(dict(op='fit', data=d, again=r.random() < .25))
    c['ops'] = ops
    return c


def shrinks(c):
    if c['mode'] == 'serial':
        for o in shrink_list(c['ops']):
            if o:
                yield dict(c, ops=o)
    for i, m in enumerate(c.get('data', [])):
        for t in (dict(m, off=0), dict(m, form='array'), dict(m, rows=max(50, m['rows'] // 2) if m['kind'] == 'mixed' else m['rows'])):
            if t != m:
                yield dict(c, data=c['data'][:i] + [t] + c['data'][i + 1:])
    if c['mode'] == 'box':
        for b in c['box']:
            if len(c['box']) > 1:
                yield dict(c, box=[b])
            elif b['again']:
                yield dict(c, box=[dict(b, again=b['again'][:-1])])


def describe(c):
    return f"{c['mode']} {c.get('data') or c.get('box')} {c.get('ops')}"


# ---------------------------------------------------------------- data
def true_w(m, shift=0):
    g = np.random.default_rng([m['seed'], shift, 1])
    W = np.zeros((m['n'], m['n']))
    for a, b in m['edges']:
        W[a, b] = g.choice([-1, 1]) * g.uniform(.8, 1.5)
    return W


def data(m, shift=0):
    g = np.random.default_rng([m['seed'], shift, 2])
    n, N = m['n'], m['rows']
    e = {'uniform': lambda: g.uniform(-1.73, 1.73, (N, n)), 'exp': lambda: g.exponential(1, (N, n)) - 1,
         'gauss': lambda: g.normal(size=(N, n))}[m['noise']]()
    if m['kind'] == 'model':        # noise with exactly unit covariance: the model is the best one on this very sample
        e -= e.mean(0)
        e = e @ np.linalg.inv(np.linalg.cholesky(e.T @ e / N)).T
        return e @ np.linalg.inv(np.eye(n) - true_w(m, shift)) + m['off']
    A = np.triu(g.normal(size=(n, n)), 1) + .2 * np.tril(g.normal(size=(n, n)), -1)
    p = g.permutation(n)
    x = e @ (A + np.eye(n))[np.ix_(p, p)]
    x = x / x.std(0) * m['scale']
    if m['how'] == 'logistic':
        return (x > x.mean(0)) * 1.
    if m['how'] == 'poisson':
        return g.poisson(np.exp(np.clip(x - x.mean(0), -1, 1))) * 1.
    return x + m['off']


def shape(x, form):
    if form == 'readonly':
        x = x.copy()
        x.flags.writeable = False
    elif form == 'fortran':
        x = np.asfortranarray(x)
    return x


# ---------------------------------------------------------------- the real learners
def mod(m):
    return nl if m.get('mse') else ne


def new_model(m):
    torch.manual_seed(m['init'])
    if m['how'] == 'ent':
        return le.linear_nonGauss(m['n'])
    if m['how'] == 'mlp':
        return mod(m).NotearsMLP(dims=list(m['dims']), bias=m['bias'])
    if m['how'] == 'sob':
        return mod(m).NotearsSobolev(m['n'], m['k'])
    return None


def fit(m, x, model, th='own'):
    th = m['th'] if th == 'own' else th
    kw = {} if th is None else dict(w_threshold=th)
    if m['how'] in LINEAR:
        return notears_linear(x, m['lam'], m['how'], **kw)
    if m['how'] == 'ent':
        return le.train_LBFGSB(model, x, lambda1=m['lam'], lambda2=m['lam2'], beta=m['beta'], gama=m['gama'], **kw)
    return mod(m).notears_nonlinear(model, x, lambda1=m['lam'], lambda2=m['lam2'], **kw)


def state(model):
    return None if model is None else {k: v.detach().numpy().copy() for k, v in model.state_dict().items()}


def load(m, st):
    model = new_model(m)
    if model is not None and st is not None:
        model.load_state_dict({k: torch.from_numpy(np.array(v)) for k, v in st.items()})
    return model


# ---------------------------------------------------------------- the objectives, written out independently
def sigm(x):
    return 1 / (1 + np.exp(-x))


def entropy(R):
    """Hyvarinen's maximum-entropy approximation for the pooled residuals."""
    s = R.std(ddof=1)
    z = (R - R.mean()) / s
    k1, k2 = 36 / (8 * math.sqrt(3) - 9), 24 / (16 * math.sqrt(3) - 27)
    neg = k1 * np.mean(z * np.exp(-z * z / 2)) ** 2 + k2 * (np.mean(np.exp(-z * z / 2)) - math.sqrt(.5)) ** 2
    return (1 + math.log(2 * math.pi)) / 2 - neg + math.log(s)


def misfit(m, R):
    return .5 * (R ** 2).sum() / len(R) if m.get('mse') else entropy(R)


def numgrad(f, x, idx, h=1e-5):
    out = []
    for i in idx:
        y = x.copy()
        y.flat[i] += h
        a = f(y)
        y.flat[i] -= 2 * h
        out.append((a - f(y)) / 2 / h)
    return np.array(out)


def weights(m, st):
    """Edge weights a model's parameters stand for."""
    n = m['n']
    if m['how'] == 'ent':
        return (st['linear_pos.weight'] - st['linear_neg.weight']).T
    p = st['fc1_pos.weight'] - st['fc1_neg.weight']
    if m['how'] == 'mlp':
        return np.sqrt((p.reshape(n, -1, n) ** 2).sum(1)).T
    return np.sqrt((p.reshape(n, n, m['k']) ** 2).sum(2)).T


def predict(m, st, x):
    n, N = m['n'], len(x)
    if m['how'] == 'ent':
        return x @ weights(m, st)
    p = st['fc1_pos.weight'] - st['fc1_neg.weight']
    if m['how'] == 'sob':
        return basis(m, x) @ p.T
    h = x @ p.T + (st['fc1_pos.bias'] - st['fc1_neg.bias'] if m['bias'] else 0)
    h = h.reshape(N, n, -1)
    for i in range(len(m['dims']) - 2):
        h = np.stack([sigm(h[:, j]) @ st[f'fc2.{i}.weight'][j] + (st[f'fc2.{i}.bias'][j] if m['bias'] else 0) for j in range(n)], 1)
    return h[:, :, 0]


def basis(m, x):
    mu = [2 / (2 * q + 1) / math.pi for q in range(m['k'])]
    return np.stack([u * np.sin(x / u) for u in mu], 2).reshape(len(x), -1)


def slope(m, x, raw, st):
    """Largest component of the gradient of the documented objective on the found edges (0 at a solution)."""
    n, N = m['n'], len(x)
    S = np.abs(raw) > .05
    if m['how'] in LINEAR:
        if not S.any():
            return 0.
        y = x - x.mean(0) if m['how'] == 'l2' else x
        z = y @ raw
        g = y.T @ ({'l2': lambda: z, 'logistic': lambda: sigm(z), 'poisson': lambda: np.exp(z)}[m['how']]() - y) / N
        return float(np.abs(g + m['lam'] * np.sign(raw))[S].max())
    if m['how'] == 'ent':
        f = lambda w: m['beta'] * entropy(x - x @ w) + m['gama'] * .5 * ((x - x @ w) ** 2).sum() / N + m['lam'] * np.abs(w).sum()
        return float(np.abs(numgrad(f, raw, np.flatnonzero(S))).max()) if S.any() else 0.
    if m['how'] == 'sob':
        p, B, k = st['fc1_pos.weight'] - st['fc1_neg.weight'], basis(m, x), m['k']
        f = lambda q: misfit(m, x - B @ q.T) + m['lam'] * np.abs(q).sum() + .5 * m['lam2'] * ((B @ q.T) ** 2).sum() / N
        idx = [i for i in range(p.size) if abs(p.flat[i]) > .02 and S[(i % (n * k)) // k, i // (n * k)]]
        return float(np.abs(numgrad(f, p, idx)).max()) if idx else 0.
    if len(m['dims']) < 3:
        return 0.
    last = f"fc2.{len(m['dims']) - 3}.weight"
    f = lambda v: misfit(m, x - predict(m, dict(st, **{last: v}), x)) + .5 * m['lam2'] * (v ** 2).sum()
    return float(np.abs(numgrad(f, st[last], range(st[last].size))).max())


def cut_small(raw, th):
    return np.where(np.abs(raw) < th, 0, raw)


def judge(ctx, m, x, W, model, st, who, deep=True):
    """W: what the fit returned; st: the model's parameters right after."""
    n = m['n']
    th = .3 if m['th'] is None else m['th']
    ctx.check(isinstance(W, np.ndarray) and W.shape == (n, n) and np.isfinite(W).all(), 'shape', lambda: f'{who}: {W}')
    ctx.check(not np.diag(W).any(), 'self-edge', lambda: f'{who}: {W.tolist()} has an edge from a variable to itself')
    ctx.check(((W == 0) | (np.abs(W) >= th)).all(), 'weak-edge', lambda: f'{who}: {W.tolist()} has an edge below the threshold {th}')
    if th >= .1 and n <= 4:
        ctx.check(is_acyclic(n, [(a, b) for a in range(n) for b in range(n) if W[a, b]]), 'cyclic', lambda: f'{who}: {W.tolist()} is cyclic')
    if st is not None:
        w = weights(m, st)
        ctx.check(np.allclose(W, cut_small(w, th), rtol=1e-9, atol=1e-12), 'not-parameters',
                  lambda: f"{who}: returned {W.tolist()}, the model's parameters stand for {w.tolist()}")
        p = predict(m, st, x)
        with torch.no_grad():
            q = model(torch.from_numpy(x.copy())).numpy()
        ctx.check(q.shape == p.shape and np.allclose(p, q, rtol=1e-9, atol=1e-9), 'forward', lambda: f'{who}: the model predicts otherwise than its parameters say')
        e = float(ut.entropy_loss_mentappr(torch.from_numpy(q), torch.from_numpy(x.copy())))
        ctx.check(abs(e - entropy(x - q)) < 1e-6 * max(1, abs(e)), 'entropy', lambda: f'{who}: entropy {e}, by its definition {entropy(x - q)}')
    if not deep:
        return
    raw = W if th == 0 else weights(m, st) if st is not None else None
    if raw is not None:
        s = slope(m, x, raw, st)
        if s > LIMIT[m['how']]:         # a stuck line search is possible; redrawn data must do
            ctx.fault('stuck_search')
            more = [refit_slope(ctx, m, k, who) for k in range(1, 5)]
            ok = sum(v <= LIMIT[m['how']] for v in more)
            ctx.check(ok >= 3, 'not-optimal', lambda: f'{who}: {raw.round(3).tolist()} is no solution of its problem: slope {s:.3g} '
                                                    f'(and {4 - ok} of 4 other samples are as bad)')
    if m['kind'] == 'model' and not right(W, true_w(m)):
        ctx.fault('local_optimum')
        ok = 0
        for k in range(1, 5):
            y = data(m, k)
            o = ctx.call(lambda: fit(m, y, new_model(m)))
            ctx.check(o[0] == 'ok', 'error', lambda: f'{who}: fit raised {rr(o)}')
            ok += right(o[1], true_w(m, k))
        ctx.check(ok >= 3, 'wrong-model', lambda: f'{who}: found {W.round(3).tolist()}, the model is {true_w(m).round(3).tolist()} '
                                                  f'(and {4 - ok} of 4 models with other weights fail as well)')


def refit_slope(ctx, m, k, who):
    y, model = data(m, k), new_model(m)
    o = ctx.call(lambda: fit(m, y, model, 0.))
    ctx.check(o[0] == 'ok', 'error', lambda: f'{who}: fit raised {rr(o)}')
    return slope(m, y, o[1], state(model))


def right(W, B):
    return np.array_equal(W != 0, B != 0) and np.abs(W - B).max() < .15


# ---------------------------------------------------------------- the bounded optimiser
def box_problem(b):
    g = np.random.default_rng(b['seed'])
    k = sum(math.prod(s) for s in b['shapes'])
    A = g.normal(size=(k, k))
    Q = A @ A.T / k + np.eye(k)
    v = g.normal(size=k) * 2
    lo, hi = np.full(k, -np.inf), np.full(k, np.inf)
    i = 0
    for s, bs in zip(b['shapes'], b['bounds']):
        for j in range(math.prod(s)):
            if bs is not None:
                lo[i] = -np.inf if bs[j][0] is None else bs[j][0]
                hi[i] = np.inf if bs[j][1] is None else bs[j][1]
            i += 1
    x = np.clip(g.normal(size=k), lo, hi)
    start = x.copy()
    for _ in range(400):        # exact coordinate descent: the problem is strictly convex
        for i in range(k):
            x[i] = min(max((v[i] - Q[i] @ x + Q[i, i] * x[i]) / Q[i, i], lo[i]), hi[i])
    return Q, v, start, x


def bind(ps, bounds):
    for p, bs in zip(ps, bounds):
        if bs is not None:
            p.bounds = [tuple(z) for z in bs]
        elif hasattr(p, 'bounds'):
            del p.bounds


def box_run(ctx, c):
    ctx.nontrivial = True
    for b in c['box']:
        Q, v, start, want = box_problem(b)

        def make():
            ps, i = [], 0
            for s, bs in zip(b['shapes'], b['bounds']):
                k = math.prod(s)
                p = torch.nn.Parameter(torch.from_numpy(start[i:i + k].copy()).reshape(s))
                ps.append(p)
                i += k
            extra = torch.nn.Parameter(torch.ones(2)) if b['frozen'] else None
            if not b['late']:
                bind(ps, b['bounds'])
            opt = LBFGSBScipy(ps + ([extra] if b['frozen'] else []))
            if b['late']:
                bind(ps, b['bounds'])

            def closure():
                opt.zero_grad()
                z = torch.cat([p.reshape(-1) for p in ps])
                loss = .5 * z @ torch.from_numpy(Q) @ z - torch.from_numpy(v) @ z
                loss.backward()
                return loss
            return ps, extra, opt, closure
        ps, extra, opt, closure = make()
        if c['cut'] is not None:
            lines, o = ctx.count_lines(lambda: opt.step(closure))
            ps, extra, opt, closure = make()
            o = ctx.call(lambda: opt.step(closure), fault=[c['cut'][0], 1 + int(c['cut'][1] * (lines - 1))])
            if ctx.last_fired:
                ctx.check(o[0] == 'exc' and is_fault(o[1]), 'fault-swallowed', lambda: f'{rr(o)}')
        for bounds in [b['bounds']] + b['again']:
            if bounds is not b['bounds']:
                bind(ps, bounds)
                want = box_problem(dict(b, bounds=bounds))[3]
            o = ctx.call(lambda: opt.step(closure))
            ctx.check(o[0] == 'ok', 'error', lambda: f'bounded step raised {rr(o)}')
            ctx.check([list(p.shape) for p in ps] == b['shapes'], 'shape', lambda: 'a step changed the shape of a parameter')
            got = np.concatenate([p.detach().numpy().reshape(-1) for p in ps])
            ctx.check(np.abs(got - want).max() < 1e-3, 'not-minimum', lambda: f'bounded step gives {got.round(4).tolist()}, the minimum is {want.round(4).tolist()}')
        if extra is not None:
            ctx.check(extra.detach().tolist() == [1., 1.], 'unused-parameter', lambda: 'a step moved a parameter the objective does not use')
    g = np.random.default_rng(c['box'][0]['seed'])
    d, a, o_, bias = int(g.integers(1, 5)), int(g.integers(1, 4)), int(g.integers(1, 4)), bool(g.integers(2))
    lc = LocallyConnected(d, a, o_, bias)
    x = g.normal(size=(7, d, a))
    keep = x.copy()
    want = np.stack([x[:, j] @ lc.weight[j].detach().numpy() + (lc.bias[j].detach().numpy() if bias else 0) for j in range(d)], 1)
    for _ in range(2):
        got = lc(torch.from_numpy(x)).detach().numpy()
        ctx.check(got.shape == want.shape and np.allclose(got, want), 'local-layer', lambda: 'a locally connected layer mixes variables')
    ctx.check(np.array_equal(x, keep), 'input-changed', lambda: 'a locally connected layer changed its input')


# ---------------------------------------------------------------- a run
def place(at, lines):
    where, f = at
    if where == 'start':
        return 1 + int(f * min(lines, 80))
    if where == 'end':
        return max(1, lines - int(f * 40))
    return 1 + int(f * (lines - 1))


def bad_call(m, what):
    if what == 'loss':
        return notears_linear(np.ones((5, 2)), .1, 'nope')
    model = new_model(m)
    x = np.ones((6, m['n'] + 1)) if what == 'shape' else np.array([['a', 'b']] * 4, dtype=object)
    if m['how'] in LINEAR and what == 'shape':
        return notears_linear(np.ones(6), .1, 'l2')
    return fit(m, x, model)


def execute(c, ctx):
    ctx.ident(c['mode'], c.get('data') or c['box'])
    if c['mode'] == 'box':
        return box_run(ctx, c)
    ms = c['data']
    ctx.nontrivial = any(m['n'] > 1 for m in ms)
    xs = [data(m) for m in ms]
    given = [shape(x, m['form']) for x, m in zip(xs, ms)]
    kept = [x.copy() for x in xs]

    def untouched(who):
        for x, y in zip(kept, given):
            ctx.check(np.array_equal(x, y), 'input-changed', lambda: f'{who} changed its input')

    def alone(m, x, st=None):
        """The same fit in a process that did nothing else."""
        def go():
            o = ctx.call(lambda: fit(m, shape(x, m['form']), load(m, st)))
            return [o[0], o[1].tolist() if o[0] == 'ok' else rr(o)]
        return in_child(go)

    def same(W, want, who):
        ctx.check(want[0] == 'ok', 'error', lambda: f'{who}: the same fit alone raised {want[1]}')
        ctx.check(np.allclose(W, want[1], rtol=1e-6, atol=1e-8), 'not-fresh', lambda: f'{who}: {W.tolist()}, alone {want[1]}')

    if c['mode'] == 'clients':
        models = [new_model(m) for m in ms]
        got = [None, None]

        def client(k):
            def run():
                ctx.op_point()
                o = ctx.call(lambda: fit(ms[k], given[k], models[k]))
                ctx.check(o[0] == 'ok', 'error', lambda: f'client {k}: fit raised {rr(o)}')
                got[k] = o[1]
            return run
        ctx.run_clients([client(0), client(1)], c['sched'])
        for k in (0, 1):
            judge(ctx, ms[k], xs[k], got[k], models[k], state(models[k]), f'client {k}')
            same(got[k], alone(ms[k], xs[k]), f'client {k}')
        untouched('a concurrent fit')
        return
    lines, last, handed = {}, {}, []
    for k, op in enumerate(c['ops']):
        ctx.ident(op)
        who = f'operation {k}'
        if op['op'] == 'foreign':
            ctx.fault('foreign_' + op['what'])
            if op['what'] == 'seed':
                np.random.seed(op['k'])
                torch.manual_seed(op['k'])
            else:
                np.random.normal(size=1 + op['k'] % 9)
                torch.rand(1 + op['k'] % 9)
        elif op['op'] == 'bad':
            ctx.fault('rejected_call')
            o = ctx.call(lambda: bad_call(ms[op['data']], op['what']))
            ctx.check(o[0] == 'exc', 'bad-accepted', lambda: f"{who}: a malformed request ({op['what']}) was accepted")
        elif op['op'] == 'cut':
            d = op['data']
            m = ms[d]
            if d not in lines:
                lines[d], o = ctx.count_lines(lambda: fit(m, given[d], new_model(m)))
                ctx.check(o[0] == 'ok', 'error', lambda: f'{who}: fit raised {rr(o)}')
            model = last[d] if op['again'] and d in last else new_model(m)
            o = ctx.call(lambda: fit(m, given[d], model), fault=[op['kind'], place(op['at'], lines[d])])
            if ctx.last_fired:
                ctx.check(o[0] == 'exc' and is_fault(o[1]), 'fault-swallowed', lambda: f'{who}: {rr(o)}')
            else:
                ctx.check(o[0] == 'ok', 'error', lambda: f'{who}: fit raised {rr(o)}')
            last[d] = model
        else:
            d = op['data']
            m = ms[d]
            again = op['again'] and last.get(d) is not None
            model = last[d] if again else new_model(m)
            st = state(model) if again else None
            o = ctx.call(lambda: fit(m, given[d], model))
            ctx.check(o[0] == 'ok', 'error', lambda: f'{who}: fit raised {rr(o)}')
            W = o[1]
            judge(ctx, m, xs[d], W, model, state(model), who, deep=not again)
            same(W, alone(m, xs[d], st), who)
            if m['how'] in LINEAR and m['th'] == 0.:
                o = ctx.call(lambda: fit(m, given[d], None, .25))
                ctx.check(o[0] == 'ok' and np.allclose(o[1], cut_small(W, .25), rtol=1e-9, atol=1e-12), 'threshold',
                          lambda: f'{who}: with threshold 0.25 {rr(o)}, without {W.tolist()}')
            last[d] = model
            handed.append((W, W.copy(), k))
        untouched(who)
        for W, keep, j in handed:
            ctx.check(np.array_equal(W, keep), 'earlier-result', lambda: f'{who} changed the result handed out by operation {j}')
