"""C20: a drawing shows exactly the graph it was given."""
import itertools
import math
import warnings

from ..common import clone, gen_sched, is_fault, r as rr, shrink_list
from ..models import NAME_KINDS, make_names

ID = 'C20'
QUICK, THOROUGH = 1500, 60000
RULE = ('A case is one or two graphs (general, directed, partially directed; nodes of any hashable type with distinct texts) with a '
        'history of edits and drawings: circular layouts, the caller\'s own layouts, latent markings in any container, sizes; '
        'drawings whose layout fails or returns too little, interrupted or hit by a failed allocation at a chosen library line, '
        'other figures open or closed in between, and concurrent clients drawing. What is in the figure (discs, names, lines, '
        'arrowheads, circles, places) is compared with our own record of the edits. Non-trivial: an edge is drawn; distinct by case.')
MEASURE = 'distinct = different (graph, edit and drawing history, layout, fault and switch points)'
REAL = ['plot_graph', 'circular_layout', 'cdmir.graph classes', 'matplotlib (third party)']
STUB = ['node hashes', 'failing layouts', 'other figures of the process', 'client threads scheduled by the simulator']
ASSUMPTIONS = ['the figure is read from its artists (discs, texts, arrow patches), not from pixels']


def setup():
    global plt, patches, plot_graph, circular_layout, Graph, DiGraph, PDAG, Edge, Mark, to_rgba
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    from matplotlib import patches
    from matplotlib.colors import to_rgba
    from cdmir.graph import PDAG, DiGraph, Edge, Graph, Mark
    from cdmir.visual.graph_layout import circular_layout
    from cdmir.visual.plot_graph import plot_graph


# ---------------------------------------------------------------- cases
def marks(r, kind):
    if kind == 'DiGraph':
        return [-1, 1]
    return [r.choice([-1, 1] if kind == 'PDAG' else [-1, 1, 2]) for _ in range(2)]


def gen_draw(r, n):
    return dict(op='draw', layout=r.choice(['circle', 'circle', 'sorted', 'scaled', 'own', 'own', 'extra']), lseed=r.getrandbits(20),
                latent=r.choice([None, [], 'some', 'some', 'all']), lat=r.choice(['set', 'list', 'tuple', 'frozenset', 'dict']),
                size=r.choice([None, None, [3, 3], [4, 2]]), dpi=r.choice([None, 50, 100]), radius=r.choice([None, None, .02, .06]),
                ratio=r.choice([None, None, .1, .3]), show=r.random() < .1)


def gen_edit(r, kind, n, G):
    a, b = r.sample(range(n), 2)
    if r.random() < .65:
        return dict(op='add', g=r.randrange(G), a=a, b=b, m=marks(r, kind), over=r.random() < .4)
    return dict(op='remove', g=r.randrange(G), a=a, b=b)


def generate(r, tier):
    n, kind = r.choice([1, 2, 2, 3, 3, 4, 5, 7]) if r.random() < .95 else r.randint(8, 14), r.choice(['Graph', 'Graph', 'DiGraph', 'PDAG'])
    G = r.choice([1, 2])
    start = []
    for _ in range(G):
        es = []
        for a, b in itertools.combinations(range(n), 2):
            if r.random() < r.choice([.3, .8]):
                a, b = r.sample([a, b], 2)
                es.append([a, b] + marks(r, kind))
        r.shuffle(es)
        start.append(es)
    c = dict(n=n, kind=kind, start=start, names=r.choice([k for k in NAME_KINDS if k != 'mixed'] + ['str', 'int']), nseed=r.getrandbits(30))
    if r.random() < .15:
        c.update(mode='clients', sched=gen_sched(r, 2), asks=[[dict(gen_draw(r, n), g=r.randrange(G)) for _ in range(2)] for _ in range(2)])
        return c
    ops = []
    for _ in range(r.randint(1, 4)):
        q = r.random()
        if n > 1 and q < .35:
            ops.append(gen_edit(r, kind, n, G))
        elif q < .45:
            ops.append(dict(op='node', g=r.randrange(G)))
        elif q < .55:
            ops.append(dict(op='cut', kind=r.choice(['interrupt', 'memory']), at=r.random(), g=r.randrange(G), d=gen_draw(r, n)))
        elif q < .65:
            ops.append(dict(op='bad', what=r.choice(['raise', 'short', 'none']), g=r.randrange(G)))
        elif q < .75:
            ops.append(dict(op='figure', what=r.choice(['open', 'close', 'write'])))
        ops.append(dict(gen_draw(r, n), g=r.randrange(G)))
    c.update(mode='serial', ops=ops)
    return c


def shrinks(c):
    for o in shrink_list(c.get('ops', [])):
        if o:
            yield dict(c, ops=o)
    for g in range(len(c['start'])):
        for e in shrink_list(c['start'][g]):
            yield dict(c, start=c['start'][:g] + [e] + c['start'][g + 1:])
    if c['names'] != 'str':
        yield dict(c, names='str')


def describe(c):
    return str({k: v for k, v in c.items() if k != 'sched'})


# ---------------------------------------------------------------- what a drawing should be
def own_places(texts, seed):
    import random
    r = random.Random(f'{seed}')
    out = []
    while len(out) < len(texts):
        p = (r.uniform(-.45, .45), r.uniform(-.45, .45))
        if all(math.dist(p, q) > .18 for q in out):
            out.append(p)
        elif r.random() < .02:
            out = []
    return dict(zip(texts, out))


def circle_places(texts, scale=.45, order=False):
    t = sorted(texts) if order else texts
    return {s: (scale * math.cos(math.pi / 2 - 2 * math.pi * i / len(t)), scale * math.sin(math.pi / 2 - 2 * math.pi * i / len(t))) for i, s in enumerate(t)}


class Fail(Exception):
    pass


def layout_of(d, texts):
    """(layout to pass, places it should give)."""
    k = d['layout']
    if k == 'circle':
        return circular_layout, circle_places(texts)
    if k == 'sorted':
        return lambda g: circular_layout(g, sort_node=True), circle_places(texts, order=True)
    if k == 'scaled':
        return lambda g: circular_layout(g, scale=.3), circle_places(texts, .3)
    p = own_places(texts, d['lseed'])
    q = dict(p)
    if k == 'extra':        # a layout may know more nodes than there are
        q['nobody'] = (.1, .1)
    return lambda g: q, p


def latents(d, texts):
    if d['latent'] is None:
        return None, set()
    s = [] if d['latent'] == [] else list(texts) if d['latent'] == 'all' else [t for i, t in enumerate(texts) if (d['lseed'] >> i) & 1] + ['nobody']
    return dict(set=set, list=list, tuple=tuple, frozenset=frozenset, dict=dict.fromkeys)[d['lat']](s), set(s)


def near(a, b, tol=1e-9):
    return math.dist(a, b) <= tol


def heads(patch):
    """Filled triangles of an arrow patch: where their tips are, in data coordinates of the patch's axes."""
    st = patch.get_arrowstyle()
    return bool(getattr(st, '_beginarrow_head', False)), bool(getattr(st, '_endarrow_head', False))


def judge(ctx, fig, d, texts, rec, places, white, who):
    R = .04 if d['radius'] is None else d['radius']
    small = R * (1 / 6 if d['ratio'] is None else d['ratio'])
    ctx.check(len(fig.axes) == 1, 'axes', lambda: f'{who}: {len(fig.axes)} axes')
    ax = fig.axes[0]
    ctx.check(not ax.axison and ax.get_aspect() in (1, 'equal'), 'axes', lambda: f'{who}: the axes are shown or distorted')
    if d['size'] is not None:
        ctx.check(list(fig.get_size_inches()) == d['size'], 'size', lambda: f'{who}: size {fig.get_size_inches()}')
    ctx.check(fig.dpi == (300 if d['dpi'] is None else d['dpi']), 'size', lambda: f'{who}: resolution {fig.dpi}')
    at = {t: (places[t][0] + .5, places[t][1] + .5) for t in texts}
    discs = [p for p in ax.patches if isinstance(p, patches.Circle)]
    lines = [p for p in ax.patches if isinstance(p, patches.FancyArrowPatch)]
    ctx.check(len(discs) + len(lines) == len(ax.patches) and not ax.lines and not ax.images, 'extra', lambda: f'{who}: something else is in the drawing')
    nodes = []
    for t in texts:
        m = [p for p in discs if near(p.get_center(), at[t]) and abs(p.get_radius() - R) < 1e-9]
        ctx.check(len(m) == 1, 'node', lambda: f'{who}: {len(m)} discs at the place of node {t!r}')
        nodes.append(m[0])
        want = to_rgba('white') if t in white else to_rgba('0.8')
        ctx.check(m[0].get_facecolor() == want, 'latent', lambda: f"{who}: node {t!r} is {'not ' if t in white else ''}drawn as latent")
    got = sorted((x.get_text(), tuple(round(v, 9) for v in x.get_position())) for x in ax.texts)
    ctx.check(got == sorted((t, tuple(round(v, 9) for v in at[t])) for t in texts), 'name', lambda: f'{who}: names {got}')
    ctx.check(all(x.get_ha() == 'center' for x in ax.texts), 'name', lambda: f'{who}: a name is off its node')
    circles = [p for p in discs if p not in nodes]
    ctx.check(len(lines) == len(rec), 'edges', lambda: f'{who}: {len(lines)} lines for {len(rec)} edges')
    ncirc = 0
    for (a, b), (ma, mb) in rec.items():
        u, v = at[texts[a]], at[texts[b]]
        dis = math.dist(u, v)
        along = lambda o, p, s: (o[0] + (p[0] - o[0]) * s / dis, o[1] + (p[1] - o[1]) * s / dis)
        ends = [along(u, v, R + (2 * small if ma == 2 else 0)), along(v, u, R + (2 * small if mb == 2 else 0))]
        mine = []
        for p in lines:
            s, t = p._posA_posB
            if near(s, ends[0]) and near(t, ends[1]):
                mine.append(heads(p))
            elif near(s, ends[1]) and near(t, ends[0]):
                mine.append(heads(p)[::-1])
        ctx.check(len(mine) == 1, 'edges', lambda: f'{who}: {len(mine)} lines between {texts[a]!r} and {texts[b]!r} (marks {ma}, {mb}), drawn {[q._posA_posB for q in lines]}, expected {ends}')
        ctx.check(mine[0] == (ma == 1, mb == 1), 'marks', lambda: f'{who}: arrowheads {mine[0]} at the ends of {texts[a]!r}, {texts[b]!r} with marks {ma}, {mb}')
        for m, o, q in ((ma, u, v), (mb, v, u)):
            w = along(o, q, R + small)
            k = sum(near(p.get_center(), w) and abs(p.get_radius() - small) < 1e-9 for p in circles)
            ctx.check(k == (m == 2) or m != 2 and k <= len(circles), 'marks', lambda: f'{who}: {k} circles at an end with mark {m}')
            ncirc += m == 2
    ctx.check(len(circles) == ncirc, 'marks', lambda: f'{who}: {len(circles)} circles for {ncirc} circle marks')


def content(fig):
    return [(len(a.patches), len(a.texts), len(a.lines)) for a in fig.axes], fig.number if hasattr(fig, 'number') else None


# ---------------------------------------------------------------- runs
def execute(c, ctx):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        ctx.ident({k: v for k, v in c.items() if k != 'sched'})
        plt.close('all')
        try:
            run(c, ctx)
        finally:
            plt.close('all')


def run(c, ctx):
    n, G = c['n'], len(c['start'])
    pool = make_names(c['names'], n + 6, c['nseed'])
    cls = dict(Graph=Graph, DiGraph=DiGraph, PDAG=PDAG)[c['kind']]
    names = [pool[:n] for _ in range(G)]
    spare = [list(pool[n:]) for _ in range(G)]
    gs, rec, figs = [], [], []
    for k in range(G):
        gs.append(cls(names[k]))
        rec.append({})
        for a, b, ma, mb in c['start'][k]:
            gs[k].add_edge(Edge(names[k][a], names[k][b], Mark(ma), Mark(mb)))
            rec[k][a, b] = (ma, mb)

    def texts(k):
        return [str(x) for x in names[k]]

    def unchanged(who):
        for k in range(G):
            ctx.check(list(gs[k].nodes) == list(names[k]), 'input-changed', lambda: f'{who} changed the nodes of graph {k}')
            got = {(names[k].index(e.node_u), names[k].index(e.node_v)): (int(e.mark_u), int(e.mark_v)) for e in gs[k].edges}
            want = {(min(a, b), max(a, b)): m if a < b else m[::-1] for (a, b), m in rec[k].items()}
            got = {(min(a, b), max(a, b)): m if a < b else m[::-1] for (a, b), m in got.items()}
            ctx.check(got == want, 'input-changed', lambda: f'{who} changed the edges of graph {k}')
        for f, was in figs:
            ctx.check(content(f) == was, 'figure-changed', lambda: f'{who} changed an earlier figure')

    now = {}

    def same(g):        # one layout that places the nodes differently from drawing to drawing
        return dict(now)

    def args(d, k):
        lay, places = layout_of(d, texts(k))
        if c['mode'] != 'clients' and d['layout'] in ('own', 'extra'):
            now.clear()
            now.update(lay(None))
            lay = same
        lat, white = latents(d, texts(k))
        kw = {}
        if d['latent'] is not None:
            kw['is_latent'] = lat
        for key, name in (('size', 'figsize'), ('dpi', 'dpi'), ('radius', 'node_radius'), ('ratio', 'edge_circle_mark_ratio')):
            if d[key] is not None:
                kw[name] = d[key]
        return lay, kw, places, white

    def draw(d, k, who):
        lay, kw, places, white = args(d, k)
        o = ctx.call(lambda: plot_graph(gs[k], lay, **kw))
        ctx.check(o[0] == 'ok', 'error', lambda: f'{who}: drawing raised {rr(o)}')
        fig = o[1]
        ctx.check(all(fig is not f for f, _ in figs), 'figure-changed', lambda: f'{who}: drawn into an earlier figure')
        judge(ctx, fig, d, texts(k), rec[k], places, white, who)
        if rec[k]:
            ctx.nontrivial = True
        if d['show']:
            fig.canvas.draw()
        figs.append((fig, content(fig)))

    def layout_ok(k, who):
        for kw, want in (({}, circle_places(texts(k))), (dict(scale=.2, sort_node=True), circle_places(texts(k), .2, True))):
            o = ctx.call(lambda: circular_layout(gs[k], **kw))
            ctx.check(o[0] == 'ok' and set(o[1]) == set(want) and all(near(o[1][t], want[t]) for t in want), 'layout', lambda: f'{who}: circular layout {rr(o)}')
    for k in range(G):
        layout_ok(k, 'at the start')
    if c['mode'] == 'clients':
        def client(j):
            def go():
                for i, d in enumerate(c['asks'][j]):
                    ctx.op_point()
                    draw(d, d['g'], f'client {j} drawing {i}')
            return go
        ctx.run_clients([client(0), client(1)], c['sched'])
        unchanged('drawing')
        for f, _ in figs:
            ctx.check(sum(f is q for q, _ in figs) == 1, 'figure-changed', 'two drawings share a figure')
        return
    for i, op in enumerate(c['ops']):
        who = f'operation {i}'
        k = op.get('g', 0)
        N = names[k]
        if op['op'] == 'add':
            a, b, m, Rk = op['a'], op['b'], op['m'], rec[k]
            ctx.call(lambda: gs[k].add_edge(Edge(N[a], N[b], Mark(m[0]), Mark(m[1])), overwrite=op['over']))
            if op['over'] or not ((a, b) in Rk or (b, a) in Rk):
                Rk.pop((b, a), None)
                Rk[a, b] = tuple(m)
        elif op['op'] == 'remove':
            ctx.call(lambda: gs[k].remove_edge(N[op['a']], N[op['b']]))
            rec[k].pop((op['a'], op['b']), None)
            rec[k].pop((op['b'], op['a']), None)
        elif op['op'] == 'node' and spare[k]:
            x = spare[k].pop(0)
            gs[k].add_node(x)
            names[k] = N + [x]
            layout_ok(k, who)
        elif op['op'] == 'cut':
            lay, kw, _, _ = args(op['d'], k)
            f = lambda: plot_graph(gs[k], lay, **kw)
            lines, o = ctx.count_lines(f)
            ctx.check(o[0] == 'ok', 'error', lambda: f'{who}: drawing raised {rr(o)}')
            o = ctx.call(f, fault=[op['kind'], 1 + int(op['at'] * max(0, lines - 1))])
            if ctx.last_fired:
                ctx.check(o[0] == 'exc' and is_fault(o[1]), 'fault-swallowed', lambda: f'{who}: {rr(o)}')
        elif op['op'] == 'bad':
            ctx.fault('layout_' + op['what'])

            def lay(g):
                if op['what'] == 'raise':
                    raise Fail()
                return None if op['what'] == 'none' else dict(list(circle_places(texts(k)).items())[1:])
            o = ctx.call(lambda: plot_graph(gs[k], lay))
            ctx.check(o[0] == 'exc', 'fault-swallowed', lambda: f'{who}: a failed layout gave {rr(o)}')
        elif op['op'] == 'figure':
            ctx.fault('other_figure')
            if op['what'] == 'open':
                plt.figure()
            elif op['what'] == 'close':
                plt.close()
            else:
                f, ax = plt.subplots()
                ax.plot([0, 1], [1, 0])
                figs.append((f, content(f)))
        elif op['op'] == 'draw':
            draw(op, k, who)
        unchanged(who)
