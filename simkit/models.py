"""Small reference models and generators shared by the properties.

None of this imports cdmir: graphs are (n, set of (i, j) index pairs).
"""
import itertools


# ------------------------------------------------------------------ node names
class HNode:
    """Node object whose hash the simulator chooses (set order is a seam)."""
    __slots__ = ('label', 'h')

    def __init__(self, label, h):
        self.label, self.h = label, h

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return isinstance(o, HNode) and o.label == self.label

    def __repr__(self):
        return f'N<{self.label}>'

    __str__ = __repr__


NAME_KINDS = ['int', 'str', 'perm', 'neg', 'tuple', 'hnode', 'hnode', 'hcoll', 'mixed', 'frozen', 'x']


class Names(list):
    """Node names that are handed out as equal but distinct objects each time."""

    def __getitem__(self, i):
        x = super().__getitem__(i)
        return [fresh(y) for y in x] if isinstance(i, slice) else fresh(x)

    def __iter__(self):
        return map(fresh, super().__iter__())


def fresh(x):
    if isinstance(x, HNode):
        return HNode(x.label, x.h)
    if isinstance(x, str):
        return ''.join(list(x))
    if isinstance(x, (tuple, frozenset)):
        return type(x)([fresh(y) for y in x])
    if type(x) in (int, float):
        return type(x)(repr(x))
    return x


def make_names(kind, n, seed):
    return Names(plain_names(kind, n, seed))


def plain_names(kind, n, seed):
    import random
    r = random.Random(seed)
    if kind == 'int':
        return list(range(n))
    if kind == 'perm':
        a = list(range(n))
        r.shuffle(a)
        return a
    if kind == 'str':
        a = [chr(97 + i % 26) * (1 + i // 26) for i in range(n)]
        r.shuffle(a)
        return a
    if kind == 'x':
        return [f'x{i}' for i in range(n)]
    if kind == 'neg':
        a = [i - n // 2 for i in range(n)]
        r.shuffle(a)
        return a
    if kind == 'tuple':
        return [(i // 3, i % 3) for i in range(n)]
    if kind == 'hnode':
        return [HNode(i, r.getrandbits(20)) for i in range(n)]
    if kind == 'hcoll':          # all hashes collide
        return [HNode(i, 7) for i in range(n)]
    if kind == 'frozen':
        return [frozenset([i, i + 1]) for i in range(n)]
    if kind == 'mixed':
        a = [0, '0', (0,), None, 'None', '', -1, 2.5, frozenset(), ('a', 1), b'0', 10 ** 12][:n]
        while len(a) < n:
            a.append(f'm{len(a)}')
        r.shuffle(a)
        return a
    raise ValueError(kind)


# ------------------------------------------------------------------ DAGs
def random_dag(r, n, p):
    o = list(range(n))
    r.shuffle(o)
    return [(o[i], o[j]) for i in range(n) for j in range(i + 1, n) if r.random() < p]


# shapes that make each orientation rule, and interplay between rules, matter
SHAPES = [
    (3, [(0, 2), (1, 2)]),                                     # collider
    (4, [(0, 2), (1, 2), (2, 3)]),                             # rule 1
    (4, [(0, 1), (2, 1), (1, 3), (0, 3)]),                     # rule 2
    (4, [(0, 1), (0, 2), (0, 3), (2, 1), (3, 1)]),             # rule 3
    (5, [(0, 2), (1, 2), (2, 3), (3, 4), (2, 4)]),
    (6, [(0, 2), (1, 2), (2, 3), (3, 4), (4, 5)]),             # long rule-1 chain
    (5, [(0, 1), (0, 2), (0, 3), (2, 1), (3, 1), (1, 4)]),
    (6, [(0, 1), (0, 2), (0, 3), (2, 1), (3, 1), (1, 4), (0, 5)]),
    (5, [(0, 1), (0, 2), (0, 3), (2, 1), (3, 1), (0, 4), (4, 1)]),
    (6, [(0, 1), (0, 2), (0, 3), (2, 1), (3, 1), (5, 1), (2, 5)]),
]


def gen_dag(r, nmin=2, nmax=7):
    """Random DAG: mixture of densities, hand shapes with permuted labels and additions."""
    if nmax >= 6 and r.random() < .03:      # what one collider implies, step by step, against (or along) the node order
        o = list(range(nmax))
        if r.random() < .8:
            o.reverse()
        return nmax, [(o[0], o[2]), (o[1], o[2])] + [(o[i], o[i + 1]) for i in range(2, nmax - 1)]
    if r.random() < 0.25:
        n, e = r.choice(SHAPES)
        if n <= nmax:
            e = list(e)
            extra = r.choice([0, 0, 1, 2])
            while extra and n < nmax:
                v = n
                n += 1
                extra -= 1
                for u in range(v):
                    q = r.random()
                    if q < 0.3:
                        e.append((u, v))
            perm = list(range(n))
            r.shuffle(perm)
            e = [(perm[a], perm[b]) for a, b in e]
            r.shuffle(e)
            return n, e
    n = r.randint(nmin, nmax)
    p = r.choice([0.0, 0.15, 0.25, 0.35, 0.45, 0.55, 0.7, 0.85, 1.0]) if r.random() < .8 else r.random()
    e = random_dag(r, n, p)
    r.shuffle(e)
    return n, e


def is_acyclic(n, edges):
    ch = {i: set() for i in range(n)}
    indeg = [0] * n
    for a, b in set(edges):
        ch[a].add(b)
        indeg[b] += 1
    q = [i for i in range(n) if indeg[i] == 0]
    k = 0
    while q:
        u = q.pop()
        k += 1
        for v in ch[u]:
            indeg[v] -= 1
            if indeg[v] == 0:
                q.append(v)
    return k == n


def topological(n, edges):
    """A causal order (lowest free index first)."""
    left, out = set(range(n)), []
    while left:
        v = min(x for x in left if not any(b == x and a in left for a, b in edges))
        out.append(v)
        left.discard(v)
    return out


def dsep(n, edges, x, y, Z):
    """d-separation by the moralised ancestral graph (Lauritzen)."""
    Z = set(Z)
    pa = {i: set() for i in range(n)}
    for a, b in edges:
        pa[b].add(a)
    anc = set()
    st = [x, y, *Z]
    while st:
        u = st.pop()
        if u in anc:
            continue
        anc.add(u)
        st.extend(pa[u])
    nb = {i: set() for i in anc}
    for v in anc:
        ps = pa[v]
        for a in ps:
            nb[a].add(v)
            nb[v].add(a)
        for a, b in itertools.combinations(ps, 2):
            nb[a].add(b)
            nb[b].add(a)
    seen = {x}
    st = [x]
    while st:
        u = st.pop()
        for v in nb[u]:
            if v in seen or v in Z:
                continue
            if v == y:
                return False
            seen.add(v)
            st.append(v)
    return True


def dconnected_set(n, edges, x, Z):
    Z = set(Z)
    return {y for y in range(n) if y not in Z and (y == x or not dsep(n, edges, x, y, Z))}


def adjacency(n, edges):
    adj = [set() for _ in range(n)]
    for a, b in edges:
        adj[a].add(b)
        adj[b].add(a)
    return adj


def vstructs(n, edges):
    adj = adjacency(n, edges)
    pa = [set() for _ in range(n)]
    for a, b in edges:
        pa[b].add(a)
    return {(min(a, b), c, max(a, b)) for c in range(n) for a, b in itertools.combinations(pa[c], 2)
            if b not in adj[a]}


def cpdag(n, edges):
    """(directed, undirected) of the CPDAG: colliders closed under Meek R1-R3
    (sound and complete for this start; checked against enumeration by selftest)."""
    edges = set(map(tuple, edges))
    adj = adjacency(n, edges)
    D = set()
    for a, c, b in vstructs(n, edges):
        D.add((a, c))
        D.add((b, c))
    U = {frozenset(e) for e in edges if e not in D}
    changed = True
    while changed:
        changed = False
        for e in sorted(U, key=sorted):
            i, j = sorted(e)
            for a, b in ((i, j), (j, i)):
                r = any((c, a) in D and c != b and c not in adj[b] for c in adj[a])
                r = r or any((a, c) in D and (c, b) in D for c in adj[a])
                r = r or any(frozenset((a, c)) in U and (c, b) in D and frozenset((a, d)) in U and (d, b) in D
                             and d not in adj[c]
                             for c, d in itertools.combinations(adj[a] - {b}, 2))
                if r:
                    U.discard(e)
                    D.add((a, b))
                    changed = True
                    break
    return frozenset(D), frozenset(U)


def cpdag_brute(n, edges):
    """Same by enumeration of all DAGs with the same skeleton and colliders."""
    edges = set(map(tuple, edges))
    vs = vstructs(n, edges)
    sk = sorted({tuple(sorted(e)) for e in edges})
    members = []
    for bits in itertools.product((0, 1), repeat=len(sk)):
        g = [(a, b) if k == 0 else (b, a) for (a, b), k in zip(sk, bits)]
        if is_acyclic(n, g) and vstructs(n, g) == vs:
            members.append(set(g))
    D = set.intersection(*members) if members else set()
    U = {frozenset(e) for e in sk if e not in D and e[::-1] not in D}
    return frozenset(D), frozenset(U)


def class_members(n, D, U, limit=4000):
    """All consistent extensions of a PDAG (same skeleton, same v-structures)."""
    sk = adjacency(n, list(D) + [tuple(e) for e in U])
    base_vs = pdag_vstructs(n, D, U)
    U = [tuple(sorted(e)) for e in U]
    out = []
    if 2 ** len(U) > limit:
        return None
    for bits in itertools.product((0, 1), repeat=len(U)):
        g = list(D) + [(a, b) if k == 0 else (b, a) for (a, b), k in zip(U, bits)]
        if is_acyclic(n, g) and vstructs(n, g) == base_vs:
            out.append(frozenset(g))
    return out


def one_member(n, D, U):
    """A consistent extension by repeated removal of sinks (Dor and Tarsi), or None."""
    D, U = set(D), set(U)
    out, left = set(D), set(range(n))
    while left:
        for x in sorted(left):
            if any(a == x for a, b in D):
                continue
            nb = {next(iter(e - {x})) for e in U if x in e}
            adjx = nb | {a for a, b in D if b == x}
            if all(adjx - {y} <= {v for e in U if y in e for v in e} | {v for e in D if y in e for v in e} for y in nb):
                out |= {(y, x) for y in nb}
                left.discard(x)
                D = {e for e in D if x not in e}
                U = {e for e in U if x not in e}
                break
        else:
            return None
    return frozenset(out)


def equivalents(n, dag):
    """Every DAG of the class of dag, by reversing covered edges (Chickering 1995)."""
    start = frozenset(map(tuple, dag))
    seen, todo = {start}, [start]
    while todo:
        g = todo.pop()
        pa = [set() for _ in range(n)]
        for a, b in g:
            pa[b].add(a)
        for a, b in g:
            if pa[b] == pa[a] | {a}:
                h = g - {(a, b)} | {(b, a)}
                if h not in seen:
                    seen.add(h)
                    todo.append(h)
    return sorted(seen, key=sorted)


def pdag_vstructs(n, D, U):
    adj = adjacency(n, list(D) + [tuple(e) for e in U])
    pa = [set() for _ in range(n)]
    for a, b in D:
        pa[b].add(a)
    return {(min(a, b), c, max(a, b)) for c in range(n) for a, b in itertools.combinations(pa[c], 2)
            if b not in adj[a]}


def is_extension(n, D, U, dag):
    dag = set(dag)
    sk1 = {frozenset(e) for e in D} | set(U)
    sk2 = {frozenset(e) for e in dag}
    return (sk1 == sk2 and len(dag) == len(sk2) and set(D) <= dag and is_acyclic(n, dag)
            and vstructs(n, dag) == pdag_vstructs(n, D, U))


def extendable(n, D, U):
    """Dor-Tarsi decision on our own data structures (checked by selftest)."""
    D, U = set(D), set(U)
    left = set(range(n))
    while left:
        for x in sorted(left):
            if any(a == x for a, b in D):
                continue
            nb = {next(iter(e - {x})) for e in U if x in e}
            adjx = nb | {a for a, b in D if b == x}
            adj = {}
            ok = True
            for y in nb:
                ady = {next(iter(e - {y})) for e in U if y in e} | {a for a, b in D if b == y} | \
                      {b for a, b in D if a == y}
                if not (adjx - {y}) <= ady | {y}:
                    ok = False
                    break
            if ok:
                left.discard(x)
                D = {e for e in D if x not in e}
                U = {e for e in U if x not in e}
                break
        else:
            return False
    return True


def fmt_dag(n, edges):
    return f'n={n} ' + ' '.join(f'{a}>{b}' for a, b in sorted(map(tuple, edges)))


def fmt_pdag(D, U):
    return ' '.join([f'{a}>{b}' for a, b in sorted(D)] + ['-'.join(map(str, sorted(e))) for e in sorted(U, key=sorted)])
