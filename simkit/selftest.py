"""Checks of the framework itself: reference models against brute force, exact
repeatability of runs across processes, worker counts and hash seeds."""
import itertools
import os
import random
import subprocess
import sys

from . import models, runner


def graph_models(seeds=400):
    for s in range(seeds):
        r = random.Random(s)
        n, e = models.gen_dag(r, 2, 5)
        assert models.cpdag(n, e) == models.cpdag_brute(n, e), (n, e)
        D, U = set(), set()
        for a, b in itertools.combinations(range(n), 2):
            q = r.random()
            if q < .3:
                D.add((a, b))
            elif q < .4:
                D.add((b, a))
            elif q < .7:
                U.add(frozenset((a, b)))
        members = models.class_members(n, D, U)
        assert bool(members) == models.extendable(n, D, U), (n, D, U)
        one = models.one_member(n, D, U)
        assert (one in members) if members else one is None, (n, D, U)
        assert set(models.equivalents(n, e)) == set(models.class_members(n, *models.cpdag(n, e))), (n, e)
        for x, y in itertools.combinations(range(n), 2):
            rest = [v for v in range(n) if v not in (x, y)]
            for k in range(len(rest) + 1):
                for z in itertools.combinations(rest, k):
                    assert models.dsep(n, e, x, y, set(z)) == _dsep_paths(n, e, x, y, set(z)), (n, e, x, y, z)


def _dsep_paths(n, edges, x, y, z):
    """d-separation from its definition: every simple path is blocked."""
    es = set(map(tuple, edges))
    nb = {v: {b if a == v else a for a, b in es if v in (a, b)} for v in range(n)}
    desc = {v: {v} for v in range(n)}
    for _ in range(n):
        for a, b in es:
            desc[a] |= desc[b]

    def active(path):
        for a, m, b in zip(path, path[1:], path[2:]):
            if (a, m) in es and (b, m) in es:
                if not desc[m] & z:
                    return False
            elif m in z:
                return False
        return True

    def walk(path):
        if path[-1] == y:
            return active(path)
        return any(walk(path + [w]) for w in nb[path[-1]] if w not in path)
    return not walk([x])


def determinism(prop, runs=24):
    outs = []
    me = os.path.join(runner.ROOT, 'dst.py')
    for hs, w in (('0', '1'), ('0', '5'), ('4711', '3')):
        env = {k: v for k, v in os.environ.items() if k not in ('DST_CHILD', 'PYTHONHASHSEED')}
        env['DST_HASHSEED'] = hs
        o = subprocess.run([sys.executable, me, 'digests', prop, '--runs', str(runs), '--workers', w],
                           env=env, capture_output=True, text=True)
        assert o.returncode == 0, o.stderr[-2000:]
        outs.append(o.stdout)
    ok = outs[0] == outs[1] and outs[0] == outs[2] and outs[0].count('\n') == runs
    print(f'{prop}: {runs} runs, 1 and 5 workers, hash seeds 0 and 4711:', 'identical' if ok else 'DIFFERENT')
    if not ok:
        for a, b, c in zip(*(o.splitlines() for o in outs)):
            if not a == b == c:
                print(' ', a, '|', b, '|', c)
    return ok


def main(what):
    if what == 'models':
        graph_models()
        print('reference models agree with brute force')
        return 0
    props = runner.available() if what == 'all' else [what]
    graph_models()
    print('reference models agree with brute force')
    return 0 if all([determinism(p) for p in props]) else 1
