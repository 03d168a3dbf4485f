"""Seeded search over simulated runs, minimisation, replay files and evidence."""
import argparse
import gc
import hashlib
import importlib
import io
import json
import multiprocessing as mp
import os
import pickle
import random
import signal
import sys
import time
import traceback
import warnings
from collections import Counter

from . import core
from .core import Ctx, Violation, run_seed

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.environ.get('DST_OUT', ROOT)          # elsewhere when mutants are tried out
EVID = os.path.join(OUT, 'evidence')
REPLAYS = os.path.join(OUT, 'replays')
KNOWN = os.path.join(ROOT, 'KNOWN_FINDINGS.jsonl')


def available():
    d = os.path.join(ROOT, 'simkit', 'props')
    return sorted(f[:-3].upper() for f in os.listdir(d) if f[0] == 'c' and f.endswith('.py'))


class WallHang(BaseException):
    pass


def _alarm(*_):
    raise WallHang()


def load(prop):
    sys.path.insert(0, core.REPO)
    warnings.simplefilter('ignore')
    m = importlib.import_module(f'simkit.props.{prop.lower()}')
    core.install_lock_seam()
    m.setup()
    import cdmir
    f = os.path.abspath(getattr(cdmir, '__file__', None) or list(cdmir.__path__)[0])
    assert f.startswith(core.SCOPE.rstrip('/')), f
    gc.collect()
    gc.freeze()
    return m


class Quiet:
    """The library prints and logs; keep that out of the check's own output."""

    def __enter__(self):
        self.o = sys.stdout
        sys.stdout = io.StringIO()

    def __exit__(self, *a):
        sys.stdout = self.o


def one_run(mod, case, wall=60):
    """Execute a case in a forked child, so that every run starts from the
    same process state whatever ran before it."""
    return in_child(lambda: _one_run(mod, case, wall=wall))


def in_child(fn):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            b = pickle.dumps(fn())
            while b:
                b = b[os.write(w, b):]
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    chunks = []
    while True:
        b = os.read(r, 1 << 16)
        if not b:
            break
        chunks.append(b)
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if st == 0:
        return pickle.loads(b''.join(chunks))
    return dict(violation=None, infra=f'run died with status {st}', faults={}, steps=0, digest='', key='',
                nontrivial=False, switches=0, info={}, sched=None)


def _one_run(mod, case, force_trace=False, wall=60):
    """Execute a case.  Returns a dict; verdicts never depend on wall time: a
    run that outlives the alarm is executed again under the step budget."""
    ctx = Ctx(budget=getattr(mod, 'BUDGET', 4_000_000), force_trace=force_trace)
    res = dict(violation=None, infra=None)
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(wall)
    try:
        with Quiet(), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            mod.execute(case, ctx)
    except Violation as v:
        res['violation'] = (v.kind, v.msg)
    except core.StepBudget:
        res['violation'] = ('no-progress', f'no result within {ctx.budget} library steps')
    except WallHang:
        signal.alarm(0)
        if not force_trace:
            return _one_run(mod, case, force_trace=True, wall=240)
        res['infra'] = 'wall clock exceeded without exhausting the step budget'
    except Exception as e:
        # escaped the operation wrappers: the library's failure if it was raised
        # there, else a harness problem
        tb = e.__traceback__
        lib = False
        while tb is not None:
            lib = lib or core.in_scope(tb.tb_frame.f_code)
            tb = tb.tb_next
        if lib:
            res['violation'] = ('library-error', f'{type(e).__name__}: {str(e)[:300]}')
        else:
            res['infra'] = ''.join(traceback.format_exception(e))[-1500:]
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        sys.settrace(None)
    ctx.event('end', res['violation'])
    res.update(faults=dict(ctx.faults), steps=ctx.steps, digest=ctx.h.hexdigest()[:24],
               key=ctx.key.hexdigest()[:16], nontrivial=ctx.nontrivial, switches=ctx.switches,
               info=dict(ctx.info), sched=ctx.sched_log)
    return res


def run_sequence(mod, cases):
    """Cases one after the other in one child process; result of the last."""
    def go():
        for c in cases:
            r = _one_run(mod, c)
        return r
    return in_child(go)


def make_case(mod, base, index, tier):
    rng = random.Random(run_seed(base, mod.ID, index))
    case = mod.generate(rng, tier)
    return json.loads(json.dumps(case))     # exactly what a replay file holds


# -------------------------------------------------------------------- workers
def _worker(mod, base, tier, w, W, n, deadline, stop_at, known, q, recheck):
    try:
        done = 0
        for i in range(w, n, W):
            if time.time() > deadline or i > stop_at.value:
                break
            case = make_case(mod, base, i, tier)
            r = (one_run if getattr(mod, 'ISOLATE', False) else _one_run)(mod, case)
            r['index'] = i
            if i < recheck:
                r['recheck'] = True
            if r['violation'] and not match_known(known, mod.ID, r['violation']):
                with stop_at.get_lock():
                    stop_at.value = min(stop_at.value, i)
            if i % 97 == 0 or i < 3:
                r['sample'] = mod.describe(case) if hasattr(mod, 'describe') else json.dumps(case)[:600]
            q.put(r)
            done += 1
        q.put({'done': w})
    except BaseException as e:     # noqa
        q.put({'done': w, 'crash': ''.join(traceback.format_exception(e))[-3000:]})


def _rechecker(mod, base, tier, idxs, q, deadline):
    for i in idxs:
        if time.time() > deadline:
            break
        q.put((i, one_run(mod, make_case(mod, base, i, tier))['digest']))
    q.put(None)


def read_known():
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith('{'):
                out.append(json.loads(line))
    return out


def match_known(known, prop, violation):
    kind, msg = violation
    for k in known:
        if k.get('property') == prop and k.get('status') == 'known' and 'case' not in k and k.get('kind') == kind \
                and k.get('match', '') in msg:
            return k
    return None


def explore(mod, base, tier, n, wall, workers, known, recheck):
    deadline = time.time() + wall
    ctxm = mp.get_context('fork')
    q = ctxm.Queue()
    stop_at = ctxm.Value('q', 1 << 60)
    ps = [ctxm.Process(target=_worker, args=(mod, base, tier, w, workers, n, deadline, stop_at, known, q, recheck),
                       daemon=True) for w in range(workers)]
    for p in ps:
        p.start()
    live = set(range(workers))
    results, crashes = [], []
    last = time.time()
    while live:
        try:
            r = q.get(timeout=5)
        except Exception:
            dead = [w for w in live if not ps[w].is_alive()]
            if dead and time.time() - last > 20:
                for w in dead:
                    live.discard(w)
                    crashes.append(f'worker {w} died with exit code {ps[w].exitcode}')
            if time.time() > deadline + 330:
                crashes.append('workers did not finish')
                break
            continue
        last = time.time()
        if 'done' in r:
            live.discard(r['done'])
            if r.get('crash'):
                crashes.append(r['crash'])
        else:
            results.append(r)
    for p in ps:
        if p.is_alive():
            p.terminate()
        p.join(5)
    return results, crashes


# -------------------------------------------------------------- minimisation
def minimise(mod, case, kind, seconds=60):
    """Greedy shrinking of operations, faults and the schedule, same violation kind."""
    end = time.time() + seconds
    tried = 0

    def bad(c):
        nonlocal tried
        tried += 1
        r = one_run(mod, c, wall=20)
        return r if r['violation'] and r['violation'][0] == kind else None

    # make the schedule explicit
    if case.get('sched', {}) and case['sched'].get('mode') == 'rand':
        r = one_run(mod, case)
        if r['sched'] is not None:
            c2 = json.loads(json.dumps(case))
            c2['sched'] = {'mode': 'list', 'switches': r['sched']}
            if bad(c2):
                case = c2
    progress = True
    while progress and time.time() < end:
        progress = False
        cands = []
        if hasattr(mod, 'shrinks'):
            cands.append(mod.shrinks(case))
        if case.get('sched', {}) and case['sched'].get('mode') == 'list':
            cands.append(_shrink_sched(case))
        for gen in cands:
            for c2 in gen:
                if time.time() > end:
                    break
                c2 = json.loads(json.dumps(c2))
                if c2 == case:
                    continue
                try:
                    r = bad(c2)
                except Exception:
                    r = None
                if r:
                    case = c2
                    progress = True
                    break
            if progress:
                break
    return case, tried


def minimise_prefix(mod, earlier, case, kind, seconds):
    end = time.time() + seconds
    tried = 0

    def bad(pre):
        nonlocal tried
        tried += 1
        r = run_sequence(mod, pre + [case])
        return r if r['violation'] and r['violation'][0] == kind else None
    k, best = 1, None
    while best is None:                       # the shortest reproducing suffix of the history, by doubling
        pre = earlier[-k:]
        r = bad(pre)
        if r:
            best = (pre, r)
        elif k >= len(earlier):
            return earlier, None, tried
        k *= 4
    size = max(1, len(best[0]) // 2)
    while time.time() < end:
        i, cut = 0, False
        while i < len(best[0]) and time.time() < end:
            pre = best[0][:i] + best[0][i + size:]
            r = bad(pre)
            if r:
                best, cut = (pre, r), True
            else:
                i += size
        if size == 1 and not cut:
            break
        size = max(1, size // 2)
    return best[0], best[1], tried


def _shrink_sched(case):
    sw = case['sched']['switches']
    k = len(sw)
    size = max(1, k // 2)
    while size >= 1 and k:
        for i in range(0, k, size):
            yield dict(case, sched={'mode': 'list', 'switches': sw[:i] + sw[i + size:]})
        if size == 1:
            break
        size //= 2


# ------------------------------------------------------------------ commands
def cmd_check(prop, tier, base, workers, runs=None, wall=None):
    t0 = time.time()
    mod = load(prop)
    known = read_known()
    n = runs or (mod.QUICK if tier == 'quick' else mod.THOROUGH)
    wall = wall or (getattr(mod, 'QUICK_WALL', 240) if tier == 'quick' else getattr(mod, 'THOROUGH_WALL', 720))
    recheck = 6 if tier == 'quick' else 24
    results, crashes = explore(mod, base, tier, n, wall, workers, known, recheck)
    results.sort(key=lambda r: r['index'])
    # determinism: the first runs again, in another process
    mism = []
    digs = {r['index']: r['digest'] for r in results}
    if not any(r['violation'] for r in results) and not crashes:
        cx = mp.get_context('fork')
        q = cx.Queue()
        idxs = [r['index'] for r in results[:recheck]]
        p = cx.Process(target=_rechecker, args=(mod, base, tier, idxs, q, time.time() + 60), daemon=True)
        p.start()
        checked = 0
        while True:
            try:
                x = q.get(timeout=120)
            except Exception:
                break
            if x is None:
                break
            checked += 1
            if digs[x[0]] != x[1]:
                mism.append(x[0])
        p.terminate()
    else:
        checked = 0

    # recorded findings are fixed cases: is each still there?
    for k in known:
        if k.get('property') == prop and k.get('status') == 'known' and 'case' in k:
            r = one_run(mod, k['case'])
            if r['violation'] and r['violation'][0] == k['kind']:
                print(f"KNOWN-FINDING: property={prop} {k['what']}")

    faults, info = Counter(), Counter()
    for r in results:
        faults.update(r['faults'])
        info.update(r['info'])
    viol = [r for r in results if r['violation']]
    new, seen_known = [], {}
    for r in viol:
        k = match_known(known, prop, r['violation'])
        if k:
            seen_known.setdefault(k['what'], 0)
            seen_known[k['what']] += 1
        else:
            new.append(r)
    infra = [r for r in results if r['infra']]
    explore_s = time.time() - t0
    nt = [r for r in results if r['nontrivial']]
    distinct = len({r['key'] for r in nt})
    ev = dict(
        property=prop, tier=tier, seed=base, level=getattr(mod, 'LEVEL', 'exploration'),
        coverage=dict(
            evaluations=len(results), distinct_nontrivial=distinct, rule=mod.RULE,
            samples=[r['sample'] for r in results if r.get('sample')][:6],
            runs_per_hour=int(len(results) / max(explore_s, 1e-9) * 3600),
            seeds_per_hour=int(len(results) / max(explore_s, 1e-9) * 3600),
            simulated_time='logical: %d library lines executed under the simulator; the library reads no clock'
                           % sum(r['steps'] for r in results),
            steps=sum(r['steps'] for r in results),
            fault_kinds_injected=dict(sorted(faults.items())),
            runs_without_faults=sum(1 for r in results if not r['faults']),
            runs_with_faults=sum(1 for r in results if r['faults']),
            context_switches=sum(r['switches'] for r in results),
            distinct_measure=mod.MEASURE,
            counts=dict(sorted(info.items())),
            real_components=mod.REAL, stub_components=mod.STUB,
            determinism=dict(reexecuted=checked, digest_mismatches=len(mism)),
            workers=workers, planned_runs=n, harness_errors=len(infra) + len(crashes)),
        assumptions=getattr(mod, 'ASSUMPTIONS', []),
        wall_s=0.0, violations=len(new))
    for what, c in sorted(seen_known.items()):
        print(f'KNOWN-FINDING: property={prop} {what} ({c} runs)')
    for r in infra[:3]:
        print(f'HARNESS-ERROR run {r["index"]}: {r["infra"]}')
    for c in crashes[:3]:
        print('HARNESS-ERROR', c)
    if mism:
        print(f'HARNESS-ERROR nondeterministic runs {mism}')
    rc = 0
    if new:
        r = new[0]
        case = make_case(mod, base, r['index'], tier)
        kind = r['violation'][0]
        prefix = []
        rr = one_run(mod, case)
        if rr['violation'] and rr['violation'][0] == kind:
            small, tried = minimise(mod, case, kind, float(os.environ.get('DST_MINIMISE_S', getattr(mod, 'MINIMISE_S', 60))))
            rr = one_run(mod, small)
            if not (rr['violation'] and rr['violation'][0] == kind):
                small, rr = case, one_run(mod, case)
        else:
            # it takes state left in the process by earlier runs: they go into the replay file
            earlier = [make_case(mod, base, i, tier) for i in range(r['index'] % workers, r['index'], workers)]
            prefix, rr2, tried = minimise_prefix(mod, earlier, case, kind, float(os.environ.get('DST_MINIMISE_S', getattr(mod, 'MINIMISE_S', 60))))
            small, rr = case, rr2 or rr
        os.makedirs(REPLAYS, exist_ok=True)
        path = os.path.join(REPLAYS, f'{prop}-{base}-{r["index"]}.json')
        with open(path, 'w') as f:
            json.dump(dict(property=prop, seed=base, run=r['index'], tier=tier, case=small, earlier_cases=prefix,
                           violation=rr['violation'] or r['violation'], digest=rr['digest'],
                           original_case=case, minimisation_runs=tried), f, indent=1)
        v = rr['violation'] or r['violation']
        print(f'run {r["index"]} (seed {base}) breaks {prop}: [{v[0]}] {v[1]}')
        if hasattr(mod, 'describe'):
            print('minimised:', mod.describe(small))
        print(f'VIOLATION property={prop} replay={path}')
        rc = 1
        ev['coverage']['first_violation'] = dict(run=r['index'], kind=v[0], message=v[1][:800], replay=path)
    elif crashes and not results:
        rc = 2
    ev['wall_s'] = round(time.time() - t0, 2)
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, f'{prop}.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print(f'{prop} {tier}: {len(results)} runs, {distinct} distinct non-trivial, '
          f'{sum(faults.values())} faults {dict(faults)}, {sum(r["switches"] for r in results)} switches, '
          f'{len(new)} violations, {len(infra)} harness errors, {time.time() - t0:.1f}s')
    return rc


def cmd_replay(path):
    d = json.load(open(path))
    mod = load(d['property'])
    r = run_sequence(mod, d.get('earlier_cases', []) + [d['case']])
    print('recorded  :', d['violation'], d['digest'])
    print('reproduced:', r['violation'], r['digest'])
    if r['infra']:
        print(r['infra'])
    if r['violation']:
        print('exact' if (list(r['violation']) == list(d['violation']) and r['digest'] == d['digest']) else 'differs')
        print(f'VIOLATION property={d["property"]} replay={os.path.abspath(path)}')
        return 1
    return 0


def cmd_run(prop, base, index, tier):
    mod = load(prop)
    case = make_case(mod, base, index, tier)
    print(json.dumps(case)[:3000])
    t = time.time()
    print({k: v for k, v in one_run(mod, case).items()}, f'{time.time() - t:.2f}s')
    return 0


def cmd_digests(prop, base, n, workers):
    """Digests of n runs, for comparison between processes and hash seeds."""
    mod = load(prop)
    results, crashes = explore(mod, base, 'quick', n, 600, workers, [], 0)
    for r in sorted(results, key=lambda r: r['index']):
        print(r['index'], r['digest'], r['violation'], (r['infra'] or '')[-200:].replace('\n', ' '))
    for c in crashes:
        print('crash', c)
    return 0


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument('cmd', choices=['check', 'replay', 'run', 'digests', 'selftest'])
    ap.add_argument('what')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--workers', type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument('--runs', type=int)
    ap.add_argument('--wall', type=float)
    ap.add_argument('--index', type=int, default=0)
    a = ap.parse_args(argv)
    if a.cmd == 'check':
        return cmd_check(a.what, a.tier, a.seed, a.workers, a.runs, a.wall)
    if a.cmd == 'replay':
        return cmd_replay(a.what)
    if a.cmd == 'selftest':
        from . import selftest
        return selftest.main(a.what)
    if a.cmd == 'run':
        return cmd_run(a.what, a.seed, a.index, a.tier)
    return cmd_digests(a.what, a.seed, a.runs or 50, a.workers)
