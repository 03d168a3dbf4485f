#!/usr/bin/env python3
"""Mutation campaign: small syntactic changes to the library in scratch copies, which checks see them?

  tools/mutants.py OUT.jsonl --per-file 20 --seed 1 [--only cdmir/graph/]
Caught mutants are listed with the check that saw them; a mutant no check sees is run through the existing
tests, and what survives both is what there is to look at.  Development aid; no registered command uses it.
"""
import argparse, ast, copy, json, os, random, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
from threading import Lock

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = {
    'cdmir/utils/local_score/marginal_base.py': ['C10'], 'cdmir/utils/local_score/score_utils.py': ['C10'],
    'cdmir/discovery/funtional_based/LearningHierarchicalStructure/FindCausalCluster.py': ['C19', 'C23'],
    'cdmir/discovery/funtional_based/LearningHierarchicalStructure/MergeCluster.py': ['C23'],
    'cdmir/discovery/funtional_based/LearningHierarchicalStructure/MakeGraph.py': ['C23'],
    'cdmir/discovery/funtional_based/LearningHierarchicalStructure/Utils.py': ['C23'],
    'cdmir/discovery/funtional_based/LearningHierarchicalStructure/Causal_Discovery_in_LHM.py': ['C23'],
    'cdmir/discovery/funtional_based/LearningHierarchicalStructure/UpdataData.py': ['C19', 'C23'],
    'cdmir/utils/independence/functional/kci.py': ['C19'],
    'cdmir/visual/plot_graph.py': ['C20'],
    'cdmir/visual/graph_layout.py': ['C20'],
    'cdmir/discovery/score_based/entropy_based/pytorch_expm/expm_taylor.py': ['C21'],
    'cdmir/discovery/score_based/entropy_based/pytorch_expm/expm_pade.py': ['C21'],
    'cdmir/discovery/score_based/entropy_based/pytorch_expm/expm64.py': ['C21'],
    'cdmir/discovery/score_based/entropy_based/pytorch_expm/expm32.py': ['C21'],
    'cdmir/discovery/score_based/entropy_based/entropy_based_discovery/nonlinear.py': ['C17'],
    'cdmir/graph/graph.py': ['C01', 'C02', 'C05', 'C06'], 'cdmir/graph/edge.py': ['C01'], 'cdmir/graph/mark.py': ['C01'],
    'cdmir/graph/digraph.py': ['C02', 'C01', 'C03'], 'cdmir/graph/pdag.py': ['C22', 'C03', 'C05', 'C06', 'C01'],
    'cdmir/graph/dag2cpdag.py': ['C03'], 'cdmir/graph/pdag2dag.py': ['C04', 'C11'],
    'cdmir/discovery/constraint/pc.py': ['C05', 'C06', 'C15'],
    'cdmir/discovery/constraint/adjacency_search.py': ['C05', 'C06'],
    'cdmir/utils/adapters.py': ['C05', 'C07', 'C15'],
    'cdmir/utils/independence/basic_independence.py': ['C07', 'C05'], 'cdmir/utils/independence/fisherz.py': ['C07'],
    'cdmir/utils/independence/dsep.py': ['C07', 'C05'], 'cdmir/utils/independence/functional/fisherz.py': ['C07'],
    'cdmir/utils/kernel/_base.py': ['C08', 'C09'], 'cdmir/utils/kernel/gaussian.py': ['C08', 'C09'],
    'cdmir/utils/kernel/linear.py': ['C08'], 'cdmir/utils/kernel/polynomial.py': ['C08'],
    'cdmir/utils/independence/_base.py': ['C09'], 'cdmir/utils/independence/kernel_based.py': ['C09'],
    'cdmir/utils/local_score/_base.py': ['C10'], 'cdmir/utils/local_score/bic_score.py': ['C10', 'C11'],
    'cdmir/utils/local_score/bdeu_score.py': ['C10', 'C11'], 'cdmir/utils/local_score/cross_validated_base.py': ['C10'],
    'cdmir/utils/independence/functional/kci.py': ['C09', 'C15'],
    'cdmir/utils/local_score/score_utils.py': ['C10'],
    'cdmir/discovery/score_based/greedy_equivalence_search.py': ['C11', 'C15'],
    'cdmir/datasets/simlulators.py': ['C13', 'C12'], 'cdmir/datasets/utils.py': ['C13', 'C12'],
    'cdmir/discovery/point_process/SHP.py': ['C14'],
    'cdmir/discovery/funtional_based/lingam_based/ica_lingam.py': ['C16', 'C15'],
    'cdmir/discovery/funtional_based/one_component/olc.py': ['C15'],
    'cdmir/discovery/funtional_based/anm/ANM.py': ['C19', 'C15'],
    'cdmir/utils/independence/functional/HSIC.py': ['C19', 'C15'],
    'cdmir/discovery/funtional_based/LearningHierarchicalStructure/HSIC.py': ['C19'],
    'cdmir/discovery/funtional_based/LearningHierarchicalStructure/indTest/HSIC.py': ['C19'],
    'cdmir/discovery/funtional_based/LearningHierarchicalStructure/mutual.py': ['C19'],
    'cdmir/discovery/funtional_based/LearningHierarchicalStructure/VanishedTest.py': ['C19'],
    'cdmir/discovery/funtional_based/LearningHierarchicalStructure/TetradMethod.py': ['C19'],
    'cdmir/discovery/funtional_based/LearningHierarchicalStructure/GIN2.py': ['C19'],
    'cdmir/discovery/funtional_based/LearningHierarchicalStructure/Infer_Causal_Order.py': ['C19'],
    'cdmir/discovery/funtional_based/LearningHierarchicalStructure/Overlap_Merge.py': ['C19'],
    'cdmir/discovery/funtional_based/LearningHierarchicalStructure/indTest/FisherTest.py': ['C19'],
    'cdmir/discovery/funtional_based/LearningHierarchicalStructure/indTest/independence.py': ['C19'],

    'cdmir/utils/metrics/graph_evaluation.py': ['C18', 'C15'],
    'cdmir/discovery/score_based/entropy_based/entropy_based_discovery/linear.py': ['C17', 'C18'],
    'cdmir/discovery/score_based/entropy_based/entropy_based_discovery/linear_ent.py': ['C17'],
    'cdmir/discovery/score_based/entropy_based/entropy_based_discovery/nonlinear_ent.py': ['C17'],
    'cdmir/discovery/score_based/entropy_based/entropy_based_discovery/lbfgsb_scipy.py': ['C17'],
    'cdmir/discovery/score_based/entropy_based/entropy_based_discovery/locally_connected.py': ['C17'],
    'cdmir/discovery/score_based/entropy_based/entropy_based_discovery/utils.py': ['C13', 'C12', 'C18', 'C17'],
}
EXTRA = os.path.join(HERE, 'tools', 'mutants_extra.json')
if os.path.exists(EXTRA):
    MAP.update(json.load(open(EXTRA)))


class Sites(ast.NodeVisitor):
    """Every mutation as (description, function on a copy of the tree located by node number)."""

    def __init__(self, tree):
        self.out, self.skip = [], set()
        for i, n in enumerate(ast.walk(tree)):
            n._i = i
        for n in ast.walk(tree):
            for f, old in ast.iter_fields(n):
                pass
        self.walk(tree)

    def add(self, n, what, fn):
        self.out.append((n._i, getattr(n, 'lineno', 0), what, fn))

    def walk(self, t):
        for n in ast.walk(t):
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                o = type(n.ops[0])
                alts = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt],
                        ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.In: [ast.NotIn], ast.NotIn: [ast.In],
                        ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}.get(o, [])
                for a in alts:
                    self.add(n, f'{o.__name__}->{a.__name__}', lambda m, a=a: m.ops.__setitem__(0, a()))
            if isinstance(n, (ast.If, ast.While)):
                self.add(n, 'negate', lambda m: setattr(m, 'test', ast.UnaryOp(ast.Not(), m.test)))
                if isinstance(n, ast.If):
                    self.add(n, 'if True', lambda m: setattr(m, 'test', ast.Constant(True)))
                    self.add(n, 'if False', lambda m: setattr(m, 'test', ast.Constant(False)))
            if isinstance(n, ast.BoolOp):
                self.add(n, 'and<->or', lambda m: setattr(m, 'op', ast.Or() if isinstance(m.op, ast.And) else ast.And()))
                for k in range(len(n.values)):
                    self.add(n, f'drop operand {k}', lambda m, k=k: m.values.pop(k))
            if isinstance(n, ast.BinOp):
                alts = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.BitOr: ast.BitAnd,
                        ast.Pow: ast.Mult, ast.Mod: ast.Mult, ast.FloorDiv: ast.Mult, ast.BitAnd: ast.BitOr}
                a = alts.get(type(n.op))
                if a:
                    self.add(n, f'{type(n.op).__name__}->{a.__name__}', lambda m, a=a: setattr(m, 'op', a()))
            if isinstance(n, ast.AugAssign):
                self.add(n, 'aug->assign', 'aug')
            if isinstance(n, ast.Constant) and type(n.value) in (int, float) and not isinstance(n.value, bool):
                self.add(n, f'{n.value}+1', lambda m: setattr(m, 'value', m.value + 1))
                if n.value:
                    self.add(n, f'{n.value}->0', lambda m: setattr(m, 'value', 0))
            if isinstance(n, ast.Constant) and isinstance(n.value, bool):
                self.add(n, 'not const', lambda m: setattr(m, 'value', not m.value))
            if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
                self.add(n, 'drop not', 'operand')
            if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
                self.add(n, 'drop minus', 'operand')
            if isinstance(n, ast.Call):
                nm = n.func.id if isinstance(n.func, ast.Name) else n.func.attr if isinstance(n.func, ast.Attribute) else ''
                if nm in ('deepcopy', 'copy', 'list', 'set', 'sorted', 'abs', 'tuple', 'asarray', 'array', 'sum', 'float'):
                    self.add(n, f'drop {nm}()', 'unwrap')
                if nm in ('permutations', 'combinations'):
                    self.add(n, nm + ' swapped', 'comb')
                if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                    self.add(n, 'swap args', lambda m: m.args.__setitem__(slice(0, 2), m.args[1::-1]))
                if n.keywords:
                    self.add(n, f'drop keyword {n.keywords[0].arg}', lambda m: m.keywords.pop(0))
            if isinstance(n, (ast.Break, ast.Continue)):
                self.add(n, 'break/continue', 'loop')
            if isinstance(n, (ast.Assign, ast.Expr, ast.AugAssign, ast.Assert, ast.Raise)):
                if not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
                    self.add(n, 'delete statement', 'pass')
            if isinstance(n, ast.IfExp):
                self.add(n, 'swap ifexp', lambda m: (lambda b: (setattr(m, 'body', m.orelse), setattr(m, 'orelse', b)))(m.body))
            if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Tuple) and len(n.slice.elts) == 2:
                self.add(n, 'swap index', lambda m: m.slice.elts.reverse())


MEMO = '''
def _memo_(kind):
    import functools
    def wrap(f):
        memo = {}

        def k(x, first=False):
            import numpy, pandas
            if isinstance(x, numpy.ndarray) or hasattr(x, 'numpy'):
                return ('a', tuple(x.shape), str(x.dtype), None if kind == 'shape' else bytes(numpy.ascontiguousarray(x if isinstance(x, numpy.ndarray) else x.detach().numpy())))
            if isinstance(x, pandas.DataFrame):
                return ('f', x.shape, tuple(map(str, x.columns)), None if kind == 'shape' else x.to_numpy().tobytes())
            if isinstance(x, (list, tuple)):
                return tuple(map(k, x)) if kind != 'shape' else len(x)
            if isinstance(x, (set, frozenset)):
                return frozenset(map(k, x))
            if isinstance(x, dict):
                return tuple(sorted((str(a), k(b)) for a, b in x.items()))
            if isinstance(x, (int, float, str, bool, type(None))):
                return (type(x).__name__, x)
            return id(x)

        @functools.wraps(f)
        def g(*a, **b):
            key = (tuple(map(k, a)), k(b))
            if key not in memo:
                memo[key] = (f(*a, **b), a)
            return memo[key][0]
        return g
    return wrap
'''


def state_sites(tree):
    """Remembered answers (exact arguments with a stale object, or arguments of the same shape) and locals made global."""
    for i, n in enumerate(ast.walk(tree)):
        n._i = i
    out = []
    for n in ast.walk(tree):
        if not isinstance(n, ast.FunctionDef) or n.name in ('main', '__init__', '__str__', '__repr__', '__new__'):
            continue
        if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(n)) or any(isinstance(d, ast.Attribute) and d.attr == 'setter' for d in n.decorator_list):
            continue
        if any(isinstance(x, ast.Return) and x.value is not None for x in ast.walk(n)):
            out.append((n._i, n.lineno, f'stale {n.name}', 'stale'))
            if len(n.args.args) > 1:
                out.append((n._i, n.lineno, f'shape {n.name}', 'shape'))
        par = {a.arg for a in n.args.args + n.args.kwonlyargs} | {a.arg for a in (n.args.vararg, n.args.kwarg) if a}
        inner = {y.id for x in ast.walk(n) if x is not n and isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)) for y in ast.walk(x) if isinstance(y, ast.Name)}
        loc = {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - par - inner
        if loc:
            out.append((n._i, n.lineno, f'global locals in {n.name}', ('global', sorted(loc))))
    return out


def apply_state(tree, site):
    i, _, what, fn = site
    t = copy.deepcopy(tree)
    for k, n in enumerate(ast.walk(t)):
        if k == i:
            if isinstance(fn, tuple):
                n.body.insert(1 if ast.get_docstring(n) and len(n.body) > 1 else 0, ast.Global(fn[1]))
            else:
                n.decorator_list.append(ast.parse(f'_memo_({fn!r})', mode='eval').body)
    at = 0
    while at < len(t.body) and (isinstance(t.body[at], ast.ImportFrom) and t.body[at].module == '__future__' or isinstance(t.body[at], ast.Expr)):
        at += 1
    t.body[at:at] = ast.parse(MEMO).body
    return ast.fix_missing_locations(t)


def apply(tree, site):
    i, _, what, fn = site
    if what.split()[0] in ('stale', 'shape', 'global'):
        return apply_state(tree, site)
    t = copy.deepcopy(tree)
    for k, n in enumerate(ast.walk(t)):
        n._i = k

    class T(ast.NodeTransformer):
        def generic_visit(self, n):
            super().generic_visit(n)
            if n._i != i:
                return n
            if callable(fn):
                fn(n)
                return n
            if fn == 'pass':
                return ast.copy_location(ast.Pass(), n)
            if fn == 'aug':
                return ast.copy_location(ast.Assign([n.target], n.value), n)
            if fn == 'operand':
                return n.operand
            if fn == 'unwrap':
                return n.args[0] if n.args else n.func.value if isinstance(n.func, ast.Attribute) else n
            if fn == 'comb':
                f = n.func
                sw = {'permutations': 'combinations', 'combinations': 'permutations'}
                if isinstance(f, ast.Name):
                    f.id = sw[f.id]
                else:
                    f.attr = sw[f.attr]
                return n
            if fn == 'loop':
                return ast.copy_location(ast.Continue() if isinstance(n, ast.Break) else ast.Break(), n)
            return n
    t = T().visit(t)
    return ast.fix_missing_locations(t)


def in_main(src_lines, line):
    """inside an `if __name__ == '__main__'` block?"""
    for k in range(line - 1, -1, -1):
        if src_lines[k].startswith('if __name__'):
            return True
        if src_lines[k][:1] not in (' ', '\t', '', '#', '\n', ')'):
            return False
    return False


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('out')
    ap.add_argument('--per-file', type=int, default=20)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--only', default='')
    ap.add_argument('--state', action='store_true')
    ap.add_argument('--slots', type=int, default=4)
    ap.add_argument('--workers', type=int, default=2)
    a = ap.parse_args()
    rng = random.Random(a.seed)
    jobs = []
    for f, props in MAP.items():
        if a.only and a.only not in f:
            continue
        src = open('/repo/' + f).read()
        tree = ast.parse(src)
        lines = src.split('\n')
        ss = [s for s in (state_sites(tree) if a.state else Sites(tree).out) if not in_main(lines, s[1])]
        rng.shuffle(ss)
        k = a.per_file if a.state else max(8, min(a.per_file, len(ss) // 4))
        for s in ss[:k]:
            jobs.append((f, props, tree, s, lines[s[1] - 1].strip() if s[1] else ''))
    rng.shuffle(jobs)
    print(len(jobs), 'mutants')
    lock = Lock()
    slots = []
    for k in range(a.slots):
        d = f'/tmp/x/mut{k}'
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree('/repo', d + '/repo', symlinks=True)
        os.makedirs(d + '/out', exist_ok=True)
        slots.append(d)

    def run(job):
        f, props, tree, s, line = job
        try:
            new = ast.unparse(apply(tree, s))
            compile(new, f, 'exec')
        except Exception as e:
            return
        if new == ast.unparse(tree):
            return
        with lock:
            d = slots.pop()
        try:
            path = f'{d}/repo/{f}'
            old = open(path).read()
            open(path, 'w').write(new)
            env = dict(os.environ, DST_REPO=d + '/repo', DST_OUT=d + '/out', DST_MINIMISE_S='0')
            rec = dict(file=f, line=s[1], what=s[2], text=line, caught=None)
            t = time.time()
            for p in props:
                try:
                    r = subprocess.run(['python3', HERE + '/dst.py', 'check', p, '--workers', str(a.workers)], env=env,
                                       capture_output=True, text=True, timeout=900)
                    o = r.stdout
                    if r.returncode == 1 and 'VIOLATION' in o:
                        v = [x for x in o.split('\n') if x.startswith('run ')]
                        rec.update(caught=p, how=(v or [''])[0][:200])
                        break
                    if r.returncode not in (0,):
                        rec.setdefault('odd', []).append([p, r.returncode, (r.stdout + r.stderr)[-300:]])
                    if 'HARNESS-ERROR' in o:
                        rec.setdefault('odd', []).append([p, 'harness', o[o.index('HARNESS-ERROR'):][:300]])
                except subprocess.TimeoutExpired:
                    rec.setdefault('odd', []).append([p, 'timeout'])
            rec['secs'] = round(time.time() - t)
            if not rec['caught']:
                env2 = dict(os.environ, PYTHONPATH=d + '/repo', PYTHONHASHSEED='0', MPLBACKEND='Agg', OMP_NUM_THREADS='1',
                            OPENBLAS_NUM_THREADS='1', PYTHONDONTWRITEBYTECODE='1')
                try:
                    r = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-n', str(a.workers),
                                        '--timeout=300', '--randomly-seed=0', '--randomly-dont-reorganize',
                                        '--continue-on-collection-errors', '--ignore=cdmir/tests/test_anm.py',
                                        f'--junitxml={d}/j.xml'], cwd=d + '/repo', env=env2, capture_output=True, text=True, timeout=900)
                    base = json.load(open('/opt/vp/BASELINE.json'))['stable']
                    subprocess.run(['python3', '/opt/vp/results.py', d + '/res.json', f'junit:{d}/j.xml'], cwd=d + '/repo',
                                   capture_output=True)
                    ok = set(json.load(open(d + '/res.json'))['passed'])
                    rec['tests_failed'] = [x for x in base if x not in ok]
                except Exception as e:
                    rec['tests_failed'] = [repr(e)[:200]]
            with lock:
                with open(a.out, 'a') as g:
                    g.write(json.dumps(rec) + '\n')
        finally:
            open(path, 'w').write(old)
            with lock:
                slots.append(d)

    with ThreadPoolExecutor(a.slots) as ex:
        list(ex.map(run, jobs))
    for d in slots:
        shutil.rmtree(d, ignore_errors=True)


main()
