"""Y05: decides the contracts of contracts.py with CrossHair, which runs the
modules of mlio.integ with z3 terms for the arguments.

check.py PROPERTY TIER     every contract, in processes of their own
check.py --one NAME TIME   one contract; prints one line of JSON
check.py --replay FILE     a counterexample, without the solver
"""
import ast
import inspect
import json
import os
import re
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
sys.path.insert(0, HERE)


def one(name, limit):
    import z3
    spent = {'queries': 0, 's': 0.0}
    check = z3.Solver.check

    def counted(self, *a):
        t = time.time()
        try:
            return check(self, *a)
        finally:
            spent['queries'] += 1
            spent['s'] += time.time() - t
    z3.Solver.check = counted
    from collections import Counter
    from crosshair.core_and_libs import analyze_function, run_checkables
    from crosshair.options import AnalysisKind, AnalysisOptionSet
    import contracts
    st = Counter()
    o = AnalysisOptionSet(analysis_kind=[AnalysisKind.PEP316], per_condition_timeout=limit, per_path_timeout=limit / 4, report_all=True, stats=st)
    t0 = time.time()
    ms = [(m.state.name, m.message, (m.traceback or '')[-1500:]) for m in run_checkables(analyze_function(getattr(contracts, name), o))]
    print('RESULT ' + json.dumps({'name': name, 'messages': ms, 'paths': st.get('num_paths', 0), 'queries': spent['queries'], 'solver_s': round(spent['s'], 2),
                                  'wall_s': round(time.time() - t0, 2)}))


def replay(name, kw):
    """None if the contract holds, else what is wrong."""
    import contracts
    import standin
    f = getattr(contracts, name)
    for line in (f.__doc__ or '').splitlines():
        if line.strip().startswith('pre:') and not eval(line.strip()[4:], dict(contracts.__dict__), dict(kw)):
            return None
    try:
        return None if f(**kw) else 'the contract is false'
    except standin.Unsupported:
        return None
    except Exception as e:
        return '%s: %s' % (type(e).__name__, e)


def arguments(name, message):
    """The arguments of a counterexample, from the text CrossHair prints."""
    import contracts
    m = re.search(r'when calling %s\((.*?)\)(?: \(which|$|\n)' % re.escape(name), message, re.S)
    if not m:
        return None
    call = ast.parse('f(%s)' % m.group(1), mode='eval').body
    values = [ast.literal_eval(x) for x in call.args]
    kw = {k.arg: ast.literal_eval(k.value) for k in call.keywords}
    kw.update(zip(inspect.signature(getattr(contracts, name)).parameters, values))
    return kw


def validate():
    """The stand-in for arrays against NumPy itself."""
    import itertools
    import numpy as np
    import standin as s
    n = 0
    for rank in range(3):
        for shape in itertools.product(range(3), repeat=rank):
            for strides in itertools.product((0, 4, 8, 12, -4), repeat=rank):
                base = np.arange(1, 40, dtype=np.int32)
                r = np.lib.stride_tricks.as_strided(base[10:], shape, strides)
                a = s.ndarray(shape, strides, 4, s.Memory(lambda o: int(base[o // 4])), 40)
                pairs = [(r, a), (np.array(r), s.array(a)), (np.ascontiguousarray(r) if rank else r, s.ascontiguousarray(a) if rank else a)]
                if rank:
                    pairs.append((r.flatten(), a.flatten()))
                pairs.append((r.astype(np.int64), a.astype(s.int64)))
                for x, y in pairs:
                    f = y.flags
                    if (x.shape != y.shape or (x is r and (x.flags.c_contiguous, x.flags.f_contiguous) != (f.c_contiguous, f.f_contiguous))
                            or any(x[i] != y.at(i) for i in s.indices(x.shape))):
                        return n, 'stand-in differs from NumPy: shape %r strides %r' % (shape, strides)
                    n += 1
    return n, None


def main(prop, tier):
    t0 = time.time()
    limit = 500 if tier == 'quick' else 3000
    env = os.environ
    env.update(Y05_DIM='2' if tier == 'quick' else '3', Y05_RANK='2' if tier == 'quick' else '3')
    repo = env.setdefault('MLSE_REPO', '/repo')
    import contracts
    rdir = V + '/.build/replay'
    os.makedirs(rdir, exist_ok=True)
    nval, bad = validate()
    problems = [bad] if bad else []
    ps = [(f.__name__, subprocess.Popen([sys.executable, os.path.abspath(__file__), '--one', f.__name__, str(limit)], env=env, text=True,
                                        stdout=subprocess.PIPE, stderr=subprocess.PIPE)) for f in contracts.ALL]
    runs, violations, samples = [], [], []
    for name, p in ps:
        out, err = p.communicate()
        m = re.search(r'^RESULT (.*)$', out, re.M)
        if not m:
            problems.append('%s: no answer: %s' % (name, err[-400:]))
            runs.append({'name': name, 'complete': False, 'paths': 0, 'queries': 0, 'solver_s': 0})
            continue
        r = json.loads(m.group(1))
        r['complete'] = bool(r['messages']) and all(x[0] == 'CONFIRMED' for x in r['messages'])
        for state, text, tb in r['messages']:
            if state not in ('POST_FAIL', 'EXEC_ERR', 'POST_ERR', 'PRE_UNSAT'):
                continue
            if 'Unsupported' in text:
                problems.append('%s: outside the stand-ins: %s' % (name, text[:300]))
                continue
            try:
                kw = arguments(name, text)
            except Exception as e:
                kw = None
                problems.append('%s: cannot read %r: %s' % (name, text[:300], e))
            wrong = replay(name, kw) if kw is not None else None
            if wrong is None:
                problems.append('%s: not reproduced: %s' % (name, text[:300]))
                continue
            dst = '%s/%s-%s.json' % (rdir, prop, name)
            with open(dst, 'w') as f:
                json.dump({'property': prop, 'contract': name, 'arguments': kw, 'what': wrong, 'replay': 'python3-vt %s --replay %s' % (os.path.abspath(__file__), dst)}, f, indent=1)
            violations.append((name, '%s with %s' % (wrong, kw), dst))
        print('%s %-28s paths %-7d %s  queries %d  %.1fs (solver %.1fs)' % (prop, name, r['paths'], 'complete' if r['complete'] else 'INCOMPLETE',
                                                                         r['queries'], r['wall_s'], r['solver_s']))
        samples.append({'contract': name, 'paths': r['paths'], 'verdict': [x[0] for x in r['messages']]})
        r.pop('messages')
        runs.append(r)
    functions = []
    for n in ('numpy', 'scipy', 'pandas'):
        for x in ast.parse(open('%s/src/mlio-py/mlio/integ/%s.py' % (repo, n)).read()).body:
            if isinstance(x, ast.FunctionDef):
                functions.append('mlio.integ.%s.%s' % (n, x.name))
    paths = sum(r['paths'] for r in runs)
    ev = {
        'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'model_checking',
        'coverage': {
            'states': paths, 'transitions': sum(r['queries'] for r in runs), 'traces_validated_against_impl': nval, 'samples': samples,
            'paths': paths, 'exhaustive': all(r['complete'] for r in runs), 'solver_queries': sum(r['queries'] for r in runs),
            'solver_s': round(sum(r['solver_s'] for r in runs), 2), 'functions_encoded': functions, 'functions_encoded_count': len(functions), 'runs': runs,
            'bounds': 'dimensions up to %s, rank up to %s, two non-zero entries; strides, offsets, coordinates and values are any integers' % (env['Y05_DIM'], env['Y05_RANK']),
            'problems': problems[:20], 'stand_ins_compared_with_numpy': nval,
        },
        'assumptions': ['NumPy, SciPy, pandas and mlio._core are stand-ins; arrays are compared with NumPy itself on every run, what the module does with buffers is Y01'],
        'wall_s': round(time.time() - t0, 2), 'violations': len(violations),
    }
    os.makedirs(V + '/evidence', exist_ok=True)
    with open('%s/evidence/%s.json' % (V, prop), 'w') as f:
        json.dump(ev, f, indent=1)
    for p in problems:
        print('problem: ' + p)
    for name, what, dst in violations:
        print('VIOLATION property=%s replay=%s %s: %s' % (prop, dst, name, what))
    return 1 if violations else 0


if __name__ == '__main__':
    if sys.argv[1] == '--one':
        one(sys.argv[2], float(sys.argv[3]))
    elif sys.argv[1] == '--replay':
        d = json.load(open(sys.argv[2]))
        w = replay(d['contract'], d['arguments'])
        print(w or 'the contract holds')
        sys.exit(1 if w else 0)
    else:
        sys.exit(main(sys.argv[1], sys.argv[2]))
