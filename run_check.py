#!/usr/bin/env python3
"""Decides one property: run_check.py ID [--tier quick|thorough]

Compiles /repo's current sources to bitcode, executes the property's harnesses
symbolically, replays every counterexample natively (sanitized build of the same
sources) and reports those that reproduce. See DESIGN.md."""
import argparse
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import time

import build
from checks import CHECKS

V = build.VERIF
ENGINE = build.B + '/engine/mlse'
ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=1:leak_check_at_exit=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1',
           UBSAN_OPTIONS='halt_on_error=1:exitcode=98:print_stacktrace=1', LC_ALL='C')


def findings(prop):
    out = []
    try:
        for line in open(V + '/KNOWN_FINDINGS'):
            m = re.match(r'known: property=(\S+) witness=(\S+) run=(\S+) (.*)', line.strip())
            if m and m.group(1) == prop:
                out.append(m.groups()[1:])
    except OSError:
        pass
    return out


def native(exe, inputs, r, timeout=60):
    cmd = [exe, inputs] + sum([['-p', '%s=%d' % kv] for kv in r['p'].items()], [])
    if r.get('preempt') is not None:
        cmd += ['--preempt', str(r['preempt'])]
    try:
        q = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', env=ENV, timeout=timeout)
        return q.returncode, q.stdout
    except subprocess.TimeoutExpired as e:
        return 'timeout', (e.stdout or b'').decode(errors='replace') if isinstance(e.stdout, bytes) else (e.stdout or '')


def failed(rc):
    """Does this end of a native run confirm a violation?"""
    return rc == 'timeout' or rc in (1, 4, 98, 99) or (isinstance(rc, int) and rc < 0)


def parse(out):
    st, reach, unsup, funcs, viol, samples = {}, {}, {}, {}, [], []
    for f in glob.glob(out + '.part.*'):
        for line in open(f, errors='replace'):
            t = line.rstrip('\n').split('\t')
            if t[0] == 'STAT':
                st[t[1]] = max(st.get(t[1], 0), int(t[2])) if t[1].startswith('max_') else st.get(t[1], 0) + int(t[2])
            elif t[0] == 'REACH':
                reach[t[1]] = reach.get(t[1], 0) + int(t[2])
            elif t[0] == 'UNSUP':
                unsup[t[1]] = unsup.get(t[1], 0) + int(t[2])
            elif t[0] == 'FUNC':
                funcs[t[1]] = funcs.get(t[1], 0) + int(t[2])
            elif t[0] == 'VIOL':
                viol.append(t[1:4])
            elif t[0] == 'SAMPLE':
                samples.append(t[1:3])
    return st, reach, unsup, funcs, viol, samples


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only', help='run only this harness run')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--stop', action='store_true', help='stop at the first violation')
    a = ap.parse_args()
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    prop, c = a.prop, CHECKS[a.prop]
    if 'contracts' in c:
        return subprocess.run(['python3-vt', os.path.join(V, 'pyint', 'check.py'), prop, tier]).returncode
    t0 = time.time()
    with build.Lock():
        build.engine()
        libbc = build.lib('bc')
        bcs = {r['h']: build.harness_bc(r['h'], libbc) for r in c['runs']}
        exes = {}
    # Budget for all runs of the check.
    budget = 700 if tier == 'quick' else 6 * 3600
    work = build.B + '/run/' + prop
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    rdir = build.B + '/replay'
    os.makedirs(rdir, exist_ok=True)
    for f in glob.glob('%s/%s-*' % (rdir, prop)):
        os.unlink(f)

    def exe(h):
        if h not in exes:
            with build.Lock():
                exes[h] = build.harness_native(h)
        return exes[h]

    tot, funcs, runs, violations, problems = {}, {}, [], [], []
    validated, sample_list, mismatches = 0, [], []
    exhaustive = True
    for i, spec in enumerate(c['runs']):
        name = spec.get('name', spec['h'])
        if a.only and a.only != name:
            continue
        r = {**spec, **spec.get(tier, {})}
        r['p'] = {**spec.get('p', {}), **spec.get(tier, {}).get('p', {})}
        if r.get('skip') or (a.stop and violations):
            continue
        out = '%s/%d' % (work, i)
        limit = min(r.get('time', 100), max(10, budget - (time.time() - t0)))
        cmd = [ENGINE, bcs[r['h']], '--out', out, '--time', str(limit), '--jobs', str(build.J), '--samples', str(r.get('samples', 8))]
        if r.get('entry'):
            cmd += ['--entry', r['entry']]
        if r.get('preempt') is not None:
            cmd += ['--preempt', str(r['preempt'])]
        if a.stop:
            cmd += ['--stop-first']
        if r.get('max_steps'):
            cmd += ['--max-steps', str(r['max_steps'])]
        for k, v in r['p'].items():
            cmd += ['-p', '%s=%d' % (k, v)]
        t1 = time.time()
        q = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
        dt = time.time() - t1
        st, reach, unsup, fn, viol, samples = parse(out)
        if q.returncode != 0:
            problems.append('%s: engine exit %d: %s' % (name, q.returncode, q.stdout[-500:]))
        complete = q.returncode == 0 and not st.get('timed_out') and not st.get('unsupported') and not st.get('limit') and not st.get('solver_unknown')
        exhaustive = exhaustive and complete
        for k, v in st.items():
            tot[k] = max(tot.get(k, 0), v) if k.startswith('max_') else tot.get(k, 0) + v
        for k, v in fn.items():
            funcs[k] = funcs.get(k, 0) + v
        # Counterexamples: replay at most three per message.
        per = {}
        confirmed = []
        seen_msgs = {}
        for f, msg, where in viol:
            m = re.sub(r'0x[0-9a-f]+|\d+', '#', msg)
            if per.get(m, 0) >= 3 or len(per) > 12:
                continue
            per[m] = per.get(m, 0) + 1
            if m in seen_msgs:
                continue
            rc, txt = native(exe(r['h']), f, r, 20 if msg.startswith('no end') else 60)
            if failed(rc):
                seen_msgs[m] = 1
                dst = '%s/%s-%s-%d.txt' % (rdir, prop, name, len(confirmed))
                with open(dst, 'w') as g:
                    g.write('# property %s, harness %s: %s\n# at %s\n' % (prop, r['h'], msg, where))
                    g.write('# replay: %s %s %s%s\n' % (exe(r['h']), dst, ' '.join('-p %s=%d' % kv for kv in r['p'].items()),
                                                        ' --preempt %d' % r['preempt'] if r.get('preempt') is not None else ''))
                    g.write(''.join('# | %s\n' % l for l in txt.splitlines()[:60]))
                    g.write(open(f).read())
                confirmed.append((msg, where, dst))
            else:
                problems.append('%s: not reproduced (exit %s): %s at %s; inputs %s' % (name, rc, msg, where, f))
        violations += [(name,) + x for x in confirmed]
        # Engine against the real code on solver-chosen inputs.
        nval = 0
        for k, (ins, want) in enumerate(samples[:r.get('validate', 6)]):
            f = out + '.s%d' % k
            with open(f, 'w') as g:
                for part in ins.split(';'):
                    if part:
                        n, h = part.split('=')
                        g.write('%s %s\n' % (n, h or '-'))
            rc, txt = native(exe(r['h']), f, r)
            got = ''.join(re.findall(r'^TRACE (.*)$', txt, re.M))
            if rc == 0 and got == want:
                nval += 1
                if len(sample_list) < 12:
                    sample_list.append({'run': name, 'inputs': ins[:300], 'observed': want[:200]})
            elif failed(rc) and not confirmed and 'memory is leaked' not in txt:
                dst = '%s/%s-%s-s%d.txt' % (rdir, prop, name, k)
                shutil.copy(f, dst)
                violations.append((name, 'native run fails on a path the executor passes: exit %s %s' % (rc, txt[-300:]), '', dst))
            else:
                mismatches.append('%s: exit %s, executor %s native %s (%s)' % (name, rc, want[:120], got[:120], f))
        validated += nval
        missing = [x for x in r.get('reach', []) if not reach.get(x)]
        if missing and complete and not viol:
            problems.append('%s: never reached: %s' % (name, ', '.join(missing)))
        runs.append({'harness': r['h'], 'name': name, 'params': r['p'], 'preemption_bound': r.get('preempt'), 'bounds': r.get('bounds', ''),
                     'complete': complete, 'paths': st.get('paths', 0), 'error_paths': st.get('error_paths', 0),
                     'unsupported': unsup, 'reached': reach, 'longest_path_steps': st.get('max_path_steps', 0), 'wall_s': round(dt, 2), 'validated_natively': nval,
                     'queries': st.get('queries', 0), 'solver_s': round(st.get('solver_us', 0) / 1e6, 2)})
        print('%s %-28s paths %-7d %s  queries %d  asserts %d  %.1fs (solver %.1fs)%s' % (
            prop, name, st.get('paths', 0), 'complete' if complete else 'INCOMPLETE', st.get('queries', 0), st.get('asserts', 0), dt,
            st.get('solver_us', 0) / 1e6, '  viol %d/%d' % (len(confirmed), len(viol)) if viol else ''))
        if unsup:
            for k, v in list(unsup.items())[:8]:
                print('   incomplete: %s (%d)' % (k, v))
        sys.stdout.flush()

    # Recorded defects: the recorded input must still fail.
    known = 0
    for witness, run, text in findings(prop):
        spec = next((s for s in c['runs'] if s.get('name', s['h']) == run), None)
        if spec is None:
            continue
        r = dict(spec, p={k: v for k, v in {**spec.get('p', {}), **spec.get('quick', {}).get('p', {})}.items() if not k.startswith('kf_')})
        rc, txt = native(exe(r['h']), os.path.join(V, witness), r)
        if failed(rc):
            known += 1
            print('KNOWN-FINDING: property=%s %s' % (prop, text))
        else:
            print('note: recorded finding no longer fails (exit %s): %s' % (rc, text))

    mlio_funcs = {k: v for k, v in funcs.items() if 'mlio::' in k or 'strnat' in k or 'pymlio' in k or 'hll' in k.lower()}
    ev = {
        'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'model_checking',
        'coverage': {
            'states': tot.get('paths', 0) + tot.get('forks', 0), 'transitions': tot.get('steps', 0),
            'traces_validated_against_impl': validated, 'samples': sample_list or [{'run': x['name'], 'paths': x['paths']} for x in runs],
            'paths': tot.get('paths', 0), 'infeasible_branches_pruned': tot.get('infeasible', 0), 'exhaustive': bool(exhaustive),
            'assertions_checked': tot.get('asserts', 0), 'assertions_decided_by_the_solver': tot.get('asserts_symbolic', 0),
            'assertions_constant_on_their_path': tot.get('asserts_constant_on_path', 0),
            'solver_queries': tot.get('queries', 0), 'solver_queries_for_assertions': tot.get('assert_queries', 0), 'query_cache_hits': tot.get('query_cache_hits', 0),
            'decided_by_enumerating_a_byte_domain': tot.get('domain_decided', 0), 'cross_checked_with_z3': tot.get('cross_checked', 0),
            'solver_unknown': tot.get('solver_unknown', 0), 'solver_s': round(tot.get('solver_us', 0) / 1e6, 2),
            'functions_encoded': sorted(mlio_funcs, key=lambda k: -mlio_funcs[k])[:150], 'functions_encoded_count': len(mlio_funcs),
            'functions_executed_total': len(funcs), 'runs': runs, 'bounds': c.get('bounds', ''), 'problems': problems[:20],
            'validation_mismatches': mismatches[:20], 'known_findings': known,
        },
        'assumptions': c.get('assumptions', []), 'wall_s': round(time.time() - t0, 2), 'violations': len(violations),
    }
    os.makedirs(V + '/evidence', exist_ok=True)
    with open('%s/evidence/%s.json' % (V, prop), 'w') as f:
        json.dump(ev, f, indent=1)
    for p in problems:
        print('problem: ' + p)
    for p in mismatches[:10]:
        print('mismatch: ' + p)
    for name, msg, where, dst in violations:
        print('VIOLATION property=%s replay=%s %s: %s [%s]' % (prop, dst, name, msg, where))
    if violations:
        return 1
    if any('engine exit' in p or 'never reached' in p for p in problems):
        return 2
    return 0


if __name__ == '__main__':
    try:
        sys.exit(main())
    except build.BuildError as e:
        print('build error: ' + str(e))
        sys.exit(2)
