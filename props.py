#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json: python3 props.py rewrites both."""
import json
import os

from checks import CHECKS

I, H, F, C, S = 'inputs', 'histories', 'fault_sequences', 'configurations', 'schedules'
SRC = 'src/mlio/'
P = []


def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, note=None):
    a = {'files': [SRC + f if not f.startswith('include') and not f.startswith(('src', 'third-party')) else f for f in files],
         'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    for f in a['files']:
        assert os.path.exists('/repo/' + f), f
    if state:
        a['state'] = [{'name': n, 'meaning': m} for n, m in state]
    if observe:
        a['observe_at'] = observe
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a), note))


exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'props_list.py')).read())

LEVEL = ('Bounded symbolic execution of the real code (bitcode compiled from /repo on every run): holds for every value of the symbolic inputs within the bounds of the run; '
         'counterexamples are replayed against a sanitized native build before they are reported. Trusts the executor, z3, clang and the stand-ins for system calls and third-party libraries. ')


def design(here):
    """The section of DESIGN.md on the properties."""
    from oracles import ORACLES
    out = []
    for p, note in P:
        i = p['id']
        out.append('### %s %s\n' % (i, p['title']))
        if i not in CHECKS:
            out.append('Not applicable: %s\n' % dict(NOT_APPLICABLE)[i])
            continue
        out.append('*Decided by*: %s\n' % ORACLES[i])
        out.append('*Over*: %s.\n' % p['quantifier']['text'])
        if note:
            out.append('*Left out or trusted*: %s\n' % note)
        out.append('*Why tests cannot*: %s\n' % p['why_tests_cant'])
        runs = []
        for r in CHECKS[i]['runs']:
            def args(t):
                d = {**r.get('p', {}), **r.get(t, {}).get('p', {})}
                return ' '.join('%s=%s' % kv for kv in d.items()) or 'defaults'
            runs.append('`%s` (%s%s; %s%s)' % (r.get('name', r['h']), r['h'], ', preemptions %d' % r['preempt'] if r.get('preempt') else '', args('quick'),
                                               '; thorough: ' + args('thorough') if r.get('thorough') else ''))
        if 'contracts' in CHECKS[i]:
            runs.append('one contract per conversion in `pyint/contracts.py`, decided by CrossHair; dimensions up to 2 (thorough 3), strides, offsets and values unbounded')
        out.append('*Runs and bounds*: ' + '; '.join(runs) + '.\n')
    f = here + '/DESIGN.md'
    s = open(f).read()
    a, b = '<!-- properties -->\n', '<!-- end of properties -->\n'
    s = s[:s.index(a) + len(a)] + '\n' + '\n'.join(out) + '\n' + s[s.index(b):]
    open(f, 'w').write(s)


def main():
    here = os.path.dirname(os.path.abspath(__file__))
    with open(here + '/properties.jsonl', 'w') as f:
        for p, _ in P:
            f.write(json.dumps(p) + '\n')
    ids = {p['id'] for p, _ in P}
    assert len(ids) == len(P)
    missing = ids - set(CHECKS) - {n for n, _ in NOT_APPLICABLE}
    assert not missing, missing
    hs = sorted({r['h'] for i in ids & set(CHECKS) for r in CHECKS[i]['runs']})
    m = {
        'version': 1,
        'setup_cmd': 'python3 build.py ' + ' '.join(hs),
        'checks': [dict(property=p['id'], quick_cmd='python3 run_check.py %s --tier quick' % p['id'], thorough_cmd='python3 run_check.py %s --tier thorough' % p['id'],
                        technique='symbolic execution of the Python source with CrossHair and z3, counterexamples replayed without the solver' if 'contracts' in CHECKS[p['id']] else 'symbolic execution of the LLVM bitcode with an SMT solver (z3), counterexamples replayed natively',
                        level='model_checking', level_note=LEVEL + (note or ''), evidence_file='evidence/%s.json' % p['id'])
                   for p, note in P if p['id'] in CHECKS],
        'not_applicable': [dict(property=n, reason=r) for n, r in NOT_APPLICABLE],
        'hooks': dict(guard='MLIO_VERIF_CUT_OFF', enable='build.py compiles /repo with -DMLIO_VERIF_CUT_OFF=<expression>', source_commits=['af6da52', '11a574e']),
        'notes': 'The harnesses are compiled with -fno-access-control and replace system calls and third-party headers at build time. Edit props_list.py and checks.py, then run python3 props.py.',
    }
    with open(here + '/MANIFEST.json', 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    design(here)
    try:
        import jsonschema
    except ImportError:
        return
    s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for p, _ in P:
        jsonschema.validate(p, s)
    jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))


main()
