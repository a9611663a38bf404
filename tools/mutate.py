#!/usr/bin/env python3
"""Plants small random changes in a copy of the repository and tells which ones
the checks do not notice.

  MLSE_REPO=/tmp/copy tools/mutate.py LOG N SEED [FILE...]

For each FILE (below src/ or include/; default: every file a property is
anchored in) N mutants are made; the checks of the properties anchored in the
file run until one raises a violation."""
import json
import os
import random
import re
import subprocess
import sys
import time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ['MLSE_REPO']
assert os.path.realpath(R) != '/repo'

RULES = [
    (r' < ', [' <= ', ' > ']), (r' > ', [' >= ', ' < ']), (r' <= ', [' < ']), (r' >= ', [' > ']),
    (r' == ', [' != ']), (r' != ', [' == ']), (r' && ', [' || ']), (r' \|\| ', [' && ']),
    (r' \+ ', [' - ']), (r' - ', [' + ']), (r' \* ', [' + ']), (r' / ', [' * ']), (r' % ', [' / ']),
    (r'\+\+', ['--']), (r' \+= ', [' = ', ' -= ']), (r' -= ', [' += ']),
    (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']), (r'if \((?!auto|const|constexpr)', ['if (!']), (r'!(?=[a-z_])', ['']),
    (r'\b0\b', ['1']), (r'\b1\b', ['0', '2']), (r'\bbreak;', ['continue;']), (r'\bcontinue;', ['break;']),
    (r'std::min', ['std::max']), (r'std::max', ['std::min']), (r'\.front\(\)', ['.back()']), (r'\.begin\(\)', ['.end()']),
    (r'notify_all', ['notify_one']), (r'\.empty\(\)', ['.size() > 1']),
]


def mutants(path):
    out = []
    lines = open(path).read().split('\n')
    depth = 0
    for i, l in enumerate(lines):
        t = l.strip()
        code = not (t.startswith(('//', '*', '/*', '#', 'namespace', 'using ', 'inline namespace', '"')) or 'logger::' in t or 'fmt::format' in t)
        if code and l.startswith('    '):
            for pat, reps in RULES:
                for m in re.finditer(pat, l):
                    if l[:m.start()].count('"') % 2 or '//' in l[:m.start()]:
                        continue
                    for rep in reps:
                        n = l[:m.start()] + rep + l[m.end():]
                        if rep == 'if (!':
                            k = t.rfind(')')
                            if not t.endswith(') {'):
                                continue
                            n = l.replace('if (', 'if (!(', 1)[:-3] + ')) {'
                        out.append((i, n))
            if re.match(r'[\w\.\->\*\(\)\[\]:]+( [-+]?=| ?\(|\(|;|\+\+).*;$', t) and not t.startswith(('return', 'throw', 'auto', 'case', 'break', 'std::size_t', 'const')):
                out.append((i, re.match(r' *', l).group() + '// removed'))
            if re.match(r'return .+;$', t):
                pass
    return lines, out


def main():
    log, n, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    props, dur = {}, {}
    for l in open(V + '/properties.jsonl'):
        p = json.loads(l)
        for f in set(re.findall(r'(?:src|include)/[\w/\.-]+\.(?:cc|h)', l)):
            props.setdefault(f, []).append(p['id'])
    for f in os.listdir('/verif/evidence'):
        try:
            dur[f[:-5]] = json.load(open('/verif/evidence/' + f))['wall_s']
        except (OSError, ValueError, KeyError):
            pass
    rng = random.Random(seed)
    for f in sys.argv[4:] or sorted(props):
        path = os.path.join(R, f)
        if not os.path.exists(path):
            continue
        lines, ms = mutants(path)
        rng.shuffle(ms)
        done = 0
        for i, new in ms:
            if done == n:
                break
            mod = lines[:i] + [new] + lines[i + 1:]
            open(path, 'w').write('\n'.join(mod))
            res, t0 = 'SURVIVED', time.time()
            for p in sorted(props.get(f, []), key=lambda p: dur.get(p, 100)):
                try:
                    q = subprocess.run([sys.executable, V + '/run_check.py', p, '--stop'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
                except subprocess.TimeoutExpired:
                    res += ' timeout:' + p
                    continue
                if q.returncode == 1 and 'VIOLATION property' in q.stdout:
                    v = [x for x in q.stdout.split('\n') if 'VIOLATION property' in x][0]
                    res = 'killed by ' + p + ' ' + v.split(' ', 3)[3][:80]
                    break
                if 'build error' in q.stdout:
                    res = 'no build'
                    break
                if q.returncode:
                    res += ' rc%d:%s' % (q.returncode, p)
                elif 'problem:' in q.stdout or 'mismatch' in q.stdout:
                    res += ' problem:' + p
            open(path, 'w').write('\n'.join(lines))
            if res == 'no build':
                continue
            done += 1
            with open(log, 'a') as g:
                g.write('%s:%d\t%s\n    - %s\n    + %s\t(%.0f s)\n' % (f, i + 1, res, lines[i].strip(), new.strip(), time.time() - t0))


main()
