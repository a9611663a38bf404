"""Builds the engine, the bitcode of /repo's current sources and the native
(sanitized) objects the replays link with. Everything goes to /verif/.build and
is keyed by the contents of what it was made from, so that a check recompiles
what changed in /repo and nothing else."""
import concurrent.futures as cf
import fcntl
import glob
import hashlib
import json
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('MLSE_REPO', '/repo')
B = os.path.join(VERIF, '.build')
LLVM = '/usr/lib/llvm-18/bin/'
COMPAT = '/opt/vp/compat'
J = os.cpu_count() or 4

HLL = REPO + '/src/mlio-py/mlio/contrib/insights'

INC = ['-I' + VERIF + '/models', '-I' + REPO + '/include', '-I' + REPO + '/src', '-I' + B + '/natsort',
       '-I' + HLL, '-I' + HLL + '/hll', '-isystem', COMPAT + '/include', '-I' + VERIF]
DEF = ['-DFMT_SHARED', '-DMLIO_BUILD_IMAGE_READER', '-DMLIO_BUILD_S3', '-DMLIO_COMPILE_LIB', '-D_GLIBCXX_ASSERTIONS', '-DNDEBUG',
       '-DFMT_DEPRECATED_OSTREAM', '-DMLIO_VERIF_CUT_OFF=::mlse_param("cut_off",10000000)', '-include', VERIF + '/models/hooks.h', '-D_GLIBCXX_EXTERN_TEMPLATE=0']
CXX = ['-std=c++17', '-w', '-O1', '-gline-tables-only']
BC = ['-emit-llvm', '-c', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-fno-stack-protector', '-fno-pic', '-fno-pie']
SAN = ['-c', '-fPIC', '-fno-omit-frame-pointer', '-fsanitize=address,bounds,signed-integer-overflow,shift,integer-divide-by-zero,null,return,unreachable,bool,builtin',
       '-fno-sanitize-recover=all']

# Library calls which a harness may replace; in native objects they are renamed
# so that the replacement affects the code under test only.
SYS = ['read', 'open', 'close', 'fstat', 'lseek', 'mmap', 'munmap', 'mremap', 'posix_fadvise', 'select', 'unlink',
       'mkstemp', 'ftruncate', 'inflate', 'inflateInit2_', 'inflateEnd', 'inflateReset', 'iconv', 'iconv_open',
       'iconv_close', 'fts_open', 'fts_read', 'fts_close', 'fnmatch', 'sysinfo',
       'pthread_mutex_lock', 'pthread_mutex_unlock', 'pthread_mutex_trylock', 'nanosleep', 'pthread_sigmask']

NOT_BUILT = ('init_aws.cc',)


# What only some harnesses look at, and with which flags.
EXTRA = {'py': (REPO + '/src/mlio-py/mlio/core', ('-I' + VERIF + '/models/python',))}


def extra(name, kind):
    if name not in EXTRA:
        return [], ()
    d, flags = EXTRA[name]
    res = many([(s, kind, flags) for s in sorted(glob.glob(d + '/*.cc'))])
    return [o for o, _ in res], flags


def sha(path, memo={}):
    try:
        st = os.stat(path)
        k = (path, st.st_mtime_ns, st.st_size)
        if k not in memo:
            with open(path, 'rb') as f:
                memo[k] = hashlib.sha256(f.read()).hexdigest()
        return memo[k]
    except OSError:
        return None


class BuildError(Exception):
    pass


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)
    if r.returncode:
        raise BuildError(' '.join(cmd) + '\n' + r.stdout[-6000:])
    return r.stdout


def sources():
    out = []
    for root, _, files in os.walk(REPO + '/src/mlio'):
        for f in files:
            if f.endswith('.cc') and f not in NOT_BUILT and '.pb.' not in f:
                out.append(os.path.join(root, f))
    out += [f for f in glob.glob(HLL + '/*.cc') if not f.endswith('module.cc')]
    out += glob.glob(HLL + '/hll/*.cc') + glob.glob(HLL + '/hll/*.c')
    return sorted(out)


def natsort():
    d = B + '/natsort'
    src = REPO + '/third-party/natsort'
    want = {f: sha(os.path.join(src, f)) for f in os.listdir(src)}
    key = json.dumps(want, sort_keys=True)
    try:
        if open(d + '/key').read() == key:
            return
    except OSError:
        pass
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for f in want:
        shutil.copy(os.path.join(src, f), d)
    run(['patch', '-s', '-i', 'strnatcmp.h.patch'], cwd=d)
    open(d + '/key', 'w').write(key)


def compile_one(src, kind, extra=()):
    """kind: 'bc' or 'nat'. Returns (output, rebuilt)."""
    cxx = not src.endswith('.c')
    flags = DEF + list(extra) + INC + [f for f in CXX if cxx or not f.startswith('-std')]
    if not cxx:
        flags += ['-D__NO_CTYPE']    # isdigit() as a function
    if kind == 'bc':
        flags += BC
    else:
        flags += SAN + ['-DMLSE_NATIVE']
    cmd = [LLVM + ('clang++' if cxx else 'clang')] + flags + [src]
    # A new file among the models may hide a header.
    models = sorted(os.path.join(r, f) for r, _, fs in os.walk(VERIF + '/models') for f in fs)
    key = hashlib.sha256('\0'.join(cmd + models).encode()).hexdigest()[:24]
    base = os.path.join(B, kind, os.path.basename(src) + '.' + key)
    out, man = base + '.o', base + '.json'
    try:
        m = json.load(open(man))
        if os.path.exists(out) and all(sha(p) == h for p, h in m.items()):
            return out, False
    except (OSError, ValueError):
        pass
    tmp = base + '.tmp%d' % os.getpid()
    r = subprocess.run(cmd + ['-MD', '-MF', tmp + '.d', '-o', tmp + '.o'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError(src + ':\n' + r.stdout[-4000:])
    deps = open(tmp + '.d').read().split(':', 1)[1].replace('\\\n', ' ').split()
    os.unlink(tmp + '.d')
    deps = [os.path.abspath(d) for d in deps]
    deps = [d for d in deps if d.startswith((REPO + '/', VERIF + '/'))]
    if kind == 'nat' and not src.endswith('/rt/native.cc'):
        a = []
        for s in SYS:
            a += ['--redefine-sym', s + '=mlse_sys_' + s]
        run([LLVM + 'llvm-objcopy'] + a + [tmp + '.o'])
    os.replace(tmp + '.o', out)
    with open(man, 'w') as f:
        json.dump({d: sha(d) for d in deps}, f)
    return out, True


def many(jobs):
    with cf.ThreadPoolExecutor(J) as ex:
        fs = [ex.submit(compile_one, *j) for j in jobs]
        return [f.result() for f in fs]


def engine():
    run(['make', '-s', '-j', str(J), '-C', VERIF + '/engine', 'OUT=' + B + '/engine'])


class Lock:
    def __enter__(self):
        os.makedirs(B, exist_ok=True)
        for d in ('bc', 'nat', 'h'):
            os.makedirs(os.path.join(B, d), exist_ok=True)
        self.f = open(B + '/lock', 'w')
        fcntl.flock(self.f, fcntl.LOCK_EX)
        return self

    def __exit__(self, *a):
        self.f.close()


RT = [VERIF + '/rt/rt.cc', VERIF + '/rt/threads.cc']
NRT = [VERIF + '/rt/native.cc', VERIF + '/rt/threads.cc', COMPAT + '/absl_string_view.cc']


def lib(kind):
    """Everything of /repo, as one bitcode module or one archive."""
    natsort()
    srcs = sources() + [B + '/natsort/strnatcmp.c']
    jobs = [(s, kind, ()) for s in srcs]
    if kind == 'bc':
        jobs += [(s, kind, ('-fno-access-control',)) for s in RT]
    else:
        jobs += [(s, kind, ('-fno-access-control', '-U_GLIBCXX_EXTERN_TEMPLATE') if 'threads' in s or 'native' in s else ()) for s in NRT[:2]]
    res = many(jobs)
    outs = [o for o, _ in res]
    if kind == 'nat':
        o = B + '/nat/absl_string_view.o'
        if not os.path.exists(o):
            run(['g++', '-std=c++17', '-O1', '-c', NRT[2], '-o', o])
        outs.append(o)
    key = hashlib.sha256('\0'.join(o + sha(o) for o in outs).encode()).hexdigest()[:24]
    if kind == 'bc':
        out = B + '/bc/lib.%s.bc' % key
        if not os.path.exists(out):
            for f in glob.glob(B + '/bc/lib.*'):
                os.unlink(f)
            run([LLVM + 'llvm-link'] + outs + ['-o', out + '.tmp'])
            os.replace(out + '.tmp', out)
        return out
    return outs


def harness_bc(name, lib_bc):
    more, flags = extra(name, 'bc')
    out, _ = compile_one(VERIF + '/harness/%s.cc' % name, 'bc', flags + ('-fno-access-control',))
    key = hashlib.sha256((sha(out) + lib_bc + ''.join(sha(o) for o in more)).encode()).hexdigest()[:24]
    dst = B + '/h/%s.%s.bc' % (name, key)
    if not os.path.exists(dst):
        for f in glob.glob(B + '/h/%s.*.bc' % name):
            os.unlink(f)
        if more:
            run([LLVM + 'llvm-link', out] + more + ['-o', dst + '.tmp.bc'])
            out = dst + '.tmp.bc'
        run([LLVM + 'llvm-link', out, '--only-needed', lib_bc, '-o', dst + '.tmp'])
        if more:
            os.unlink(out)
        os.replace(dst + '.tmp', dst)
    return dst


def harness_native(name):
    objs = lib('nat')
    more, flags = extra(name, 'nat')
    out, _ = compile_one(VERIF + '/harness/%s.cc' % name, 'nat', flags + ('-fno-access-control',))
    # The library's objects go into an archive: only what the harness needs is linked.
    direct = [o for o in objs if os.path.basename(o).startswith(('native.cc', 'threads.cc'))]
    rest = [o for o in objs if o not in direct]
    key = hashlib.sha256('\0'.join(sha(o) for o in objs + more + [out]).encode()).hexdigest()[:24]
    exe = B + '/h/%s.%s.exe' % (name, key)
    if not os.path.exists(exe):
        for f in glob.glob(B + '/h/%s.*.exe' % name):
            os.unlink(f)
        ar = exe + '.a'
        if os.path.exists(ar):
            os.unlink(ar)
        run([LLVM + 'llvm-ar', 'rcs', ar] + rest)
        run([LLVM + 'clang++', '-fsanitize=address,undefined', '-Wl,-z,muldefs', '-o', exe + '.tmp', out] + more + direct +
            [ar, '-lfmt', '-labsl_strings', '-labsl_int128', '-labsl_throw_delegate', '-labsl_raw_logging_internal', '-lz', '-lpthread'])
        os.unlink(ar)
        os.replace(exe + '.tmp', exe)
    return exe


if __name__ == '__main__':
    with Lock():
        engine()
        print(lib('bc'))
        print(len(lib('nat')), 'native objects')
        for h in sys.argv[1:]:
            print(harness_bc(h, lib('bc')), harness_native(h))
