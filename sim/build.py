#!/usr/bin/env python3
"""Builds the simulator and the code under test from /repo's working tree."""
import os, sys, subprocess, hashlib, glob, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
OUT = os.path.join(V, 'build')
SUTF = ['-std=c++17', '-O1', '-g1', '-fPIC', '-w', '-fno-omit-frame-pointer', '-fsanitize=address', '-fsanitize-coverage=trace-pc', '-include', 'cstdint', '-I' + REPO + '/include']
HARF = ['-std=c++17', '-O1', '-g1', '-w', '-I' + REPO + '/include', '-I' + V + '/sim', '-include', 'cstdint']
REDEF = {'malloc': 'sut_malloc', 'calloc': 'sut_calloc', 'realloc': 'sut_realloc', 'free': 'sut_free', 'strdup': 'sut_strdup', 'exit': 'sut_exit', '_exit': 'sut__exit', '_Exit': 'sut__Exit', 'abort': 'sut_abort',
         '__assert_fail': 'sut_assert_fail', '__cxa_guard_acquire': 'sut_guard_acquire', '__cxa_guard_release': 'sut_guard_release', '__cxa_guard_abort': 'sut_guard_abort',
         '_Znwm': 'sut_new', '_Znam': 'sut_newa', '_ZdlPv': 'sut_delete', '_ZdaPv': 'sut_deletea', '_ZdlPvm': 'sut_delete_sz', '_ZdaPvm': 'sut_deletea_sz'}
# what a process can observe of its surroundings: clocks, its identity, randomness, waiting for others
ENVDEF = {n: 'sut_' + n for n in 'time clock_gettime timespec_get gettimeofday clock getpid getppid gettid rand srand rand_r random srandom drand48 getrandom getentropy arc4random getenv gethostname getuid sleep usleep nanosleep sched_yield'.split()}
ENVDEF.update({'secure_getenv': 'sut_secure_getenv', 'geteuid': 'sut_geteuid', '_ZNSt13random_device9_M_getvalEv': 'sut_rdev', '_ZNSt6chrono3_V212system_clock3nowEv': 'sut_system_now', '_ZNSt6chrono3_V212steady_clock3nowEv': 'sut_steady_now',
               'pthread_mutex_lock': 'sut_mutex_lock', 'pthread_rwlock_rdlock': 'sut_rdlock', 'pthread_rwlock_wrlock': 'sut_wrlock', 'pthread_once': 'sut_once', 'pthread_self': 'sut_pthread_self'})
REDEF.update(ENVDEF)
LLVM = next((c for c in ('/opt/llvm/bin/llvm-config', '/usr/lib/llvm-14/bin/llvm-config') if os.path.exists(c)), 'llvm-config')
_llvm = {}
def llvm(what):
    if what not in _llvm: _llvm[what] = subprocess.run([LLVM, what], stdout=subprocess.PIPE, text=True, check=True).stdout.split()
    return _llvm[what]
SHA = ('sha224_init', 'sha256_init', 'sha256_update', 'sha256_final')
GROUPS = {'db': ['s_db'], 'link': ['s_link'], 'tool': ['s_tool'], 'codec': ['s_codec'], 'misc': ['s_misc'], 'refl': ['s_refl']}
CHECKS = {'C05': 'link', 'C06': 'link', 'C07': 'link', 'C23': 'link', 'C01': 'db', 'C02': 'db', 'C03': 'db', 'C04': 'db', 'C16': 'db', 'C09': 'codec', 'C10': 'codec', 'C08': 'tool', 'C17': 'tool', 'C19': 'tool', 'C13': 'misc', 'C14': 'misc', 'C15': 'misc', 'C20': 'misc', 'C21': 'misc', 'C24': 'link', 'C26': 'link', 'C25': 'misc', 'C27': 'refl', 'C30': 'refl', 'C31': 'refl'}

def run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: raise RuntimeError(' '.join(cmd) + '\n' + r.stdout)
_hdr = {}
def tree_hash(dirs):
    k = tuple(dirs)
    if k not in _hdr:
        h = hashlib.sha256()
        for d in dirs:
            for f in sorted(glob.glob(d + '/**/*.h', recursive=True)): h.update(f.encode()); h.update(open(f, 'rb').read())
        _hdr[k] = h.hexdigest()
    return _hdr[k]
def obj(src, flags, redefine=False, extra=''):
    h = hashlib.sha256((' '.join(flags) + extra + str(redefine) + str(sorted(REDEF.items())) + tree_hash([REPO + '/include', V + '/sim', os.path.dirname(src)])).encode() + src.encode() + open(src, 'rb').read()).hexdigest()[:24]
    o = os.path.join(OUT, 'obj', os.path.basename(src) + '.' + h + '.o')
    if not os.path.exists(o):
        t = o + '.%d.tmp' % os.getpid()
        run(['g++', '-c', src, '-o', t] + flags)
        if redefine: run(['objcopy'] + ['--redefine-sym=%s=%s' % (k, v) for k, v in REDEF.items() if extra != 'plugin' or k in ENVDEF or k in ('exit', '_exit', '_Exit', 'abort', '__assert_fail')] + [t])   # the plug-in shares its heap with the compiler
        if extra == 'fast': run(['objcopy'] + ['--keep-global-symbol=fast_' + n for n in SHA] + [t])
        os.rename(t, o)
    return o
def build(group):
    os.makedirs(os.path.join(OUT, 'obj'), exist_ok=True)
    lib = [f for f in sorted(glob.glob(REPO + '/src/*.cc')) if os.path.basename(f) != 'reflect.cc']
    jobs = [(f, SUTF, True, '') for f in lib]
    if group == 'tool':
        jobs += [(REPO + '/tool/crefltool.cc', SUTF + ['-Dmain=crefltool_main'], True, ''), (REPO + '/tool/asn1tool.cc', SUTF + ['-Dmain=asn1tool_main'], True, '')]
    if group in ('codec', 'misc'):
        jobs += [(f, SUTF + ['-I' + V + '/sim'], True, '') for f in sorted(glob.glob(V + '/sim/shim_%s*.cc' % group))]
    if group == 'misc' and os.path.exists(REPO + '/src/sha256.cc'):      # a second, uninstrumented copy for very long messages
        jobs += [(REPO + '/src/sha256.cc', ['-std=c++17', '-O2', '-fPIC', '-w', '-include', 'cstdint', '-I' + REPO + '/include'] + ['-D%s=fast_%s' % (n, n) for n in SHA], False, 'fast')]
    if group == 'refl':       # flags of the project's own build: its standard first, then what llvm-config says
        jobs += [(REPO + '/src/reflect.cc', SUTF + ['-fno-rtti'] + llvm('--cxxflags'), True, 'plugin'), (V + '/sim/clang_host.cc', ['-std=c++17', '-O1', '-g1', '-w', '-fno-rtti', '-I' + V + '/sim'] + [f for f in llvm('--cxxflags') if not f.startswith('-std')], False, '')]
    libs = ['-L' + llvm('--libdir')[0], '-lclang-cpp'] + llvm('--libs') if group == 'refl' else []
    jobs += [(V + '/sim/core.cc', HARF, False, '')] + [(V + '/sim/%s.cc' % s, HARF, False, '') for s in GROUPS[group]]
    jobs.sort(key=lambda j: -os.path.getsize(j[0]))
    with cf.ThreadPoolExecutor(8) as ex: objs = list(zip([j[0] for j in jobs], ex.map(lambda j: obj(*j), jobs)))
    sut = [o for s, o in objs if not s.startswith(V + '/sim/') or os.path.basename(s).startswith('shim_')]
    har = [o for s, o in objs if o not in sut]
    key = hashlib.sha256(b'soname1' + ' '.join(sorted(sut + har)).encode()).hexdigest()[:20]
    d = os.path.join(OUT, group + '-' + key); exe = os.path.join(d, 'sim')
    if not os.path.exists(exe):
        os.makedirs(d, exist_ok=True)
        so = os.path.join(d, 'libsut.so')
        run(['g++', '-shared', '-fsanitize=address', '-Wl,-z,now', '-Wl,-z,relro', '-Wl,-soname,libsut.so', '-o', so] + sorted(sut) + libs)
        run(['g++', '-fsanitize=address', '-rdynamic', '-o', exe + '.tmp'] + sorted(har) + [so, '-ldl'] + libs + [ '-Wl,-rpath,$ORIGIN'])
        os.rename(exe + '.tmp', exe)
    return exe
if __name__ == '__main__':
    for g in sys.argv[1:] or list(GROUPS): print(build(g))
