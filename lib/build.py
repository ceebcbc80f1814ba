"""Builds check binaries from /repo's current working tree.

Sources of each component are discovered by globbing, grouped in one unity translation unit per
component (fast), with a fall back to one object per source file if the unity unit does not compile.
"""
import glob, os, subprocess, sys, hashlib, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('KNP_REPO', '/repo')
K = REPO + '/knp'

def cpps(d, excl=()):
    out = []
    for root, _, files in os.walk(d):
        for f in files:
            p = os.path.join(root, f)
            if f.endswith('.cpp') and not any(e in p for e in excl):
                out.append(p)
    return sorted(out)

def groups():
    cpu = K + '/backends/cpu'
    return {
        'core': cpps(K + '/core-library/impl'),
        'framework': cpps(K + '/base-framework/impl',
                          ('/sonata/', '/storage/', '/visualizer/', '/logging.cpp')),
        'visual': cpps(K + '/base-framework/impl/visualizer'),
        'logging': [K + '/base-framework/impl/logging.cpp'],
        'sonata': cpps(K + '/base-framework/impl/sonata'),
        'storage': cpps(K + '/base-framework/impl/storage'),
        'st': cpps(cpu + '/cpu-single-threaded-backend/impl'),
        'mt': cpps(cpu + '/cpu-multi-threaded-backend/impl'),
        'pool': cpps(cpu + '/thread_pool/impl'),
        'dev': [cpu + '/cpu-devices/impl/unknown_cpu.cpp'],
    }

DEFS = ['-DFMT_SHARED', '-DSPDLOG_FMT_EXTERNAL', '-DKNP_FULL_LIBRARY_NAME=libknp-core', '-DKNP_LIBRARY_NAME=knp-core',
        '-DKNP_LIBRARY_NAME_PREFIX=lib', '-DNDEBUG', '-DSPDLOG_ACTIVE_LEVEL=6', '-D_KNP_INTERNAL',
        '-DBOOST_ALL_DYN_LINK', '-DBOOST_ALL_NO_LIB']
LIBS = ['-lzmq', '-lflatbuffers', '-lfmt', '-lboost_filesystem', '-lboost_atomic', '-lpthread', '-ldl']

def includes(gen):
    cpu = K + '/backends/cpu'
    ds = [K + '/core-library/include', K + '/core-library/impl', K + '/neuron-traits-library/include',
          K + '/meta-library/include', K + '/synapse-traits-library/include', gen,
          K + '/base-framework/include', K + '/base-framework/impl',
          cpu + '/cpu-library/include', cpu + '/cpu-devices/include', cpu + '/thread_pool/include',
          cpu + '/cpu-single-threaded-backend/include', cpu + '/cpu-multi-threaded-backend/include',
          VERIF + '/harness']
    return ['-I' + d for d in ds if os.path.isdir(d)]

def generate_fbs(gen):
    out = gen + '/knp_gen_headers'
    os.makedirs(out, exist_ok=True)
    fbs = sorted(glob.glob(K + '/core-library/impl/messaging/fbs/*.fbs'))
    subprocess.run(['flatc', '--cpp', '-o', out] + fbs, check=True, stdout=subprocess.DEVNULL)

def prepare_gen(gen):
    stamp = gen + '/stamp'
    fbs = sorted(glob.glob(K + '/core-library/impl/messaging/fbs/*.fbs'))
    sig = hashlib.sha1(b''.join(open(f, 'rb').read() for f in fbs)).hexdigest()
    if not (os.path.exists(stamp) and open(stamp).read() == sig):
        generate_fbs(gen)
        open(stamp, 'w').write(sig)

# harness/h5stub stands in for HighFive and csv2; the rapidjson installed has GetObject but not its alias GetObj.
STORAGE_FLAGS = ['-I' + VERIF + '/harness/h5stub', '-DGetObj=GetObject',
                 # Values used as of another type are errors, as in builds without NDEBUG.
                 '-DRAPIDJSON_ASSERT(x)=((x)?(void)0:__builtin_trap())']
GROUP_FLAGS = {'visual': ['-isystem', '/usr/include/opencv4'], 'sonata': STORAGE_FLAGS, 'storage': STORAGE_FLAGS}
# Files with definitions that clash: always compiled one by one.
NO_UNITY = ('sonata',)

FLAVORS = {
    'plain': ['-O1', '-D_GLIBCXX_ASSERTIONS'],
    'asan': ['-O1', '-fsanitize=address', '-fno-omit-frame-pointer', '-D_GLIBCXX_ASSERTIONS'],
    'o2': ['-O2'],
    # The multi-threaded backend on harness/stubpool: the explorer orders the tasks.
    'mtstub': ['-O1', '-fsanitize=address', '-fno-omit-frame-pointer', '-D_GLIBCXX_ASSERTIONS', '-I' + VERIF + '/harness/stubpool'],
    # Instrumented for our own runtime (harness/sched): the compiler's ThreadSanitizer hooks, our __tsan_* functions.
    'sched': ['-O1', '-fsanitize=thread', '-g0'],
}

def deps_fresh(obj, dep, cmdfile, cmd):
    try:
        if open(cmdfile).read() != cmd:
            return False
        t = os.stat(obj).st_mtime_ns
        body = open(dep).read().replace('\\\n', ' ').split(':', 1)[1].split()
        return all(os.stat(p).st_mtime_ns < t for p in body)
    except (OSError, IndexError):
        return False

def compile_one(src, obj, flags):
    """Compile src to obj unless it is up to date. Returns (ok, log)."""
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    cmd = ['g++', '-std=c++17', '-w', '-pipe'] + flags + ['-MMD', '-MF', obj + '.d', '-c', src, '-o', obj + '.tmp.o']
    cmds = ' '.join(cmd)
    if deps_fresh(obj, obj + '.d', obj + '.cmd', cmds):
        return True, ''
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        return False, '\n'.join([l for l in r.stdout.split('\n') if 'error' in l or '/checks/' in l][:25]) or r.stdout[-3000:]
    os.replace(obj + '.tmp.o', obj)
    with open(obj + '.cmd', 'w') as f:
        f.write(cmds)
    return True, ''

def build(check_src, use_groups, flavor, extra_flags=(), extra_srcs=(), name=None, harness_flavor=None, link_flags=()):
    bdir = VERIF + '/build/' + flavor
    gen = VERIF + '/build/gen'
    os.makedirs(bdir, exist_ok=True)
    prepare_gen(gen)
    base_flags = FLAVORS[flavor] + DEFS + includes(gen)
    hfl = FLAVORS[harness_flavor or flavor] + DEFS + includes(gen) + list(extra_flags)
    g = groups()
    objs = []
    pool = ThreadPoolExecutor(8)

    def do_group(gr):
        srcs = g[gr]
        fl = base_flags + GROUP_FLAGS.get(gr, [])
        if len(srcs) > 1 and gr not in NO_UNITY:
            u = bdir + '/unity_' + gr + '.cpp'
            txt = ''.join('#include "%s"\n' % s for s in srcs)
            if not (os.path.exists(u) and open(u).read() == txt):
                open(u, 'w').write(txt)
            ok, log = compile_one(u, bdir + '/unity_' + gr + '.o', fl)
            if ok:
                return [bdir + '/unity_' + gr + '.o']
            sys.stderr.write('unity build of %s failed, compiling its files one by one\n' % gr)
        out = []
        jobs = []
        for s in srcs:
            o = bdir + '/' + gr + '_' + hashlib.sha1(s.encode()).hexdigest()[:8] + '_' + os.path.basename(s) + '.o'
            jobs.append((s, o))
        with ThreadPoolExecutor(8) as p:
            for (s, o), (ok, log) in zip(jobs, p.map(lambda j: compile_one(j[0], j[1], fl), jobs)):
                if not ok:
                    raise RuntimeError('cannot compile %s\n%s' % (s, log))
                out.append(o)
        return out

    def do_src(s):
        o = bdir + '/' + (name + '.' if name else '') + os.path.basename(s) + '.o'
        ok, log = compile_one(s, o, hfl)
        if not ok:
            raise RuntimeError('cannot compile %s\n%s' % (s, log))
        return [o]

    if flavor == 'sched':
        # The runtime comes last, so that shared inline functions are taken from the instrumented objects.
        rt = pool.submit(compile_one, VERIF + '/harness/sched.cpp', bdir + '/sched.rt.o', ['-O2'] + DEFS + ['-I' + VERIF + '/harness'])
        link_flags = list(link_flags) + ['-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset']
    futs = [pool.submit(do_src, s) for s in [check_src] + list(extra_srcs)] + [pool.submit(do_group, x) for x in use_groups]
    for f in futs:
        objs += f.result()
    if flavor == 'sched':
        ok, log = rt.result()
        if not ok:
            raise RuntimeError('cannot compile the scheduler\n' + log)
        objs.append(bdir + '/sched.rt.o')
    exe = bdir + '/' + (name or os.path.basename(check_src)[:-4])
    newest = max(os.stat(o).st_mtime_ns for o in objs)
    if not os.path.exists(exe) or os.stat(exe).st_mtime_ns <= newest:
        lf = ['-fsanitize=address'] if flavor in ('asan', 'mtstub') else []
        r = subprocess.run(['g++', '-o', exe + '.tmp'] + objs + lf + list(link_flags) + LIBS + ['-rdynamic'],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise RuntimeError('cannot link\n' + r.stdout[-6000:])
        os.replace(exe + '.tmp', exe)
    return exe
