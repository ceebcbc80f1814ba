"""Builds the Python modules of /repo (and the backend plugins they load) into build/py."""
import glob, os, shutil, subprocess
from concurrent.futures import ThreadPoolExecutor
import build
from build import K, VERIF, compile_one, groups, includes, DEFS

OUT = VERIF + '/build/py'
PY = K + '/python-framework/impl'

def build_py(plugins=()):
    gen = VERIF + '/build/gen'
    os.makedirs(OUT, exist_ok=True)
    build.prepare_gen(gen)
    ver = subprocess.run(['python3', '-c', 'import sys, sysconfig; print(sys.version_info.major, sys.version_info.minor, sysconfig.get_path("include"))'],
                         stdout=subprocess.PIPE, text=True, check=True).stdout.split()
    common = ['-O0', '-g0', '-fPIC', '-D_GLIBCXX_ASSERTIONS']
    base = common + DEFS + includes(gen)
    mods = {}
    for m in ('core', 'neuron_traits', 'synapse_traits', 'base_framework'):
        mods[m] = [f for f in sorted(glob.glob(PY + '/' + m + '/cpp/*.cpp')) if not f.endswith('/network_io.cpp')]
    jobs = []  # (source, object, flags), the slowest ones first
    def unity(name, srcs, extra=''):
        u = OUT + '/' + name + '.cpp'
        txt = ''.join('#include "%s"\n' % s for s in srcs) + extra
        if not (os.path.exists(u) and open(u).read() == txt):
            open(u, 'w').write(txt)
        return u
    objs = {}  # module or 'lib_' + library group -> its objects
    for m in ('core', 'base_framework', 'neuron_traits', 'synapse_traits'):
        drop = ('-DKNP_FULL_LIBRARY_NAME', '-DKNP_LIBRARY_NAME')
        fl = common + [d for d in DEFS if not d.startswith(drop)] + \
            ['-DBOOST_PYTHON_DYN_LINK', '-DBOOST_PYTHON_NO_LIB', '-DKNP_FULL_LIBRARY_NAME=_knp_python_framework_' + m,
             '-DKNP_LIBRARY_NAME=knp_python_framework_' + m, '-DKNP_LIBRARY_NAME_PREFIX=_'] + includes(gen) + ['-isystem', ver[2]]
        # Files whose names clash or that include one another cannot share a translation unit: two halves, one by one if need be.
        srcs = mods[m]
        n = 2 if len(srcs) > 6 else 1
        objs[m] = []
        for i in range(n):
            part = srcs[i::n]
            # The bindings of sonata storage need libraries that are not installed.
            extra = 'void export_network_io() {}\n' if m == 'base_framework' and i == 0 else ''
            jobs.append((unity('py_%s_%d' % (m, i), part, extra), '%s/py_%s_%d.o' % (OUT, m, i), fl, part, extra, objs[m]))
    g = groups()
    for gr in ('core', 'framework', 'logging', 'dev') + tuple(plugins) + (('pool',) if 'mt' in plugins else ()):
        objs['lib_' + gr] = []
        jobs.append((unity('lib_' + gr, g[gr]), '%s/lib_%s.o' % (OUT, gr), base, g[gr], '', objs['lib_' + gr]))
    def run(j):
        src, obj, fl, part, extra, into = j
        ok, log = compile_one(src, obj, fl)
        if ok:
            into.append(obj)
            return
        for k, s in enumerate(part):
            o = obj[:-2] + '_%d.o' % k
            ok, log = compile_one(s, o, fl)
            if not ok:
                raise RuntimeError('cannot compile %s\n%s' % (s, log))
            into.append(o)
        if extra:
            e = obj[:-2] + '_extra.cpp'
            open(e, 'w').write(extra)
            compile_one(e, e[:-4] + '.o', fl)
            into.append(e[:-4] + '.o')
    with ThreadPoolExecutor(8) as p:
        list(p.map(run, jobs))
    def link(out, os_, libs):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        if os.path.exists(out) and all(os.stat(o).st_mtime_ns < os.stat(out).st_mtime_ns for o in os_):
            return
        r = subprocess.run(['g++', '-shared', '-o', out + '.tmp'] + os_ + libs, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise RuntimeError('cannot link\n' + r.stdout[-4000:])
        os.replace(out + '.tmp', out)
    # As in the repository's own build, the core is linked into each library that uses it.
    ext = ['-lzmq', '-lflatbuffers', '-lfmt', '-lboost_filesystem', '-lboost_atomic', '-lpthread', '-ldl']
    fw = OUT + '/bin/libknp-base-framework-core.so'
    link(fw, objs['lib_framework'] + objs['lib_logging'] + objs['lib_core'], ext + ['-Wl,-soname,libknp-base-framework-core.so'])
    names = {'st': 'libknp-cpu-single-threaded-backend.so', 'mt': 'libknp-cpu-multi-threaded-backend.so'}
    for p in plugins:
        link(OUT + '/bin/' + names[p], objs['lib_' + p] + objs['lib_dev'] + (objs['lib_pool'] if p == 'mt' else []) + objs['lib_core'], ext)
    lib = ['-lboost_python%s%s' % (ver[0], ver[1]), '-Wl,-rpath,' + OUT + '/bin']
    for m in mods:
        dst = '%s/knp/%s' % (OUT, m)
        dep = objs['lib_core'] + [fw] if m in ('core', 'base_framework') else []
        link('%s/_knp_python_framework_%s.so' % (dst, m), objs[m] + dep, lib + ext)
        for f in glob.glob(PY + '/' + m + '/python/*.py'):
            shutil.copy(f, dst)
    shutil.copy(K + '/python-framework/packaging/python/__init__.py', OUT + '/knp/')
    return OUT
