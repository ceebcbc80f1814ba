#!/usr/bin/env python3
"""mutate.py OUT.jsonl [--slots N] [--per-file N] [--only SUBSTRING] [--seed N]

Looks for blind spots of the checks: applies small changes, one at a time, to a scratch copy of /repo and runs
the checks of the changed file (from a scratch copy of /verif) until one reports a violation. Mutants that no
check reports are listed as survivors, for a person to judge (many are equivalent or outside every property).
A tool for development: no registered command uses it."""
import json, os, random, re, shutil, subprocess, sys, threading, queue, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = 'knp/core-library/'
F = 'knp/base-framework/'
B = 'knp/backends/cpu/'
L = B + 'cpu-library/include/knp/backends/cpu-library/'
MAP = [
    (F + 'impl/visualizer/', 'C37'), (F + 'include/knp/framework/visualizer/', 'C37'), ('knp/python-framework/impl/', 'C29 C35 C36'),
    (C + 'impl/message_bus', 'C03 C01 C02 C04'), (C + 'impl/message_endpoint.cpp', 'C03 C01 C02'),
    (C + 'include/knp/core/message_endpoint.h', 'C03 C01'), (C + 'include/knp/core/subscription.h', 'C03 C01'),
    (C + 'include/knp/core/message_bus.h', 'C03 C01'),
    (C + 'impl/messaging/', 'C05 C06'), (C + 'include/knp/core/messaging/', 'C05 C06'),
    (C + 'impl/projection.cpp', 'C07'), (C + 'include/knp/core/projection.h', 'C07'),
    (C + 'include/knp/core/population.h', 'C08'), (C + 'impl/uid', 'C28 C04'), (C + 'include/knp/core/uid.h', 'C28'),
    (C + 'include/knp/core/tag.h', 'C28'), (C + 'impl/backend.cpp', 'C23'), (C + 'include/knp/core/backend.h', 'C23 C24'),
    (C + 'include/knp/core/device.h', 'C23'), (C + 'impl/device.cpp', 'C23'),
    (L + 'impl/populations/lif/', 'C14'), (L + 'impl/populations/blifat/blifat_stdp', 'C17'), (L + 'impl/populations/blifat/', 'C15 C17'),
    (L + 'impl/populations/altai/altai_stdp', 'C17'), (L + 'impl/populations/altai/', 'C16 C17'),
    (L + 'impl/populations/training/', 'C17 C11'), (L + 'impl/populations/', 'C17 C15 C11'),
    (L + 'impl/projections/training/stdp/additive', 'C18'), (L + 'impl/projections/training/', 'C17 C11'),
    (L + 'impl/projections/delta', 'C12 C11'), (L + 'impl/projections/', 'C12 C11 C17'), (L + 'populations', 'C17 C14 C11'),
    (L + 'projections', 'C12 C11 C18'), (L, 'C12 C13 C24'),
    (B + 'cpu-single-threaded-backend/impl/get_network', 'C24'), (B + 'cpu-multi-threaded-backend/impl/get_network', 'C24'),
    (B + 'cpu-single-threaded-backend/', 'C12 C13 C24 C23 C17'), (B + 'cpu-multi-threaded-backend/', 'C11 C24 C23 C10'),
    (B + 'thread_pool/', 'C09'), (B + 'cpu-devices/impl/unknown_cpu', 'C23'),
    (F + 'impl/network.cpp', 'C19 C24'), (F + 'include/knp/framework/network.h', 'C19 C30'), (F + 'impl/model.cpp', 'C19 C20'),
    (F + 'include/knp/framework/model.h', 'C19 C20'), (F + 'impl/model_loader', 'C20 C22'), (F + 'include/knp/framework/model_loader.h', 'C20 C22'),
    (F + 'impl/output_channel', 'C21 C20'), (F + 'impl/input_channel', 'C21 C20'), (F + 'include/knp/framework/io/output_channel', 'C21'),
    (F + 'include/knp/framework/io/input_channel', 'C21'), (F + 'impl/model_executor', 'C22'), (F + 'include/knp/framework/model_executor', 'C22'),
    (F + 'include/knp/framework/monitoring/observer', 'C22 C31'), (F + 'impl/message_handlers', 'C25 C22'),
    (F + 'include/knp/framework/message_handlers', 'C25 C22'), (F + 'include/knp/framework/projection/', 'C26'),
    (F + 'include/knp/framework/population/', 'C26'), (F + 'impl/projection/', 'C26'), (F + 'include/knp/framework/io/', 'C27'),
    (F + 'impl/io', 'C27'), (F + 'include/knp/framework/normalization/', 'C30'), (F + 'impl/normalization', 'C30'),
    (F + 'impl/monitoring/', 'C31'), (F + 'include/knp/framework/monitoring/', 'C31'), (F + 'impl/network_validation/', 'C32'),
    (F + 'include/knp/framework/network_validation/', 'C32'), (F + 'impl/inference_evaluation/', 'C33'),
    (F + 'include/knp/framework/inference_evaluation/', 'C33'), (F + 'impl/data_processing/', 'C34'),
    (F + 'include/knp/framework/data_processing/', 'C34'), (F + 'include/knp/framework/coordinates/', 'C28'),
    (F + 'include/knp/framework/tags/', 'C28'), (F + 'impl/', 'C20 C22'),
    ('knp/neuron-traits-library/', 'C14 C15 C16 C17'), ('knp/synapse-traits-library/', 'C12 C17 C18'), ('knp/meta-library/', 'C12 C24'),
]
EXCL = ('/sonata/', '/storage/', 'x86_cpu', '/impl/logging.cpp', 'populations_old', '_test', '/tests/')
OPS = [(r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '), (r' == ', ' != '), (r' != ', ' == '),
       (r' && ', ' || '), (r' \|\| ', ' && '), (r' \+ ', ' - '), (r' - ', ' + '), (r' \+= ', ' -= '), (r' -= ', ' += '), (r' \* ', ' / '),
       (r' / ', ' * '), (r' % ', ' / '), (r'\+\+', '--'), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'(?<![\w.])0(?![\w.])', '1'),
       (r'(?<![\w.])1(?![\w.])', '2'), (r'(?<![\w.])1(?![\w.])', '0'), (r'if \((?!constexpr)(.*)\)$', r'if (!(\1))'), (r'\bbreak;', ';'), (r'\bcontinue;', ';'),
       (r'\bbegin\(\)', 'end()'), (r'source', 'target'), (r'(?<=\.)first\b', 'second'), (r'!(?=[\w(])', ''), (r'std::min', 'std::max'), (r'std::max', 'std::min'),
       (r'lower_bound', 'upper_bound'), (r'upper_bound', 'lower_bound'), (r'\breturn [^;{]+;', 'return {};')]

def candidates(path):
    out = []
    lines = open(path).read().split('\n')
    comment = False
    for i, l in enumerate(lines):
        s = l.strip()
        if comment:
            comment = '*/' not in s
            continue
        if s.startswith('/*'):
            comment = '*/' not in s
            continue
        if not s or s.startswith(('//', '#', '*', 'template', 'namespace', 'using', 'static_assert', 'SPDLOG', 'case ')) or l == s:
            continue
        code = l.split('//')[0]
        for a, b in OPS:
            for m in re.finditer(a, code):
                if 'SPDLOG' in code: continue
                out.append((i, code[:m.start()] + m.expand(b) + code[m.end():]))
        # A whole statement dropped.
        if s.endswith(';') and not s.startswith(('return', 'const', 'auto', 'break', 'throw', 'continue', '}')) and \
                re.match(r'^\s+[\w:\.\->\[\]\(\)\*]+(\(|\.|->| [+\-*/]?= )', l) and not re.match(r'^\s+(std::|[\w:]+(<.*>)?) [\w_]+( = .*)?;', l):
            if lines[i - 1].strip().endswith((';', '{', '}', ')', '*/')) or not lines[i - 1].strip():
                out.append((i, re.match(r'\s*', l).group(0) + ';'))
    return lines, out

def main():
    a = sys.argv[1:]
    def opt(n, d):
        if n in a:
            i = a.index(n); v = a[i + 1]; del a[i:i + 2]
            return v
        return d
    slots, per, only, seed = int(opt('--slots', 2)), int(opt('--per-file', 15)), opt('--only', ''), int(opt('--seed', 1))
    out = a[0]
    rnd = random.Random(seed)
    files = subprocess.run(['git', '-C', '/repo', 'ls-files', 'knp'], capture_output=True, text=True).stdout.split()
    jobs = []
    for f in files:
        if not f.endswith(('.cpp', '.h')) or any(e in f for e in EXCL) or only not in f:
            continue
        checks = next((c for p, c in MAP if f.startswith(p)), None)
        if not checks: continue
        lines, cand = candidates('/repo/' + f)
        n = min(len(cand), max(3, min(per, len(lines) // 8)))
        for i, new in rnd.sample(cand, n):
            jobs.append((f, i, lines[i], new, checks.split()))
    rnd.shuffle(jobs)
    done = set()
    if os.path.exists(out):
        for l in open(out):
            j = json.loads(l); done.add((j['file'], j['line'], j['new']))
    q = queue.Queue()
    for j in jobs:
        if (j[0], j[1] + 1, j[3]) not in done: q.put(j)
    print(len(jobs), 'mutants,', q.qsize(), 'to do')
    lock = threading.Lock()
    def work(k):
        d = '/tmp/mutslot%d' % k
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        subprocess.run(['cp', '-a', '/repo', d + '/repo'], check=True)
        os.makedirs(d + '/verif')
        for x in ('run.py', 'lib', 'checks', 'harness', 'known_findings.txt'):
            subprocess.run(['cp', '-a', V + '/' + x, d + '/verif/'], check=True)
        env = dict(os.environ, KNP_REPO=d + '/repo')
        while True:
            try: f, i, old, new, checks = q.get_nowait()
            except queue.Empty: break
            p = d + '/repo/' + f
            orig = open(p).read()
            lines = orig.split('\n')
            lines[i] = new
            open(p, 'w').write('\n'.join(lines))
            r, by, t = 'SURVIVED', '', time.time()
            for c in checks:
                try:
                    x = subprocess.run(['timeout', '-k', '5', '600', sys.executable, d + '/verif/run.py', c], capture_output=True, text=True, env=env)
                except Exception as e:
                    r = 'ERROR'; by = str(e); break
                if x.returncode == 1: r, by = 'caught', c; break
                if x.returncode == 2: r, by = 'nobuild', c; break
                if x.returncode != 0: r, by = 'BROKEN', c + ' exit %d ' % x.returncode + x.stdout[-300:]; break
            open(p, 'w').write(orig)
            with lock:
                with open(out, 'a') as o:
                    o.write(json.dumps(dict(result=r, by=by, file=f, line=i + 1, old=old, new=new, checks=checks, t=round(time.time() - t))) + '\n')
        shutil.rmtree(d, ignore_errors=True)
    ts = [threading.Thread(target=work, args=(k,)) for k in range(slots)]
    for t in ts: t.start()
    for t in ts: t.join()

main()
