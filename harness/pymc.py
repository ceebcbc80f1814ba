"""Explicit-state exploration of the Python modules: every sequence of choices of a scenario is executed on the real
modules (and on the scenario's own model), in forked workers, so that a crash is attributed to the choices that led to it."""
import json, mmap, os, pickle, signal, struct, sys, time, traceback, zlib

class Violation(Exception):
    pass

class Skip(BaseException):
    pass

class Ctx:
    def __init__(self, prefix, shared, part, parts, split):
        self.vec, self.ns, self.hist = list(prefix), [], []
        self.pos, self.shared, self.part, self.parts, self.split = 0, shared, part, parts, split
        self.ops, self.states, self.validated = 0, set(), 0

    def publish(self):
        v = self.vec
        self.shared[0:4 + 2 * len(v)] = struct.pack('<I%dH' % len(v), len(v), *v)

    def choose(self, n):
        """One of 0 .. n-1; every value is tried."""
        assert n > 0
        if self.pos == self.split and self.parts > 1 and zlib.crc32(bytes(self.vec[:self.split])) % self.parts != self.part:
            raise Skip()
        if self.pos == len(self.vec):
            self.vec.append(0)
            self.publish()
        assert self.vec[self.pos] < n, 'the scenario is not deterministic'
        if len(self.ns) <= self.pos:
            self.ns.append(n)
        self.pos += 1
        return self.vec[self.pos - 1]

    def pick(self, items):
        return items[self.choose(len(items))]

    def op(self, text):
        """One transition; its text becomes part of the history."""
        self.ops += 1
        self.hist.append(text)

    def state(self, s):
        """A state of the model that the implementation was found to agree with."""
        self.validated = 1
        self.states.add(zlib.crc32(repr(s).encode()) | (len(repr(s)) << 32))

    def check(self, cond, text):
        if not cond:
            raise Violation(text)

    def equal(self, got, want, what):
        if not (got == want):
            raise Violation('%s: got %r, expected %r' % (what, got, want))

    def raises(self, kinds, f, what):
        try:
            r = f()
        except kinds:
            return
        except Exception as e:
            raise Violation('%s: raised %s: %s' % (what, type(e).__name__, e))
        raise Violation('%s: no exception, result %r' % (what, r))

SHARED = 4096

def run_one(fn, c):
    """None, or what went wrong."""
    signal.alarm(60)
    try:
        fn(c)
    except Skip:
        signal.alarm(0)
        raise
    except Violation as e:
        return str(e)
    except Exception as e:
        return 'unexpected %s: %s; %s' % (type(e).__name__, e, traceback.format_exc(limit=-2).replace('\n', ' | '))
    finally:
        signal.alarm(0)
    return None

def worker(fn, part, parts, split, start, shared, out):
    res = dict(executions=0, ops=0, states=set(), validated=0, bad=None, samples=[])
    vec = start
    while vec is not None:
        c = Ctx(vec, shared, part, parts, split)
        c.publish()
        skipped = False
        try:
            bad = run_one(fn, c)
        except Skip:
            skipped, bad = True, None
        if not skipped and parts > 1 and c.pos < split and zlib.crc32(bytes(c.vec[:c.pos])) % parts != part and bad is None:
            skipped = True
        if not skipped:
            res['executions'] += 1
            res['ops'] += c.ops
            res['states'] |= c.states
            res['validated'] += c.validated
            if res['executions'] in (1, 20, 300) and len(res['samples']) < 3:
                res['samples'].append((list(c.vec[:c.pos]), c.hist[:12]))
        if bad is not None:
            res['bad'] = (c.vec[:c.pos], c.hist, bad)
            break
        vec, ns = c.vec[:c.pos], c.ns[:c.pos]
        while vec and vec[-1] + 1 >= ns[len(vec) - 1]:
            vec.pop()
        if not vec:
            break
        vec[-1] += 1
    with os.fdopen(out, 'wb') as f:
        pickle.dump(res, f)

def explore(fn, workers, split):
    jobs = []
    sys.stdout.flush()
    for p in range(workers):
        shared = mmap.mmap(-1, SHARED)
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            code = 0
            try:
                worker(fn, p, workers, split, [], shared, w)
            except BaseException:
                traceback.print_exc()
                code = 3
            sys.stdout.flush()
            os._exit(code)
        os.close(w)
        jobs.append((pid, r, shared))
    total = dict(executions=0, ops=0, states=set(), validated=0, bad=None, samples=[])
    for pid, r, shared in jobs:
        with os.fdopen(r, 'rb') as f:
            data = f.read()
        status = os.waitpid(pid, 0)[1]
        if data:
            res = pickle.loads(data)
            for k in ('executions', 'ops', 'validated'):
                total[k] += res[k]
            total['states'] |= res['states']
            total['samples'] += res['samples']
            if res['bad'] and total['bad'] is None:
                total['bad'] = res['bad']
        if os.WIFSIGNALED(status):
            n = struct.unpack('<I', shared[0:4])[0]
            vec = list(struct.unpack('<%dH' % n, shared[4:4 + 2 * n]))
            sig = os.WTERMSIG(status)
            total['bad'] = (vec, [], 'the process did not finish within 60 s' if sig == signal.SIGALRM else
                            'the process was ended by signal %d (%s)' % (sig, signal.Signals(sig).name))
        elif status:
            raise RuntimeError('a worker failed')
    return total

def in_child(fn, vec):
    """Runs one execution in a child of its own. Returns (what went wrong or None, history)."""
    shared = mmap.mmap(-1, SHARED)
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        c = Ctx(vec, shared, 0, 1, 0)
        class Tee(list):
            def append(self, x):
                os.write(w, (x + '\n').encode())
        c.hist = Tee()
        bad = run_one(fn, c)
        if bad is not None:
            os.write(w, ('!' + bad.replace('\n', ' ') + '\n').encode())
        os._exit(0)
    os.close(w)
    with os.fdopen(r, 'r') as f:
        lines = f.read().split('\n')[:-1]
    status = os.waitpid(pid, 0)[1]
    bad = [l[1:] for l in lines if l.startswith('!')]
    hist = [l for l in lines if not l.startswith('!')]
    if os.WIFSIGNALED(status):
        bad = ['ended by signal %s' % signal.Signals(os.WTERMSIG(status)).name]
    return (bad[0] if bad else None), hist

def main(prop, scenarios, explanation, assumptions, argv):
    """scenarios: (name, function, bound of the quick tier, split depth, run in the quick tier)."""
    opt = dict(zip(argv[::2], argv[1::2]))
    tier, seed = opt.get('--tier', 'quick'), int(opt.get('--seed', '1'))
    t0 = time.time()
    if '--replay' in opt:
        rep = json.load(open(opt['--replay']))
        fn = [s for s in scenarios if s[0] == rep['scenario']][0][1]
        bad, hist = in_child(lambda c: fn(c, rep.get('tier', tier)), rep['choices'])
        print('\n'.join(hist))
        print('what failed: %s' % bad)
        if bad:
            print('VIOLATION property=%s replay=%s' % (prop, opt['--replay']))
        return 1 if bad else 0
    cov = dict(states=0, transitions=0, traces_validated_against_impl=0, distinct_outcomes=0, exhaustive=True, explanation=explanation, scenarios=[], samples=[])
    states, violations = set(), 0
    for name, fn, bound, split in scenarios:
        if '--only' in opt and name != opt['--only']:
            continue
        t = time.time()
        tot = explore(lambda c, fn=fn: fn(c, tier), int(os.environ.get('J', '8')) if split else 1, split)
        states |= {(name, s) for s in tot['states']}
        cov['transitions'] += tot['ops']
        cov['traces_validated_against_impl'] += tot['validated']
        cov['scenarios'].append(dict(scenario=name, executions=tot['executions'], transitions=tot['ops'], complete=tot['bad'] is None, bound=bound))
        cov['samples'] += [dict(scenario=name, choices=v, history=h) for v, h in tot['samples'][:2]]
        print('  %-28s %8d executions %9d transitions %7d states %6.1fs' % (name, tot['executions'], tot['ops'], len(tot['states']), time.time() - t))
        if tot['bad'] is not None:
            vec, hist, bad = tot['bad']
            bad2, hist2 = in_child(lambda c: fn(c, tier), vec)
            path = '%s/%s-%s.json' % (opt.get('--replays', '.'), prop, name)
            json.dump(dict(property=prop, scenario=name, tier=tier, choices=vec, history=hist2 or hist, failure=bad), open(path, 'w'), indent=1)
            print('  scenario %s: %s' % (name, bad))
            print('\n'.join('    ' + h for h in (hist2 or hist)[-30:]))
            print('VIOLATION property=%s replay=%s' % (prop, path))
            violations += 1
            cov['exhaustive'] = False
    cov['states'] = len(states)
    cov['distinct_outcomes'] = len(states)
    if '--evidence' in opt and '--only' not in opt:
        json.dump(dict(property=prop, tier=tier, seed=seed, level='model_checking', coverage=cov, assumptions=assumptions,
                       wall_s=round(time.time() - t0, 3), violations=violations), open(opt['--evidence'], 'w'), indent=1)
    print('%s: %s' % (prop, 'held on everything explored' if not violations else '%d violations' % violations))
    return 1 if violations else 0
