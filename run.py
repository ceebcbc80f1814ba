#!/usr/bin/env python3
"""run.py <property> [--tier quick|thorough] [--replay FILE] [--only SCENARIO]: build from /repo and decide one property."""
import os, sys, subprocess, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE + '/lib')
import build, checks

def main():
    prop = sys.argv[1]
    rest = sys.argv[2:]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = os.environ.get('VERIF_SEED', '1')
    if '--tier' in rest:
        i = rest.index('--tier')
        tier = rest[i + 1]
        del rest[i:i + 2]
    spec = checks.CHECKS[prop]
    t = time.time()
    for d in ('evidence', 'replays', 'build'):
        os.makedirs(HERE + '/' + d, exist_ok=True)
    if spec.get('kind') == 'python':
        return run_python(prop, spec, tier, seed, rest, t)
    try:
        exe = build.build(HERE + '/checks/' + spec['src'], spec['groups'], spec.get('flavor', 'asan'),
                          extra_flags=spec.get('flags', ()), extra_srcs=[HERE + '/' + s for s in spec.get('extra', ())],
                          harness_flavor=spec.get('harness_flavor'), name=spec.get('name'), link_flags=spec.get('link', ()))
    except Exception as e:
        print('ERROR: build failed: %s' % e)
        return 2
    print('%s: built in %.1fs' % (prop, time.time() - t))
    sys.stdout.flush()
    env = dict(os.environ)
    env['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=99:max_malloc_fill_size=65536:allocator_may_return_null=0:detect_stack_use_after_return=0'
    env['KNP_VERIF_SCRATCH'] = HERE + '/build'
    cmd = [exe, '--tier', tier, '--seed', seed, '--evidence', '%s/evidence/%s.json' % (HERE, prop),
           '--known', HERE + '/known_findings.txt', '--replays', HERE + '/replays'] + rest
    r = subprocess.run(cmd, env=env)
    if r.returncode not in (0, 1):
        print('ERROR: check exited with %d' % r.returncode)
    return r.returncode if r.returncode in (0, 1) else 3

def run_python(prop, spec, tier, seed, rest, t):
    import pybuild
    try:
        out = pybuild.build_py(('st', 'mt'))
    except Exception as e:
        print('ERROR: build failed: %s' % e)
        return 2
    print('%s: built in %.1fs' % (prop, time.time() - t))
    sys.stdout.flush()
    # Freed memory is overwritten, so that a use of it shows.
    env = dict(os.environ, KNP_PY=out, MALLOC_PERTURB_='85', PYTHONDONTWRITEBYTECODE='1')
    r = subprocess.run(['python3', HERE + '/checks/' + spec['src'], '--tier', tier, '--seed', seed, '--evidence', '%s/evidence/%s.json' % (HERE, prop),
                        '--known', HERE + '/known_findings.txt', '--replays', HERE + '/replays'] + rest, env=env)
    if r.returncode not in (0, 1):
        print('ERROR: check exited with %d' % r.returncode)
    return r.returncode if r.returncode in (0, 1) else 3

sys.exit(main())
