#!/usr/bin/env python3
"""Builds the simulator from /repo's working tree and decides one property.

  check.py C01 [--tier quick|thorough] [--runs N] [--max-seconds S] [--keep-going]
  check.py --build GROUP|all       build only
  check.py --replay FILE           re-execute a replay file (verbose)
"""
import glob, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('SIM_REPO', '/repo')
BUILD = os.environ.get('SIM_BUILD', os.path.join(VERIF, 'build'))
sys.path.insert(0, VERIF)
from props import PROPS, GROUPS, COMMON_ASSUMPTIONS  # noqa: E402

CXX = 'clang++'
CXXFLAGS = ('-std=c++17 -O1 -gline-tables-only -fno-omit-frame-pointer -w '
            '-fsanitize=address,undefined -fno-sanitize-recover=all '
            '-fno-sanitize=vptr,function '
            '-D_GLIBCXX_ASSERTIONS -UNDEBUG')
LDFLAGS = ('-fsanitize=address,undefined -Wl,--wrap=time -Wl,--wrap=fopen '
           '-Wl,--wrap=fopen64 -Wl,--wrap=stat -Wl,--wrap=remove -Wl,--wrap=gettimeofday -lpthread')


def repo_sources(patterns):
    out = []
    for p in patterns:
        for f in sorted(glob.glob(os.path.join(REPO, p))):
            b = os.path.basename(f)
            if b.endswith('_test.cc') or b.endswith('_tests.cc') or b.endswith('_main.cc'):
                continue
            if re.search(r'^\s*int\s+main\s*\(', open(f, errors='replace').read(), re.M):
                continue
            out.append(f)
    return out


def build(groups):
    """Generates a ninja file for the groups and builds them."""
    os.makedirs(BUILD, exist_ok=True)
    lines = ['cxx = %s' % CXX, 'flags = %s -I%s -I%s/webm_parser/include -I%s/webm_parser -I%s/sim' %
             (CXXFLAGS, REPO, REPO, REPO, VERIF),
             'extra =',
             'rule cc', '  command = $cxx $flags $extra -MMD -MF $out.d -c $in -o $out',
             '  depfile = $out.d', '  deps = gcc',
             'rule link', '  command = $cxx $in %s -o $out' % LDFLAGS]
    done = set()
    for g in groups:
        objs = []
        extra = GROUPS[g].get('cflags', '')
        srcs = repo_sources(GROUPS[g]['repo']) + [os.path.join(VERIF, 'sim', s) for s in GROUPS[g]['sim']]
        for s in srcs:
            o = os.path.join('obj' + ('_' + g if extra else ''), s.lstrip('/').replace('/', '_') + '.o')
            if o not in done:
                lines.append('build %s: cc %s' % (o, s))
                if extra:
                    lines.append('  extra = ' + extra)
                done.add(o)
            objs.append(o)
        lines.append('build sim_%s: link %s' % (g, ' '.join(objs)))
    nj = os.path.join(BUILD, 'build_%s.ninja' % '_'.join(groups))
    open(nj, 'w').write('\n'.join(lines) + '\n')
    r = subprocess.run(['ninja', '-C', BUILD, '-f', os.path.basename(nj)] + ['sim_' + g for g in groups],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        print(r.stdout[-6000:])
        print('ERROR: building the simulator from %s failed' % REPO)
        sys.exit(2)


def sim_env():
    e = dict(os.environ)
    e['ASAN_OPTIONS'] = ('detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:'
                         'max_malloc_fill_size=4096:malloc_fill_byte=190:detect_stack_use_after_return=0:'
                         'symbolize=1:handle_abort=0:quarantine_size_mb=16')
    e['UBSAN_OPTIONS'] = 'print_stacktrace=1:exitcode=99'
    e['LC_ALL'] = 'C'
    return e


def run_replay(binary, path, verbose=False):
    r = subprocess.run([binary, 'replay', path] + (['v'] if verbose else []), env=sim_env(),
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace')
    m = re.search(r'^REPLAY key=(.*) hash=([0-9a-f]+)$', r.stdout, re.M)
    if m:
        return m.group(1), m.group(2), r
    return 'crash', '0', r


def crash_class(key):
    return key.startswith('crash:')


def known_findings(prop):
    out = []
    p = os.path.join(VERIF, 'known_findings.jsonl')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith('#') and not l.startswith('fixed:'):
                d = json.loads(l)
                if d['property'] == prop:
                    out.append(d)
    return out


def main():
    a = sys.argv[1:]
    if a and a[0] == '--build':
        build(list(GROUPS) if a[1] == 'all' else a[1].split(','))
        return 0
    if a and a[0] == '--replay':
        prop = re.search(r'^property (\S+)', open(a[1]).read(), re.M).group(1)
        g = PROPS[prop]['group']
        build([g])
        key, h, r = run_replay(os.path.join(BUILD, 'sim_' + g), a[1], True)
        sys.stdout.write(r.stdout)
        sys.stdout.write(r.stderr[:6000])
        return r.returncode
    prop = a[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    opts = dict(zip(a[1::2], a[2::2]))
    tier = opts.get('--tier', tier)
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    P = PROPS[prop]
    runs = int(opts.get('--runs', P['runs'][0 if tier == 'quick' else 1]))
    max_s = float(opts.get('--max-seconds', 240 if tier == 'quick' else 3000))
    t0 = time.time()
    build([P['group']])
    tb = time.time() - t0
    binary = os.path.join(BUILD, 'sim_' + P['group'])
    replay_dir = os.path.join(VERIF, 'evidence', 'replays')
    os.makedirs(replay_dir, exist_ok=True)
    for f in glob.glob(os.path.join(replay_dir, prop + '-*.replay')):
        os.remove(f)
    tmp = tempfile.mkdtemp(prefix='sim-')
    try:
        out = os.path.join(tmp, 'result.json')
        r = subprocess.run([binary, 'run', '--prop', prop, '--seed', str(seed), '--runs', str(runs),
                            '--max-seconds', str(max_s), '--out', out, '--tmp', tmp,
                            '--replay-dir', replay_dir, '--known',
                            '\n'.join(k['key'] for k in known_findings(prop) if not k.get('match'))], env=sim_env(), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors='replace')
        if not os.path.exists(out):
            print(r.stderr[-3000:])
            print('ERROR: simulator did not produce a result (exit %d)' % r.returncode)
            return 2
        res = json.load(open(out))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

    violations, errors, kf_lines = [], [], []
    known = known_findings(prop)
    for f in res['failures']:
        # Gate: a fresh process must reproduce it from the replay file.
        k1, h1, r1 = run_replay(binary, f['replay'])
        k2, h2, r2 = run_replay(binary, f['replay'])
        if crash_class(f['key']):
            ok = r1.returncode not in (0, 1) and r2.returncode not in (0, 1)
        else:
            ok = k1 == f['key'] == k2 and h1 == f['hash'] == h2
        with open(f['replay'], 'a') as o:
            _, _, rv = run_replay(binary, f['replay'], True)
            o.write('trace\n' + rv.stdout[-60000:] + rv.stderr[:8000])
        if f['key'].startswith('harness:') or not ok:
            errors.append(f)
            continue
        hit = next((k for k in known if re.fullmatch(k['key'], f['key']) and re.search(k.get('match', ''), f['message'])), None)
        if hit:
            kf_lines.append('KNOWN-FINDING: property=%s %s' % (prop, hit['what']))
        else:
            violations.append(f)
    # Listed findings are re-demonstrated from their committed replay file.
    for k in known:
        line = 'KNOWN-FINDING: property=%s %s' % (prop, k['what'])
        if k.get('replay') and line not in kf_lines:
            key, h, rr = run_replay(binary, os.path.join(VERIF, k['replay']))
            if re.fullmatch(k['key'], key) or (key == 'crash' and crash_class(k['key'])):
                kf_lines.append(line)
    for l in sorted(set(kf_lines)):
        print(l)

    wall = time.time() - t0
    c = res['counters']
    faults = {k[6:]: v for k, v in c.items() if k.startswith('fault.')}
    other = {k: v for k, v in c.items() if not k.startswith('fault.')}
    rate = res['runs'] / max(res['explore_s'], 1e-9) * 3600
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': P.get('level', 'exploration'),
        'coverage': {
            'evaluations': res['runs'],
            'distinct_nontrivial': min(res['nontrivial'], res['distinct_histories']),
            'rule': P['rule'] + ' A run is one seeded simulation; it counts as non-trivial when ' + P['nontrivial'] +
                    '; distinct = different hash of the full event history (notifications, statuses, I/O and fault trace).',
            'samples': [{'run_seed': seed, 'property': prop, 'run_index': i,
                         'replay_cmd': 'build/sim_%s one %s %d %d v' % (P['group'], prop, seed, i)} for i in range(3)],
            'distinct_histories': res['distinct_histories'],
            'runs_per_hour': round(rate), 'seeds_per_hour': round(rate),
            'simulated_steps': res['sim_steps'],
            'simulated_time': P.get('simtime', 'no wall clock in the code under test; simulated time is counted in I/O steps'),
            'faults_injected': faults, 'counters': other,
            'real_components': P['real'], 'stub_components': P['stub'],
            'runs_requested': res['runs_requested'], 'build_s': round(tb, 1), 'explore_s': round(res['explore_s'], 1),
            'slowest_run': res['slowest_run'], 'slowest_run_cpu_s': round(res['slowest_run_cpu_s'], 2),
        },
        'assumptions': COMMON_ASSUMPTIONS + P.get('assumptions', []),
        'wall_s': round(wall, 1), 'violations': len(violations),
        'known_findings_seen': kf_lines,
        'failures': res['failures'],
    }
    # a written-out sample case of this run
    try:
        s = subprocess.run([binary, 'one', prop, str(seed), '1', 'v'], env=sim_env(), stdout=subprocess.PIPE,
                           stderr=subprocess.DEVNULL, text=True, errors='replace', timeout=60)
        ev['coverage']['samples'].append({'run_index': 1, 'trace_head': s.stdout[:1500].split('\n'), 'outcome': s.stdout.strip().split('\n')[-1]})
    except Exception:
        pass
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)
    print('%s %s seed=%d: %d runs (%d distinct histories, %d nontrivial), %d faults injected, build %.1fs explore %.1fs' %
          (prop, tier, seed, res['runs'], res['distinct_histories'], res['nontrivial'], sum(faults.values()), tb, res['explore_s']))
    for f in violations:
        print('  key: %s' % f['key'])
        print('  %s' % f['message'][:1500].replace('\n', '\n  '))
        print('VIOLATION property=%s replay=%s' % (prop, f['replay']))
    if violations:
        return 1
    if errors:
        for f in errors:
            print('ERROR: not reproducible or harness failure: %s %s' % (f['key'], f['message'][:800]))
        return 3
    if res['runs'] < min(P.get('min_runs', 50), runs):
        print('ERROR: too few runs')
        return 3
    return 0


if __name__ == '__main__':
    sys.exit(main())
