#!/usr/bin/env python3
"""check.py ID quick|thorough   decide one property on /repo's current working tree
   check.py --replay FILE       run a recorded counterexample against the real code
Exit 0: held on everything explored; 1: VIOLATION printed; 2: the check itself failed."""
import fcntl, json, os, re, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from bounds import CHECKS
SYMX = HERE + '/symx/target/release/symx'
EV = HERE + '/evidence'
TOTAL = {'quick': 660, 'thorough': 7200}

def die(msg):
    print('ERROR ' + msg)
    sys.exit(2)

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)

def build():
    os.makedirs(HERE + '/harness/.lock.d', exist_ok=True)
    with open(HERE + '/harness/.lock.d/lock', 'w') as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        env = dict(os.environ, RUSTUP_TOOLCHAIN='stable', CARGO_NET_OFFLINE='true')
        r = sh(['cargo', 'build', '--release', '--offline', '--quiet'], cwd=HERE + '/symx', env=env)
        if r.returncode: die('symx does not build:\n' + r.stderr[-3000:])
        r = sh(['bash', HERE + '/harness/build.sh', 'sym'])
        if r.returncode: die('/repo does not build for the executor:\n' + r.stderr[-3000:])
        keep = tempfile.mktemp(suffix='.ll', dir=scratch())
        subprocess.check_call(['cp', r.stdout.strip(), keep])
        nat = build_native('nat')
    return keep, nat

def build_native(variant):
    """nat: real hash functions; mock: the stand-ins of the symbolic run"""
    r = sh(['bash', HERE + '/harness/build.sh', variant])
    if r.returncode: die('/repo does not build for replay:\n' + r.stderr[-3000:])
    nat = tempfile.mktemp(suffix='.' + variant, dir=scratch())
    subprocess.check_call(['cp', r.stdout.strip(), nat])
    return nat

_scratch = None
def scratch():
    global _scratch
    if _scratch is None:
        import atexit, shutil
        _scratch = tempfile.mkdtemp(prefix='check-')
        atexit.register(lambda: shutil.rmtree(_scratch, ignore_errors=True))
    return _scratch

def write_inputs(path, inputs, head=()):
    with open(path, 'w') as f:
        for h in head: f.write('# ' + h + '\n')
        for n, v in inputs: f.write('%s %s\n' % (n, v))

def native(nat, entry, params, path, max_alloc):
    """-> (outcome, message, log): outcome ok | violated | assumption | mismatch | hang | crash"""
    cmd = [nat, entry, path] + ['%s=%d' % kv for kv in params.items()] + ['max-alloc=%d' % max_alloc]
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL, timeout=30, cwd=scratch())
    except subprocess.TimeoutExpired:
        return 'hang', 'does not terminate', []
    out = r.stdout.decode('utf-8', 'replace').splitlines()
    msgs = [l[9:] for l in out if l.startswith('VIOLATED ')]
    log = [tuple(l[4:].rsplit(' ', 1)) for l in out if l.startswith('LOG ')]
    if r.returncode == 42 or msgs: return 'violated', '; '.join(msgs), log
    if r.returncode == 0: return 'ok', '', log
    if r.returncode == 5: return 'assumption', '', log
    if r.returncode == 4: return 'mismatch', ' '.join(out[-1:]), log
    if out[-1:] == ['no such entry']: return 'mismatch', out[-1], log
    return 'crash', 'exit %d %s' % (r.returncode, ' '.join(out[-1:])), log

def printable(inputs):
    return ['%s=%s' % (n, v) for n, v in inputs]

def known_findings():
    """[(property, key, text)] of the findings recorded as not repaired."""
    out = []
    for l in open(HERE + '/known_findings.txt'):
        m = re.match(r'known: property=(\S+) key=(\S+) (.*)', l)
        if m: out.append(m.groups())
    return out

def main():
    if sys.argv[1] == '--replay':
        t = open(sys.argv[2]).read().splitlines()
        meta = json.loads([l for l in t if l.startswith('# run ')][0][6:])
        nat = build_native(meta.get('variant', 'nat'))
        o = native(nat, meta['entry'], meta['params'], os.path.abspath(sys.argv[2]), meta['max_alloc'])
        print(o[0], o[1])
        sys.exit(1 if o[0] in ('violated', 'hang', 'crash') else 0)
    pid, tier = sys.argv[1], sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    c = CHECKS[pid]
    t0 = time.time()
    os.makedirs(EV, exist_ok=True)
    evf = '%s/%s.json' % (EV, pid)
    if os.path.exists(evf): os.remove(evf)
    ll, nat = build()
    build_s = time.time() - t0
    known = [k for k in known_findings() if k[0] == pid]
    runs, functions, samples, errors, covers, incomplete = [], set(), [], [], {}, []
    validated = 0
    violation = mock = None
    found_known = {}
    todo = [r + (False,) for r in c[tier]]
    while todo:
        entry, params, need, opts, again = todo.pop(0)
        left = TOTAL[tier] - (time.time() - t0)
        # every run has its share of the time first; what is unfinished then has what remains
        share = left / (1 + sum(1 for r in todo if r[4] == again))
        if left < 5:
            incomplete.append('%s %s: not started' % (entry, params))
            continue
        params = dict(dict(anycut=0, capacities=1, attrs=0, flaky=0, few=0), **params)
        params['known'] = sum(1 << int(k[1][1:]) for k in known)
        max_alloc = 1 << 20
        o = tempfile.mktemp(suffix='.json', dir=scratch())
        left = min(share, c.get('deadline', {}).get(tier, left))
        cmd = [SYMX, ll, entry] + ['%s=%d' % kv for kv in params.items()] + ['--out=' + o, '--deadline=%d' % left, '--max-alloc=%d' % max_alloc, '--threads=%d' % (os.cpu_count() or 4)] + list(opts)
        r = sh(cmd)
        if not os.path.exists(o):
            errors.append('%s: executor failed: %s' % (entry, r.stderr[-1500:]))
            continue
        d = json.load(open(o))
        for m, n in d['violation_counts'].items(): print('candidate: %s (%d paths) in %s' % (m, n, entry))
        nrep, unreproduced = 0, []
        for v in d['violations']:
            p = '%s/replay-%s-%d.txt' % (EV, pid, nrep)
            nrep += 1
            for variant in ('nat', 'mock'):
                # a behaviour that depends on the value of a hash shows only with the stand-in
                if variant == 'mock' and mock is None: mock = build_native('mock')
                write_inputs(p, v['inputs'], ['property ' + pid, 'found: ' + v['msg'], 'run ' + json.dumps(dict(entry=entry, params=params, max_alloc=max_alloc, variant=variant)), 'replay with: /verif/check.py --replay ' + p])
                k, msg, _ = native(nat if variant == 'nat' else mock, entry, params, p, max_alloc)
                if k in ('violated', 'hang', 'crash'):
                    violation = (p, '%s [%s]%s' % (v['msg'], msg, ' (with the stand-in hash function)' if variant == 'mock' else ''))
                    break
            if violation: break
            unreproduced.append('%s: counterexample "%s" does not reproduce on the real code (%s %s)' % (entry, v['msg'], k, msg))
        if unreproduced and not violation:
            if '--exact=1' not in opts:
                # the lengths of rendered text were approximated: once more with the real rendering code
                todo.insert(0, (entry, params, need, tuple(opts) + ('--exact=1',), again))
                continue
            errors += unreproduced
        late = not d['exhausted'] and not violation and not [e for e in d['errors'] if not e.startswith('deadline')]
        retry = late and not again and TOTAL[tier] - (time.time() - t0) > 60
        if retry: todo.append((entry, params, need, opts, True))
        for e, n in d['errors'].items():
            # paths the executor could not follow to their end are unexplored; without any path that ended there is no answer
            (incomplete if d['paths'] or e.startswith(('solver returned unknown', 'worker process died', 'deadline')) else errors).extend([] if retry else ['%s: %s (%d)' % (entry, e, n)])
        if not d['exhausted'] and not violation and not d['errors'] and not retry:
            incomplete.append('%s: stopped at the time limit with work left' % entry)
        n_ok = 0
        for i, s in enumerate(d['samples']):
            p = scratch() + '/sample.txt'
            write_inputs(p, s['inputs'])
            k, msg, log = native(nat, entry, params, p, max_alloc)
            want = [tuple(x) for x in s['log']]
            if k == 'ok' and log == want: n_ok += 1
            elif not violation:
                if k in ('violated', 'hang', 'crash'):
                    q = '%s/replay-%s-s%d.txt' % (EV, pid, i)
                    write_inputs(q, s['inputs'], ['property ' + pid, 'run ' + json.dumps(dict(entry=entry, params=params, max_alloc=max_alloc))])
                    violation = (q, 'replayed path: ' + msg)
                else: errors.append('%s: a replayed path differs from the encoding: %s %s native=%s symbolic=%s inputs=%s' % (entry, k, msg, log, want, s['inputs']))
        validated += n_ok
        samples += [dict(entry=entry, inputs=printable(s['inputs']), log=s['log']) for s in d['samples'][:2]]
        functions.update(f for f in d['functions'] if 'dir_signature' in f or 'index' in f.split('::')[0])
        for k, n in d['covers'].items():
            covers[k] = covers.get(k, 0) + n
            if k.startswith('finding K'): found_known[k[8:].split()[0]] = found_known.get(k[8:].split()[0], 0) + n
        if not violation and not retry:
            for k in need:
                if not d['covers'].get(k): incomplete.append('%s: nothing reached "%s"' % (entry, k))
        runs.append({k: d[k] for k in ('entry', 'exhausted', 'pending', 'paths', 'cut', 'branches', 'forks', 'queries', 'solver_queries', 'cache_hits', 'range_decided', 'solver_seconds', 'max_query_ms', 'checks', 'checks_by_solver', 'instructions', 'max_symbolic_bytes', 'wall_seconds')} | dict(params=params, options=list(opts), replayed=n_ok, functions_total=len(d['functions'])))
        print('%s %s: %d paths, %d queries (%d to the solver, %.1fs), %d replayed, %s, %.1fs' % (entry, params, d['paths'], d['queries'], d['solver_queries'], d['solver_seconds'], n_ok, 'exhausted' if d['exhausted'] else 'NOT exhausted', d['wall_seconds']))
        if violation: break
    tot = lambda k: sum(r[k] for r in runs)
    cov = dict(
        states=tot('paths'), transitions=tot('branches'), traces_validated_against_impl=validated,
        samples=samples[:12], exhaustive=not incomplete and not errors and not violation and all(r['exhausted'] for r in runs),
        bounds=c['bounds'], outside=c['outside'], runs=runs, incomplete=incomplete,
        functions_encoded=sorted(functions), queries=tot('queries'), solver_queries=tot('solver_queries'),
        decided_by_interval_analysis=tot('range_decided'), solver_seconds=round(tot('solver_seconds'), 3),
        assertions_checked=tot('checks'), assertions_decided_by_solver=tot('checks_by_solver'), labels_reached=covers,
        known_findings_seen=found_known, build_seconds=round(build_s, 1),
        meaning='states: path ends explored (each stands for all inputs that follow it); transitions: branches on symbolic conditions decided; traces: path samples replayed on the native build with equal observations')
    json.dump(dict(property=pid, tier=tier, seed=seed, level='model_checking', coverage=cov, assumptions=ASSUME + c.get('assume', []), wall_s=round(time.time() - t0, 1), violations=1 if violation else 0), open(evf, 'w'), indent=1)
    for k in known:
        if found_known.get(k[1]): print('KNOWN-FINDING: property=%s %s (%d paths)' % (pid, k[2], found_known[k[1]]))
    if violation:
        print(violation[1])
        print('VIOLATION property=%s replay=%s' % (pid, violation[0]))
        sys.exit(1)
    if errors:
        for e in errors: print('ERROR ' + e)
        sys.exit(2)
    for e in incomplete: print('INCOMPLETE ' + e)
    print('OK property=%s: no violation within the bounds%s' % (pid, '' if not incomplete else ' (not exhausted)'))

ASSUME = [
    'rustc 1.99.1 (stable) translation of the crate to LLVM IR at opt-level 1, executed by symx; symx, Z3 4.8.12 and the replay comparison are trusted',
    'sha2, blake2 and blake3 are replaced by an injective stand-in for the symbolic run (real ones in the replay)',
    'memory allocation does not fail below 1 MiB per request',
]
main()
