#!/usr/bin/env python3
"""Builds the simulator against /repo's working tree and decides one property by seeded search.

  check.py build                     build only (setup)
  check.py C07 [--tier quick]        decide one property; exit 0 held, 1 violated, 2 no answer
  check.py --replay FILE [-v N]      re-execute a replay file
"""
import argparse, collections, fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('SIM_REPO', '/repo')
SIM = os.path.join(VERIF, 'sim')
BUILD = os.path.join(VERIF, 'build')
WORKERS = min(8, os.cpu_count() or 8)
CF = '-std=c++14 -O1 -g1 -fno-pie -fsanitize=thread -fno-omit-frame-pointer -Wno-tsan -w -DFMT_DEPRECATED_OSTREAM -pthread'.split()
RT = '-std=c++14 -O2 -fno-pie -fno-builtin -g1 -w'.split()
LD = '-no-pie -rdynamic -Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset'.split()
LIBS = '-lfmt -ldl -lpthread'.split()
RUNTIME = ['simrt', 'simcxx', 'rec']            # the simulator: never instrumented

FAULTS = ['task_stall', 'user_function_throw', 'nan_value', 'diverging_dynamics', 'indefinite_hessian', 'thread_create_failure',
          'allocation_failure', 'wallclock_jump', 'spurious_wakeup', 'core_count', 'fopen_failure', 'disk_full', 'stdout_write_failure',
          'wait_timeout', 'clock_rate_change', 'task_throw', 'weak_cas_failure', 'fd_exhaustion', 'starvation', 'preemption', 'aborted_solve', 'unused']
PROPS = {}
try:
    for l in open(os.path.join(VERIF, 'properties.jsonl')):
        d = json.loads(l)
        PROPS[d['id']] = d
except OSError:
    pass


def repo_sources():
    out = []
    for top in ('altro', 'examples'):
        for root, dirs, files in os.walk(os.path.join(REPO, top)):
            dirs.sort()
            for f in sorted(files):
                if f.endswith(('.cpp', '.hpp', '.h', '.cc', '.ipp')):
                    out.append(os.path.join(root, f))
    return out


def lib_units():
    """The library's translation units plus the example models the scenarios use."""
    u = [f for f in repo_sources() if f.endswith('.cpp') and f.startswith(os.path.join(REPO, 'altro') + '/')
         and not re.search(r'\bint\s+main\s*\(', open(f).read())]
    for f in ('examples/quadratic_cost.cpp', 'examples/triple_integrator.cpp', 'examples/unicycle.cpp'):
        p = os.path.join(REPO, f)
        if os.path.exists(p):
            u.append(p)
    return u


def build():
    """Returns the path of a driver built from the current working tree."""
    h = hashlib.sha256()
    h.update(' '.join(CF + RT + LD).encode())
    for f in repo_sources() + sorted(glob.glob(SIM + '/*')):
        h.update(f.encode() + b'\0')
        h.update(open(f, 'rb').read())
    key = h.hexdigest()[:16]
    out = os.path.join(BUILD, key)
    drv = os.path.join(out, 'drv')
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(drv):
            os.utime(drv)
            return drv
        for old in sorted(glob.glob(BUILD + '/*/drv'), key=os.path.getmtime)[:-2]:
            shutil.rmtree(os.path.dirname(old), ignore_errors=True)
        tmp = out + '.tmp'
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        jobs = []
        for f in sorted(glob.glob(SIM + '/*.cpp'), key=lambda f: -os.path.getsize(f)):
            n = os.path.basename(f)[:-4]
            o = os.path.join(tmp, 'sim_' + n + '.o')
            if n in RUNTIME:
                jobs.append((['g++'] + RT + (['-fexceptions'] if n == 'simrt' else []) + ['-I' + SIM, '-c', f, '-o', o], o))
            else:
                jobs.append((['g++'] + CF + ['-I' + REPO, '-I' + SIM, '-c', f, '-o', o], o))
        for f in lib_units():
            o = os.path.join(tmp, 'lib_' + os.path.relpath(f, REPO).replace('/', '_')[:-4] + '.o')
            jobs.append((['g++'] + CF + ['-I' + REPO, '-c', f, '-o', o], o))
        pend, run, objs = list(jobs), [], [o for _, o in jobs]
        while pend or run:
            while pend and len(run) < WORKERS:
                c, o = pend.pop(0)
                run.append((subprocess.Popen(c, stderr=subprocess.PIPE, text=True), c))
            p, c = run.pop(0)
            err = p.communicate()[1]
            if p.returncode != 0:
                for q, _ in run:
                    q.kill()
                sys.stderr.write(' '.join(c) + '\n' + err[-4000:])
                shutil.rmtree(tmp, ignore_errors=True)
                return None
        r = subprocess.run(['g++'] + LD + objs + ['-o', os.path.join(tmp, 'drv')] + LIBS, capture_output=True, text=True)
        if r.returncode != 0:
            sys.stderr.write(r.stderr[-4000:])
            shutil.rmtree(tmp, ignore_errors=True)
            return None
        for o in objs:
            os.unlink(o)
        shutil.rmtree(out, ignore_errors=True)
        os.rename(tmp, out)
    return drv


def symbolise(drv, text):
    ads = sorted(set(re.findall(r'@(0x[0-9a-f]+)', text)))
    ads = [a for a in ads if int(a, 16) < 0x10000000]
    if not ads:
        return text
    o = subprocess.run(['addr2line', '-e', drv, '-f', '-C', '-s'] + [hex(int(a, 16) - 1) for a in ads], capture_output=True, text=True).stdout.split('\n')
    m = {}
    for i, a in enumerate(ads):
        fn, loc = (o[2 * i], o[2 * i + 1]) if 2 * i + 1 < len(o) else ('?', '?')
        fn = re.sub(r'<.*', '', fn)
        m[a] = '%s (%s)' % (fn[:70], loc.split(' ')[0])
    return re.sub(r'@(0x[0-9a-f]+)', lambda x: '\n      ' + m.get(x.group(1), '?'), text)


def run_plan(drv, path, timeout=200):
    try:
        r = subprocess.run([drv, 'run', path], capture_output=True, text=True, timeout=timeout)
        return json.loads(r.stdout.strip().split('\n')[-1])
    except (subprocess.TimeoutExpired, ValueError, IndexError):
        return None


def run_devs(drv, path, out, timeout=200):
    try:
        r = subprocess.run([drv, 'run', path, '0', out], capture_output=True, text=True, timeout=timeout)
        return json.loads(r.stdout.strip().split('\n')[-1])
    except (subprocess.TimeoutExpired, ValueError, IndexError):
        return None


class Minimiser:
    def __init__(self, drv, cls, tmp, budget):
        self.drv, self.cls, self.tmp, self.t1, self.tests = drv, cls, tmp, time.time() + budget, 0

    def bad(self, lines):
        if time.time() > self.t1:
            return False
        self.tests += 1
        with open(self.tmp, 'w') as f:
            f.write('\n'.join(lines) + '\n')
        r = run_plan(self.drv, self.tmp, 60)
        return bool(r) and r['outcome'] == 'violation' and r['class'] == self.cls

    def ddmin(self, lines, pred):
        """Removes lines for which pred is true."""
        idx = [i for i, l in enumerate(lines) if pred(l)]
        n = 2
        while idx and time.time() < self.t1:
            size = max(1, len(idx) // n)
            done = False
            for s in range(0, len(idx), size):
                rm = set(idx[s:s + size])
                cand = [l for i, l in enumerate(lines) if i not in rm]
                if self.bad(cand):
                    lines = cand
                    idx = [i for i, l in enumerate(lines) if pred(l)]
                    n = max(2, n - 1)
                    done = True
                    break
            if not done:
                if size == 1:
                    break
                n = min(len(idx), n * 2)
        return lines

    def shrink_ints(self, lines, pred):
        for i, l in enumerate(lines):
            if not pred(l) or time.time() > self.t1:
                continue
            w = l.split(' ')
            for k in range(2, len(w)):
                if not re.fullmatch(r'-?\d+', w[k]):
                    continue
                for v in ('0', '1', str(int(w[k]) // 2)):
                    if v != w[k] and abs(int(v)) < abs(int(w[k])):
                        c = list(w)
                        c[k] = v
                        cand = lines[:i] + [' '.join(c)] + lines[i + 1:]
                        if self.bad(cand):
                            lines = cand
                            w = c
                            break
        return lines


def minimise(drv, prop, v, budget, tag):
    """Returns (replay path, result) or None if the violation does not reproduce."""
    rdir = os.path.join(BUILD, 'replays')
    os.makedirs(rdir, exist_ok=True)
    path = os.path.join(rdir, '%s-%s-%s.replay' % (prop, tag, v['seed']))
    tmp = path + '.tmp'
    plan = subprocess.run([drv, 'gen', prop, v['seed']], capture_output=True, text=True).stdout.strip().split('\n')
    with open(tmp, 'w') as f:
        f.write('\n'.join(plan) + '\n')
    r1 = run_plan(drv, tmp)
    r2 = run_plan(drv, tmp)
    if not r1 or not r2 or r1['outcome'] != 'violation' or r1['class'] != v['class'] or r1['hash'] != v['hash'] or r2['hash'] != v['hash']:
        return None
    m = Minimiser(drv, v['class'], tmp, budget)
    is_op = lambda l: l.startswith('op ')
    is_fault = lambda l: l.startswith('fault ')
    is_dev = lambda l: l.startswith('dev ')
    lines = plan
    # the schedule first: is the default schedule (no preemption at all) enough?
    calm = [l for l in lines if not l.startswith('sched ')] + [l for l in lines if re.match(r'sched (tick_ps|cores) ', l)] + ['replay 1']
    if m.bad(calm):
        lines = calm
    for _ in range(2):
        n0 = len(lines)
        lines = m.ddmin(lines, is_fault)
        lines = m.ddmin(lines, is_op)
        if len(lines) == n0:
            break
    lines = m.shrink_ints(lines, lambda l: is_op(l) or is_fault(l) or l.startswith('cfg '))
    if 'replay 1' not in lines:
        # turn the seeded schedule into an explicit list of deviations and minimise that
        with open(tmp, 'w') as f:
            f.write('\n'.join(lines) + '\n')
        dv = path + '.devs'
        r = run_devs(drv, tmp, dv)
        if r and os.path.exists(dv) and r['ndev'] <= 400000:
            cand = open(dv).read().strip().split('\n')
            if m.bad(cand):
                lines = cand
                if m.bad([l for l in lines if not is_dev(l)]):
                    lines = [l for l in lines if not is_dev(l)]
                else:
                    lines = m.ddmin(lines, is_dev)
        if os.path.exists(dv):
            os.unlink(dv)
    with open(tmp, 'w') as f:
        f.write('\n'.join(lines) + '\n')
    a, b = run_plan(drv, tmp), run_plan(drv, tmp)
    if not a or not b or a['hash'] != b['hash'] or a['outcome'] != 'violation' or a['class'] != v['class']:
        lines = plan
        with open(tmp, 'w') as f:
            f.write('\n'.join(lines) + '\n')
        a = run_plan(drv, tmp)
    with open(path, 'w') as f:
        f.write('# property %s: %s\n# %s\n# found with seed %s; minimised in %d runs; re-execute with: python3 check.py --replay %s\n' %
                (prop, v['class'], symbolise(drv, a['msg']).replace('\n', '\n#'), v['seed'], m.tests, path))
        f.write('# expect hash %s\n' % a['hash'])
        f.write('\n'.join(lines) + '\n')
    os.unlink(tmp)
    return path, a


def load_known():
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('{'):
                out.append(json.loads(l))
    return out


def check(prop, tier, seed):
    t0 = time.time()
    spec = json.load(open(os.path.join(VERIF, 'budgets.json')))
    b = dict(spec['default'], **spec.get(prop, {}))
    maxruns, secs = b[tier + '_runs'], b[tier + '_secs']
    drv = build()
    if not drv:
        print('ERROR: the sources in %s do not build with the simulator' % REPO)
        return 2
    tb = time.time() - t0
    procs = []
    per = (maxruns + WORKERS - 1) // WORKERS
    for w in range(WORKERS):
        cmd = [drv, 'batch', prop, str(seed), str(w), str(WORKERS), str(per), str(secs), '0']
        procs.append(subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True))
    viol, harness, mism, sums, broken = [], [], [], [], []
    import threading
    def reader(p):
        for l in p.stdout:
            if l.startswith('V '): viol.append(json.loads(l[2:]))
            elif l.startswith('H '): harness.append(json.loads(l[2:]))
            elif l.startswith('M '): mism.append(l[2:].strip())
            elif l.startswith('S '): sums.append(json.loads(l[2:]))
            if l[:2] == 'V ':
                for q in procs:
                    if q is not p:
                        q.stop = True
    ths = [threading.Thread(target=reader, args=(p,)) for p in procs]
    for t in ths: t.start()
    end = time.time() + secs + 150
    grace = None
    while any(p.poll() is None for p in procs):
        time.sleep(0.05)
        if viol and grace is None:
            grace = time.time() + 3
        if (grace and time.time() > grace) or time.time() > end:
            for p in procs:
                if p.poll() is None:
                    p.terminate()
            break
    for p in procs:
        try: p.wait(20)
        except subprocess.TimeoutExpired: p.kill()
    for t in ths: t.join()
    for p in procs:
        if p.returncode not in (0, -15):
            broken.append(p.returncode)
    # sort out what was found
    viol.sort(key=lambda v: (v['steps'], v['seed']))
    known = load_known()
    reported, unstable, seen, known_hit = [], [], set(), []
    for v in viol:
        text = v['class'] + ' ' + symbolise(drv, v['msg'])
        k = next((k for k in known if k.get('property') == prop and 'match' in k and re.search(k['match'], text, re.S)), None)
        if k:
            known_hit.append(k)
            continue
        sig = v['class']
        if sig in seen or len(reported) >= 2:
            continue
        seen.add(sig)
        m = minimise(drv, prop, v, 60 if tier == 'quick' else 240, tier)
        if m is None:
            unstable.append(v)
            continue
        reported.append((v, m))
    runs = sum(s['runs'] for s in sums) + 0
    dist = len(set(h for s in sums for h in s['interleavings']))
    plans = len(set(h for s in sums for h in s['plans']))
    faults = {FAULTS[i]: sum(s['faults'][i] for s in sums) for i in range(len(FAULTS)) if i != 19 and sums and sum(s['faults'][i] for s in sums)}
    wall = time.time() - t0
    comp = b.get('components', spec['components'])
    samples = [x for s in sums for x in s['samples']][:4] or [v['seed'] for v in viol][:2] or ['none']
    sim_wall = max([s['wall'] for s in sums] + [1e-9])
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': runs,
            'distinct_nontrivial': min(dist, sum(s['concurrent_runs'] + 0 for s in sums)) if b.get('concurrent', 1) else plans,
            'rule': b.get('rule', spec['rule_concurrent'] if b.get('concurrent', 1) else spec['rule_serial']),
            'samples': samples,
            'explanation': PROPS.get(prop, {}).get('title', ''),
            'simulated_runs_per_hour': int(runs / sim_wall * 3600), 'seeds_per_hour': int(runs / sim_wall * 3600),
            'simulated_seconds': sum(s['sim_seconds'] for s in sums),
            'steps': sum(s['steps'] for s in sums), 'forced_preemptions': sum(s['faults'][19] for s in sums), 'context_switches': sum(s['switches'] for s in sums),
            'sync_operations': sum(s['syncops'] for s in sums), 'threads_simulated': sum(s['threads'] for s in sums),
            'runs_with_faults': sum(s['runs_with_fault'] for s in sums), 'faults_injected': faults,
            'distinct_interleavings': dist, 'interleaving_measure': 'distinct sequences of (thread, synchronisation operation) over a run',
            'distinct_plans': plans,
            'probes': {n: sum(s['probes'][i] for s in sums) for i, n in enumerate(spec['probes']) if sums and sum(s['probes'][i] for s in sums)},
            'determinism_rechecks': sum(s['rechecks'] for s in sums), 'determinism_mismatches': len(mism), 'undecided_runs': len(harness),
            'build_seconds': round(tb, 1), 'search_seconds': round(sim_wall, 1),
            'components': comp,
        },
        'assumptions': spec['assumptions'],
        'wall_s': round(wall, 2), 'violations': len(reported),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for k in known:
        if k.get('property') == prop and 'match' in k:
            print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    if reported:
        for v, (path, a) in reported:
            print('violated: %s (seed %s)' % (a['class'], v['seed']))
            print('   ' + symbolise(drv, a['msg']))
            print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    # a run that the harness could not judge is not a verdict; a few of them do not spoil the others
    rechecks = sum(s['rechecks'] for s in sums)
    for m in mism[:3]:
        print('WARNING: nondeterminism: ' + m[:600])
    for h in harness[:3]:
        print('WARNING: harness: %s %s' % (h['seed'], symbolise(drv, h['msg'])[:600]))
    if unstable or len(mism) > 1 + rechecks * 0.02 or len(harness) > 2 + runs * 0.02 or broken or len(sums) < WORKERS or runs == 0:
        for v in unstable:
            print('ERROR: not reproducible: %s %s %s' % (v['class'], v['seed'], v['msg'][:300]))
        print('ERROR: %d nondeterministic, %d undecided of %d runs' % (len(mism), len(harness), runs))
        if broken or len(sums) < WORKERS:
            print('ERROR: workers ended early: %s' % broken)
        return 2
    print('%s: held on %d simulated runs (%d distinct interleavings, %d faults), seed %d, %.0f s' % (prop, runs, dist, sum(faults.values()), seed, wall))
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('what', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay')
    ap.add_argument('-v', type=int, default=0)
    a = ap.parse_args()
    if a.replay:
        drv = build()
        if not drv:
            return 2
        r = subprocess.run([drv, 'run', a.replay, str(a.v)], stdout=subprocess.PIPE, text=True)
        d = json.loads(r.stdout.strip().split('\n')[-1])
        print(d['outcome'], d['class'], 'hash', d['hash'], '\n', symbolise(drv, d['msg']))
        exp = re.search(r'expect hash (\d+)', open(a.replay).read())
        if exp:
            print('identical to the recorded execution' if exp.group(1) == d['hash'] else 'NOT identical to the recorded execution')
        return 1 if d['outcome'] == 'violation' else 0
    if a.what == 'build':
        return 0 if build() else 2
    return check(a.what, a.tier, a.seed)


if __name__ == '__main__':
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(main())
