#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] | --build | --replay FILE

Builds the simulator from /repo's working tree, explores seeded runs of one property,
gates and minimises what it finds, and writes evidence/<PROPERTY>.json."""
import concurrent.futures as cf
import fcntl, glob, hashlib, json, os, shutil, struct, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('SIM_REPO', '/repo')
SIM = os.path.join(V, 'sim')
BUILD = os.path.join(V, 'build')
NW = min(8, os.cpu_count() or 8)

COMMON = ['-std=gnu++17', '-g1', '-w', '-fsized-deallocation', '-I' + REPO + '/include', '-I' + SIM,
          '-DBOOST_URL_NO_LIB=1', '-DBOOST_URL_STATIC_LINK=1']
SAN = ['-O1', '-fno-omit-frame-pointer', '-fsanitize=address,undefined', '-fno-sanitize-recover=all',
       '-fno-sanitize=nonnull-attribute,pointer-overflow']
ENVIRONMENT = ('isalpha isdigit isalnum isxdigit isspace isupper islower ispunct isprint isgraph iscntrl isblank tolower toupper __ctype_b_loc '
               '__ctype_tolower_loc __ctype_toupper_loc strcasecmp strncasecmp strcoll getenv secure_getenv time clock clock_gettime gettimeofday rand random getpid '
               'setlocale uselocale localeconv setenv unsetenv putenv srand srandom _ZNSt6locale6globalERKS_ '
               '_ZNSt6chrono3_V212system_clock3nowEv _ZNSt6chrono3_V212steady_clock3nowEv _ZNSt13random_device9_M_getvalEv').split()
WORLD = ['plan.cpp', 'ref.cpp', 'world.cpp', 'props.cpp', 'main.cpp']
VARIANTS = {
    'asan': dict(flags=SAN, link=['-fsanitize=address,undefined'], src=WORLD),
    'fast': dict(flags=['-O2', '-DNDEBUG'], link=[], src=WORLD),
    # compiled with thread instrumentation, but linked with the simulator's own runtime (tsrt.cpp)
    'thr': dict(flags=['-O1', '-fsanitize=thread', '-DSIM_THREADS', '-D_GLIBCXX_EXTERN_TEMPLATE=0'], link=['-rdynamic', '-pthread'],
                src=['plan.cpp', 'ref.cpp', 'world.cpp', 'thr.cpp', 'main.cpp', 'tsrt.cpp'], own={'tsrt.cpp': ['-O2']}),
    # every basic block entered inside library code is counted (steps.cpp), and bytes moved by libc
    'step': dict(flags=['-O1', '-DNDEBUG', '-fsanitize-coverage=trace-pc', '-D_GLIBCXX_EXTERN_TEMPLATE=0'],
                 link=['-Wl,' + ','.join('--wrap=' + f for f in ('memcpy', 'memmove', 'memset', 'memcmp', 'memchr', 'strlen', '__cxa_begin_catch'))],
                 src=['plan.cpp', 'ref.cpp', 'world.cpp', 'work.cpp', 'main.cpp', 'steps.cpp'], own={'steps.cpp': ['-O2', '-DNDEBUG']}),
    # what library code asks of the process environment is answered by the simulator (penv.cpp)
    'env': dict(flags=['-O2', '-DNDEBUG', '-DSIM_WHAT'], link=['-Wl,' + ','.join('--wrap=' + f for f in ENVIRONMENT)],
                src=['plan.cpp', 'ref.cpp', 'world.cpp', 'env.cpp', 'main.cpp', 'penv.cpp']),
    # calls made during calls
    'nest': dict(flags=['-O2', '-DNDEBUG', '-DSIM_WHAT'], link=[], src=['plan.cpp', 'ref.cpp', 'world.cpp', 'nest.cpp', 'main.cpp']),
    'nestsan': dict(flags=SAN + ['-DSIM_WHAT'], link=['-fsanitize=address,undefined'], src=['plan.cpp', 'ref.cpp', 'world.cpp', 'nest.cpp', 'main.cpp']),
}
# runs per variant: quick, thorough
PLAN = {p: {'asan': q[0], 'fast': q[1]} for p, q in {
    'C01': (24000, 120000), 'C02': (24000, 120000), 'C03': (24000, 160000), 'C04': (30000, 280000), 'C05': (24000, 240000),
    'C06': (20000, 160000), 'C07': (16000, 240000), 'C08': (20000, 200000), 'C09': (24000, 200000), 'C10': (40000, 200000),
    'C11': (80000, 1000000), 'C12': (80000, 1000000), 'C14': (20000, 100000), 'C20': (20000, 160000), 'C21': (16000, 160000)}.items()}
PLAN['C13'] = {'thr': 64000}
PLAN['C19'] = {'step': 24000}
PLAN['C17'] = {'env': 1600000}
PLAN['C18'] = {'env': 400000}
PLAN['C22'] = {'env': 160000}
PLAN['C23'] = {'nestsan': 20000, 'nest': 160000}
SHARE = {'asan': 3, 'fast': 5, 'nestsan': 3, 'nest': 5}        # workers
COLD = {'asan': 480, 'fast': 2400, 'step': 480, 'env': 2400, 'nestsan': 480, 'nest': 2400}     # runs in a process of their own (those of C13 always are)
QUICK_CAP, THOROUGH_CAP = 110.0, 3000.0
THOROUGH_FACTOR = 20
FAULTS = {'alloc': 'refused requests of the URL\'s allocator (k-th and following)', 'starve': 'URL allocator refuses everything during a call',
          'gnew': 'refused requests of the global heap', 'gstarve': 'global heap refuses everything during a call',
          'total': 'no memory of any kind during a call', 'budget': 'world-wide memory budget exhausted', 'max_size': 'allocator max_size reached', 'pool': 'static pool exhausted', 'preempt': 'a thread is stopped inside a call and another one continues',
          'environment': 'another locale (C and C++), rounding mode, errno, answers of clocks, random numbers and environment variables from here on', 'locale_during_call': 'the locale changes during a call',
          'reentry': 'other calls are made while a call is in progress (during its memory requests, returns of memory, exception handling or unwinding)',
          'reentry_deep': 'other calls are made during such a call'}


def die(msg):
    print('check error: ' + msg, flush=True)
    sys.exit(3)


def tree_key(variant):
    h = hashlib.sha256()
    h.update(json.dumps([COMMON, VARIANTS[variant]], sort_keys=True).encode())
    h.update(subprocess.run(['clang++', '--version'], capture_output=True).stdout)
    files = []
    for root in (REPO + '/include', REPO + '/src', SIM):
        for d, _, fs in os.walk(root):
            files += [os.path.join(d, f) for f in fs]
    for f in sorted(files):
        h.update(f.encode() + b'\0')
        with open(f, 'rb') as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:24]


def compile_variant(v, t, cxx):
    """compile and link one variant in directory t; an error message or None"""
    spec = VARIANTS[v]
    flags = [cxx] + COMMON + (['-Wno-c++11-narrowing'] if cxx == 'clang++' else [])
    srcs = [(os.path.join(SIM, s), spec.get('own', {}).get(s, spec['flags'])) for s in spec['src']]
    srcs += [(s, spec['flags']) for s in sorted(glob.glob(REPO + '/src/*.cpp'))]
    objs = [os.path.join(t, '%d.o' % i) for i in range(len(srcs))]
    with cf.ThreadPoolExecutor(NW) as ex:
        jobs = [ex.submit(subprocess.run, flags + fl + ['-c', s, '-o', o], capture_output=True, text=True, errors='replace') for (s, fl), o in zip(srcs, objs)]
        for (s, _), j in zip(srcs, jobs):
            r = j.result()
            if r.returncode:
                return r.stderr[-3000:] + '\ncannot compile ' + s
    r = subprocess.run([cxx] + objs + spec['link'] + ['-o', os.path.join(t, 'sim')], capture_output=True, text=True, errors='replace')
    if r.returncode:
        return r.stderr[-3000:] + '\ncannot link ' + v
    for o in objs:
        os.unlink(o)
    return None


def build(variants):
    os.makedirs(BUILD, exist_ok=True)
    out = {}

    def one(v):
        d = os.path.join(BUILD, v + '-' + tree_key(v))
        out[v] = os.path.join(d, 'sim')
        if os.path.exists(out[v]):
            os.utime(d)
            return None
        t = d + '.tmp'
        # code which only the project's own compiler accepts is built with that
        for cxx in ('clang++', 'g++'):
            shutil.rmtree(t, ignore_errors=True)
            os.makedirs(t)
            err = compile_variant(v, t, cxx)
            if err is None:
                os.rename(t, d)
                return None
        shutil.rmtree(t, ignore_errors=True)
        return err

    with open(os.path.join(BUILD, '.lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        with cf.ThreadPoolExecutor(4) as ex:
            errs = [e for e in ex.map(one, variants) if e]
        if errs:
            sys.stdout.write(errs[0] + '\n')
            die(errs[0].splitlines()[-1])
        old = sorted((e for e in os.scandir(BUILD) if e.is_dir()), key=lambda e: e.stat().st_mtime)
        for e in old[:-12]:
            shutil.rmtree(e.path, ignore_errors=True)
    return out


ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:handle_abort=1:abort_on_error=0:exitcode=99:quarantine_size_mb=64:malloc_context_size=4:symbolize=0:detect_stack_use_after_return=1',
           UBSAN_OPTIONS='print_stacktrace=0:halt_on_error=1:exitcode=99')


def classify(rc, out):
    """label of one execution: None when the property held"""
    if rc == 0:
        return None
    if rc == 10:
        for l in out.splitlines():
            if l.startswith('VIOLATED '):
                return l.split()[1]
    if rc == 78 or 'HANG' in out:
        return 'hang'
    return 'crash'


def describe(label, out, err):
    if label in ('crash', 'hang'):
        if label == 'hang':
            return 'the run did not finish within its CPU limit'
        for l in (err + out).splitlines():
            if 'ERROR: AddressSanitizer' in l or 'runtime error' in l or 'Assertion' in l or 'terminate called' in l or 'DEADLYSIGNAL' in l:
                return l.strip()[:400]
        return 'the process died'
    ls = out.splitlines()
    return '\n'.join(ls[1:-1])[:2000] if len(ls) > 2 else out[:2000]


def replay(exe, path, timeout=120):
    try:
        p = subprocess.run([exe, 'replay', path], capture_output=True, text=True, errors='replace', timeout=timeout, env=ENV)
    except subprocess.TimeoutExpired:
        return 'hang', 'timeout', ''
    return classify(p.returncode, p.stdout), p.stdout, p.stderr


def plan_text(header, ops):
    return '\n'.join(header + ops) + '\n'


def split_plan(text):
    lines = [l for l in text.splitlines() if l.strip()]
    return [l for l in lines if not l.startswith('op ')], [l for l in lines if l.startswith('op ')]


def minimise(exe, text, label, scratch, budget=60.0):
    t0 = time.time()
    header, ops = split_plan(text)
    n = [0]

    def fails(h, o):
        n[0] += 1
        f = os.path.join(scratch, 'm%d.plan' % n[0])
        with open(f, 'w') as fh:
            fh.write(plan_text(h, o))
        r = replay(exe, f, 40)[0]
        os.unlink(f)
        return r == label

    with cf.ThreadPoolExecutor(NW) as ex:
        def first(cands):
            """first candidate (in order) that still fails"""
            for i in range(0, len(cands), NW):
                if time.time() - t0 > budget:
                    return None
                batch = cands[i:i + NW]
                for c, ok in zip(batch, ex.map(lambda c: fails(*c), batch)):
                    if ok:
                        return c
            return None
        chunk = max(1, len(ops) // 2)
        while chunk >= 1 and time.time() - t0 < budget:
            cands = [(header, ops[:i] + ops[i + chunk:]) for i in range(0, len(ops), chunk)]
            c = first([c for c in reversed(cands)])
            if c:
                ops = c[1]
                chunk = min(chunk, max(1, len(ops) // 2))
            elif chunk == 1:
                break
            else:
                chunk //= 2
        # simpler operations: no fault, shorter arguments
        changed = True
        while changed and time.time() - t0 < budget:
            changed = False
            for k in range(len(ops)):
                w = ops[k].split('   ; ')[0].split(' ')
                cands = []
                for i, f in enumerate(w):
                    if f.startswith('f=') or f.startswith('fit='):
                        cands.append(w[:i] + w[i + 1:])
                    if f.startswith('a=') and len(f) > 2:
                        x = f[2:]
                        nb = len(x) // 2
                        for m in (0, nb // 2, nb - 1):
                            if m < nb:
                                cands.append(w[:i] + ['a=' + x[:2 * m]] + w[i + 1:])
                        for m in (nb // 2, 1):
                            if 0 < m < nb:
                                cands.append(w[:i] + ['a=' + x[2 * m:]] + w[i + 1:])
                        if nb <= 24:
                            for m in range(1, nb - 1):
                                cands.append(w[:i] + ['a=' + x[:2 * m] + x[2 * m + 2:]] + w[i + 1:])
                    if f[:2] in ('i=', 'j=') and f[2:] not in ('0', '1'):
                        cands += [w[:i] + [f[:2] + z] + w[i + 1:] for z in ('0', '1')]
                c = first([(header, ops[:k] + [' '.join(x)] + ops[k + 1:]) for x in cands])
                if c:
                    ops = c[1]
                    changed = True
    return plan_text(header, ops)


def worker(exe, prop, first, step, count, secs, out, mode='run'):
    p = subprocess.run([exe, mode, prop, str(first), str(step), str(count), str(secs), out], capture_output=True, text=True, errors='replace', env=ENV, timeout=secs + 600)
    return p.returncode, p.stdout, p.stderr


def known_open(prop):
    r = []
    try:
        for l in open(os.path.join(V, 'known_findings.txt')):
            l = l.strip()
            if l.startswith('open: property=%s ' % prop):
                d = dict(x.split('=', 1) for x in l[6:].split(' | ')[0].split() if '=' in x)
                d['text'] = l.split(' | ')[-1]
                r.append(d)
    except FileNotFoundError:
        pass
    return r


def main():
    args = sys.argv[1:]
    if args and args[0] == '--build':
        print(build(list(VARIANTS)))
        return 0
    if args and args[0] == '--replay':
        text = open(args[1]).read()
        variant = 'fast'
        for l in text.splitlines():
            if l.startswith('# variant '):
                variant = l.split()[2]
        exe = build([variant])[variant]
        label, out, err = replay_file(exe, args[1])
        print(label or 'held')
        print(describe(label, out, err) if label else out)
        return 1 if label else 0
    prop = args[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in args:
        tier = args[args.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    plan = PLAN[prop]
    exes = build(list(plan))
    tb = time.time() - t0
    cap = QUICK_CAP if tier == 'quick' else THOROUGH_CAP
    factor = 1 if tier == 'quick' else THOROUGH_FACTOR
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    scratch = tempfile.mkdtemp(prefix='sim-')
    try:
        return explore(prop, tier, seed, plan, exes, cap, factor, scratch, t0, tb)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def replay_file(exe, path):
    """a plan, or a batch of seeds for violations that need earlier runs in the same process"""
    text = open(path).read()
    for l in text.splitlines():
        if l.startswith('batch '):
            _, prop, first, step, count = l.split()
            d = tempfile.mkdtemp(prefix='simr-')
            try:
                rc, out, err = worker(exe, prop, int(first), int(step), int(count), 900, os.path.join(d, 'o'))
                if rc == 10:
                    v = json.load(open(os.path.join(d, 'o')))['violation']
                    return v['label'], 'VIOLATED %s\n%s\n.' % (v['label'], v['what']), err
                return classify(rc, out), out, err
            finally:
                shutil.rmtree(d, ignore_errors=True)
    return replay(exe, path)


def explore(prop, tier, seed, plan, exes, cap, factor, scratch, t0, tb):
    base = (seed - 1) * 1000000007 % (1 << 40) + 1
    tasks = []
    span = 0
    for v, n in plan.items():
        n *= factor
        nw = SHARE.get(v, NW) if len(plan) > 1 else NW
        for k in range(nw):
            tasks.append((v, base + span + k, nw, (n + nw - 1) // nw, 'run'))
        span += n
        n = COLD.get(v, 0) * factor
        tasks += [(v, base + 10 ** 8 + span + k, nw, (n + nw - 1) // nw, 'cold') for k in range(nw) if n]
    findings = []
    merged = dict(runs=0, nontrivial=0, ops=0, checks=0, requests=0, rejected=0, nomem=0, retries_ok=0, fired={}, op_count={}, probes={})
    per = {v: 0 for v in plan}
    states, traces = set(), set()
    te = time.time()
    extra = {}

    def add(js, v):
        for k, x in js.items():
            if k in ('fired', 'op_count', 'probes'):
                for kk, xx in x.items():
                    merged[k][kk] = max(merged[k].get(kk, 0), xx) if kk.startswith('max ') else merged[k].get(kk, 0) + xx
            elif k in merged:
                merged[k] += x
            elif k.startswith('x_'):
                extra[k[2:]] = extra.get(k[2:], 0) + x
        per[v] += js['runs']

    def go(i_task):
        i, (v, first, step, count, mode) = i_task
        out = os.path.join(scratch, 'w%d' % i)
        rc, so, se = worker(exes[v], prop, first, step, count, cap, out, mode)
        return v, first, step, out, rc, so, se, mode
    with cf.ThreadPoolExecutor(len(tasks)) as ex:
        for v, first, step, out, rc, so, se, mode in ex.map(go, enumerate(tasks)):
            if mode == 'cold':
                if os.path.exists(out):
                    extra['runs_in_a_fresh_process'] = extra.get('runs_in_a_fresh_process', 0) + json.load(open(out))['runs']
            elif os.path.exists(out):
                try:
                    js = json.load(open(out))
                    add(js, v)
                    with open(out + '.bin', 'rb') as fh:
                        b = fh.read()
                    a = struct.unpack('<%dQ' % (len(b) // 8), b)
                    states.update(a[1:1 + a[0]])
                    traces.update(a[1 + a[0]:])
                except (ValueError, OSError):
                    js = {}
            if rc:
                with open(out + '.cur', 'rb') as fh:
                    raw = fh.read(8)
                s = struct.unpack('<Q', raw)[0] if len(raw) == 8 else first
                findings.append((v, first, step, s, rc, so, se))
    explored = time.time() - te
    # determinism: the same seeds in fresh processes, under another build and another partition
    det = None
    if not findings:
        det = determinism(prop, exes, base, scratch)
    evidence = os.path.join(V, 'evidence', prop + '.json')
    result = 0
    viol = None
    for o in known_open(prop):
        print('KNOWN-FINDING: property=%s %s' % (prop, o['text']), flush=True)
    for f in sorted(findings, key=lambda f: (f[3] - f[1]) // max(1, f[2])):
        viol = confirm(prop, exes, f, scratch)
        if viol and any(o.get('label') == viol['label'] and o.get('contains', '') in viol['what'] for o in known_open(prop)):
            viol = None
            continue
        if viol:
            break
    sample_seed = base
    sample = subprocess.run([exes[list(plan)[0]], 'gen', prop, str(sample_seed)], capture_output=True, text=True, env=ENV).stdout
    sample2 = subprocess.run([exes[list(plan)[0]], 'gen', prop, str(sample_seed + 3)], capture_output=True, text=True, env=ENV).stdout
    fk = {k: n for k, n in merged['fired'].items() if n}
    if extra.get('preemptions'):
        fk['preempt'] = extra['preemptions']
    if merged['op_count'].get('environ'):
        fk['environment'] = merged['op_count']['environ']
        fk['locale_during_call'] = merged['probes'].get('locale changed during a call', 0)
    if prop == 'C23':
        fk['reentry'] = sum(n for k, n in merged['probes'].items() if k.startswith('calls made during the ') or k == 'calls made during a request for memory')
        fk['reentry_deep'] = merged['probes'].get('calls made during a call made during a call', 0)
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': merged['runs'],
            'distinct_nontrivial': len(traces),
            'rule': RULES.get(prop, ''),
            'samples': [sample[:3000], sample2[:3000]],
            'exhaustive': False,
            'runs_per_build': per,
            'simulated_runs_per_hour': round(merged['runs'] / max(explored, 1e-6) * 3600),
            'seeds': {'first': base, 'count': merged['runs']},
            'simulated_time': 'the library has no clock; simulated steps are counted instead',
            'simulated_steps': merged['ops'],
            'steps_by_operation': merged['op_count'],
            'oracle_evaluations': merged['checks'],
            'memory_requests_seen': merged['requests'],
            'faults_injected': fk,
            'fault_kinds': {k: FAULTS[k] for k in fk if k in FAULTS},
            'calls_failed_for_memory': merged['nomem'],
            'calls_rejected': merged['rejected'],
            'distinct_states': len(states),
            'state_measure': STATES.get(prop, STATES['']),
            'probes': merged['probes'],
            'determinism': det,
            'real_components': REAL.get(prop, REAL['']),
            'stub_components': STUB.get(prop, STUB['']),
            **extra,
        },
        'assumptions': ASSUME.get(prop, ASSUME['']),
        'wall_s': round(time.time() - t0, 2), 'violations': 1 if viol else 0,
    }
    if findings and not viol and not known_open(prop):
        ev['coverage']['unreproduced'] = [str(f[:5]) for f in findings]
    with open(evidence, 'w') as fh:
        json.dump(ev, fh, indent=1)
    print('%s %s: %d runs (%s), %d distinct non-trivial, %d states, %d steps, build %.0f s, total %.0f s' % (
        prop, tier, merged['runs'], ', '.join('%s %d' % x for x in per.items()), len(traces), len(states), merged['ops'], tb, time.time() - t0), flush=True)
    if viol:
        print('%s: %s' % (viol['label'], viol['what']))
        print('VIOLATION property=%s replay=%s' % (prop, viol['file']), flush=True)
        return 1
    if findings and not known_open(prop):
        f = findings[0]
        die('seed %d ended with code %d but does not reproduce: %s' % (f[3], f[4], (f[5] + f[6])[-600:]))
    return 0


def determinism(prop, exes, base, scratch):
    """the same seeds twice per build, all processes at once so that real time differs"""
    n = 240
    jobs = [(v, exe, os.path.join(scratch, 'det-%s-%d' % (v, r))) for v, exe in exes.items() for r in range(2 if len(exes) > 1 else 4)]
    with cf.ThreadPoolExecutor(len(jobs)) as ex:
        rcs = list(ex.map(lambda j: worker(j[1], prop, base + 10 ** 9, 1, n, 300, j[2])[0], jobs))
    if any(rcs):
        return {'seeds': n, 'identical': False, 'note': 'a run ended with code %d' % max(rcs)}
    digests = [json.load(open(j[2]))['digest'] for j in jobs]
    return {'seeds': n, 'processes': len(digests), 'identical': len(set(digests)) == 1, 'digest': digests[0]}


def confirm(prop, exes, f, scratch):
    """fresh-process gate, minimisation, replay file"""
    v, first, step, s, rc, so, se = f
    rdir = os.path.join(V, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    text = subprocess.run([exes[v], 'gen', prop, str(s)], capture_output=True, text=True, env=ENV).stdout
    full = os.path.join(scratch, 'full.plan')
    for vv in [v] + [x for x in exes if x != v]:
        with open(full, 'w') as fh:
            fh.write(text)
        a = replay(exes[vv], full)
        b = replay(exes[vv], full)
        if not a[0] or a[0] != b[0]:
            continue
        label = a[0]
        small = minimise(exes[vv], text, label, scratch)
        path = os.path.join(rdir, '%s-%d.plan' % (prop, s))
        with open(path, 'w') as fh:
            fh.write('# variant %s\n# violation %s\n# python3 check.py --replay %s\n%s' % (vv, label, path, small))
        c, d = replay(exes[vv], path), replay(exes[vv], path)
        if c[0] != label or d[0] != label or (label not in ('crash', 'hang') and c[1] != d[1]):
            with open(path, 'w') as fh:
                fh.write('# variant %s\n# violation %s\n%s' % (vv, label, text))
            c = a
        return {'label': label, 'what': describe(c[0], c[1], c[2]), 'file': path}
    # it may need earlier runs in the same process
    count = (s - first) // step + 1
    path = os.path.join(rdir, '%s-%d.batch' % (prop, s))
    best = None
    k = 2
    while True:
        m = min(k, count)
        with open(path, 'w') as fh:
            fh.write('# variant %s\nbatch %s %d %d %d\n' % (v, prop, s - (m - 1) * step, step, m))
        a = replay_file(exes[v], path)
        if a[0]:
            b = replay_file(exes[v], path)
            if a[0] == b[0]:
                best = {'label': a[0], 'what': describe(a[0], a[1], a[2]), 'file': path}
                break
        if m == count:
            break
        k *= 8
    return best


RULES = {
    'C01': 'Each seed generates a plan (1-3 URLs in simulated memory, up to 120 calls, a memory fault planned for about half of them); non-trivial: at least one modification ran out of memory; distinct: different hash of all outcomes and observations.',
    'C02': 'Each seed generates a plan in which many arguments are invalid and heap faults hit calls that report errors; non-trivial: at least one call was rejected; distinct: different hash of all outcomes and observations.',
    'C03': 'Each seed generates a plan of modifications, copies and faults; non-trivial: a modification after the first succeeded; distinct: different hash of all outcomes and observations.',
    'C04': 'Each seed generates a plan of modifications replayed against the reference model; non-trivial: a modification after the first was accepted and compared with the model; distinct: different hash of all outcomes and observations.',
    'C05': 'Each seed generates a plan dominated by segment edits, replayed against a list model; non-trivial: a segment edit succeeded; distinct: different hash.',
    'C06': 'Each seed generates a plan of query changes and lookups; non-trivial: a lookup found its key or ran out of memory; distinct: different hash.',
    'C07': 'Each seed generates a plan of modifications and decoding reads with caller-supplied allocators; non-trivial: a decoding read returned a non-empty string or ran out of memory; distinct: different hash.',
    'C08': 'Each seed generates a plan executed twice with complementary bytes in all fresh memory; non-trivial: a URL owned a block after a successful call; distinct: different hash.',
    'C09': 'Each seed generates a plan whose arguments are sized around the current capacity, executed under starvation when the result fits; non-trivial: a result fitted a non-zero capacity; distinct: different hash.',
    'C10': 'Each seed generates a plan of modifications and of starved reads in random order; non-trivial: a starved read of a non-empty URL or a starved no-throw modification; distinct: different hash.',
    'C11': 'Each seed generates a set of parts and several orders of setting them, with memory faults and retries; non-trivial: at least two different accepted orders were compared; distinct: different hash.',
    'C12': 'Each seed generates a pool and a history of requests by element type and count, and URLs living in the pool; non-trivial: a request succeeded or was refused; distinct: different hash.',
    'C13': 'Each seed generates 2-4 thread programs (calls on own URLs, reads of a shared URL and view, error and scheme functions, allocator faults) and a list of preemptions; non-trivial: at least one preemption inside a library call; distinct: different hash of all results and of the executed interleaving.',
    'C19': 'Each seed generates a plan of modifications, reads, parses and step-by-step growth, with texts up to a few hundred kilobytes and memory faults, every call under a step limit; non-trivial: a call on more than 1000 bytes was counted; distinct: different hash of all step counts, outcomes and capacities.',
    'C20': 'Each seed generates a plan of modifications, object operations, decoding reads and parses in which refusals throw one of six kinds of exception and arguments are often invalid; non-trivial: a call failed and the reported cause was judged; distinct: different hash of all outcomes and observations.',
    'C21': 'Each seed generates a plan of parses (valid and invalid text between hostile bytes), copies, assignments and destructions of 1-4 views, with heap faults; non-trivial: a view of some text was made or a parse was rejected; distinct: different hash of all outcomes and observations.',
    'C14': 'Each seed generates a plan dominated by construction, copy, assignment and move between 2-4 URLs; non-trivial: one of these was performed; distinct: different hash.',
}
RULES['C17'] = 'Each seed generates a plan of classifications (known names in any case, spoiled ones, other bytes and lengths), setters and normalisations, with changes of the process environment in between and of the locale during calls; non-trivial: some call ran in another environment than the default one; distinct: different hash of all outcomes and observations.'
RULES['C18'] = 'Each seed generates a plan of error values, comparisons, messages under refused memory and rejected calls, with changes of the process environment; non-trivial: some call ran in another environment than the default one; distinct: different hash of all outcomes and observations.'
RULES['C22'] = 'Each seed generates a plan of modifications, reads, lookups, decodings and parses executed in two worlds, one of them in changing environments; non-trivial: some call ran in another environment than the default one; distinct: different hash of all outcomes and observations.'
RULES['C23'] = 'Each seed generates a plan of modifications, copies, reads, lookups, decodings and parses in which groups of calls are made while another call is in progress (at its k-th memory request, return of memory, exception handler or unwinding; up to two levels deep), each compared with the same call made alone; non-trivial: some call was interrupted; distinct: different hash of all outcomes and observations.'
STATES = {'': 'hash of every observer of a URL after a step (for some properties with the operation or capacity)', 'C12': 'hash of pool geometry and all block positions',
          'C17': 'distinct triples of name (first 6 characters), locale before and locale after', 'C18': 'distinct triples of error value, locale and fault kind',
          'C22': 'hash of every observer of a URL after a step, with the locale',
          'C23': 'hash of every observer of a URL after a call, with the point at which the call was interrupted',
          'C21': 'hash of every observer of a view after a step, with the operation',
          'C19': 'distinct triples of operation, magnitude of steps and magnitude of the text',
          'C13': 'distinct interleavings: hash of the sequence of (scheduling point, thread switched to)'}
REAL = {'': ['all of include/boost/url and src (basic_url, url_base, url_view, segments, params, static_pool, parser, storage, errors)', 'Boost headers', 'libstdc++']}
STUB = {'C13': ['the thread scheduler, mutexes, once-initialisation and atomics of the calling threads (sim/tsrt.cpp: one thread at a time, switches at memory accesses)', 'the URL allocator (simulated arenas)', 'operator new/delete (counted, filled)'],
        '': ['the URL allocator (simulated arenas)', 'operator new/delete (counted, filled, refusable)']}
STUB['C23'] = STUB[''] + ['the caller\'s allocator and exception handlers, which make further calls']
for _p in ('C17', 'C18', 'C22'):
    STUB[_p] = STUB[''] + ['what library code asks of the C locale, environment variables, clocks and random numbers (sim/penv.cpp); the global C++ locale has simulated facets']
ASSUME = {'C13': ['memory accesses inside libc and libstdc++.so are not seen (std::string and other templates are)', 'accesses of a thread to its own stack are not tracked', 'interleavings are sequentially consistent; weaker orders are covered by the race detector, which follows the memory orders of atomics and fences'],
          '': ['faults are refused memory requests; the hardware, compiler and standard library are trusted', 'arguments do not alias the URL being modified']}

if __name__ == '__main__':
    sys.exit(main())
