#!/usr/bin/env python3
"""Runs the check of one property: compile harnesses against the current tree,
execute them symbolically, replay counterexamples natively, write evidence."""
import concurrent.futures as cf, hashlib, json, os, re, shutil, signal, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, 'tools'))
import jobs as J

REPO = os.environ.get('VERIF_REPO', '/repo')
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
NPROC = int(os.environ.get('VERIF_JOBS', '8'))
CLANG = '/usr/bin/clang++-18'
GXX = 'g++-14' if shutil.which('g++-14') else 'g++'
IRFLAGS = ['-std=c++23', '-O1', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-fno-pie', '-gline-tables-only',
           '-D_GLIBCXX_ASSERTIONS', '-fno-strict-aliasing', '-w']
NATFLAGS = ['-std=c++23', '-O1', '-g1', '-D_GLIBCXX_ASSERTIONS', '-w', '-fsanitize=address,undefined',
            '-fno-sanitize-recover=all']
t0 = time.time()
BUDGET = 600


def die(msg):
    print('ERROR: ' + msg)
    sys.exit(2)


class Unit:
    """one harness with one set of defines, compiled twice"""
    def __init__(self, wd, harness, defines, arch):
        self.key = hashlib.sha1(repr((harness, sorted(defines.items()), arch)).encode()).hexdigest()[:12]
        self.harness, self.defines, self.arch = harness, defines, arch
        self.bc = os.path.join(wd, self.key + '.bc')
        self.exe = os.path.join(wd, self.key + '.exe')
        self.lock = threading.Lock()
        self.err = None
        self.inc = ['-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(VERIF, 'harness')]
        self.dfl = ['-D%s=%s' % (k, v) if v != '' else '-D' + k for k, v in defines.items()]
        self.src = os.path.join(VERIF, 'harness', harness + '.cpp')

    def build_bc(self):
        r = subprocess.run([CLANG] + IRFLAGS + self.arch + self.dfl + self.inc + ['-DSYMIR', '-emit-llvm', '-c', self.src, '-o', self.bc],
                           capture_output=True, text=True)
        if r.returncode:
            self.err = 'clang: ' + r.stderr[-1500:]
        return self.err is None

    def native(self, extra=()):
        """path of the native build; extra: additional compiler flags"""
        out = self.exe + ''.join(re.sub(r'\W', '_', e) for e in extra)
        with self.lock:
            if not os.path.exists(out):
                r = subprocess.run([GXX] + NATFLAGS + list(extra) + self.arch + self.dfl + self.inc +
                                   [self.src, os.path.join(VERIF, 'harness', 'native_rt.cpp'), '-o', out + '.tmp'],
                                   capture_output=True, text=True)
                if r.returncode:
                    self.err = 'g++: ' + r.stderr[-1500:]
                    return None
                os.rename(out + '.tmp', out)
        return out


def run_native(exe, cases, params, timeout=20, fill='0xff', wd='/tmp'):
    """replay recorded inputs; returns list of (rc, digest, text)"""
    f = os.path.join(wd, 'cases-%d-%d' % (os.getpid(), threading.get_ident()))
    with open(f, 'w') as o:
        for c in cases:
            o.write(' '.join(str(v) for _, v in c) + ' \n')
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=0:detect_stack_use_after_return=0',
               UBSAN_OPTIONS='print_stacktrace=0')
    try:
        r = subprocess.run([exe, f, str(timeout), fill] + ['%s=%d' % kv for kv in params.items()], capture_output=True,
                           text=True, errors='replace', timeout=timeout * (len(cases) + 1) + 30, env=env)
        out = r.stdout
        err = r.stderr
    except subprocess.TimeoutExpired as e:
        return [(3, '0', 'timeout')] * len(cases)
    finally:
        os.unlink(f)
    res = []
    for m in re.finditer(r'END rc=(\d+) digest=(\d+) nobs=(\d+) used=\S+ (.*)', out):
        res.append((int(m.group(1)), m.group(2), m.group(4)))
    if res and res[-1][0] and err:
        lines = [l for l in err.splitlines() if 'ERROR' in l or 'runtime error' in l]
        if lines:
            res[-1] = (res[-1][0], res[-1][1], res[-1][2] + ' | ' + lines[0][:200])
    while len(res) < len(cases):
        res.append((99, '0', 'no result'))
    return res


class Stop(Exception):
    pass


def main():
    pid = sys.argv[1]
    if '--thorough' in sys.argv:
        global TIER
        TIER = 'thorough'
    only = [a[7:] for a in sys.argv if a.startswith('--only=')]
    keep = '--keep' in sys.argv
    spec = J.PROPS[pid]
    r = subprocess.run([os.path.join(VERIF, 'engine', 'build.sh')], capture_output=True, text=True)
    if r.returncode:
        die('engine build failed: ' + r.stderr[-2000:])
    symir = os.path.join(VERIF, 'build', 'symir')
    wd = os.path.join(VERIF, 'build', 'run-%s-%d' % (pid, os.getpid()))
    os.makedirs(wd, exist_ok=True)
    rc = 2
    try:
        rc = run(pid, spec, symir, wd, only)
    finally:
        if not keep:
            shutil.rmtree(wd, ignore_errors=True)
    sys.exit(rc)


def run(pid, spec, symir, wd, only):
    jobs = [j for j in spec['jobs'] if TIER == 'thorough' or j.tier == 'quick']
    if only:
        jobs = [j for j in jobs if any(o in j.name for o in only)]
    units = {}
    for j in jobs:
        k = (j.harness, tuple(sorted(j.defines.items())), tuple(j.arch))
        if k not in units:
            units[k] = Unit(wd, j.harness, j.defines, list(j.arch))
        j.unit = units[k]
    known = json.load(open(os.path.join(VERIF, 'known_findings.json')))['findings']
    known = [k for k in known if k['property'] == pid and k['status'] == 'known']
    stop = threading.Event()
    procs = set()
    plock = threading.Lock()
    confirmed, unconfirmed, known_hit, errors, results, incomplete = [], [], {}, [], [], []
    validated = mismatched = 0
    sample_cases = []
    dumpdir = os.path.join(wd, 'dump')
    os.makedirs(dumpdir, exist_ok=True)

    def compile_unit(u):
        if not stop.is_set():
            u.build_bc()

    def replay(j, v):
        """does the counterexample fail on the real code? -> (bool, text)"""
        tries = [((), '0xff'), ((), '0x00'), ((), '0x7f'), ((), '0x80'), ((), '0x01'),
                 (('-ftrivial-auto-var-init=pattern',), '0xfe'), (('-O2', '-DNDEBUG'), '0xff'), (('-O2', '-DNDEBUG'), '0x00')]
        txt = ''
        for extra, fill in tries:
            exe = j.unit.native(extra)
            if not exe:
                return False, 'native build failed: ' + str(j.unit.err)
            rr = run_native(exe, [v['inputs']], j.params, 20, fill, wd)[0]
            txt = rr[2]
            if rr[0] in (1, 99) or (rr[0] == 3):
                return True, ('native replay: ' + ('no termination within 20 s' if rr[0] == 3 else rr[2]) +
                              (' [flags %s fill %s]' % (' '.join(extra), fill) if extra or fill != '0xff' else ''))
        return False, 'native replay ends with: ' + txt

    def work(j):
        nonlocal validated, mismatched
        if stop.is_set():
            return
        if TIER != 'thorough' and time.time() - t0 > BUDGET:
            incomplete.append('%s: not run, time budget of the quick tier used up' % j.name)
            return
        if not os.path.exists(j.unit.bc):
            errors.append('%s: harness does not compile: %s' % (j.name, j.unit.err))
            return
        out = os.path.join(wd, 'out-%s.json' % hashlib.sha1(j.name.encode()).hexdigest()[:10])
        cmd = [symir, j.unit.bc, '--out', out, '--time', str(j.time if TIER == 'thorough' else max(20, min(j.time, int(BUDGET + 60 - (time.time() - t0))))), '--samples', str(j.samples), '--seed', str(SEED),
               '--max-steps', str(j.steps), '--max-viol', '6' if known else '1']
        for k, v in j.params.items():
            cmd += ['--param', '%s=%d' % (k, v)]
        if TIER == 'thorough' and j.paranoid:
            cmd += ['--paranoid']
        dd = os.path.join(dumpdir, os.path.basename(out))
        os.makedirs(dd, exist_ok=True)
        cmd += ['--dump', dd, '--dump-max', '3' if TIER == 'thorough' else '1', '--dump-every', '37']
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        with plock:
            procs.add(p)
        txt = p.communicate()[0]
        with plock:
            procs.discard(p)
        if stop.is_set():
            return
        if p.returncode not in (0, 1, 2) or not os.path.exists(out):
            errors.append('%s: engine failed (rc %s): %s' % (j.name, p.returncode, (txt or '')[-800:]))
            return
        res = json.load(open(out))
        res['job'] = j
        results.append(res)
        for v in res['violations']:
            kf = [k for k in known if k['job'] == j.name and k['key'] == v['key']]
            ok, t = replay(j, v)
            if kf and ok:
                known_hit[kf[0]['id']] = kf[0]
                continue
            if ok:
                confirmed.append((j, v, t))
                stop.set()
                with plock:
                    for q in list(procs):
                        q.kill()
                return
            unconfirmed.append((j, v, t))
        if res['status'] == 'inconclusive':
            # explored in part: no violation on the explored part; nothing is claimed for the rest
            (incomplete if res['completed'] else errors).append('%s: explored only in part: %s' % (j.name, res['reason']))
        for c in j.covers:
            if res['status'] == 'ok' and not res['covers'].get(c):
                errors.append('%s: vacuous: never reached "%s"' % (j.name, c))
        if res['samples'] and not stop.is_set():
            exe = j.unit.native()
            if not exe:
                errors.append('%s: native build failed: %s' % (j.name, j.unit.err))
                return
            rr = run_native(exe, [s['inputs'] for s in res['samples']], j.params, 20, '0xff', wd)
            for s, r1 in zip(res['samples'], rr):
                if r1[0] == 0 and r1[1] == s['digest']:
                    validated += 1
                elif r1[0] in (1, 3, 99):
                    v = {'kind': 'replay', 'msg': 'a path proved by the engine fails natively: ' + r1[2], 'stack': [], 'inputs': s['inputs'], 'key': 'native'}
                    confirmed.append((j, v, 'native run of a sampled path: ' + r1[2]))
                    stop.set()
                    return
                else:
                    mismatched += 1
                    errors.append('%s: translator validation: native run disagrees (rc %d, %s, digest %s vs %s)' % (j.name, r1[0], r1[2], r1[1], s['digest']))

    order = sorted(jobs, key=lambda j: -j.cost)
    with cf.ThreadPoolExecutor(NPROC) as ex:
        seen = []
        for j in order:
            if j.unit not in seen:
                seen.append(j.unit)
        list(ex.map(compile_unit, seen))
        futs = [ex.submit(work, j) for j in order]
        for f in futs:
            try:
                f.result()
            except Exception as e:  # noqa
                errors.append('driver: %r' % e)
    # second and third opinion on dumped queries
    xcheck = {'cvc5': 0, 'z3-new': 0, 'disagree': 0}
    if not stop.is_set():
        files = []
        for d, _, fs in os.walk(dumpdir):
            files += [os.path.join(d, f) for f in fs]
        files.sort(key=lambda f: hashlib.sha1((f + str(SEED)).encode()).hexdigest())
        files = files[:200 if TIER == 'thorough' else 16]

        def xc(f):
            exp = 'unsat' if f.endswith('.unsat.smt2') else 'sat'
            o = []
            for name, cmd in (('cvc5', ['cvc5', '--tlimit=20000', f]), ('z3-new', ['z3-new', '-T:20', f])):
                try:
                    r = subprocess.run(cmd, capture_output=True, text=True, timeout=40)
                    a = r.stdout.strip().splitlines()[0] if r.stdout.strip() else ''
                except (subprocess.TimeoutExpired, FileNotFoundError):
                    a = ''
                o.append((name, a, exp))
            return o
        with cf.ThreadPoolExecutor(NPROC) as ex:
            for o in ex.map(xc, files):
                for name, a, exp in o:
                    if a in ('sat', 'unsat'):
                        xcheck[name] += 1
                        if a != exp:
                            xcheck['disagree'] += 1
                            errors.append('solver disagreement: %s says %s, Z3 said %s' % (name, a, exp))
    wall = time.time() - t0
    write_evidence(pid, spec, results, validated, wall, confirmed, known_hit, xcheck, jobs, errors, incomplete)
    for k in known_hit.values():
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    tot = lambda k: sum(r[k] for r in results)
    print('%s [%s]: %d/%d jobs, %d paths, %d queries (%.1f s solver), %d assertions, %d native replays agree, %.1f s' %
          (pid, TIER, len(results), len(jobs), tot('paths'), tot('queries'), tot('solver_s'), tot('assertions'), validated, wall))
    if os.environ.get('VERIF_VERBOSE'):
        for r in sorted(results, key=lambda r: -r['wall_s']):
            print('   %-50s %-12s paths %7d wall %6.1f solver %6.1f queries %7d' % (r['job'].name, r['status'], r['paths'], r['wall_s'], r['solver_s'], r['queries']))
    if confirmed:
        j, v, t = confirmed[0]
        path = os.path.join(VERIF, 'evidence', 'replay-%s.json' % pid)
        json.dump({'property': pid, 'job': j.name, 'harness': j.harness, 'defines': j.defines, 'arch': list(j.arch), 'params': j.params,
                   'kind': v['kind'], 'message': v['msg'], 'key': v['key'], 'stack': v['stack'], 'inputs': v['inputs'], 'native': t},
                  open(path, 'w'), indent=1)
        print('  job %s: %s: %s' % (j.name, v['kind'], v['msg']))
        for s in v['stack'][:8]:
            print('     at ' + s)
        print('  ' + t)
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    for j, v, t in unconfirmed:
        print('UNCONFIRMED %s: %s: %s; %s\n    key=%s' % (j.name, v['kind'], v['msg'], t, v['key']))
        for s in v['stack'][:8]:
            print('     at ' + s)
    for e in incomplete:
        print('INCOMPLETE ' + e)
    for e in errors:
        print('ERROR ' + e)
    return 2 if errors or unconfirmed else 0


def write_evidence(pid, spec, results, validated, wall, confirmed, known_hit, xcheck, jobs, errors, incomplete):
    tot = lambda k: sum(r[k] for r in results)
    fns, lines = set(), {}
    for r in results:
        fns.update(r['functions'])
        for f, l in r['lines'].items():
            lines.setdefault(f, set()).update(l)
    samples = []
    for r in results:
        for s in r['samples'][:1]:
            samples.append({'job': r['job'].name, 'inputs': [v for _, v in s['inputs']], 'observed_digest': s['digest']})
    covers = {}
    for r in results:
        for c, n in r['covers'].items():
            covers[c] = covers.get(c, 0) + n
    cov = {
        'states': tot('paths'), 'transitions': tot('instructions'), 'traces_validated_against_impl': validated,
        'samples': samples[:12],
        'technique': 'symbolic execution of LLVM IR of the real headers, Z3 QF_BV',
        'jobs': [{'name': r['job'].name, 'status': r['status'], 'bounds': r['job'].bounds, 'paths': r['paths'], 'queries': r['queries'],
                  'wall_s': round(r['wall_s'], 2)} for r in results],
        'jobs_planned': len(jobs), 'paths_completed': tot('completed'), 'paths_excluded_by_assumption': tot('killed_by_assumption'),
        'forks': tot('forks'), 'symbolic_branches': tot('symbolic_branches'), 'decided_by_order_closure': tot('decided_by_order_closure'),
        'queries': tot('queries'), 'sat': tot('sat'), 'unsat': tot('unsat'), 'unknown': tot('unknown'),
        'solver_s': round(tot('solver_s'), 3), 'max_query_s': round(max([r['max_query_s'] for r in results] or [0]), 3),
        'assertions_evaluated': tot('assertions'), 'assertions_closed_by_path_condition_simplification': tot('assertions_by_simplification'),
        'assertions_closed_by_solver': tot('assertions_by_solver'), 'memory_accesses_checked': tot('memory_accesses_checked'),
        'undefined_bytes_read_as_symbolic': tot('uninit_bytes_read'),
        'reachability_witnesses': covers, 'functions_encoded': sorted(fns), 'library_lines_executed': {f: len(l) for f, l in lines.items()},
        'second_solver_agreements': xcheck, 'outside_the_claim': spec.get('outside', ''),
        'known_findings_seen': sorted(known_hit), 'errors': errors[:10], 'incomplete_jobs': incomplete,
        'queries_in_order_fragment': tot('queries_in_order_fragment'),
        'exhaustive': False,
    }
    ev = {'property': pid, 'tier': TIER, 'seed': SEED, 'level': 'model_checking', 'coverage': cov,
          'assumptions': spec.get('assumptions', []) + J.COMMON_ASSUMPTIONS, 'wall_s': round(wall, 2), 'violations': len(confirmed)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)


if __name__ == '__main__':
    main()
