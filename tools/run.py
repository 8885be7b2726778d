#!/usr/bin/env python3
"""Runs the solver-based check of one property.

  run.py PROPERTY [--tier quick|thorough] [--only ENTRY] [--keep] [-v]

Everything is regenerated from /repo's working tree: the sources are compiled to LLVM IR, linked with the
harness, executed symbolically, and every counterexample is replayed on natively compiled code before it is
reported."""
import sys, os, re, json, time, hashlib, subprocess, argparse, glob, threading, fcntl, shutil
from concurrent.futures import ThreadPoolExecutor, as_completed

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
ENG = os.path.join(VERIF, 'engine')
JOBS = min(8, os.cpu_count() or 8)
CXX = 'clang++-18'
STD = ['-std=c++17', '-DXSMP_PREFER_NONE']
INC = ['-I' + os.path.join(VERIF, 'smp'), '-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(REPO, 'src'),
       '-I' + os.path.join(REPO, 'src-gen'), '-I' + os.path.join(REPO, 'src', 'python'), '-I' + ENG, '-I' + os.path.join(VERIF, 'harness')]
IRFLAGS = ['-O1', '-Xclang', '-disable-llvm-passes', '-gline-tables-only', '-fno-vectorize', '-w',
           '-ftrivial-auto-var-init=uninitialized', '-fno-discard-value-names']
NATFLAGS = ['-O1', '-g1', '-w', '-fno-omit-frame-pointer', '-D_GLIBCXX_EXTERN_TEMPLATE=0']
UB = '-fsanitize=signed-integer-overflow,shift,float-cast-overflow,bounds,return,unreachable'
PASSES = 'function(simplifycfg<no-switch-to-lookup;no-sink-common-insts;no-hoist-common-insts>,sroa,early-cse,simplifycfg<no-switch-to-lookup;no-sink-common-insts;no-hoist-common-insts>)'
WRAPS = ['_Znwm', '_Znam', '_ZnwmRKSt9nothrow_t', '_ZnamRKSt9nothrow_t', '_ZdlPv', '_ZdlPvm', '_ZdaPv', '_ZdaPvm',
         'pthread_mutex_lock', 'pthread_mutex_trylock', 'pthread_mutex_unlock', 'pthread_mutex_destroy',
         'pthread_rwlock_rdlock', 'pthread_rwlock_tryrdlock', 'pthread_rwlock_wrlock', 'pthread_rwlock_trywrlock',
         'pthread_rwlock_unlock', 'pthread_rwlock_destroy', 'pthread_cond_wait', 'pthread_cond_timedwait',
         'pthread_cond_clockwait', 'pthread_cond_signal', 'pthread_cond_broadcast', 'pthread_cond_destroy',
         'sched_yield', 'nanosleep', 'pthread_self',
         '_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE', '_ZNSt18condition_variable10notify_oneEv',
         '_ZNSt18condition_variable10notify_allEv',
         '_ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE', '_ZNSt6thread4joinEv',
         '_ZNSt6thread6detachEv', '_ZNSt6chrono3_V212steady_clock3nowEv', '_ZNSt6chrono3_V212system_clock3nowEv']
T0 = time.time()
VERB = False


def log(*a):
    if VERB:
        print('[%6.1f]' % (time.time() - T0), *a, file=sys.stderr, flush=True)


class BuildError(Exception):
    pass


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)


def must(cmd, **kw):
    r = run(cmd, **kw)
    if r.returncode:
        raise BuildError(' '.join(cmd[:12]) + ' ...\n' + r.stderr.decode(errors='replace')[-4000:])
    return r.stdout


def compile_one(src, flags, suffix, post=None):
    """Compile src with flags, cached under a hash of the preprocessed text. Returns the output path."""
    cdir = os.path.join(BUILD, 'cache')
    os.makedirs(cdir, exist_ok=True)
    std = [] if src.endswith('.c') else STD
    cxx = 'clang-18' if src.endswith('.c') else CXX
    pp = must([cxx] + std + flags + INC + ['-E', src])
    h = hashlib.sha256()
    h.update(pp)
    h.update(repr((cxx, std, flags, suffix, post)).encode())
    out = os.path.join(cdir, h.hexdigest()[:24] + suffix)
    if os.path.exists(out):
        return out
    tmp = out + '.%d.%d' % (os.getpid(), threading.get_ident())
    must([cxx] + std + flags + INC + ['-c', src, '-o', tmp])
    if post:
        must(post + ([tmp] if 'objcopy' in post[0] else [tmp, '-o', tmp]))
    os.rename(tmp, out)
    return out


def ensure_engine():
    os.makedirs(BUILD, exist_ok=True)
    h = hashlib.sha256()
    for f in sorted(glob.glob(ENG + '/*')):
        if f.endswith(('.cpp', '.h', '.inc', '.sh')) and 'runtime' not in f and 'replay' not in f:
            h.update(open(f, 'rb').read())
    stamp = os.path.join(BUILD, 'engine.stamp')
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(stamp) and open(stamp).read() == h.hexdigest() and os.path.exists(BUILD + '/engine'):
            return
        must(['sh', os.path.join(ENG, 'build.sh'), BUILD])
        open(stamp, 'w').write(h.hexdigest())


def all_sources():
    r = []
    for f in sorted(glob.glob(REPO + '/src/**/*.cpp', recursive=True)) + sorted(glob.glob(REPO + '/src-gen/**/*.cpp', recursive=True)):
        rel = os.path.relpath(f, REPO)
        if '/python/' in rel or '/Tests/' in rel or 'xsmp_services' in rel:
            continue
        r.append(rel)
    return r


class Harness:
    def __init__(self, path):
        self.path = path
        self.name = os.path.splitext(os.path.basename(path))[0]
        txt = open(path).read()
        self.sources, self.flags, self.entries, self.ub = [], [], [], False
        for m in re.finditer(r'^// (SOURCES|FLAGS|ENTRY|UBSAN)[: ]+(.*)$', txt, re.M):
            k, v = m.group(1), m.group(2).strip()
            if k == 'SOURCES':
                self.sources += v.split()
            elif k == 'FLAGS':
                for f in v.split():  # @dir: stand-in headers that come first; @file.h: included first
                    if f[0] == '@' and f.endswith('.h'):
                        self.flags += ['-include', os.path.join(VERIF, 'harness', f[1:])]
                    else:
                        self.flags.append('-I' + os.path.join(VERIF, 'harness', f[1:]) if f[0] == '@' else f)
            elif k == 'UBSAN':
                self.ub = True
            else:
                # ENTRY name key=value...
                p = v.split()
                e = {'name': p[0], 'quick': 0, 'thorough': 0, 'opts': []}
                for q in p[1:]:
                    if q.startswith('--'):
                        e['opts'].append(q)
                    else:
                        a, b = q.split('=', 1)
                        e[a] = int(b) if b.isdigit() else b
                self.entries.append(e)
        self.witnesses = sorted(set(re.findall(r'sym_witness\("([^"]+)"\)', txt)))
        self.wit_by_entry = {}
        if 'ALL' in self.sources:
            self.sources = all_sources()
        expanded = []
        for s in self.sources:
            expanded += [os.path.relpath(f, REPO) for f in sorted(glob.glob(os.path.join(REPO, s)))] or [s]
        self.sources = expanded

    def everything(self):
        # a source whose header is replaced by a stand-in is not linked
        fakes = [f[2:] for f in self.flags if f.startswith('-I')]
        hide = lambda x: any(os.path.exists(os.path.join(f, re.sub(r'^src(-gen)?/', '', x)[:-4] + '.h')) for f in fakes)
        return [x for x in all_sources() if not hide(x)]

    def src_paths(self, srcs):
        return [os.path.join(REPO, s) for s in srcs if os.path.exists(os.path.join(REPO, s))]


def undefined_syms(bc):
    out = must(['llvm-nm-18', '--undefined-only', '--just-symbol-name', bc]).decode()
    return [l.strip() for l in out.splitlines() if re.search(r'4Xsmp|3Smp|xsmp', l)]


def build_ir(h, pool):
    irf = IRFLAGS + ['-emit-llvm'] + h.flags
    if h.ub:
        irf += [UB, '-fsanitize-trap=all']
    post = ['opt-18', '-passes=' + PASSES]
    rt = pool.submit(compile_one, ENG + '/runtime.cpp', ['-O1', '-Xclang', '-disable-llvm-passes', '-fno-builtin', '-fno-access-control', '-emit-llvm', '-w'], '.bc', post)
    rtc = pool.submit(compile_one, ENG + '/runtime_c.c', ['-O1', '-Xclang', '-disable-llvm-passes', '-fno-builtin', '-emit-llvm', '-w'], '.bc', post)

    def link(srcs):
        fs = [pool.submit(compile_one, s, irf, '.bc', post) for s in [h.path] + h.src_paths(srcs)]
        bcs = [f.result() for f in fs]
        lk = os.path.join(BUILD, 'ir')
        os.makedirs(lk, exist_ok=True)
        out = os.path.join(lk, h.name + '.bc')
        direct = 1 + len(h.src_paths(h.sources))
        must(['llvm-link-18', bcs[0]] + sorted(set(bcs[1:direct])) + [rt.result(), rtc.result(), '-o', out + '.tmp'])
        # sources that are not named by the harness are only used for what is still missing
        extra = sorted(set(bcs[direct:]) - set(bcs[:direct]))
        while extra:
            before = undefined_syms(out + '.tmp')
            must(['llvm-link-18', '--only-needed', out + '.tmp'] + extra + ['-o', out + '.tmp3'])
            os.rename(out + '.tmp3', out + '.tmp')
            if undefined_syms(out + '.tmp') == before:
                break
        keep = ','.join(e['name'] for e in h.entries) + ',__rt_throw_bad_alloc,__rt_thread_main,__cxa_throw_bad_array_new_length'
        must(['opt-18', '-passes=internalize,globaldce', '-internalize-public-api-list=' + keep, out + '.tmp', '-o', out + '.tmp2'])
        os.rename(out + '.tmp2', out)
        os.unlink(out + '.tmp')
        return out
    out = link(h.sources)
    h.used_sources = list(h.sources)
    und = undefined_syms(out)
    if und and set(h.sources) != set(h.everything()):
        log(h.name, 'unresolved', und[:5], '- linking every source')
        h.used_sources = h.sources + [x for x in h.everything() if x not in h.sources]
        out = link(h.used_sources)
    return out


def build_native(h, pool, kind='asan'):
    try:
        return build_native1(h, pool, kind)
    except BuildError as e:
        # parts that are cut from the symbolic run (formatting, logging) are still linked natively
        if 'undefined reference' not in str(e) or set(h.used_sources) >= set(h.everything()):
            raise
        h.used_sources = h.sources + [x for x in h.everything() if x not in h.sources]
        return build_native1(h, pool, kind)


def build_native1(h, pool, kind):
    if kind == 'asan':
        fl = ['-fsanitize=address', UB, '-fno-sanitize-recover=all', '-ftrivial-auto-var-init=pattern']
    elif kind == 'tsan':
        fl = ['-fsanitize=thread']
    else:
        fl = ['-O0', '-DPLAIN']
    base = NATFLAGS + fl
    srcs = [(h.path, h.flags)] + [(s, h.flags) for s in h.src_paths(h.used_sources)]
    # only the code under test is redirected to the replay's scheduler and allocator, not the sanitizers
    wrap = ['llvm-objcopy-18'] + ['--redefine-sym=%s=__wrap_%s' % (w, w) for w in WRAPS]
    real = ['llvm-objcopy-18'] + ['--redefine-sym=__real_%s=%s' % (w, w) for w in WRAPS]
    fs = [pool.submit(compile_one, s, base + f, '.o', wrap) for s, f in srcs]
    fs.append(pool.submit(compile_one, ENG + '/replay_rt.cpp', [x for x in base if x != '-D_GLIBCXX_EXTERN_TEMPLATE=0' and x != UB] + ['-fno-access-control'], '.o', real))
    objs = [f.result() for f in fs]
    nd = 1 + len(h.src_paths(h.sources))
    rest = sorted(set(objs[nd:-1]) - set(objs[:nd]))
    objs = objs[:nd] + objs[-1:]
    d = os.path.join(BUILD, 'native')
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, h.name + '.' + kind)
    tmp = out + '.%d' % os.getpid()
    if rest:
        if os.path.exists(tmp + '.a'):
            os.unlink(tmp + '.a')
        must(['llvm-ar-18', 'rcs', tmp + '.a'] + rest)
        rest = [tmp + '.a']
    must([CXX, '-o', tmp] + sorted(set(objs)) + rest + fl + ['-rdynamic', '-ldl', '-lpthread'])
    os.rename(tmp, out)
    if rest:
        os.unlink(tmp + '.a')
    return out


def replay(binary, entry, lines, bound, kind='asan', timeout=60):
    """-> (rc, stdout, stderr)"""
    f = os.path.join(BUILD, 'tmp.%d.%d' % (os.getpid(), threading.get_ident()))
    open(f, 'w').write('\n'.join(lines) + '\n')
    env = dict(os.environ, SYM_BOUND=str(bound or 0), UBSAN_OPTIONS='print_stacktrace=1',
               ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=1:abort_on_error=0:exitcode=1:malloc_fill_byte=165:max_malloc_fill_size=4096',
               TSAN_OPTIONS='exitcode=1:halt_on_error=1')
    cmd = [binary, entry, f]
    if kind == 'plain':
        cmd = ['valgrind', '-q', '--error-exitcode=1', '--exit-on-first-error=yes', '--track-origins=no'] + cmd
        timeout *= 3
    elif kind == 'tsan':
        cmd = ['setarch', '-R'] + cmd if shutil.which('setarch') else cmd
    try:
        r = run(cmd, env=env, timeout=timeout)
        return r.returncode, r.stdout.decode(errors='replace'), r.stderr.decode(errors='replace')
    except subprocess.TimeoutExpired:
        return 124, '', 'timeout'
    finally:
        os.unlink(f)


def kind_for(err):
    if err['kind'] == 'uninitialised':
        return ['plain', 'asan']
    if err['kind'] == 'data-race':
        return ['tsan']
    return ['asan', 'plain']


def known_findings():
    p = os.path.join(VERIF, 'known_findings.json')
    return json.load(open(p)) if os.path.exists(p) else {'findings': [], 'fixed': []}


def main():
    global VERB
    ap = argparse.ArgumentParser()
    if sys.argv[1:] == ['--setup']:
        ensure_engine()
        return
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('--budget', type=float, default=0)
    ap.add_argument('--no-native', action='store_true')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    VERB = a.v
    prop, tier = a.prop, a.tier
    budget = a.budget or (560 if tier == 'quick' else 840)
    deadline = T0 + budget
    ensure_engine()
    pool = ThreadPoolExecutor(JOBS)
    hs = [Harness(p) for p in sorted(glob.glob(os.path.join(VERIF, 'harness', prop + '*.cpp')))]
    hs = [h for h in hs if re.match(prop + r'(?![0-9])', h.name)]
    if a.only:
        for h in hs:
            h.entries = [e for e in h.entries if re.fullmatch(a.only, e['name'])]
        hs = [h for h in hs if h.entries]
    if not hs:
        print('no harness for', prop)
        sys.exit(0)
    problems, results = [], []
    native, natpool = {}, ThreadPoolExecutor(len(hs) + 1)
    for h in hs:
        h.used_sources = list(h.sources)
    irs = {}
    build_failed = None
    irpool = ThreadPoolExecutor(len(hs))
    try:
        futs = {h.name: irpool.submit(build_ir, h, pool) for h in hs}
        for h in hs:
            irs[h.name] = futs[h.name].result()
    except BuildError as e:
        build_failed = str(e)
    if build_failed:
        # The tree does not compile with this harness: nothing was decided.
        pass
        problems.append('build failed: ' + build_failed[:2500])
    else:
        log('ir built')
    jobs = []
    if not build_failed:
        for h in hs:
            for e in h.entries:
                if tier == 'quick' and e.get('tier') == 'thorough':
                    continue
                jobs.append((h, e))
    if not a.no_native and not build_failed:
        for h in hs:
            native[h.name] = natpool.submit(build_native, h, pool)

    remaining = len(jobs)

    def job(h, e):
        out = os.path.join(BUILD, 'out.%d.%s.json' % (os.getpid(), e['name']))
        waves = max(1, -(-len(jobs) // JOBS))
        left = deadline - 45 - time.time()
        tl = e.get('time', 0) or max(20, left / (1 if waves == 1 else 1))
        tl = min(float(tl), max(5, left))
        bound = e[tier]
        cmd = [BUILD + '/engine', '--entry=' + e['name'], '--out=' + out, '--repo=' + REPO, '--time=%.0f' % tl] + e['opts']
        if bound:
            cmd.append('--bound=%d' % bound)
        cmd.append(irs[h.name])
        t = time.time()
        r = run(cmd)
        log(h.name, e['name'], 'engine rc', r.returncode, '%.1fs' % (time.time() - t))
        if r.returncode or not os.path.exists(out):
            return h, e, None, r.stderr.decode(errors='replace')[-2000:]
        txt = open(out).read()
        os.unlink(out)
        try:
            return h, e, json.loads(txt), ''
        except ValueError as x:
            return h, e, None, 'bad report: %s' % x

    engpool = ThreadPoolExecutor(JOBS)
    futs = [engpool.submit(job, h, e) for h, e in sorted(jobs, key=lambda j: -int(j[1].get('weight', 1)))]
    for f in as_completed(futs):
        h, e, rep, err = f.result()
        if rep is None:
            problems.append('%s: engine gave no result: %s' % (e['name'], err))
            continue
        results.append((h, e, rep))

    # replay: counterexamples, then a sample of the explored paths
    violations, unconfirmed, known, mism = [], [], [], []
    nval = 0
    kf = known_findings()
    natcache = {}
    for (h, e, rep) in results:
        for err in rep['errors']:
            ok, how = False, ''
            if a.no_native:
                ok, how = True, 'not replayed'
            else:
                for k in kind_for(err):
                    key = (h.name, k)
                    if key not in natcache:
                        try:
                            natcache[key] = native[h.name].result() if k == 'asan' else build_native(h, pool, k)
                        except BuildError as x:
                            problems.append('native build: ' + str(x)[-800:])
                            natcache[key] = None
                    if not natcache[key]:
                        continue
                    rc, so, se = replay(natcache[key], e['name'], err['replay'], e[tier], k)
                    if rc not in (0, 76, 77, 78):
                        ok, how = True, '%s: exit %d: %s' % (k, rc, (re.search(r'(REPLAY-FAIL.*|ERROR: .*|runtime error: .*|WARNING: ThreadSanitizer.*|terminate called.*|.*uninitialised.*)', se) or ['timeout or signal'])[0])
                        break
                    how = '%s: exit %d %s' % (k, rc, se[-300:])
            rec = {'entry': e['name'], 'harness': h.name, 'kind': err['kind'], 'msg': err['msg'], 'count': err['count'],
                   'stack': err['stack'], 'replay': err['replay'], 'bound': e[tier], 'confirmed': how}
            if not ok:
                unconfirmed.append(rec)
                continue
            hit = None
            for k in kf['findings']:
                if k['property'] == prop and k['entry'] == e['name'] and k['kind'] == err['kind'] and k['msg'] == err['msg']:
                    hit = k
            (known if hit else violations).append(rec if not hit else dict(rec, what=hit['what']))
    if not a.no_native and not build_failed:
        tests = []
        for (h, e, rep) in results:
            for t in rep['tests']:
                tests.append((h, e, t))

        def val(h, e, t):
            try:
                b = native[h.name].result()
            except BuildError as x:
                return ('build', str(x)[-800:])
            rc, so, se = replay(b, e['name'], [l for l in t if not l.startswith('obs')], e[tier])
            want = [l for l in t if l.startswith('obs')]
            got = [l for l in so.splitlines() if l.startswith('obs')]
            if rc != 0:
                return ('rc', '%s rc=%d %s' % (e['name'], rc, se[-600:]))
            if set(want) - set(got):
                return ('obs', '%s %s got %s for %s' % (e['name'], want, got, t))
            return None
        if time.time() < deadline - 5:
            for r in ThreadPoolExecutor(JOBS).map(lambda x: val(*x), tests):
                if r is None:
                    nval += 1
                elif r[0] == 'build':
                    if len(problems) < 10 and not any(p.startswith('native build') for p in problems):
                        problems.append('native build: ' + r[1])
                else:
                    mism.append(r[1])

    # report
    seen = set()
    rdir = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    for v in violations:
        k = (v['entry'], v['kind'], v['msg'])
        if k in seen:
            continue
        seen.add(k)
        path = os.path.join(rdir, '%s-%s-%d.json' % (prop, v['entry'], len(seen)))
        json.dump(v, open(path, 'w'), indent=1)
        print('VIOLATION property=%s replay=%s' % (prop, path))
        print('  %s in %s: %s [%s]' % (v['kind'], v['entry'], v['msg'], v['confirmed']))
        print('  ' + v['stack'].strip().replace('\n', '\n  '))
        print('  inputs: ' + '; '.join(v['replay'])[:1500])
    ks = set()
    for v in known:
        if v['what'] not in ks:
            ks.add(v['what'])
            print('KNOWN-FINDING: property=%s %s' % (prop, v['what']))
    for v in unconfirmed:
        print('UNCONFIRMED property=%s %s %s: %s [%s]' % (prop, v['entry'], v['kind'], v['msg'], v['confirmed'][:300]))
        if VERB:
            print(v['stack'], '\n'.join(v['replay'])[:1500])
    wits = {}
    for (h, e, rep) in results:
        for w, n in rep['witnesses'].items():
            wits[w] = wits.get(w, 0) + n
    missing = []
    if not a.only:
        for h in hs:
            missing += [w for w in h.witnesses if w not in wits]
    if missing:
        print('NOTE property=%s situations never reached: %s' % (prop, ', '.join(missing)))
    tot = lambda k: sum(rep[k] for (_, _, rep) in results)
    incomplete = [{'entry': e['name'], 'why': rep['timeout'] or 'unsupported', 'pending': rep['pending_states'], 'unsupported': rep['unsupported'][:5]} for (h, e, rep) in results if not rep['complete'] and not rep['errors']]
    for i in incomplete:
        print('INCOMPLETE property=%s %s: %s %s' % (prop, i['entry'], i['why'], ' | '.join(i['unsupported'])[:1500]))
    for m in mism:
        print('MISMATCH property=%s %s' % (prop, m))
    for p in problems:
        print('PROBLEM property=%s %s' % (prop, p))
    funcs = sorted(set(f for (_, _, rep) in results for f in rep['functions']))
    stubs = sorted(set(f for (_, _, rep) in results for f in rep['stubs']))
    samples = []
    for (h, e, rep) in results:
        for t in rep['tests'][:1]:
            samples.append({'entry': e['name'], 'path': t[:40]})
    ev = {
        'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'model_checking',
        'wall_s': round(time.time() - T0, 2),
        'coverage': {
            'states': tot('paths') + tot('killed'), 'transitions': tot('instructions'),
            'traces_validated_against_impl': nval, 'samples': samples[:12],
            'technique': 'symbolic execution of the LLVM IR of /repo with an SMT solver (z3, bit-vectors and IEEE floats)',
            'entries': [{'entry': e['name'], 'bound': e[tier], 'complete_within_bound': rep['complete'], 'paths': rep['paths'], 'instructions': rep['instructions'],
                         'forks': rep['forks'], 'assertions': rep['asserts'], 'assertion_queries': rep['assert_queries'], 'memory_checks': rep['memory_checks'],
                         'schedule_points': rep['sched_points'], 'solver_queries': rep['queries'], 'solver_time_s': round(rep['solver_time'], 2)} for (h, e, rep) in results],
            'functions_encoded': funcs, 'functions_encoded_count': len(funcs),
            'queries_discharged': tot('queries'), 'queries_sat': tot('sat'), 'queries_unsat': tot('unsat'), 'queries_unknown': tot('unknown'),
            'query_cache_hits': tot('cache_hits') + tot('model_hits'), 'solver_time_s': round(tot('solver_time'), 2),
            'assertions': tot('asserts'), 'situations_reached': wits, 'situations_missed': missing,
            'incomplete': incomplete, 'cut_functions': stubs, 'replay_mismatches': mism, 'problems': problems,
            'violations': violations, 'known_findings': sorted(ks), 'unconfirmed': unconfirmed,
        },
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)
    print('property=%s tier=%s: %d entries (%d complete), %d paths, %d assertions, %d queries, %.1fs solver, %d paths replayed, %d violations, %.0fs' % (
        prop, tier, len(results), sum(1 for r in results if r[2]['complete']), tot('paths'), tot('asserts'), tot('queries'), tot('solver_time'), nval, len(seen), time.time() - T0))
    sys.stdout.flush()
    os._exit(1 if violations else 0)


main()
