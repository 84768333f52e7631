#!/usr/bin/env python3
"""check.py C0x: decides one property of /repo's current source by symbolic execution (engine/) of harnesses (harness/).

Exit 0: every explored job holds. Exit 1: a counterexample was found and reproduced with the real code, reported as
VIOLATION. Exit 2: nothing could be explored (the crate does not build), or a counterexample could not be reproduced.
"""
import json, os, queue, re, resource, shutil, subprocess, sys, threading, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'tools'))
import jobs as J

HERE = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(HERE, 'build')
HARNESS = os.path.join(HERE, 'harness')
ENGINE = os.path.join(HERE, 'engine', 'target', 'release', 'symex')
START = time.time()
FEATURES = {'simd': 'simd', 'std': 'std', 'core': '', 'file': 'file'}
CPUS = os.cpu_count() or 4
# the hooks in the crate; those that do not fit it any more are left out
HOOKS = ('jpeg_encoder_verif', 'jpeg_encoder_verif_rows', 'jpeg_encoder_verif_ops')
COMBINATIONS = (7, 3, 5, 1, 6, 2, 4, 0)


def env(target, flags, hooks):
    e = dict(os.environ)
    e['RUSTFLAGS'] = flags + ''.join(' --cfg ' + c for i, c in enumerate(HOOKS) if hooks >> i & 1)
    e['CARGO_TARGET_DIR'] = os.path.join(BUILD, target)
    e['RUSTUP_TOOLCHAIN'] = 'stable'
    e['CARGO_NET_OFFLINE'] = 'true'
    return e


def cargo(args, e, cwd=HARNESS):
    p = subprocess.run(['cargo'] + args + ['--offline', '--message-format=json-render-diagnostics'], cwd=cwd, env=e,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    arts = []
    for l in p.stdout.splitlines():
        try:
            d = json.loads(l)
        except ValueError:
            continue
        if d.get('reason') == 'compiler-artifact':
            arts.append(d)
    return p.returncode, arts, p.stderr


def build_engine():
    e = dict(os.environ)
    for k in ('RUSTFLAGS', 'CARGO_TARGET_DIR'):
        e.pop(k, None)
    e['RUSTUP_TOOLCHAIN'] = 'stable'
    p = subprocess.run(['cargo', 'build', '--release', '--offline'], cwd=os.path.join(HERE, 'engine'), env=e,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise SystemExit('the engine does not build\n' + p.stdout)


IR_FLAGS = '--emit=llvm-ir -C no-vectorize-loops -C no-vectorize-slp'


def build_ir(variant):
    """Compile crate and harnesses to LLVM IR. Returns (files, hooks compiled, a bit each)"""
    for hooks in COMBINATIONS:
        e = env('ir-' + variant, IR_FLAGS, hooks)
        a = ['build', '--lib', '--features', FEATURES[variant]]
        if variant == 'file':
            # the standard library is compiled as well, down to the calls of the operating system
            e['RUSTC_BOOTSTRAP'] = '1'
            a += ['-Zbuild-std=std,panic_abort', '--target', 'x86_64-unknown-linux-gnu']
        rc, arts, err = cargo(a, e)
        if rc == 0:
            files = []
            for a in arts:
                for f in a['filenames']:
                    if f.endswith('.rmeta'):
                        d, b = os.path.split(f)
                        ll = os.path.join(d, b[3:-6] + '.ll')
                        own = a['target']['name'] in ('harness', 'jpeg_encoder', 'jpeg-encoder', 'core', 'alloc', 'std')
                        if own and os.path.exists(ll):
                            files.append(ll)
            if len(files) < 2:
                raise RuntimeError('no IR was written: %r' % [a['filenames'] for a in arts])
            return files, hooks
    raise RuntimeError(err)


NATIVE = {}
NATIVE_LOCK = threading.Lock()


def native(variant, profile):
    """Path of the binary that runs harnesses natively, or None"""
    with NATIVE_LOCK:
        k = (variant, profile)
        if k not in NATIVE:
            NATIVE[k] = None
            for h in COMBINATIONS:
                e = env('native-' + variant, '', h)
                a = ['build', '--bin', 'replay', '--features', (FEATURES[variant] + ' native').strip()]
                rc, arts, err = cargo(a + (['--release'] if profile == 'release' else []), e)
                if rc == 0:
                    for x in arts:
                        if x.get('executable'):
                            NATIVE[k] = x['executable']
                    break
            if NATIVE[k] is None:
                print('native build of %s/%s failed: %s' % (variant, profile, err[-1500:]))
        return NATIVE[k]


class Native:
    """one native run"""

    def __init__(self, binary, job, inputs, extra=None, timeout=40):
        w = [x for x in job.split() if x != 'plain']
        f = os.path.join(BUILD, 'in-%d-%d' % (os.getpid(), threading.get_ident()))
        with open(f, 'w') as o:
            o.write(' '.join(map(str, inputs)))
        e = dict(os.environ)
        e.update(extra or {})
        self.timeout = False
        try:
            p = subprocess.run([binary, w[0], f] + w[1:], env=e, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                               timeout=timeout)
            self.rc, self.text = p.returncode, p.stdout.decode('utf-8', 'replace')
        except subprocess.TimeoutExpired:
            self.rc, self.text, self.timeout = None, '', True
        os.unlink(f)
        self.out = None
        for l in self.text.splitlines():
            if l.startswith('OUT '):
                self.out = l[4:].strip()
            elif l == 'OUT':
                self.out = ''
        m = re.search(r'CHECK (\d+) fails', self.text)
        self.check = int(m.group(1)) if m else None
        self.panic = self.rc == 101 or 'PANIC ' in self.text.replace('EXPECTED PANIC ', '') or self.rc == -6

    def short(self):
        if self.timeout:
            return 'does not end'
        if self.rc in (-11, -7, -4):
            return 'killed by signal %d' % -self.rc
        l = [x for x in self.text.splitlines() if not x.startswith('OUT')]
        return ' '.join(l)[:300] or 'exit %s' % self.rc


def native_variant(variant, job):
    """which build executes the code path of the job"""
    w = job.split()
    if variant != 'simd':
        return variant
    if w[0] in ('dct_same', 'colour', 'quantize', 'opt_table', 'simd', 'quant_same', 'quant_block', 'bits'):
        return 'simd'
    return 'simd' if w[1] != '0' else 'std'


def confirm(prop, variant, job, v):
    """Reproduce a counterexample with the real code. Returns a text or None"""
    nv = native_variant(variant, job)
    counts = J.COUNTS[prop]
    seen = []
    for profile in ('dev', 'release'):
        b = native(nv, profile)
        if not b:
            continue
        if job.startswith('simd '):
            o = native('std', profile)
            if o:
                x, y = Native(b, job, v['inputs']), Native(o, job, v['inputs'])
                if x.out is not None and y.out is not None and x.out != y.out:
                    return 'output with AVX2 differs from output without (%s build)' % profile
                seen += [x.short(), y.short()]
        r = Native(b, job, v['inputs'])
        if r.timeout and v['kind'] == 'time':
            return 'does not end within 40 seconds (%s build)' % profile
        if r.check is not None and r.check in counts:
            return '%s (%s build)' % (r.short(), profile)
        if r.panic and 'panic' in counts:
            return '%s (%s build)' % (r.short(), profile)
        if 'unsafe precondition' in r.text and 'memory' in counts:
            return '%s (%s build)' % (r.short(), profile)
        if r.rc in (-11, -7, -4) and 'memory' in counts:
            return '%s (%s build)' % (r.short(), profile)
        seen.append(r.short())
        if v['kind'] in ('memory', 'uninit', 'ub', 'check') and 'memory' in counts:
            for g in ('1', '2'):
                r1 = Native(b, job, v['inputs'], {'GUARD': g, 'FILL': '0'})
                if r1.rc in (-11, -7, -4):
                    return 'access outside of an allocation: %s with guard pages (%s build)' % (r1.short(), profile)
                for fill in ('85', '170', '255'):
                    r2 = Native(b, job, v['inputs'], {'GUARD': g, 'FILL': fill})
                    if r1.text != r2.text:
                        return 'the result depends on the contents of uninitialised memory (%s build)' % profile
                    if r2.check is not None and r2.check in counts:
                        return '%s with memory filled with %s' % (r2.short(), fill)
    v['native'] = seen
    return None


def limit_memory():
    resource.setrlimit(resource.RLIMIT_AS, (7 << 30, 7 << 30))


class Engine:
    def __init__(self, files, args):
        self.args = [ENGINE] + args + ['0:' + f for f in files]
        self.p = None

    def run(self, line):
        if self.p is None or self.p.poll() is not None:
            self.p = subprocess.Popen(self.args, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                      stderr=subprocess.DEVNULL, text=True, preexec_fn=limit_memory)
        try:
            self.p.stdin.write(line + '\n')
            self.p.stdin.flush()
            l = self.p.stdout.readline()
            return json.loads(l)
        except (ValueError, OSError):
            self.stop()
            return None

    def stop(self):
        if self.p:
            self.p.kill()
            self.p.wait()
            self.p = None


def known():
    """known findings: property=<id> job=<job without restart of engine> id=<check or kind>  text"""
    r = []
    f = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r'known: property=(\S+) job="([^"]*)" what=(\S+) (.*)', l)
            if m:
                r.append(m.groups())
    return r


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    todo = J.jobs(prop, tier, seed)
    only = os.environ.get('VERIF_ONLY')
    if only:
        todo = [t for t in todo if re.search(only, t[1])]
    variants = sorted({t[0] for t in todo}, reverse=True)
    print('%s: %d jobs (%s)' % (prop, len(todo), tier), flush=True)

    # build everything in parallel
    ir, errors = {}, []

    def b(f, *a):
        try:
            return f(*a)
        except BaseException as e:
            errors.append('%s%r: %s' % (f.__name__, a, str(e)[-3000:]))

    def bi(v):
        try:
            ir[v] = build_ir(v)
        except BaseException as e:
            if v != 'file':
                raise
            # the jobs that need it stay undecided
            ir[v] = None
            print('note: no IR of the standard library: ' + str(e)[-1000:], flush=True)
        ready[v].set()

    nvs = sorted({native_variant(t[0], t[1]) for t in todo})
    first_native = 'simd' if 'simd' in nvs else nvs[-1]
    ts = [threading.Thread(target=b, args=(build_engine,))]
    ready = {v: threading.Event() for v in variants}
    ts += [threading.Thread(target=b, args=(bi, v)) for v in variants if v != 'file']
    late = [threading.Thread(target=b, args=(bi, v)) for v in variants if v == 'file']
    nt = threading.Thread(target=b, args=(native, first_native, 'dev'))
    for t in ts + late:
        t.start()
    nt.start()
    for t in ts:
        t.join()
    if errors:
        print('\n'.join(errors))
        return 2
    built = time.time() - START
    hooks = min((ir[v][1] for v in variants if v != 'file'), key=lambda h: bin(h).count('1'))
    hooks = {7: 'all', 0: 'none'}.get(hooks, ' '.join(c for i, c in enumerate(HOOKS) if hooks >> i & 1))
    print('built in %.1f s, IR: %s%s' % (built, ', '.join(variants), '' if hooks == 'all' else ', hooks that compile: ' + hooks),
          flush=True)

    budget = float(os.environ.get('VERIF_BUDGET', 420 if tier == 'quick' else 3000))
    q = queue.Queue()
    for t in sorted(todo, key=lambda t: t[0] == 'file'):
        q.put(t)
    results, lock = [], threading.Lock()
    stop = threading.Event()
    bad, notes, unconfirmed, undecided, kf = [], [], [], [], []
    knowns = known()

    def judge(t, d):
        variant, line, sec = t
        if d is None:
            undecided.append('%s %s: the engine stopped (memory)' % (variant, line))
            return
        counts = J.COUNTS[prop]
        vs = list(d['violations'])
        if d.get('interrupted') is not None and 'time' in counts:
            vs.append({'kind': 'time', 'id': 0, 'message': 'a path did not end within the time limit', 'place': '',
                       'inputs': d['interrupted']})
        for v in vs:
            what = v['id'] if v['kind'] == 'check' else v['kind']
            text = '%s %s: %s %s: %s [%s] inputs %s' % (variant, line, v['kind'], v['id'] or '', v['message'] or J.text(v['id']),
                                                 v['place'][:160], str(v['inputs'])[:300])
            if what == 'uninit' or what == 'ub':
                # the assertions of unsafe functions end the program in debug builds
                what = 'panic' if what == 'ub' and 'memory' not in counts else 'memory'
            if what not in counts:
                notes.append('not this property: ' + text)
                continue
            c = confirm(prop, variant, line, v)
            if c is None:
                if v['kind'] in ('memory', 'uninit', 'ub'):
                    undecided.append('not reproducible natively: ' + text)
                elif v['kind'] != 'time':
                    unconfirmed.append(text + ' native: ' + '; '.join(v.get('native', [])))
                continue
            k = [x for x in knowns if x[0] == prop and x[1] == line and x[2] == str(what)]
            if k:
                kf.append(k[0])
                continue
            bad.append((t, v, text, c))
            stop.set()
            return
        for u, n in d['unsupported'].items():
            undecided.append('%s %s: %d paths: %s' % (variant, line, n, u))
        if not vs and not d['unsupported'] and d['paths'] == 0:
            undecided.append('%s %s: no path was completed' % (variant, line))

    selftests = []

    def worker(n):
        engines = {}
        if n == 0:
            p = subprocess.run([ENGINE, '--selftest', '200' if tier == 'quick' else '3000'], stdout=subprocess.PIPE, text=True,
                               env=dict(os.environ, VERIF_SEED=str(seed)))
            selftests.append((p.returncode, p.stdout.strip().splitlines()[-1:] or ['']))
        while not stop.is_set():
            try:
                t = q.get_nowait()
            except queue.Empty:
                break
            left = budget - (time.time() - START)
            if left < 5:
                with lock:
                    undecided.append('%s %s: not started, no time left' % t[:2])
                continue
            variant, line, sec = t
            ready[variant].wait()
            if ir[variant] is None:
                with lock:
                    undecided.append('%s %s: the standard library could not be compiled' % (variant, line))
                continue
            if variant not in engines:
                engines[variant] = Engine(ir[variant][0], [])
            d = engines[variant].run('%s seconds:%g' % (line, min(sec, left)))
            if stop.is_set() and d is None:
                break
            with lock:
                results.append((t, d))
            judge(t, d)
        for e in engines.values():
            e.stop()

    ws = [threading.Thread(target=worker, args=(n,)) for n in range(CPUS)]
    for w in ws:
        w.start()
    for w in ws:
        w.join()
    nt.join()

    # validate the translation: paths of the engine run natively and give the same output
    validated, mismatches, samples = 0, [], []
    if not bad:
        pick = []
        for t, d in results:
            if d:
                for s in d['samples'][:1] + d['samples'][-1:][: len(d['samples']) - 1]:
                    pick.append((t, s))
        pick.sort(key=lambda x: x[0][1])
        most = 60 if tier == 'quick' else 400
        step = max(1, len(pick) // most)
        vq = queue.Queue()
        for t, s in pick[::step]:
            if native_variant(t[0], t[1]) == first_native or tier != 'quick':
                vq.put((t, s))

        def validate():
            nonlocal validated
            while True:
                try:
                    t, s = vq.get_nowait()
                except queue.Empty:
                    return
                if time.time() - START > budget + 60:
                    return
                bin = native(native_variant(t[0], t[1]), 'dev')
                if not bin:
                    return
                r = Native(bin, t[1], s['inputs'], timeout=60)
                same = r.timeout or r.rc == 0 and (r.out == s['out'] or 'EXPECTED PANIC' in r.text)
                with lock:
                    validated += 1
                    if len(samples) < 5:
                        samples.append({'job': t[1], 'variant': t[0], 'inputs': s['inputs'][:40], 'same_output_natively': same})
                    if not same:
                        mismatches.append('%s %s inputs %s: native run: %s' % (t[0], t[1], str(s['inputs'])[:200], r.short()))
        vs = [threading.Thread(target=validate) for _ in range(CPUS)]
        for v in vs:
            v.start()
        for v in vs:
            v.join()

    done = [d for _, d in results if d]
    tot = lambda k: sum(d[k] for d in done)
    functions = sorted({re.sub(r'17h[0-9a-f]{16}E$', 'E', f) for d in done for f in d['functions'] if 'jpeg_encoder' in f or 'verif' in f})
    functions = [demangle(f) for f in functions]
    wall = time.time() - START
    decided = [t for t, d in results if d and not d['unsupported'] and not d['violations'] and d['paths'] > 0]
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'wall_s': round(wall, 1),
        'violations': len(bad),
        'coverage': {
            'states': tot('paths'), 'transitions': tot('insts'),
            'traces_validated_against_impl': validated,
            'samples': samples or [{'job': t[1], 'variant': t[0]} for t, _ in results[:3]],
            'explanation': 'states: symbolic paths executed to their end; transitions: IR instructions executed '
                           'symbolically; traces: paths whose model was run natively with equal output',
            'jobs': len(todo), 'jobs_decided': len(decided),
            'bounds': J.BOUNDS.get(prop, ''),
            'functions_encoded': functions,
            'assertions': tot('checks'), 'assertions_by_rewriting': tot('checks_simplified'),
            'assertions_by_solver': tot('checks_solver'), 'assertions_linear_arithmetic': tot('checks_linear'),
            'memory_accesses_checked': tot('memory_checks'),
            'paths_pruned': tot('pruned'), 'forks': tot('forks'),
            'solver': {'queries': tot('queries') + tot('lra'), 'sat': tot('sat'), 'unsat': tot('unsat'), 'unknown': tot('unknown'),
                       'linear': tot('lra'), 'seconds': round(tot('solver_seconds'), 2),
                       'slowest_query': max([d['slowest_query'] for d in done] or [0])},
            'rewriting_rules_selftest': [s[1][0] for s in selftests],
            'undecided': undecided[:60], 'unconfirmed': unconfirmed[:20], 'other': notes[:20],
            'translation_mismatches': mismatches[:20],
            'job_list': [{'variant': t[0], 'job': t[1], 'seconds': d['seconds'] if d else None,
                          'paths': d['paths'] if d else 0, 'checks': d['checks'] if d else 0} for t, d in results],
            'hooks_compiled': hooks,
        },
        'assumptions': J.ASSUMPTIONS,
    }
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for n in notes[:5] + undecided[:12]:
        print('note: ' + n[:600])
    for k in sorted(set(kf)):
        print('KNOWN-FINDING: property=%s %s' % (prop, k[3]))
    c = ev['coverage']
    print('%s: %d of %d jobs decided, %d paths, %d assertions, %d solver queries (%.1f s), %d traces validated, %.0f s' % (
        prop, len(decided), len(todo), c['states'], c['assertions'], c['solver']['queries'], c['solver']['seconds'], validated, wall))
    if bad:
        t, v, text, c = bad[0]
        print(text[:1500])
        print('native: ' + c)
        path = save_replay(prop, t, v, c)
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    for u in unconfirmed:
        print('NOT REPRODUCED: ' + u[:800])
    for m in mismatches[:5]:
        print('ENGINE AND NATIVE RUN DIFFER: ' + m[:500])
    if any(s[0] for s in selftests):
        print('the self-test of the rewriting rules failed')
        return 2
    if unconfirmed or mismatches:
        return 2
    if not decided:
        # nothing is claimed about this tree
        print('undecided: no job could be completed')
        return 2
    return 0


def demangle(f):
    m = re.match(r'_ZN(.*)E$', f)
    if not m:
        return f
    s, r = m.group(1), []
    while s:
        n = re.match(r'\d+', s)
        if not n:
            break
        k = int(n.group(0))
        r.append(s[n.end():n.end() + k])
        s = s[n.end() + k:]
    t = '::'.join(r)
    for a, b in (('$LT$', '<'), ('$GT$', '>'), ('$u20$', ' '), ('$RF$', '&'), ('$C$', ','), ('$LP$', '('), ('$RP$', ')'), ('..', '::')):
        t = t.replace(a, b)
    return t


def save_replay(prop, t, v, c):
    d = os.path.join(HERE, 'replays', prop)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    with open(os.path.join(d, 'inputs'), 'w') as f:
        f.write(' '.join(map(str, v['inputs'])))
    nv = native_variant(t[0], t[1])
    w = t[1].split()
    with open(os.path.join(d, 'run.sh'), 'w') as f:
        f.write('#!/bin/bash\n# %s %s\n# %s\n# native: %s\n' % (prop, t[1], v['message'].replace('\n', ' '), c.replace('\n', ' ')))
        f.write('cd %s && RUSTFLAGS="--cfg jpeg_encoder_verif --cfg jpeg_encoder_verif_rows --cfg jpeg_encoder_verif_ops" CARGO_TARGET_DIR=%s/native-%s cargo build --offline --bin replay '
                '--features "%s native" &&\n' % (HARNESS, BUILD, nv, FEATURES[nv]))
        f.write('%s/native-%s/debug/replay %s %s/inputs %s\n' % (BUILD, nv, w[0], d, ' '.join(w[1:])))
    os.chmod(os.path.join(d, 'run.sh'), 0o755)
    with open(os.path.join(d, 'counterexample.json'), 'w') as f:
        json.dump({'property': prop, 'variant': t[0], 'job': t[1], 'violation': v, 'native': c}, f, indent=1)
    return os.path.join(d, 'run.sh')


if __name__ == '__main__':
    sys.exit(main())
