#!/usr/bin/env python3
"""Decide one property of RadarKit by contract-based deductive verification.

usage: check.py PROPERTY [--tier quick|thorough] [--only TARGET] [--keep]

Every run compiles /repo's current sources together with the harnesses of
props/<PROPERTY>/, lets CBMC/goto-instrument (dfcc) generate and discharge the
obligations, and replays counterexamples on natively compiled code of /repo.
"""
import sys, os, re, json, time, shutil, subprocess, tempfile, argparse, importlib.util, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VP_REPO', '/repo')
GOTO_FLAGS = ['-std=gnu11', '-D_GNU_SOURCE', '-D__CPROVER__=1', '-w']
INC = ['-I' + VERIF + '/lib', '-I' + REPO + '/headers', '-I' + REPO + '/headers/RadarKit', '-I' + REPO + '/source', '-I' + REPO + '/source/ext', '-I' + REPO]
SIMD_MODEL = ['-I' + VERIF + '/stubs/include', '-D__AVX__=1', '-D__FMA__=1']
NATIVE_FLAGS = ['-std=gnu11', '-D_GNU_SOURCE', '-w', '-O1', '-g', '-march=haswell', '-mfpmath=sse', '-fno-omit-frame-pointer']
SAN = ['-fsanitize=address,bounds', '-fno-sanitize-recover=bounds']
LIBS = ['-lfftw3f', '-lnetcdf', '-lz', '-lssl', '-lcrypto', '-lpthread', '-lm', '-ldl']
DEADLINE = None                         # wall clock by which the check must have answered
LOCK = threading.Lock()
NLOCK = threading.Lock()


def native_lib(wd):
    """the rest of /repo as plain native objects, for calls that leave the harness's own sources"""
    with NLOCK:
        lib = os.path.join(wd, 'libvp.a')
        if os.path.exists(lib):
            return lib
        od = os.path.join(wd, 'obj')
        os.makedirs(od, exist_ok=True)
        srcs = [os.path.join(dp, f) for dp, _, fs in os.walk(os.path.join(REPO, 'source')) for f in fs if f.endswith('.c') and f not in ('RKTest.c',)]

        def one(s):
            return run(['gcc'] + NATIVE_FLAGS + INC + ['-c', s, '-o', os.path.join(od, os.path.basename(s)[:-2] + '.o')], 120)[0]
        with ThreadPoolExecutor(max_workers=6) as ex:
            list(ex.map(one, srcs))
        run(['ar', 'rcs', lib] + [os.path.join(od, f) for f in sorted(os.listdir(od))], 60)
        return lib


def log(*a):
    with LOCK:
        print(*a, flush=True)


def run(cmd, timeout, cwd=None, env=None, mem_gb=None):
    t0 = time.time()
    if DEADLINE:
        timeout = max(5, min(timeout, DEADLINE - t0))
    pre = []
    if mem_gb:
        pre = ['prlimit', '--as=%d' % (mem_gb << 30)]
    try:
        p = subprocess.run(pre + cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, cwd=cwd, env=env, start_new_session=True)
        return p.returncode, p.stdout.decode('utf8', 'replace'), p.stderr.decode('utf8', 'replace'), time.time() - t0
    except subprocess.TimeoutExpired as e:
        return 'timeout', (e.stdout or b'').decode('utf8', 'replace'), (e.stderr or b'').decode('utf8', 'replace'), time.time() - t0


def leaf_bytes(v):
    """bytes of a CBMC trace value, leaves in memory order (packed layout)"""
    if v is None:
        return b''
    if 'elements' in v:
        return b''.join(leaf_bytes(e['value']) for e in v['elements'])
    if 'members' in v:
        ms = v['members']
        if v.get('name') == 'union':
            return leaf_bytes(ms[0]['value']) if ms else b''
        return b''.join(leaf_bytes(m['value']) for m in ms)
    if 'binary' in v:
        b = v['binary']
        n = (len(b) + 7) // 8
        return int(b, 2).to_bytes(n, 'little')
    if v.get('name') == 'union' and 'member' in v:
        return leaf_bytes(v['member']['value'])
    if v.get('name') == 'boolean':
        return b'\1' if v.get('data') in (True, 'true', 'TRUE') else b'\0'
    return b''


class Target:
    def __init__(self, prop, d, tier):
        self.prop, self.tier = prop, tier
        self.name = d['name']
        self.d = d
        self.kind = d.get('kind', 'proof')          # proof | bounded
        self.res = dict(name=self.name, kind=self.kind, obligations=0, discharged=0, failed=[], unreached=[], status='?', solver_s=0.0, wall_s=0.0, nobody=[], note='', cmds=[])

    # ---- deductive run -------------------------------------------------
    def unionless(self, wd):
        """a copy of RKTypes.h, made on every run, in which the named unions are structs: the members no longer overlap
        their byte view (which the verified functions do not use); native runs keep the real unions"""
        names = self.d.get('structs')
        if not names:
            return []
        inc = os.path.join(wd, self.name + '.inc')
        os.makedirs(inc + '/RadarKit', exist_ok=True)
        s = open(REPO + '/headers/RadarKit/RKTypes.h').read()
        for x in names:
            s, n = re.subn(r'typedef union %s \{' % x, 'typedef struct %s {' % x, s)
            if not n:
                s, n = re.subn(r'(typedef struct %s \{\s*)union \{' % x, r'\1struct {', s)
        open(inc + '/RadarKit/RKTypes.h', 'w').write(s)
        for x in ('RKTypesCompat.h',):
            shutil.copy(REPO + '/headers/RadarKit/' + x, inc + '/RadarKit/' + x)
        return ['-I' + inc]

    def goto_build(self, wd, contracts, extra_defs):
        d = self.d
        src = [os.path.join(VERIF, 'props', self.prop, d['harness'])]
        src += [os.path.join(VERIF, 'stubs', s) for s in d.get('stubs', ['stubs.c'])]
        src += [os.path.join(REPO, s) for s in d.get('link', [])]
        a0 = os.path.join(wd, self.name + '.0.gb')
        a = os.path.join(wd, self.name + '.gb')
        defs = ['-D' + x for x in d.get('defs', [])] + ['-D' + x for x in extra_defs]
        if contracts:
            defs.append('-DRK_CONTRACTS')
        pre = self.unionless(wd)
        cmd = ['goto-cc'] + GOTO_FLAGS + (SIMD_MODEL if d.get('simd', True) else []) + pre + INC + defs + ['--function', d['entry']] + src + ['-o', a0]
        rc, out, err, dt = run(cmd, 120)
        self.res['cmds'].append(' '.join(cmd))
        if rc != 0:
            return None, 'goto-cc failed: ' + (out + err)[-1500:]
        if d.get('remove'):
            run(['goto-instrument'] + [y for x in d['remove'] for y in ('--remove-function-body', x)] + [a0, a0], 120, mem_gb=14)
        for x in d.get('replace_calls', []):
            run(['goto-instrument', '--replace-calls', x, a0, a0], 120, mem_gb=14)
        rc, out, err, dt = run(['goto-instrument', '--drop-unused-functions', a0, a], 120, mem_gb=14)
        if rc != 0:
            return None, 'goto-instrument failed: ' + (out + err)[-1500:]
        dfcc = d.get('enforce') or d.get('replace')
        if contracts and not dfcc:
            b = os.path.join(wd, self.name + '.i.gb')
            cmd = ['goto-instrument', '--apply-loop-contracts', a, b]
            rc, out, err, dt = run(cmd, 300, mem_gb=14)
            self.res['cmds'].append(' '.join(cmd))
            if rc != 0:
                return None, 'goto-instrument failed: ' + (out + err)[-1500:]
            a = b
        elif dfcc:
            b = os.path.join(wd, self.name + '.i.gb')
            cmd = ['goto-instrument', '--dfcc', d['entry']]
            for f in d.get('enforce', []):
                cmd += ['--enforce-contract', f]
            for f in d.get('replace', []):
                cmd += ['--replace-call-with-contract', f]
            if contracts:
                cmd += ['--apply-loop-contracts']
                if not d.get('unwind_rest'):
                    pass
            cmd += d.get('gi_flags', [])
            cmd += [a, b]
            rc, out, err, dt = run(cmd, 300, mem_gb=14)
            self.res['cmds'].append(' '.join(cmd))
            if rc != 0:
                return None, 'goto-instrument failed: ' + (out + err)[-1500:]
            a = b
        return a, ''

    def cbmc(self, gb, bounded_unwind=None, props=None, trace=False, timeout=None):
        d = self.d
        cmd = ['cbmc', '--json-ui', '--no-malloc-may-fail', '--object-bits', str(d.get('object_bits', 10))]
        for x in d.get('checks', ['--no-signed-overflow-check', '--no-pointer-primitive-check', '--no-undefined-shift-check', '--no-conversion-check']):
            if x not in ('--no-conversion-check',):
                cmd.append(x)
        if d.get('solver', 'cadical') == 'cadical':
            cmd += ['--sat-solver', 'cadical']
        elif d['solver'] == 'minisat':
            pass
        else:
            cmd += ['--' + d['solver']]
        uw = bounded_unwind if bounded_unwind is not None else d.get('unwind')
        if uw:
            cmd += ['--unwind', str(uw), '--unwinding-assertions']
        if d.get('unwindset'):
            cmd += ['--unwindset', ','.join(d['unwindset'])]
        cmd += d.get('cbmc_flags', [])
        if trace:
            cmd += ['--trace']
        for p in props or []:
            cmd += ['--property', p]
        cmd.append(gb)
        if not trace:
            self.res['cmds'].append(' '.join(cmd))
        t = timeout or d.get('timeout', 300)
        rc, out, err, dt = run(cmd, t, mem_gb=d.get('mem_gb', 12))
        if rc == 'timeout':
            return None, 'timeout after %ds' % t, []
        try:
            js = json.loads(out)
        except Exception:
            return None, 'cbmc gave no result (rc %s): %s' % (rc, (out[-600:] + err[-600:])), []
        results, notes, solver = None, [], 0.0
        for o in js:
            if 'result' in o:
                results = o['result']
            if 'messageText' in o:
                m = o['messageText']
                if m.startswith('Runtime '):
                    mm = re.search(r'Runtime .*?: ([0-9.e+-]+)s', m)
                    if mm:
                        solver += float(mm.group(1))
                if 'no body for' in m:
                    notes.append(m)
        if results is None:
            return None, 'cbmc error: ' + '; '.join(o.get('messageText', '') for o in js if o.get('messageType') == 'ERROR')[:800], notes
        self.res['solver_s'] += solver
        return results, '', notes

    def classify(self, results):
        ok, failed, unreached, reached = 0, [], [], 0
        ign = self.d.get('ignore', [])
        n = 0
        for r in results:
            desc = r.get('description', '')
            if desc.startswith('VPREACH'):
                if r['status'] == 'FAILURE':
                    reached += 1
                else:
                    unreached.append(desc)
                continue
            if '.no-body.' in r['property']:
                self.res['nobody'].append(r['property'].split('.no-body.')[1])
                continue
            if any(re.search(i, desc) or re.search(i, r['property']) for i in ign):
                continue
            n += 1
            if r['status'] == 'SUCCESS':
                ok += 1
            elif r['status'] == 'FAILURE':
                failed.append((r['property'], desc, r.get('sourceLocation', {})))
            else:
                failed.append((r['property'], 'UNDECIDED ' + desc, r.get('sourceLocation', {})))
        return n, ok, failed, unreached, reached

    # ---- native --------------------------------------------------------
    def native_build(self, wd):
        d = self.d
        if d.get('native') is False:
            return None
        exe = os.path.join(wd, self.name + '.native')
        if os.path.exists(exe):
            return exe
        src = [os.path.join(VERIF, 'props', self.prop, d['harness'])]
        cmd = ['gcc'] + NATIVE_FLAGS + d.get('native_flags', []) + (SAN if d.get('san', True) else []) + INC + ['-D' + x for x in d.get('defs', [])] + ['-DVP_ENTRY=' + d['entry']] + src + [VERIF + '/lib/vp_native.c', VERIF + '/stubs/native_stubs.c'] + [os.path.join(REPO, s) for s in d.get('native_link', [])] + [native_lib(wd)] + ['-o', exe, '-Wl,-z,muldefs', '-Wl,--unresolved-symbols=ignore-all'] + LIBS
        rc, out, err, dt = run(cmd, 180)
        if rc != 0:
            self.res['note'] += ' native build failed: ' + err[-400:]
            return None
        return exe

    def native_env(self):
        e = dict(os.environ)
        e['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=43:allocator_may_return_null=1:detect_stack_use_after_return=0'
        e['UBSAN_OPTIONS'] = 'print_stacktrace=0:exitcode=44'
        return e

    def judge(self, rc, out, err):
        if rc == 42:
            return 'obligation: ' + (re.findall(r'VP-FAIL (.*)', out) or ['?'])[-1]
        if rc in (43, 44) or (isinstance(rc, int) and rc < 0) or 'AddressSanitizer' in err or 'runtime error' in err:
            m = re.search(r'(ERROR: AddressSanitizer: [^\n]*|runtime error: [^\n]*)', err)
            return 'memory safety: ' + (m.group(1)[:200] if m else 'signal %s' % rc)
        if rc == 'timeout' and self.d.get('hang_is_violation'):
            return 'does not terminate'
        return None

    def replay(self, wd, props, gb, uw):
        """replay the verifier's counterexamples natively; returns (why, replayfile) or None"""
        exe = self.native_build(wd)
        if not exe:
            return None
        for p, desc, loc in props[:4]:
            res, why, _ = self.cbmc(gb, bounded_unwind=uw, props=[p], trace=True, timeout=min(240, self.d.get('timeout', 300)))
            if not res:
                continue
            for r in res:
                if r['property'] != p or 'trace' not in r:
                    continue
                lines = []
                for st in r['trace']:
                    if st.get('stepType') == 'input':
                        for v in st.get('values', []):
                            b = leaf_bytes(v)
                            if b:
                                lines.append('%s %s' % (st['inputID'].replace(' ', '_'), b.hex()))
                rf = os.path.join(wd, self.name + '.replay')
                open(rf, 'w').write('\n'.join(lines) + '\n')
                rc, out, err, dt = run([exe, 'replay', rf], 30, env=self.native_env(), cwd=wd)
                w = self.judge(rc, out, err)
                if w:
                    return w, rf, 'replayed verifier counterexample for %s (%s)' % (p, desc), out + err
        return None

    def fuzz(self, wd, secs, seed):
        exe = self.native_build(wd)
        if not exe:
            return None, 0, 0
        first, tot, okc = 0, 0, 0
        ctr = os.path.join(wd, self.name + '.ctr')
        rc, out, err, dt = run([exe, 'fuzz', str(seed), '0', '1000000000', str(secs), ctr], secs + 30, env=self.native_env(), cwd=wd)
        m = re.search(r'VP-DONE (\d+) (\d+)', out)
        if m:
            tot, okc = int(m.group(1)), int(m.group(2))
        w = self.judge(rc, out, err)
        if w:
            import struct
            k = struct.unpack('<Q', open(ctr, 'rb').read(8))[0]
            rf = os.path.join(wd, self.name + '.replay')
            open(rf, 'w').write('# native generator seed=%d iteration=%d harness=%s entry=%s\n# rerun: %s fuzz %d %d 1 10\n' % (seed, k, self.d['harness'], self.d['entry'], exe, seed, k))
            # a single iteration must fail by itself as well
            rc2, out2, err2, _ = run([exe, 'fuzz', str(seed), str(k), '1', '20', ctr], 60, env=self.native_env(), cwd=wd)
            if self.judge(rc2, out2, err2):
                return (w, rf, 'native search, seed %d iteration %d' % (seed, k), out2 + err2), tot, okc
            return (w, rf, 'native search from iteration 0, seed %d, failing at iteration %d' % (seed, k), out + err), tot, okc
        return None, tot, okc

    def bounded_standin(self, wd):
        """the same harness without loop contracts, loops unwound; True if it holds"""
        R, d = self.res, self.d
        d.update(d['fallback'])
        R['kind'] = 'bounded'
        gb, why = self.goto_build(wd, False, ['VP_BOUNDED'])
        results, why, notes = self.cbmc(gb, bounded_unwind=d.get('unwind', 6)) if gb else (None, why, [])
        if results is None:
            R['note'] += 'bounded stand-in: ' + why[-200:] + '. '
            return R.get('native_ok', 0) > 0
        n, ok, failed, unreached, reached = self.classify(results)
        R['obligations'], R['discharged'] = n, ok
        R['failed'] += [(p, ds) for p, ds, l in failed]
        return not failed

    def go(self, wd, seed):
        t0 = time.time()
        d, R = self.d, self.res
        violation = None
        contracts = bool(d.get('loop_contracts'))
        uw = None
        gb, why = self.goto_build(wd, contracts, [])
        results = None
        if gb:
            results, why, notes = self.cbmc(gb)
        if results is None and d.get('fallback'):
            # the annotated proof cannot be run (e.g. rewritten loop): bounded stand-in
            R['note'] += 'proof not runnable (%s); bounded stand-in. ' % why.strip().replace('\n', ' ')[-300:]
            fb = d['fallback']
            save = dict(d)
            d.update(fb)
            R['kind'] = 'bounded'
            uw = fb.get('unwind', 6)
            gb, why = self.goto_build(wd, False, ['VP_BOUNDED'])
            results, why, notes = self.cbmc(gb, bounded_unwind=uw) if gb else (None, why, [])
        if results is None:
            R['status'] = 'undecided'
            R['note'] += why
        else:
            n, ok, failed, unreached, reached = self.classify(results)
            R['obligations'], R['discharged'] = n, ok
            R['nobody'] = sorted(set(R['nobody'] + [re.sub(r'.*no body for (function|callee) ', '', x) for x in notes]))
            R['unreached'] = unreached
            R['reached'] = reached
            R['failed'] = [(p, ds) for p, ds, l in failed]
            if failed:
                R['status'] = 'failed'
            elif unreached or n == 0 or reached == 0:
                R['status'] = 'vacuous'
            else:
                R['status'] = 'ok'
        # native concordance / search
        if R['status'] == 'failed':
            v, tot, okc = self.fuzz(wd, 6, seed) if d.get('native') is not False else (None, 0, 0)
            R['native_runs'], R['native_ok'] = tot, okc
            if not v:
                v = self.replay(wd, failed, gb, uw)
            if not v and d.get('native') is not False:
                v, tot, okc = self.fuzz(wd, d.get('fuzz_s', 25), seed + 1)
                R['native_runs'], R['native_ok'] = tot, okc
            if v:
                violation = (v, True)
            elif R['kind'] == 'bounded' and R.get('native_ok', 0) > 0 and all('unwinding assertion' in ds for p, ds, l in failed):
                R['status'] = 'ok-search'
                R['note'] += 'a loop no longer ends within the bound of this target (%s): only the native search decided. ' % failed[0][0]
            elif self.only_aux(failed) and self.d.get('fallback') and R['kind'] == 'proof' and self.bounded_standin(wd):
                R['status'] = 'ok-bounded'
                R['note'] += 'proof script no longer fits the code (%s); the bounded stand-in and the native search found no failure. ' % failed[0][1]
            else:
                txt = 'failed obligations, no failing input found:\n' + '\n'.join('%s: %s [%s:%s]' % (p, ds, l.get('file', ''), l.get('line', '')) for p, ds, l in failed)
                violation = (('obligation not discharged: ' + failed[0][1], None, 'verifier', txt), False)
        elif d.get('native') is not False:
            secs = d.get('smoke_s', 1.0) if R['status'] == 'ok' else d.get('fuzz_s', 25)
            if self.tier == 'thorough':
                secs *= 20
            v, tot, okc = self.fuzz(wd, secs, seed)
            R['native_runs'], R['native_ok'] = tot, okc
            if v:
                violation = (v, True)
        R['wall_s'] = round(time.time() - t0, 2)
        return violation

    AUX = re.compile(r'^AUX |loop invariant|invariant (before|after)|unwinding assertion|is assignable|loop variant|[Dd]ecreases|ranking')

    def only_aux(self, failed):
        return all(self.AUX.search(ds) for p, ds, l in failed)


def load_targets(prop):
    f = os.path.join(VERIF, 'props', prop, 'targets.py')
    spec = importlib.util.spec_from_file_location('t_' + prop, f)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('--keep', action='store_true')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    global DEADLINE
    t0 = time.time()
    DEADLINE = t0 + (780 if a.tier != 'thorough' else 86400)
    m = load_targets(a.prop)
    tg = [Target(a.prop, dict(t), a.tier) for t in m.TARGETS if (a.tier == 'thorough' or t.get('tier', 'quick') == 'quick') and (not a.only or re.search(a.only, t['name']))]
    wd = tempfile.mkdtemp(prefix='vp-%s-' % a.prop)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    known = [k for k in json.load(open(os.path.join(VERIF, 'known-findings.json')))['findings'] if k['property'] == a.prop]
    violations, knownhits = [], []
    try:
        tg.sort(key=lambda t: -t.d.get('weight', 1))
        with ThreadPoolExecutor(max_workers=int(os.environ.get('VP_JOBS', '7'))) as ex:
            futs = [(t, ex.submit(t.go, wd, seed)) for t in tg]
            for t, f in futs:
                try:
                    v = f.result()
                except Exception as e:      # machinery error, not a violation
                    import traceback
                    t.res['status'] = 'undecided'
                    t.res['note'] += 'internal error ' + traceback.format_exc()[-800:]
                    v = None
                R = t.res
                log('[%s] %-28s %-9s %-8s %4d/%-4d obligations, native %s runs, %.1fs %s' % (a.prop, R['name'], R['status'], R['kind'], R['discharged'], R['obligations'], R.get('native_runs', '-'), R['wall_s'], R['note'].strip().replace('\n', ' ')[-400:]))
                if a.v or R['status'] == 'failed':
                    for p, ds in R['failed'][:12]:
                        log('      failed: %s: %s' % (p, ds))
                if R['unreached']:
                    log('      unreached: ' + '; '.join(R['unreached']))
                if v:
                    (why, rf, how, txt), confirmed = v
                    kf = [k for k in known if k['target'] == t.name and re.search(k['match'], why)]
                    if kf:
                        knownhits.append(kf[0])
                        continue
                    dst = os.path.join(VERIF, 'evidence', 'replay-%s-%s.txt' % (a.prop, t.name))
                    with open(dst, 'w') as fo:
                        fo.write('# property %s target %s\n# %s\n# %s\n' % (a.prop, t.name, why, how))
                        for p, ds in R['failed']:
                            fo.write('# failed obligation %s: %s\n' % (p, ds))
                        if rf:
                            fo.write(open(rf).read())
                        fo.write('\n# output\n' + '\n'.join('# ' + l for l in txt[-6000:].splitlines()) + '\n')
                    violations.append((t.name, why, dst, confirmed))
    finally:
        if not a.keep:
            shutil.rmtree(wd, ignore_errors=True)
        else:
            log('kept', wd)
    proofs = [t for t in tg if t.res['kind'] == 'proof']
    undecided = [t for t in tg if t.res['status'] in ('undecided', 'vacuous')]
    ev = dict(property=a.prop, tier=a.tier, seed=seed, level=getattr(m, 'LEVEL', 'proof'), wall_s=round(time.time() - t0, 2), violations=len(violations))
    fn = sorted(set(f for t in tg for f in t.d.get('functions', [])))
    ev['coverage'] = dict(
        obligations=sum(t.res['obligations'] for t in proofs), discharged=sum(t.res['discharged'] for t in proofs),
        checker_cmd='python3 check.py %s --tier %s   (per target: goto-cc; goto-instrument --dfcc; cbmc %s)' % (a.prop, a.tier, 'cadical/minisat SAT or cvc5/z3 SMT back end'),
        trusted_base=list(getattr(m, 'TRUSTED', [])) + ['CBMC 6.11 C front end and memory model', 'stub contracts in /verif/stubs (sockets, logging, threads, allocation)'] + ['no body, arbitrary result: ' + x for x in sorted(set(n for t in tg for n in t.res['nobody']))],
        functions_under_contract=fn,
        solver_time_s=round(sum(t.res['solver_s'] for t in tg), 2),
        bounded=[dict(target=t.name, obligations=t.res['obligations'], discharged=t.res['discharged'], bound=t.d.get('bound', t.res['note'])) for t in tg if t.res['kind'] == 'bounded'],
        native_runs=sum(t.res.get('native_runs', 0) or 0 for t in tg),
        targets=[dict(name=t.name, kind=t.res['kind'], status=t.res['status'], obligations=t.res['obligations'], discharged=t.res['discharged'], solver=t.d.get('solver', 'cadical'), solver_s=round(t.res['solver_s'], 2), wall_s=t.res['wall_s'], functions=t.d.get('functions', []), reach_guards=t.res.get('reached', 0), native_runs=t.res.get('native_runs', 0), note=t.res['note'][-300:]) for t in tg])
    ev['coverage']['explanation'] = getattr(m, 'EXPLANATION', 'Obligations generated from /repo and discharged without a bound are counted under obligations/discharged; targets under bounded are bounded contract checks and are not counted as proved.')
    ev['assumptions'] = list(getattr(m, 'ASSUMPTIONS', []))
    if not a.only:
        json.dump(ev, open(os.path.join(VERIF, 'evidence', a.prop + '.json'), 'w'), indent=1)
    for k in knownhits:
        print('KNOWN-FINDING: property=%s %s' % (a.prop, k['what']))
    for n, why, dst, c in violations:
        print('  %s: %s' % (n, why))
        print('VIOLATION property=%s replay=%s%s' % (a.prop, dst, '' if c else ' no-failing-input-found'))
    if violations:
        sys.exit(1)
    bad = [t for t in undecided if t.res['status'] == 'vacuous' or not t.res.get('native_ok')]
    if bad:
        print('check error: %s gave no answer' % ', '.join(t.name for t in bad))
        sys.exit(2)
    if undecided:
        print('note: %s undecided by the verifier in this run; native search of its contract found no failure' % ', '.join(t.name for t in undecided))
    print('property %s held: %d/%d obligations discharged' % (a.prop, ev['coverage']['discharged'], ev['coverage']['obligations']))
    sys.exit(0)


main()
