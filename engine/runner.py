"""Runs the proof units of one property (in parallel processes), the concrete harness, and gives the
verdict.  See DESIGN.md, section "Verdict"."""
import os, sys, time, json, tempfile, shutil, subprocess, traceback, multiprocessing as mp, signal

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.setrecursionlimit(100000)


KNOWN_FILES = set("""WBMatrix/src/WBMatrix.c
WBMatrix/src/random.c
src/aes/aes.c
src/aes/aes_modes.c
src/fpe/ff1.c
src/fpe/ff1_cmac.c
src/fpe/ff3.c
src/fpe/ff3_gmac.c
src/fpe/fpe_locl.c
src/fpe/init.c
src/fpe_app/cn_utf8.c
src/fpe_app/idcard.c
src/fpe_app/init.c
src/fpe_app/phone.c
src/fpe_app/utf8_util.c
src/modes/cbc128.c
src/modes/gcm128.c
src/modes/gcm_parallel.c
src/modes/gcmfile.c
src/se_wbsm4/se_wbsm4.c
src/se_wbsm4/se_wbsm4_local.c
src/sm3/sm3.c
src/sm4/sm4.c
src/sm4/sm4_modes.c
src/utils/keystore.c
src/utils/padding.c
src/utils/wrandom.c
src/wbaes/wbaes.c
src/wbaes/wbaes_local.c
src/wbaes/wbaes_modes.c
src/wbaes/wbaes_wbgcm_ee_file.c
src/wbaes/wbaes_wbgcm_ee_init.c
src/wbaes/wbaes_wbgcm_ee_mode.c
src/wbaes/wbaes_wbgcm_mask_file.c
src/wbaes/wbaes_wbgcm_mask_init.c
src/wbaes/wbaes_wbgcm_mask_mode.c
src/wbsm4/wbsm4.c
src/wbsm4/wbsm4_exkey.c
src/wbsm4/wbsm4_gen.c
src/wbsm4/wbsm4_modes.c""".split())


def all_files():
    import glob
    return sorted(os.path.relpath(f, REPO) for f in glob.glob(REPO + '/src/*/*.c') + glob.glob(REPO + '/WBMatrix/src/*.c'))


def with_new(files):
    """the listed sources that exist, plus source files added since these checks were written (the build
    takes every .c file of these directories)"""
    return [f for f in files if f.startswith('/') or os.path.exists(os.path.join(REPO, f))] + [f for f in all_files() if f not in KNOWN_FILES]


class Unit:
    """one proof unit: a function of the repo (with what it inlines) against its contract"""

    def __init__(self, name, fn, files, note='', flags=(), budget=150, needs=(), bounded=False):
        self.name, self.fn, self.files, self.note, self.flags, self.budget = name, fn, files, note, flags, budget
        self.needs = needs
        self.bounded = bounded  # stays within reach of the harness only; never counted as proved


class Ctx:
    """handed to a unit function"""

    def __init__(self, unit, work, tier, seed):
        self.unit, self.work, self.tier, self.seed = unit, work, tier, seed
        self.execs = []
        self.bounded = []
        self.notes = []
        self.assumed = set()
        self.contracts_checked = set()
        self._mod = None

    def mod(self):
        if self._mod is None:
            from . import ir
            d = os.path.join(self.work, 'ir_' + ''.join(c if c.isalnum() else '_' for c in self.unit.name))
            self._mod = ir.load_repo(with_new(self.unit.files), d, list(self.unit.flags))
        return self._mod

    def exec(self, contracts=None, name=None):
        from . import sym
        e = sym.Exec(self.mod(), contracts, name or self.unit.name)
        e.deadline = self.deadline
        self.execs.append(e)
        return e

    def need(self, *fnames):
        """the functions must be defined in the module"""
        from . import sym, ir
        for f in fnames:
            if ir.find(self.mod(), f) not in self.mod().funcs:
                raise sym.EngineLimit('function %s is not defined' % f)

    def mark_bounded(self, what):
        self.bounded.append(what)


def run_unit(u, work, tier, seed, q):
    from . import sym, smt, prover
    os.setpgrp()
    t0 = time.time()
    c = Ctx(u, work, tier, seed)
    c.deadline = t0 + u.budget * (3 if tier == 'thorough' else 1)
    res = {'name': u.name, 'status': 'proved', 'detail': '', 'solid': False, 'note': u.note}
    try:
        u.fn(c)
    except sym.Refuted as e:
        o = e.ob
        m = o.model or {}
        res['status'] = 'refuted'
        res['solid'] = bool(m.get('solid', True)) if isinstance(m, dict) else True
        if o.name in ('call-precondition', 'frame'):
            res['solid'] = False
        vals = m.get('vals', {}) if isinstance(m, dict) else {}
        res['detail'] = '%s: %s' % (o.name, o.detail)
        res['model'] = {str(k): hex(v) if isinstance(v, int) else str(v) for k, v in list(vals.items())[:60]}
        res['by'] = m.get('by', '') if isinstance(m, dict) else ''
    except sym.EngineLimit as e:
        res['status'] = 'limit'
        res['detail'] = str(e)
        res['slow'] = u.bounded
    except RecursionError:
        res['status'] = 'limit'
        res['detail'] = 'recursion depth of the verifier'
    except MemoryError:
        res['status'] = 'limit'
        res['detail'] = 'memory of the verifier'
    except Exception as e:
        res['status'] = 'limit'
        res['detail'] = 'verifier error: %r' % (e,)
        res['trace'] = traceback.format_exc()[-3000:]
    res['loops'] = ['%s %s %s: %s' % x for e in c.execs[-1:] for x in e.loops.summ[-8:]] if res['status'] != 'proved' else []
    nob = 0
    by = {}
    names = {}
    fns, used, assum = set(), set(), set(c.assumed)
    nv = 0
    for e in c.execs:
        for o in e.obls:
            nob += 1
            if o.status == 'valid':
                nv += 1
                by[o.backend] = by.get(o.backend, 0) + 1
            names[o.name] = names.get(o.name, 0) + 1
        t = getattr(e, 'triv', 0)
        nob += t
        nv += t
        if t:
            by['interval'] = by.get('interval', 0) + t
            names['memory-safety'] = names.get('memory-safety', 0) + t
        fns |= e.inlined
        used |= e.used_contracts
        assum |= e.assumptions
    if res['status'] == 'proved' and nob == 0:
        res['status'] = 'limit'
        res['detail'] = 'no obligation was generated (vacuous)'
    res.update(obligations=nob, discharged=nv, by_backend=by, kinds=names, functions=sorted(fns),
               contracts_used=sorted(used), assumptions=sorted(assum), bounded=c.bounded, notes=c.notes,
               time=round(time.time() - t0, 2), solver={k: round(v, 3) for k, v in smt.stats.items()})
    q.put(res)


CAP = 420      # wall seconds for all units of a quick run
GRACE = 40     # once one unit has failed, the others get this much longer


def run_units(units, work, tier, seed, jobs=8, hook=None):
    """hook(failed): called regularly; returns True to stop early"""
    out = {}
    q = mp.Queue()
    pend = list(enumerate(units))
    live = {}
    start = time.time()
    k = 3 if tier == 'thorough' else 1
    firstbad = None
    stop = False
    while pend or live:
        while pend and len(live) < jobs and not stop:
            i, u = pend.pop(0)
            p = mp.Process(target=run_unit, args=(u, work, tier, seed, q))
            p.start()
            live[u.name] = (p, time.time(), u)
        try:
            r = q.get(timeout=0.2)
            out[r['name']] = r
            if r['status'] != 'proved' and firstbad is None and not [u for u in units if u.name == r['name']][0].bounded:
                firstbad = time.time()
        except Exception:
            pass
        now = time.time()
        if hook is not None and hook(firstbad is not None):
            stop = True
        if now - start > CAP * k or (firstbad and now - firstbad > GRACE * k):
            stop = True
        if stop:
            for i, u in pend:
                out[u.name] = dict(name=u.name, status='skipped', detail='not run: another obligation had already failed, or the total time was used up')
            pend = []
        for n in list(live):
            p, t0, u = live[n]
            lim = u.budget * k + 15
            if n in out:
                p.join(5)
                if p.is_alive():
                    p.kill()
                del live[n]
            elif not p.is_alive():
                # give the queue a moment
                try:
                    while True:
                        r = q.get(timeout=0.5)
                        out[r['name']] = r
                except Exception:
                    pass
                if n not in out:
                    out[n] = dict(name=n, status='limit', detail='verifier process ended (code %s)' % p.exitcode, slow=True)
                    del live[n]
            elif now - t0 > lim or stop:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except Exception:
                    p.kill()
                if stop:
                    out[n] = dict(name=n, status='skipped', detail='stopped: another obligation had already failed, or the total time was used up')
                else:
                    out[n] = dict(name=n, status='limit', detail='time budget of %d s exhausted' % lim)
                    if firstbad is None and not u.bounded:
                        firstbad = now
                del live[n]
    return [out[u.name] for u in units]


# ------------------------------------------------------------------ harness
CFLAGS = ['-O1', '-g', '-fopenmp', '-fcommon', '-w', '-fno-omit-frame-pointer']


class Harness:
    def __init__(self, src, files, sanitize=True, extra=(), quick_s=6, search_s=60, wrap=(), std='-std=gnu99'):
        self.src, self.files, self.sanitize, self.extra = src, files, sanitize, extra
        self.quick_s, self.search_s, self.wrap, self.std = quick_s, search_s, wrap, std

    def build(self, work):
        exe, err = self._build(work, with_new(self.files))
        if exe is None and err.startswith('linking') and not [f for f in self.files if f.startswith('/')]:
            return self._build(work, all_files())
        return exe, err

    def _build(self, work, files):
        h = os.path.join(work, 'harness')
        os.makedirs(h, exist_ok=True)
        inc = ['-I%s/include' % REPO, '-I%s/WBMatrix/include' % REPO, '-I%s/src' % REPO, '-I' + os.path.join(VERIF, 'harness')]
        for d in sorted(os.listdir(REPO + '/src')):
            inc.append('-I%s/src/%s' % (REPO, d))
        san = ['-fsanitize=address', '-fno-sanitize-recover=all'] if self.sanitize else []
        procs = []
        objs = []
        for f in files + [os.path.join(VERIF, 'harness', self.src)]:
            p = f if f.startswith('/') else os.path.join(REPO, f)
            o = os.path.join(h, p.strip('/').replace('/', '_') + '.o')
            objs.append(o)
            procs.append((p, subprocess.Popen(['gcc', self.std] + CFLAGS + (['-O0', '-g0'] if p.endswith('se_wbsm4_local.c') else san) + inc + list(self.extra) + ['-c', p, '-o', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
        for p, pr in procs:
            o, _ = pr.communicate()
            if pr.returncode:
                return None, 'compiling %s: %s' % (p, o.decode(errors='replace')[-1500:])
        exe = os.path.join(h, 'h')
        wr = ['-Wl,--wrap=' + w for w in self.wrap]
        r = subprocess.run(['gcc'] + CFLAGS + san + list(self.extra) + objs + wr + ['-o', exe, '-lcrypto', '-lm'], capture_output=True, text=True)
        if r.returncode:
            return None, 'linking: ' + r.stderr[-1500:]
        return exe, ''

    def run(self, exe, work, seed, seconds, only=None):
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:malloc_fill_byte=%d:max_malloc_fill_size=1048576' % (seed * 37 % 251 + 1), OMP_NUM_THREADS='4')
        scr = tempfile.mkdtemp(dir=work)
        cur = os.path.join(scr, 'current_case')
        args = [exe, 'run', str(seed), str(seconds), cur] if only is None else [exe, 'case', str(only), '0', cur]
        try:
            r = subprocess.run(args, capture_output=True, text=True, errors='replace', env=env, cwd=scr, timeout=seconds + 60, stdin=subprocess.DEVNULL)
            rc, out, err = r.returncode, r.stdout, r.stderr
        except subprocess.TimeoutExpired as e:
            rc, out, err = 124, (e.stdout or b'').decode(errors='replace') if isinstance(e.stdout, bytes) else (e.stdout or ''), 'timeout'
        case = None
        try:
            case = open(cur).read().strip()
        except Exception:
            pass
        shutil.rmtree(scr, ignore_errors=True)
        return rc, out, err, case


def known_findings(prop):
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding: property=%s ' % prop):
                out.append(l[len('finding: property=%s ' % prop):])
    return out


def main(prop, units, harness=None, level='proof', assumptions=(), trusted=(), findings=None):
    def onterm(sig, frm):
        for p in mp.active_children():
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except Exception:
                p.kill()
        os._exit(2)
    signal.signal(signal.SIGTERM, onterm)
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    sel = sys.argv[1:]
    if sel:
        units = [u for u in units if any(s in u.name for s in sel)]
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    work = tempfile.mkdtemp(prefix='verif_%s_' % prop)
    try:
        return _main(prop, units, harness, level, assumptions, trusted, findings, tier, seed, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def _main(prop, units, harness, level, assumptions, trusted, findings, tier, seed, work, t0):
    hres = {}
    exe = None

    if harness is not None:
        exe, err = harness.build(work)
        if exe is None:
            hres['build_error'] = err
    fail = None
    hs = {'proc': None, 'q': None, 'n': 0, 'fail': None, 'end': 0}

    def launch(sd, secs):
        hs['q'] = mp.Queue()
        hs['proc'] = mp.Process(target=lambda q: q.put(harness.run(exe, work, sd, secs)), args=(hs['q'],))
        hs['proc'].start()
        hs['end'] = time.time() + secs + 90

    def poll():
        """collects a finished harness run"""
        if hs['proc'] is None:
            return
        try:
            rc, out, err, case = hs['q'].get(timeout=0.01)
        except Exception:
            if time.time() < hs['end'] and hs['proc'].is_alive():
                return
            rc, out, err, case = 124, '', 'harness did not end', None
        hs['proc'].join(5)
        hs['proc'] = None
        hs['fail'] = judge(rc, out, err, case, hres)

    searches = [] if os.environ.get('VERIF_NOSEARCH') or not exe else [(seed + 1000, harness.search_s * (4 if tier == 'thorough' else 1))]

    def hook(failed):
        if not exe:
            return False
        poll()
        if hs['fail']:
            # let the verifier name the obligation that fails as well
            return failed or time.time() - t0 > 60
        if failed and hs['proc'] is None and searches:
            launch(*searches.pop(0))
        return False

    if exe:
        launch(seed, harness.quick_s * (10 if tier == 'thorough' else 1))
    res = run_units(units, work, tier, seed, 8, hook)
    bad = [r for r in res if r['status'] == 'refuted']
    lim = [r for r in res if r['status'] == 'limit']
    bnames = set(u.name for u in units if u.bounded)
    while exe and not hs['fail']:
        if hs['proc'] is None:
            if (bad or [r for r in lim if r['name'] not in bnames]) and searches:
                launch(*searches.pop(0))
            else:
                break
        poll()
        time.sleep(0.05)
    fail = hs['fail']
    res = [dict(r, status='limit') if r['status'] == 'skipped' and not (fail or bad or lim) else r for r in res]
    lim = [r for r in res if r['status'] == 'limit']
    viol = None
    if fail:
        viol = ('input', fail)
    elif bad:
        viol = ('noinput', bad[0])
    elif [r for r in lim if not r.get('slow')]:
        # an obligation of a unit that is discharged on the unchanged tree could not be established
        viol = ('noinput', [r for r in lim if not r.get('slow')][0])
    for r in res:
        if r['status'] != 'proved':
            print('unit %s: %s: %s' % (r['name'], r['status'], r['detail']))
            if r.get('trace') and os.environ.get('VERIF_DEBUG'):
                print(r['trace'])
            if os.environ.get('VERIF_DEBUG'):
                for x in r.get('loops', []):
                    print('   loop:', x[:1500])
        elif os.environ.get('VERIF_DEBUG'):
            print('unit %s: proved (%d obligations, %.1fs) %s %s' % (r['name'], r['obligations'], r['time'], r['by_backend'], '; '.join(r['bounded'])))
    for k in known_findings(prop):
        print('KNOWN-FINDING: property=%s %s' % (prop, k))
    replay = os.path.join(VERIF, 'evidence', '%s.replay.txt' % prop)
    code = 0
    if viol:
        with open(replay, 'w') as f:
            f.write('property %s\n' % prop)
            for r in lim:
                f.write('\nobligations of unit %s not established: %s\n' % (r['name'], r['detail']))
                f.write(''.join('   loop: %s\n' % x[:600] for x in r.get('loops', [])))
            for r in bad:
                f.write('\nfailed obligation in unit %s\n  %s\n  decided by %s\n  counterexample values %s\n' % (r['name'], r['detail'], r.get('by'), json.dumps(r.get('model'), indent=1)))
            if viol[0] == 'input':
                f.write('\nfailing input against the real code (harness %s)\n' % harness.src)
                f.write('replay: build the harness with the sources %s and run it with: case %s\n' % (' '.join(harness.files), fail['case']))
                f.write(fail['text'])
            else:
                f.write('\nno failing input was found by the concrete search\n')
        print('VIOLATION property=%s replay=%s%s' % (prop, replay, '' if viol[0] == 'input' else ' no-failing-input-found'))
        code = 1
    elif os.path.exists(replay):
        os.unlink(replay)
    # evidence
    nob = sum(r.get('obligations', 0) for r in res)
    nd = sum(r.get('discharged', 0) for r in res)
    standin = ['%s: %s' % (r['name'], r['detail']) for r in res if r['status'] != 'proved']
    bnd = ['%s: %s' % (r['name'], b) for r in res for b in r.get('bounded', [])]
    by = {}
    for r in res:
        for k, v in r.get('by_backend', {}).items():
            by[k] = by.get(k, 0) + v
    fns = sorted(set(sum([r.get('functions', []) for r in res], [])))
    lvl = level
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': lvl,
        'coverage': {
            'obligations': nob, 'discharged': nd,
            'checker_cmd': 'python3-vt /verif/checks/%s.py' % prop.lower(),
            'trusted_base': ['clang 18 front end + opt -passes=mem2reg,simplifycfg (extraction to LLVM IR)', 'engine/*.py (VC generator, loop rule, simplifier, GF(2) canonical forms)', 'z3 4.x API, cvc5 1.1.2'] + list(trusted),
            'units': [{k: r.get(k) for k in ('name', 'note', 'status', 'detail', 'obligations', 'discharged', 'by_backend', 'kinds', 'functions', 'contracts_used', 'bounded', 'notes', 'time', 'solver')} for r in res],
            'functions_under_contract': fns,
            'discharged_by_backend': by,
            'solver_time_s': round(sum(r.get('solver', {}).get('z3_time', 0) + r.get('solver', {}).get('cvc5_time', 0) for r in res), 2),
            'bounded_standins': standin, 'bounded_parts': bnd,
            'concrete_runs': hres,
        },
        'assumptions': sorted(set(sum([r.get('assumptions', []) for r in res], [])) | set(assumptions)),
        'wall_s': round(time.time() - t0, 2), 'violations': 1 if viol else 0,
    }
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    np = sum(1 for r in res if r['status'] == 'proved')
    print('%s: %d/%d units proved, %d/%d obligations discharged, harness cases %s, %.1f s' % (prop, np, len(res), nd, nob, hres.get('cases'), time.time() - t0))
    return code


def judge(rc, out, err, case, hres):
    """None if the harness run was fine, else a failure description"""
    for l in out.split('\n'):
        if l.startswith('cases='):
            for kv in l.split():
                k, v = kv.split('=', 1)
                if v.isdigit():
                    hres[k] = hres.get(k, 0) + int(v)
        if l.startswith('sample '):
            hres.setdefault('samples', [])
            if len(hres['samples']) < 4:
                hres['samples'].append(l[7:300])
    if rc == 0:
        return None
    txt = '\n'.join([l for l in out.split('\n') if l.startswith('FAIL')][:5]) + '\n' + err[-3000:]
    hres['failure'] = txt[:600]
    return {'case': case, 'text': 'exit code %s\n%s\n' % (rc, txt)}
