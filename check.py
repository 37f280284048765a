#!/usr/bin/env python3
"""check.py PROPERTY: decide one property of /repo by symbolic execution of its LLVM IR + SMT.

Exit 0: no violation found on what was explored; exit 1 and a VIOLATION line: a solver counterexample that was
reproduced by running the real code natively.  VERIF_TIER = quick | thorough, VERIF_SEED = sample seed."""
import sys, os, time, json, traceback, subprocess, multiprocessing, pickle, shutil, hashlib, threading, resource, signal
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'engine'))
sys.setrecursionlimit(20000)
T0 = time.time()

def log(*a):
    print(*a, flush=True)

def worker(conn, prog, cases, seed):
    import explore, solver, rt, real
    resource.setrlimit(resource.RLIMIT_AS, (5 << 30, 5 << 30))
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    while True:
        try:
            task = conn.recv()
        except EOFError:
            return
        if task is None:
            return
        ci, prefix, slice_s, deadline = task
        case = cases[ci]
        results, t0 = [], time.time()
        before = dict(solver.stats)
        work = [prefix]
        try:
            opts = dict(case['opts'])
            opts['seed'] = seed
            ex = explore.Explorer(prog, case['entry'], opts)
            while work and time.time() - t0 < slice_s and time.time() < deadline:
                p = work.pop()
                try:
                    r = ex.run(p)
                except MemoryError:
                    r = dict(end='unsupported: memory', obl=list(ex.obl), alts=list(ex.alts), reach=[], ndec=len(ex.trace), infeasible=False, time=0, witness=None)
                except Exception as e:
                    r = dict(end='unsupported: engine %s: %s' % (type(e).__name__, str(e)[:200]), tb=traceback.format_exc()[-1500:], obl=list(ex.obl), alts=list(ex.alts), reach=[],
                             ndec=len(ex.trace), infeasible=False, time=0, witness=None)
                work.extend(r.pop('alts'))
                results.append(r)
        except Exception as e:
            results.append(dict(end='unsupported: engine %s' % e, tb=traceback.format_exc()[-1500:], obl=[], reach=[], ndec=0, infeasible=False, time=0, witness=None))
        st = {k: solver.stats.get(k, 0) - before.get(k, 0) for k in solver.stats}
        try:
            conn.send((ci, results, work, st, sorted(prog.called)))
        except Exception:
            conn.send((ci, [dict(end='unsupported: result', obl=[], reach=[], ndec=0, infeasible=False, time=0, witness=None)], [], st, []))

def demangle(names):
    try:
        p = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True, timeout=20)
        return p.stdout.strip().split('\n')
    except Exception:
        return names

class Native:
    """replay executable, built in the background"""
    def __init__(self, units, harness, extra):
        self.exe = None
        self.err = None
        self.th = threading.Thread(target=self.build, args=(units, harness, extra), daemon=True)
        self.units, self.harness, self.extra = units, harness, extra
        self.th.start()
        self.plain = None
    def build(self, units, harness, extra):
        import build
        try:
            self.exe = build.native_exe(units, harness, extra)
        except Exception as e:
            self.err = str(e)
    def get(self):
        self.th.join()
        return self.exe
    def run(self, entry, inputs, path, timeout=60, kind=None):
        """write the inputs, run; -> (code, output)"""
        with open(path, 'w') as f:
            f.write('# %s %s\n' % (self.harness, entry))
            for k, v in sorted(inputs.items()):
                f.write('%s=%s\n' % (k, ' '.join(repr(float(x)) for x in v) if isinstance(v, (list, tuple)) else repr(v)))
        exe = self.get()
        if exe is None:
            return None, 'no native build: %s' % self.err
        wd = path + '.d'
        os.makedirs(wd, exist_ok=True)
        cmd = [exe, entry, path]
        if kind == 'uninit':
            import build
            try:
                if self.plain is None:
                    self.plain = build.native_exe(self.units, self.harness, self.extra, plain=True)
                cmd = ['valgrind', '-q', '--error-exitcode=45', '--undef-value-errors=yes', self.plain, entry, path]
            except Exception:
                pass
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:exitcode=46:allocator_may_return_null=1', UBSAN_OPTIONS='halt_on_error=1:exitcode=47', VP_TMP=wd)
        try:
            p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, env=env, cwd=wd, errors='replace')
            return p.returncode, p.stdout[-3000:] + p.stderr[-3000:]
        except subprocess.TimeoutExpired:
            return 'timeout', ''
        finally:
            shutil.rmtree(wd, ignore_errors=True)

def reproduced(code, expect_timeout=False):
    return code in (42, 44, 45, 46, 47) or (isinstance(code, int) and code < 0)

def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    from checks import CHECKS
    chk = CHECKS[pid]
    ev = dict(property=pid, tier=tier, seed=seed, level=chk.get('level', 'model_checking'), coverage={'explanation': 'did not run'}, wall_s=0.0, violations=0)
    code = 0
    try:
        code = run(pid, tier, seed, chk, ev)
    except Exception as e:
        tb = traceback.format_exc()
        log('check could not run: %s' % str(e)[:1500])
        ev['coverage'] = {'explanation': 'the check did not complete: ' + str(e)[:600], 'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'samples': []}
        ev['undischarged'] = tb[-1500:]
        if os.environ.get('VP_TRACE'):
            sys.stderr.write(tb)
        code = 2
    ev['wall_s'] = round(time.time() - T0, 2)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    tmp = os.path.join(HERE, 'evidence', '.%s.%d' % (pid, os.getpid()))
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(HERE, 'evidence', pid + '.json'))
    log('%s: %s in %.1f s' % (pid, {0: 'held on everything explored', 1: 'violated', 2: 'NOT DECIDED'}[code], time.time() - T0))
    sys.stdout.flush()
    os._exit(code)

def clean_cache():
    import build
    try:
        now = time.time()
        for f in os.listdir(build.CACHE):
            p = os.path.join(build.CACHE, f)
            if os.path.isfile(p) and now - os.path.getmtime(p) > 3 * 3600:
                os.unlink(p)
    except OSError:
        pass

def run(pid, tier, seed, chk, ev):
    import build, ir, rt
    clean_cache()
    units = build.all_units() if not chk.get('units') else chk['units']
    units = units + chk.get('extra_units', [])
    extra = tuple(chk.get('extra', ()))
    harness = chk['harness']
    t = time.time()
    failed = {}
    outs = build.build(units, harness, extra=extra, failed=failed)
    for h, e in failed.items():
        log('  harness %s does not compile against this tree; its cases are not explored: %s' % (h, e[:400]))
    mods = [ir.Module(p, 'm%d' % i) for i, p in enumerate(outs)]
    prog = rt.Program(mods)
    prog.run_ctors()
    prog.fix_addresses()
    prog.snapshot()
    t_build = time.time() - t
    cases = []
    skipped = []
    for c in chk['cases']:
        if c.get('tier') == 'thorough' and tier != 'thorough':
            continue
        if failed and not any(c['entry'] in m.funcs for m in mods):
            skipped.append(c['entry'])
            continue
        c = dict(c)
        o = dict(chk.get('opts', {}))
        o.update(c.get('opts', {}))
        if tier == 'thorough':
            o.update(c.get('thorough', {}))
            for k in ('feas_ms', 'prove_ms'):
                o[k] = o.get(k, 2000 if k == 'feas_ms' else 15000) * 3
        c['opts'] = o
        cases.append(c)
    budget = chk.get('budget', 150) if tier == 'quick' else chk.get('budget_thorough', 1500)
    deadline = time.time() + budget
    nw = min(os.cpu_count() or 4, 8)
    native = None
    conns = []
    procs = []
    mp = multiprocessing.get_context('fork')
    for _ in range(nw):
        a, b = mp.Pipe()
        p = mp.Process(target=worker, args=(b, prog, cases, seed), daemon=True)
        p.start()
        b.close()
        conns.append(a); procs.append(p)
    native = Native(units, harness, extra)
    queue = [(ci, []) for ci in range(len(cases))][::-1]
    idle = list(conns)
    busy = {}
    agg = [dict(paths=0, dec=0, obl={}, ends={}, reach={}, unsup={}, wit=[], viol=[], unk=[], pending=0, maxdec=0, time=0.0) for _ in cases]
    stats = {}
    called = set()
    stopped = False
    maxpaths = [c['opts'].get('max_paths', 10 ** 9) for c in cases]
    early = time.time()
    while queue or busy:
        if time.time() > deadline:
            stopped = True
        if len([1 for a in agg for v in a['viol']]) >= 40:
            stopped = True
        if stopped and not busy:
            break
        while queue and idle and not stopped:
            ci, p = queue.pop()
            c = idle.pop()
            n = len(queue) + 1
            c.send((ci, p, 0.2 if n < 2 * nw else 3.0, deadline))
            busy[c] = (ci, p, time.time())
        ready = multiprocessing.connection.wait(list(busy), timeout=1.0)
        for c in list(busy):
            if c in ready:
                try:
                    ci, results, left, st, cl = c.recv()
                except (EOFError, OSError, pickle.UnpicklingError):
                    ci, p, _ = busy.pop(c)
                    agg[ci]['unsup']['worker ended'] = agg[ci]['unsup'].get('worker ended', 0) + 1
                    k = conns.index(c)
                    a, b = mp.Pipe()
                    q = mp.Process(target=worker, args=(b, prog, cases, seed), daemon=True)
                    q.start(); b.close()
                    procs[k] = q; conns[k] = a
                    idle.append(a)
                    continue
                busy.pop(c)
                idle.append(c)
                for k, v in st.items():
                    stats[k] = stats.get(k, 0) + v
                called.update(cl)
                absorb(agg[ci], results, cases[ci])
                if agg[ci]['paths'] < maxpaths[ci]:
                    queue.extend((ci, p) for p in left)
                else:
                    agg[ci]['pending'] += len(left)
            elif time.time() > max(deadline, busy[c][2]) + 40:
                # stuck worker
                k = conns.index(c)
                procs[k].kill()
    for ci, p in queue:
        agg[ci]['pending'] += 1
    t_explore = time.time() - early
    for c in idle:
        try:
            c.send(None)
        except Exception:
            pass
    # ---- violations: replay on the real code
    rdir = os.path.join(HERE, 'replay', pid)
    shutil.rmtree(rdir, ignore_errors=True)
    os.makedirs(rdir, exist_ok=True)
    findings = known_findings(pid)
    confirmed, unconfirmed, known = [], [], []
    seen = {}
    t_rep = time.time()
    vl = []
    for ci, a in enumerate(agg):
        for v in a['viol']:
            vl.append((ci, v))
    # breadth over labels first
    byl = {}
    for ci, v in vl:
        byl.setdefault((ci, v['label']), []).append(v)
    for (ci, label), vs in byl.items():
        entry = cases[ci]['entry']
        ok = None
        tried = 0
        for v in vs[:6]:
            for m in v.get('models', [])[:6]:
                if tried >= 12 or time.time() - t_rep > 200:
                    break
                tried += 1
                path = os.path.join(rdir, '%s-%d.txt' % (entry, len(confirmed) + len(unconfirmed) + len(known)))
                rc, out = native.run(entry, m, path, kind=v.get('kind'))
                if v.get('kind') == 'loop' and rc == 'timeout':
                    ok = (path, m, 'does not terminate')
                elif reproduced(rc):
                    ok = (path, m, out)
                if ok:
                    break
            if ok:
                break
        if ok:
            f = match_finding(findings, entry, label)
            (known if f else confirmed).append(dict(entry=entry, label=label, replay=ok[0], inputs=ok[1], output=ok[2][-600:], finding=f))
        else:
            unconfirmed.append(dict(entry=entry, label=label, tried=tried, models=vs[0].get('models', [])[:1]))
    # ---- path witnesses run natively: the encoding against the real code
    validated = mismatched = 0
    samples = []
    mism = []
    t_val = time.time()
    if not confirmed and native.get():
        lim = 25 if tier == 'quick' else 200
        jobs = []
        k = 0
        while len(jobs) < lim:
            got = False
            for ci, a in enumerate(agg):
                if k < len(a['wit']):
                    jobs.append((ci, a['wit'][k])); got = True
            if not got:
                break
            k += 1
        from concurrent.futures import ThreadPoolExecutor
        def one(j):
            i, (ci, (w, reach)) = j
            path = os.path.join(rdir, 'w%d.txt' % i)
            rc, out = native.run(cases[ci]['entry'], w, path, timeout=30)
            os.unlink(path)
            got = sorted({l[6:] for l in out.split('\n') if l.startswith('REACH ')})
            return rc, got
        with ThreadPoolExecutor(8) as ex:
            for (ci, (w, reach)), (rc, got) in zip(jobs, ex.map(one, list(enumerate(jobs)))):
                if rc == 0 and got == reach:
                    validated += 1
                else:
                    mismatched += 1
                    if len(mism) < 6:
                        mism.append(dict(entry=cases[ci]['entry'], exit=rc, reach_symbolic=reach, reach_native=got, inputs=w))
                if len(samples) < 4:
                    samples.append(dict(entry=cases[ci]['entry'], inputs=w, native_exit=rc, reached=got))
    nobl = sum(sum(d.values()) for a in agg for d in a['obl'].values())
    ndis = sum(d.get('proved', 0) for a in agg for d in a['obl'].values())
    incomplete = list(skipped)
    per = {}
    for ci, a in enumerate(agg):
        miss = [r for r in cases[ci].get('reach', []) if not a['reach'].get(r)]
        und = {l: d for l, d in a['obl'].items() if set(d) - {'proved'}}
        complete = not a['pending'] and not a['unsup'] and not und and not miss
        per[cases[ci]['entry']] = dict(bounds=cases[ci].get('bounds', ''), paths=a['paths'], decisions=a['dec'], max_decisions_on_a_path=a['maxdec'], ends=a['ends'], obligations=a['obl'],
                                       reached=a['reach'], missing_witness=miss, unexplored_prefixes=a['pending'], unsupported=a['unsup'], unknown=a['unk'][:4], complete=complete, seconds=round(a['time'], 1))
        if not complete:
            incomplete.append(cases[ci]['entry'])
    names = demangle(sorted(called))
    mine = sorted({n for n in names if ('enve' in n or 'acme' in n)})
    ev['coverage'] = dict(
        states=sum(a['paths'] for a in agg), transitions=sum(a['dec'] for a in agg), traces_validated_against_impl=validated, samples=samples,
        obligations=nobl, discharged=ndis, solver_queries=stats.get('queries', 0), solver_seconds=round(stats.get('time', 0.0), 2),
        solver_unsat=stats.get('unsat', 0), solver_sat=stats.get('sat', 0), solver_unknown=stats.get('unknown', 0), cvc5_queries=stats.get('cvc5', 0),
        cases=per, functions_encoded=mine, functions_encoded_total=len(names), not_discharged_entries=incomplete,
        exhaustive=not incomplete, witness_disagreements=mism, witness_disagreements_count=mismatched,
        violations_not_reproduced=unconfirmed, build_s=round(t_build, 1), explore_s=round(t_explore, 1),
        rule='states = symbolic paths of the compiled code; transitions = branch decisions; obligation = one assertion on one path, decided for all inputs of that path')
    ev['assumptions'] = ASSUME + chk.get('assumptions', [])
    ev['violations'] = len(confirmed)
    log('%s [%s] paths=%d obligations=%d discharged=%d queries=%d solver=%.1fs build=%.1fs explore=%.1fs validated=%d mismatched=%d' % (
        pid, tier, ev['coverage']['states'], nobl, ndis, stats.get('queries', 0), stats.get('time', 0.0), t_build, t_explore, validated, mismatched))
    for n, p in per.items():
        if not p['complete']:
            log('  not fully discharged: %s pending=%d unsupported=%s missing=%s open=%s' % (n, p['unexplored_prefixes'], p['unsupported'], p['missing_witness'],
                {l: d for l, d in p['obligations'].items() if set(d) - {'proved'}}))
    for u in unconfirmed:
        log('  counterexample not reproduced natively (not reported): %s: %s' % (u['entry'], u['label']))
    for k in known:
        log('KNOWN-FINDING: property=%s %s' % (pid, k['finding']['what']))
    for c in confirmed:
        with open(c['replay'], 'a') as f:
            f.write('# %s\n# %s\n' % (c['label'], c['output'].replace('\n', '\n# ')))
        log('  %s: %s' % (c['entry'], c['label']))
        log('VIOLATION property=%s replay=%s' % (pid, c['replay']))
    for p in procs:
        try:
            p.kill()
        except Exception:
            pass
    if not confirmed and not ndis:
        raise RuntimeError('no obligation was discharged')
    return 1 if confirmed else 0

ASSUME = [
    'double arithmetic is treated as exact real arithmetic (rounding is outside the claim); NaN and infinity are kept as special values',
    'the double constants that approximate pi and pi/2 are treated as exact',
    'the compiled code is clang -O1 LLVM IR of the current /repo sources with EIGEN_DONT_VECTORIZE; libstdc++ templates are executed as compiled, allocation never fails',
    'text output (streams) is not modelled',
]

def absorb(a, results, case):
    for r in results:
        a['paths'] += 1
        a['dec'] += r['ndec']
        a['maxdec'] = max(a['maxdec'], r['ndec'])
        a['time'] += r['time']
        e = r['end']
        if e.startswith('unsupported'):
            a['unsup'][e] = a['unsup'].get(e, 0) + 1
            if r.get('tb') and len(a['unk']) < 4:
                a['unk'].append(r['tb'])
            e = 'unsupported'
        a['ends'][e] = a['ends'].get(e, 0) + 1
        for l in r['reach']:
            a['reach'][l] = a['reach'].get(l, 0) + 1
        for o in r['obl']:
            s = o['status'] or 'unknown'
            d = a['obl'].setdefault(o['label'], {})
            d[s] = d.get(s, 0) + 1
            if s == 'violated':
                if len(a['viol']) < 60:
                    a['viol'].append(dict(label=o['label'], models=o.get('models') or [], kind=o.get('kind')))
            elif s != 'proved' and len(a['unk']) < 6:
                a['unk'].append('%s: %s' % (o['label'], o.get('detail', '')))
        if r.get('witness') and len(a['wit']) < 60:
            a['wit'].append((r['witness'], r['reach']))

def known_findings(pid):
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [f for f in json.load(open(p)).get('findings', []) if f['property'] == pid]

def match_finding(fs, entry, label):
    for f in fs:
        if f['entry'] == entry and label == f['label']:
            return f
    return None

if __name__ == '__main__':
    import multiprocessing.connection
    main()
