#!/usr/bin/env python3-vt
"""check.py <property> : decides one property of /repo's current tree by symbolic execution of its compiled code + SMT."""
import sys, os, time, json, pickle, random, subprocess, signal, threading, resource, shutil, tempfile, select
from fractions import Fraction
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'engine'))
sys.path.insert(0, HERE)
import build

SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
NPROC = max(1, min(8, os.cpu_count() or 1))


def job_child(mod, job, wfd):
    """runs in a forked child; pickles its result to wfd"""
    import z3, solve, interp
    resource.setrlimit(resource.RLIMIT_AS, (7 << 30, 7 << 30))
    t0 = time.time()
    deadline = t0 + job['wall']
    stop = threading.Event()

    def dog():
        if not stop.wait(job['wall'] + 1):
            while not stop.wait(0.3):
                z3.main_ctx().interrupt()
    threading.Thread(target=dog, daemon=True).start()
    out = dict(job=job['name'])
    ex = None
    try:
        opts = dict(job.get('opts') or {})
        opts['deadline'] = deadline
        ex = interp.Exec(mod, opts)
        ex.params = dict(job.get('params') or {})
        ex.run('h_' + job['h'])
    except MemoryError:
        out['error'] = 'memory limit'
    except Exception as e:
        import traceback
        out['error'] = '%s: %s' % (type(e).__name__, str(e)[:300])
        out['tb'] = traceback.format_exc()[-1500:]
    stop.set()
    wit = {}
    if ex is not None:
        ex.o['snap_s'] = 2
        ex.conc_left = 0
        ex.o['model_ms'] = 2000
        for k, pc in list(ex.reach.items())[:6]:
            try:
                ex.inputs = dict(ex.inputs)
                ms = ex.models(pc, None, None)
            except Exception:
                ms = []
            wit[k] = ms
        out.update(results=ex.results, ends=ex.ends, paths=getattr(ex, 'path_count', 0), steps=ex.nsteps, funcs=sorted(ex.funcs_used),
                   truncated=ex.truncated, witness=wit)
    out['stats'] = dict(solve.stats)
    out['t'] = time.time() - t0
    data = pickle.dumps(out)
    with os.fdopen(wfd, 'wb') as f: f.write(data)
    os._exit(0)


def run_jobs(mod, jobs, nproc):
    """fork pool with hard kill"""
    pending = list(jobs)
    running = {}
    done = []
    while pending or running:
        while pending and len(running) < nproc:
            j = pending.pop(0)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                try: job_child(mod, j, w)
                finally: os._exit(1)
            os.close(w)
            running[r] = [pid, j, time.time(), b'']
        rd, _, _ = select.select(list(running), [], [], 0.5)
        for r in rd:
            d = os.read(r, 1 << 20)
            if d:
                running[r][3] += d
                continue
            pid, j, t0, buf = running.pop(r)
            os.close(r)
            os.waitpid(pid, 0)
            try: done.append((j, pickle.loads(buf)))
            except Exception: done.append((j, dict(job=j['name'], error='worker died', t=time.time() - t0)))
        for r in list(running):
            pid, j, t0, buf = running[r]
            if time.time() - t0 > j['wall'] + 25:
                try: os.kill(pid, signal.SIGKILL)
                except OSError: pass
                os.waitpid(pid, 0)
                os.close(r)
                del running[r]
                done.append((j, dict(job=j['name'], error='killed at wall limit', t=time.time() - t0)))
    return done


# ------------------------------------------------------------------ native replay
def case_line(job, inputs):
    s = [job['h']] + ['p%d=%d' % (k, v) for k, v in sorted((job.get('params') or {}).items())]
    for k, v in sorted(inputs.items()): s.append(k + '=' + ','.join(v))
    return ' '.join(s)


def variants(inputs, n, rnd):
    yield inputs
    for den in (4, 64, 1024, 65536):
        out = {}
        for k, vs in inputs.items():
            if k[0] in 'fu': out[k] = [str(Fraction(round(Fraction(v) * den), den)) for v in vs]
            else: out[k] = vs
        yield out
    for i in range(n):
        eps = 10.0 ** rnd.choice([-6, -5, -4, -3, -2, -1.5])
        out = {}
        for k, vs in inputs.items():
            if k[0] in 'fu' and rnd.random() < 0.7:
                out[k] = [repr(float(Fraction(v)) * (1 + eps * rnd.uniform(-1, 1)) + (eps * rnd.uniform(-1, 1) if rnd.random() < .5 else 0)) for v in vs]
            else: out[k] = vs
        yield out


def native(binary, lines, scratch, timeout=20):
    """replays cases; a case that kills or hangs the process is reported as such"""
    out = []
    i = 0
    while i < len(lines):
        try:
            p = subprocess.run([binary], input='\n'.join(lines[i:]) + '\n', stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True,
                               timeout=timeout, cwd=scratch, env=dict(os.environ, TMPDIR=scratch))
            got = p.stdout.splitlines()
            out += got
            i += len(got)
            if i < len(lines):
                out.append('DIED exit %s ##' % p.returncode)
                i += 1
        except subprocess.TimeoutExpired as e:
            got = (e.stdout or b'').decode(errors='replace').splitlines() if isinstance(e.stdout, bytes) else (e.stdout or '').splitlines()
            out += got
            i += len(got)
            if i < len(lines):
                out.append('HANG ##')
                i += 1
    return out


def load_known():
    known = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            if l.startswith('known:'):
                d = dict(x.split('=', 1) for x in l[6:].split() if '=' in x and x.split('=', 1)[0] in ('property', 'harness', 'id'))
                d['text'] = l[6:].strip()
                known.append(d)
    return known


def main():
    import specs
    prop = sys.argv[1]
    tier = TIER
    only = None
    for a in sys.argv[2:]:
        if a.startswith('--tier='): tier = a[7:]
        if a.startswith('--only='): only = a[7:]
    spec = specs.SPECS[prop]
    rnd = random.Random(SEED)
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix='ptsx-')
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    try:
        rc = check(prop, spec, tier, only, rnd, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)


def check(prop, spec, tier, only, rnd, scratch, t0):
    import ll
    groups = sorted({j.get('group', spec.get('group')) for j in spec['jobs']})
    irs, bins, mods = {}, {}, {}
    errs = []

    def b(f, g, d):
        try: d[g] = f(g, scratch)
        except build.BuildError as e: errs.append(str(e))
    ths = []
    for g in groups:
        ths += [threading.Thread(target=b, args=(build.build_ir, g, irs)), threading.Thread(target=b, args=(build.build_native, g, bins))]
    for t in ths: t.start()
    for t in ths: t.join()
    if errs:
        print('ERROR: build failed\n' + errs[0])
        return 2
    t_build = time.time() - t0
    jobs = []
    for i, j in enumerate(spec['jobs']):
        if tier == 'quick' and j.get('tier', 'q') == 't': continue
        if tier == 'thorough' and j.get('tier', 'q') == 'qonly': continue
        j = dict(j)
        j.setdefault('group', spec.get('group'))
        if only and only not in j.get('name', j['h']): continue
        if tier == 'thorough':
            j['wall'] = j.get('wall_t', j.get('wall', spec.get('wall', 40)) * 4)
            j['opts'] = dict(j.get('opts') or {})
            j['opts']['prove_ms'] = j['opts'].get('prove_ms', 20000) * 4
        else: j['wall'] = j.get('wall', spec.get('wall', 40))
        j.setdefault('name', j['h'] + ''.join(',%d=%d' % kv for kv in sorted((j.get('params') or {}).items())))
        jobs.append(j)
    done = []
    for g in groups:
        mods[g] = ll.Module(open(irs[g]).read())
        gj = [j for j in jobs if j['group'] == g]
        gj.sort(key=lambda j: -j['wall'])
        done += run_jobs(mods[g], gj, NPROC)
    # ---- collect
    viol, known_hits, undec = [], [], []
    known = [k for k in load_known() if k.get('property') == prop]
    nobl = nproved = 0
    how = {}
    stats = {}
    funcs = set()
    samples = []
    replays = wit_ok = wit_all = 0
    job_rows = []
    for j, r in done:
        binary = bins[j['group']]
        for k, v in (r.get('stats') or {}).items(): stats[k] = stats.get(k, 0) + v
        funcs |= set(r.get('funcs') or [])
        res = r.get('results') or []
        row = dict(job=j['name'], paths=r.get('paths', 0), instructions=r.get('steps', 0), ends=r.get('ends'), obligations=0, proved=0,
                   t=round(r.get('t', 0), 1))
        if r.get('error'):
            row['error'] = r['error']
            undec.append(dict(job=j['name'], why=r['error']))
            if os.environ.get('VERIF_DEBUG'): print(r.get('tb'))
        if r.get('truncated'): row['truncated'] = r['truncated']
        bykey = {}
        for x in res:
            if x['kind'] in ('assert', 'close', 'panic', 'ub'):
                nobl += 1
                row['obligations'] += 1
                if x['status'] == 'proved':
                    nproved += 1
                    row['proved'] += 1
                    how[x.get('how', '')] = how.get(x.get('how', ''), 0) + 1
                    continue
            elif x['status'] == 'proved': continue
            bykey.setdefault((x['kind'], x['id'], x['status']), []).append(x)
        found = set()
        for (kind, oid, status), xs in sorted(bykey.items(), key=lambda kv: kv[0][2] != 'refuted'):
            hit = None
            tried = 0
            for x in xs[:4 if j.get('stress') else 12]:
                if not x.get('models') or (kind, oid) in found or j.get('stress') and viol: continue
                lines = []
                for m in x['models'][:2 if j.get('stress') else 3]:
                    if j.get('stress'): lines.append(case_line(j, m) + ' p99=%d' % (1000 * j['stress']))
                    else:
                        for v in variants(m, 24, rnd): lines.append(case_line(j, v))
                outs = native(binary, lines, scratch, 20 + 3 * j.get('stress', 0))
                tried += len(outs)
                for l, o in zip(lines, outs):
                    head = o.split(' ##')[0]
                    ok = head.startswith('FAIL %d ' % oid) or head.startswith('PANIC') or head.startswith('DIED') or head.startswith('HANG')
                    if ok:
                        hit = (l, head)
                        break
                if hit: break
            replays += tried
            if hit:
                found.add((kind, oid))
                v = dict(property=prop, harness=j['h'], job=j['name'], obligation=oid, kind=kind, case=hit[0], native=hit[1], where=xs[0].get('where'),
                         group=j['group'])
                kn = [k for k in known if k.get('harness') == j['h'] and k.get('id') == str(oid)]
                if kn: known_hits.append((kn[0], v))
                else: viol.append(v)
            elif (kind, oid) not in found:
                undec.append(dict(job=j['name'], kind=kind, id=oid, solver=status, n=len(xs), where=xs[0].get('where'), info=xs[0].get('info'),
                                  note='solver model does not reproduce on the machine code' if tried else None))
        # ---- vacuity witnesses
        for rid, ms in sorted((r.get('witness') or {}).items()):
            wit_all += 1
            lines = []
            for m in ms[:3]:
                for v in variants(m, 4, rnd): lines.append(case_line(j, v))
            outs = native(binary, lines, scratch) if lines else []
            good = [(l, o) for l, o in zip(lines, outs) if str(rid) in o.split('##')[-1].split()]
            if good:
                wit_ok += 1
                if len(samples) < 12: samples.append(dict(witness=good[0][0], reached=rid, native=good[0][1].split(' ##')[0]))
        job_rows.append(row)
    for v in viol[:5]:
        if len(samples) < 16: samples.append(dict(violation=v))
    replay_path = None
    if viol:
        d = os.path.join(HERE, 'replays')
        os.makedirs(d, exist_ok=True)
        replay_path = os.path.join(d, prop + '.txt')
        with open(replay_path, 'w') as f:
            for v in viol:
                f.write('# %s: %s\n# reproduce: python3-vt /verif/replay.py %s\n%s\n' % (v['job'], v['native'], replay_path, 'group=%s ' % v['group'] + v['case']))
    ev = dict(property=prop, tier=tier if tier in ('quick', 'thorough') else 'quick', seed=SEED, level='model_checking',
              coverage=dict(states=sum(r['paths'] for r in job_rows), transitions=sum(r['instructions'] for r in job_rows),
                            traces_validated_against_impl=wit_ok, samples=samples or [dict(note='no witness')],
                            states_are='symbolic paths explored to their end', transitions_are='LLVM IR instructions of the real code executed symbolically',
                            reach_points=wit_all, obligations=nobl, discharged=nproved, discharged_how=how, violations_replayed=len(viol),
                            native_replays=replays, queries=stats.get('queries', 0), solver_unsat=stats.get('unsat', 0), solver_sat=stats.get('sat', 0),
                            solver_unknown=stats.get('unknown', 0), solver_s=round(stats.get('time', 0), 1), build_s=round(t_build, 1),
                            undecided=undec[:40], undecided_count=len(undec), bounds=spec.get('bounds', ''), jobs=job_rows,
                            functions_encoded=readable(funcs)),
              assumptions=spec.get('assumptions', []) + ASSUME, wall_s=round(time.time() - t0, 1), violations=len(viol))
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f: json.dump(ev, f, indent=1, default=str)
    print('%s %s: %d paths, %d obligations, %d discharged (%s), %d undecided, %d/%d witnesses replayed, %d queries, solver %.1fs, wall %.1fs' % (
        prop, tier, ev['coverage']['states'], nobl, nproved, ', '.join('%s %d' % kv for kv in sorted(how.items())), len(undec), wit_ok, wit_all,
        stats.get('queries', 0), stats.get('time', 0), time.time() - t0))
    if os.environ.get('VERIF_DEBUG') or only:
        for r in job_rows: print('  ', r)
        for u in undec[:20]: print('   undecided', u)
    for kn in sorted({k['text'] for k, v in known_hits}): print('KNOWN-FINDING: ' + kn)
    if viol:
        for v in viol[:8]: print('  %s obligation %s (%s) at %s: %s\n    %s' % (v['job'], v['obligation'], v['kind'], v['where'], v['native'], v['case']))
        print('VIOLATION property=%s replay=%s' % (prop, replay_path))
        return 1
    if nproved == 0:
        print('ERROR: nothing was decided')
        return 2
    return 0


ASSUME = ['floating-point arithmetic is interpreted over the exact reals (no rounding, overflow or NaN from rounding); every reported violation is '
          'nevertheless confirmed by running the compiled code on the concrete input',
          'integer arithmetic is exact two\'s complement with overflow checks on',
          'rustc/LLVM front end at opt-level 1, the engine in /verif/engine and z3 are trusted']


def readable(funcs):
    import interp
    out = sorted({interp.short(f) for f in funcs if ('2pt' in f or 'pt' in f) and not f.startswith('h_')})
    return [f for f in out if not f.startswith(('core', 'alloc', 'std'))][:120]


if __name__ == '__main__': main()
