#!/usr/bin/env python3-vt
"""check.py PROPERTY [--tier quick|thorough] [--jobs SUBSTRING] [-v]

Decides one property on the current tree of /repo:
 1. clang's AST of the real sources is loaded and every contract of the
    property (specs/<property>.py) generates its proof obligations from it;
 2. the prover (normal forms + z3) discharges them one by one;
 3. in parallel a bounded run of the real compiled code (dyn/<property>.cc)
    looks for concrete failing inputs; it is the replay tool for refuted
    obligations and the labelled stand-in for functions out of reach.
Exit 0: held on everything explored; 1: VIOLATION line printed."""
import sys, os, time, json, argparse, traceback, signal, subprocess, tempfile, shutil, threading, importlib, re
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, 'vcg'), os.path.join(HERE, 'specs')]
sys.setrecursionlimit(20000)
REPO = os.environ.get('DIST_REPO', '/repo')

# ------------------------------------------------------------------ proof side
JOBS = []
BUDGET = {}
class JobTimeout(BaseException):
    pass
def _alarm(*a):
    raise JobTimeout()

def run_job(i):
    import canon as cn, term as tm, spec
    name, f = JOBS[i]
    t0 = time.time()
    out = {'job': name, 'goals': [], 'status': 'ok', 'why': '', 'fns': [], 'contracts': [], 'assumed': []}
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(BUDGET['job'])
    try:
        e = f()
        envs = e if isinstance(e, list) else [e] if e is not None else []
        for e in envs:
            out['fns'] += sorted(e.ex.used_fns)
            out['contracts'] += sorted(str(c) for c in e.ex.used_contracts)
            out['assumed'] += sorted(str(c) for c in e.ex.assumed)
            loops_ok = True
            order = sorted(e.goals, key=lambda g: g.kind != 'loop')
            for g in order:
                t = time.time()
                r = {'name': g.name, 'kind': g.kind, 'where': str(g.where or '')}
                if g.goal is tm.TRUE:
                    r.update(status='proved', backend='simplifier', t=0)
                elif any(h is tm.FALSE for h in g.hyps):
                    r.update(status='proved', backend='simplifier', t=0)
                elif g.box is not None:
                    import intervals
                    d = intervals.decide(*g.box)
                    r.update(status='proved' if d[0] == 'proved' else 'unknown', backend='interval bisection', t=time.time() - t)
                    if d[0] != 'proved':
                        r['why'], r['goal'] = str(d), tm.show(g.goal)[:1500]
                        if d[0] == 'refuted': r['cex'] = {'vars': {tm.show(g.box[2]): d[1]}, 'funs': {}, 'error': d[2], 'tolerance': d[3]}
                else:
                    res = cn.prove(g.hyps, g.goal, g.ax, budget=BUDGET['goal'])
                    r.update(status=res.status, backend=res.backend, t=time.time() - t)
                    if res.status != 'proved':
                        r['why'] = res.why[:800]
                        r['goal'] = tm.show(g.goal)[:1500]
                        if g.kind == 'loop':
                            loops_ok = False
                        elif loops_ok and g.kind != 'inv':
                            cex = spec.refute(g.hyps, g.goal, g.ax, tries=BUDGET['tries'], seconds=BUDGET['refute'], seed=BUDGET['seed'])
                            if cex:
                                r['cex'] = cex
                out['goals'].append(r)
            # vacuity guard: the preconditions must be satisfiable
            if e.goals:
                try:
                    c = cn.Canon(list(e.ex.base), e.ex.ax, 2000)
                    if c.false or c.infeasible():
                        out['status'], out['why'] = 'vacuous', 'preconditions contradictory'
                except Exception:
                    pass
            if not loops_ok:
                out['status'], out['why'] = 'undecided', 'loop summary not inductive'
    except JobTimeout:
        out['status'], out['why'] = 'undecided', 'time limit'
    except RecursionError:
        out['status'], out['why'] = 'undecided', 'recursion limit'
    except BaseException as ex:
        out['status'], out['why'] = 'undecided', '%s: %s' % (type(ex).__name__, str(ex)[:300])
        out['tb'] = ' > '.join('%s:%d' % (x.name, x.lineno) for x in traceback.extract_tb(ex.__traceback__)[-5:])
    finally:
        signal.alarm(0)
    import canon
    out['z3_time'], out['z3_queries'] = canon.STATS.z3_time, canon.STATS.z3_queries
    canon.STATS.z3_time, canon.STATS.z3_queries = 0, 0
    out['t'] = time.time() - t0
    return out

def prove_all(mod, args):
    import spec, multiprocessing as mp
    spec.program()
    js = [j for j in mod.jobs() if args.jobs in j[0]]
    JOBS.extend(js)
    res = []
    with mp.get_context('fork').Pool(min(8, max(1, len(js))), maxtasksperchild=1) as p:
        # slow jobs first
        order = sorted(range(len(js)), key=lambda i: -getattr(mod, 'WEIGHT', {}).get(js[i][0], 0))
        its = [(i, p.apply_async(run_job, (i,))) for i in order]
        end = time.time() + BUDGET['total']
        for i, it in its:
            try:
                res.append(it.get(max(1, end - time.time())))
            except mp.TimeoutError:
                res.append({'job': js[i][0], 'goals': [], 'status': 'undecided', 'why': 'time limit', 'fns': [], 'contracts': [], 'assumed': [], 't': 0, 'z3_time': 0, 'z3_queries': 0})
            except Exception as ex:
                res.append({'job': js[i][0], 'goals': [], 'status': 'undecided', 'why': 'worker: %s' % str(ex)[:200], 'fns': [], 'contracts': [], 'assumed': [], 't': 0, 'z3_time': 0, 'z3_queries': 0})
        p.terminate()
    return res

# ------------------------------------------------------------------ bounded side
class Dyn(threading.Thread):
    """compiles and runs dyn/<prop>.cc (or .py) against the current tree"""
    def __init__(self, prop, tier, seed):
        threading.Thread.__init__(self)
        self.prop, self.tier, self.seed = prop, tier, seed
        self.fails, self.cases, self.note = [], 0, ''
        self.labels = []
    def run(self):
        try:
            self.work()
        except Exception as ex:
            self.note = 'bounded run failed: %s' % ex
    def work(self):
        secs = '20' if self.tier == 'quick' else '240'
        for src in sorted(os.listdir(os.path.join(HERE, 'dyn'))):
            if not re.match(self.prop.lower() + r'[a-z_]*\.(cc|py)$', src): continue
            d = tempfile.mkdtemp(prefix='dyn')
            try:
                path = os.path.join(HERE, 'dyn', src)
                if src.endswith('.cc'):
                    exe = os.path.join(d, 'a.out')
                    text = open(path).read()
                    extra = sum((x.split() for x in re.findall(r'^// FLAGS (.*)$', text, re.M)), [])
                    for proto in re.findall(r'^// PROTO (.*)$', text, re.M):
                        f = os.path.join(REPO, proto.strip())
                        subprocess.run(['protoc', '--cpp_out=' + d, '-I', os.path.dirname(f), f], check=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                        extra = ['-I', d, os.path.join(d, os.path.basename(f)[:-6] + '.pb.cc')] + extra
                    cmd = ['g++', '-std=c++11', '-O1', '-g1', '-w', '-msse4.1', '-fsanitize=address', '-fno-omit-frame-pointer',
                           '-DDIST_DEBUG_LEVEL=3', '-DDIST_THROW_ON_ERROR', '-I', os.path.join(REPO, 'include'), '-I', os.path.join(REPO, 'src'),
                           '-I', '/usr/include/eigen3', '-I', os.path.join(HERE, 'dyn'), path, '-o', exe] + extra
                    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=400)
                    if p.returncode != 0:
                        self.note += '%s does not compile: %s; ' % (src, p.stdout.decode()[-500:])
                        continue
                    run = [exe]
                else:
                    run = ['python3-vt', path]
                env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=77')
                try:
                    p = subprocess.run(run + [str(self.seed), secs], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600, env=env, cwd=d)
                    text = p.stdout.decode('utf8', 'replace')
                    rc = p.returncode
                except subprocess.TimeoutExpired as ex:
                    text = (ex.stdout or b'').decode('utf8', 'replace')
                    rc = None
                last = ''
                for l in text.splitlines():
                    if l.startswith('CASE-FAIL '): self.fails.append((src, l[10:]))
                    elif l.startswith('CASES '): self.cases += int(l.split()[1])
                    elif l.startswith('CASE '): last = l[5:]
                    elif l.startswith('LABEL '): self.labels.append(l[6:])
                if rc not in (0, 1):
                    if rc is None:
                        # the real code did not come back on this input
                        self.note += '%s timed out at: %s; ' % (src, last)
                    else:
                        m = re.search(r'ERROR: AddressSanitizer.*', text)
                        self.fails.append((src, 'crash (exit %s) %s after case: %s' % (rc, m.group(0) if m else text[-300:].replace('\n', ' | '), last)))
            finally:
                shutil.rmtree(d, ignore_errors=True)

# ------------------------------------------------------------------ verdict
def known(prop):
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p): return []
    return [k for k in json.load(open(p)) if k.get('property') == prop and 'match' in k]

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--jobs', default='')
    ap.add_argument('-v', action='store_true')
    args = ap.parse_args()
    t0 = time.time()
    prop = args.prop
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    thorough = args.tier == 'thorough'
    BUDGET.update(job=600 if thorough else 240, goal=120 if thorough else 25, tries=4000 if thorough else 600,
                  refute=60 if thorough else 8, total=3000 if thorough else 560, seed=seed)
    dyn = Dyn(prop, args.tier, seed)
    dyn.start()
    res, note, mod = [], '', None
    try:
        mod = importlib.import_module(prop.lower())
        res = prove_all(mod, args)
    except Exception as ex:
        note = 'verifier did not run: %s: %s' % (type(ex).__name__, str(ex)[:600])
    dyn.join()
    # ---- collect
    goals = [(r, g) for r in res for g in r['goals']]
    proved = [g for r, g in goals if g['status'] == 'proved']
    refuted = [(r, g) for r, g in goals if g.get('cex') and r['status'] == 'ok']
    open_ = [(r, g) for r, g in goals if g['status'] != 'proved' and not (g.get('cex') and r['status'] == 'ok')]
    undecided = [r for r in res if r['status'] != 'ok']
    kn = known(prop)
    def is_known(text):
        return next((k for k in kn if k['match'] in text), None)
    hit = {}
    bad_cases, bad_obl = [], []
    for src, l in dyn.fails:
        k = is_known(l)
        if k: hit[k['match']] = k
        else: bad_cases.append((src, l))
    for r, g in refuted:
        k = is_known('%s / %s' % (r['job'], g['name']))
        if k: hit[k['match']] = k
        else: bad_obl.append((r, g))
    for k in hit.values():
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    for r in undecided:
        print('UNDECIDED %s: %s' % (r['job'], r['why']))
        if args.v and r.get('tb'): print('    ' + r['tb'])
    for r, g in open_:
        print('UNDECIDED %s / %s (%s) @%s %s' % (r['job'], g['name'], g['status'], g['where'], ((g.get('goal', '')[:300] + ' || ' + g.get('why', '')[:300])) if args.v else ''))
    if args.v:
        for r in sorted(res, key=lambda r: -r['t']):
            print('  %-40s %-10s %3d goals %5.1fs' % (r['job'], r['status'], len(r['goals']), r['t']))
    if dyn.note: print('NOTE ' + dyn.note[:800])
    if note: print('NOTE ' + note)
    # ---- evidence
    backends = {}
    for g in proved: backends[g.get('backend') or '?'] = backends.get(g.get('backend') or '?', 0) + 1
    kinds = {}
    for r, g in goals: kinds[g['kind']] = kinds.get(g['kind'], 0) + 1
    fns = sorted({x for r in res for x in r['fns']})
    contracts_ = sorted({x for r in res for x in r['contracts']})
    assumed = sorted({x for r in res for x in r['assumed']})
    import trust
    cov = {
        'obligations': len(goals), 'discharged': len(proved),
        'checker_cmd': 'python3-vt check.py %s --tier %s' % (prop, args.tier),
        'trusted_base': trust.BASE + trust.uses(contracts_),
        'obligations_by_kind': kinds, 'discharged_by_backend': backends,
        'solver_queries': sum(r['z3_queries'] for r in res), 'solver_seconds': round(sum(r['z3_time'] for r in res), 2),
        'lemmas': len(res), 'lemmas_undecided': ['%s: %s' % (r['job'], r['why']) for r in undecided],
        'obligations_open': ['%s / %s: %s' % (r['job'], g['name'], g['status']) for r, g in open_][:60],
        'obligations_refuted': ['%s / %s' % (r['job'], g['name']) for r, g in refuted][:60],
        'functions_under_contract': fns, 'contracts_used_at_calls': contracts_,
        'bounded_cases': dyn.cases, 'bounded_note': dyn.note, 'bounded_stand_ins': dyn.labels + list(getattr(mod, 'BOUNDED', []) if mod else []),
        'note': note,
    }
    full = goals and not undecided and not open_
    level = 'proof' if goals else 'exploration'
    if not goals:
        cov.update(evaluations=dyn.cases, distinct_nontrivial=dyn.cases, rule='see dyn/%s.cc' % prop.lower(), samples=dyn.labels[:3] or ['bounded run only'])
    ev = {'property': prop, 'tier': args.tier, 'seed': seed, 'level': level, 'coverage': cov,
          'assumptions': trust.ASSUMPTIONS + assumed + list(getattr(mod, 'ASSUMPTIONS', []) if mod else []),
          'wall_s': round(time.time() - t0, 2), 'violations': len(bad_cases) + len(bad_obl)}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1)
    print('%s: %d obligations, %d discharged, %d refuted, %d open; %d lemmas (%d undecided); %d functions under contract; %d bounded cases; %.0f s' % (
        prop, len(goals), len(proved), len(refuted), len(open_), len(res), len(undecided), len(fns), dyn.cases, time.time() - t0))
    if not bad_cases and not bad_obl:
        if not goals and not dyn.cases:
            print('NOTE no answer: the sources were neither verified nor run')
            return 2
        return 0
    rp = os.path.join(HERE, 'evidence', '%s.replay.txt' % prop)
    with open(rp, 'w') as f:
        for r, g in bad_obl:
            f.write('FAILED OBLIGATION %s / %s\n  kind %s, source line %s\n  goal (normalised): %s\n  verifier: %s\n  counterexample (values of the symbolic inputs): %s\n\n' % (
                r['job'], g['name'], g['kind'], g['where'], g.get('goal'), g.get('why'), json.dumps(g['cex'], default=str)))
        for src, l in bad_cases[:50]:
            f.write('FAILING INPUT on the real code (dyn/%s, seed %d): %s\n' % (src, seed, l))
    for r, g in bad_obl[:10]:
        print('FAILED-OBLIGATION %s / %s' % (r['job'], g['name']))
    for src, l in bad_cases[:10]:
        print('FAILING-INPUT %s: %s' % (src, l[:400]))
    print('VIOLATION property=%s replay=%s%s' % (prop, rp, '' if bad_cases else ' no-failing-input-found'))
    return 1

if __name__ == '__main__':
    try:
        rc = main()
    except BaseException:
        traceback.print_exc()
        rc = 2
        print('NOTE check aborted without an answer')
    sys.stdout.flush()
    os._exit(rc)
