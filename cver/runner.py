"""Runs the obligation groups of one property, the bounded stand-in harness, and writes verdict + evidence."""
import os, sys, time, json, traceback, subprocess, signal, importlib, shutil, tempfile, resource
import multiprocessing as mp
from . import frontend as F
from . import solve

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROGS = {}


class Group:
    def __init__(self, name, fn, driver, params=None, funcs=(), level='proof', budget=200, bound=None, unroll=40, tmo=8000, tiers=('quick', 'thorough'),
                 safety=True, filt='combigrid'):
        self.name, self.fn, self.driver, self.params = name, fn, driver, params or {}
        self.funcs, self.level, self.budget, self.bound = list(funcs), level, budget, bound
        self.unroll, self.tmo, self.tiers, self.safety, self.filt = unroll, tmo, tiers, safety, filt


class Timeout(BaseException):
    pass


def _alarm(*a):
    raise Timeout()


def run_group(idx):
    g = GROUPS[idx]
    from .execu import Ex
    from .values import Unsupported, MergeFail
    t0 = time.time()
    res = dict(name=g.name, obs=[], error=None, funcs=g.funcs, level=g.level, bound=g.bound, contracts=[], inlined=[], assumed=[], paths=0)
    P = PROGS.get(g.driver)
    if isinstance(P, Exception) or P is None:
        res['error'] = 'front end: %s' % (P,)
        return res
    ex = Ex(P, name=g.name, unroll=g.unroll, tmo=g.tmo, safety=g.safety)
    ex.deadline = t0 + g.budget
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(int(g.budget) + 20)
    try:
        outs = ex.explore(lambda: g.fn(ex, P, **g.params))
        res['paths'] = len(outs)
        live = 0
        for st, k, v in outs:
            s, m, b = solve.check(ex.axioms + st.pc, 5000, second=False)
            if s != 'unsat':
                live += 1
            if k == 'throw' and s != 'unsat':
                ex.obs.append(__import__('cver.execu', fromlist=['Obligation']).Obligation(
                    'no exception escapes under the precondition', 'refuted' if s == 'sat' else 'unknown', 'z3', 'throw', m if s == 'sat' else None, str(v)))
        if live == 0:
            res['error'] = 'vacuous: no feasible path satisfies the preconditions'
        if not ex.obs:
            res['error'] = res['error'] or 'vacuous: no obligations generated'
    except Timeout:
        res['error'] = 'timeout'
    except (Unsupported, MergeFail, F.FrontendError) as e:
        res['error'] = '%s: %s (at %s)' % (type(e).__name__, e, ex.where)
    except RecursionError as e:
        res['error'] = 'recursion limit'
    except Exception as e:
        res['error'] = 'internal: %s\n%s' % (e, traceback.format_exc()[-1500:])
    finally:
        signal.alarm(0)
    for o in ex.obs:
        res['obs'].append(dict(name=o.name, kind=o.kind, status=o.status, backend=o.backend, where=o.where, detail=o.detail,
                               model=str(o.model)[:1500] if o.model is not None else None))
    res['contracts'] = sorted(ex.used_contracts)
    res['inlined'] = sorted(str(x) for x in ex.inlined)
    res['assumed'] = sorted(ex.assumed)
    res['time'] = time.time() - t0
    res['stats'] = dict(solve.STATS)
    return res


GROUPS = []


def run_all(groups, jobs=8):
    global GROUPS
    GROUPS = groups
    drivers = {}
    for g in groups:
        drivers.setdefault(g.driver, g.filt)
    procs = {}
    from concurrent.futures import ThreadPoolExecutor
    def load(d):
        try:
            return F.Program(os.path.join(VERIF, 'drivers', d), drivers[d])
        except Exception as e:
            return e
    with ThreadPoolExecutor(4) as tp:
        for d, p in zip(drivers, tp.map(load, list(drivers))):
            PROGS[d] = p
    sys.setrecursionlimit(20000)
    out = []
    ctx = mp.get_context('fork')
    order = sorted(range(len(groups)), key=lambda i: -groups[i].budget)
    with ctx.Pool(min(jobs, max(1, len(groups))), maxtasksperchild=4) as pool:
        for r in pool.imap_unordered(run_group, order):
            out.append(r)
    return out


class Harness:
    """bounded stand-in / replay search compiled from /repo's current tree"""
    def __init__(self, src, sources=(), np=1, args=(), timeout=300, flags=(), bound='', targs=None, extra_src=(), libs=(), standin=()):
        self.src, self.sources, self.np, self.args, self.timeout, self.flags, self.bound = src, list(sources), np, list(args), timeout, list(flags), bound
        self.targs, self.libs, self.standin = targs, list(libs), list(standin)

    def build(self, bdir):
        exe = os.path.join(bdir, os.path.splitext(os.path.basename(self.src))[0])
        inc = ['-I' + F.REPO + '/src', '-I' + os.path.join(VERIF, 'harness'), '-isystem', '/usr/lib/x86_64-linux-gnu/openmpi/include']
        base = ['g++', '-std=c++17', '-O1', '-g0', '-w', '-fopenmp', '-DNDEBUG', '-DDISCOTEC_USE_LZ4', '-DTIMING'] + self.flags + inc
        jobs = []
        objs = []
        for s in [os.path.join(VERIF, 'harness', self.src)] + [os.path.join(F.REPO, x) for x in self.sources]:
            o = os.path.join(bdir, s.replace('/', '_') + '.o')
            objs.append(o)
            jobs.append((s, subprocess.Popen(base + ['-c', s, '-o', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
        self.exe, self.objs, self.jobs = exe, objs, jobs

    def link(self):
        errs = []
        for s, p in self.jobs:
            out = p.communicate()[0].decode(errors='replace')
            if p.returncode:
                errs.append('%s:\n%s' % (s, out[-3000:]))
        if errs:
            return 'compile failed: ' + '\n'.join(errs)
        libs = ['-lmpi_cxx', '-lmpi'] if False else ['-lmpi', '-lboost_serialization', '-lboost_system', '-lboost_program_options', '-lboost_date_time',
                                                     '-llz4'] + self.libs
        p = subprocess.run(['g++', '-fopenmp'] + self.objs + ['-o', self.exe] + libs, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            return 'link failed: ' + p.stdout.decode(errors='replace')[-3000:]
        return None

    def run(self, tier, scratch, seed):
        env = dict(os.environ)
        env.update(OMPI_ALLOW_RUN_AS_ROOT='1', OMPI_ALLOW_RUN_AS_ROOT_CONFIRM='1', OMPI_MCA_btl='self,vader', OMPI_MCA_btl_vader_single_copy_mechanism='none',
                   OMPI_MCA_mpi_yield_when_idle='1', OMP_NUM_THREADS='2', OMP_WAIT_POLICY='passive', OMPI_MCA_rmaps_base_oversubscribe='1',
                   VERIF_TIER=tier, VERIF_SEED=str(seed), TMPDIR=scratch)
        args = self.args if tier == 'quick' or self.targs is None else self.targs
        cmd = [self.exe] + [str(a) for a in args]
        if self.np:
            cmd = ['mpirun', '--oversubscribe', '--bind-to', 'none', '-np', str(self.np)] + cmd
        t0 = time.time()
        to = self.timeout
        try:
            p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, cwd=scratch, start_new_session=True)
            out, _ = p.communicate(timeout=to)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            out = p.communicate()[0]
            rc = 'timeout'
        txt = out.decode(errors='replace')
        fails = [l for l in txt.splitlines() if l.startswith('FAIL')]
        cov = {}
        for l in txt.splitlines():
            if l.startswith('COVERED '):
                k, _, v = l[8:].partition('=')
                cov[k.strip()] = v.strip()
        done = any(l.startswith('DONE') for l in txt.splitlines())
        return dict(rc=rc, fails=fails, covered=cov, done=done, out=txt[-4000:], cmd=' '.join(cmd), wall=time.time() - t0)


def main(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    mod = importlib.import_module('props.' + pid.lower())
    groups = [g for g in mod.groups(tier)]
    harnesses = mod.harnesses(tier) if hasattr(mod, 'harnesses') else []
    bdir = tempfile.mkdtemp(prefix='verif_%s_' % pid)
    try:
        return _main(pid, tier, t0, seed, mod, groups, harnesses, bdir)
    finally:
        shutil.rmtree(bdir, ignore_errors=True)


def _main(pid, tier, t0, seed, mod, groups, harnesses, bdir):
    for h in harnesses:
        h.build(bdir)
    results = run_all(groups)
    hres = []
    for h in harnesses:
        e = h.link()
        if e:
            hres.append((h, dict(rc='build', fails=[], covered={}, done=False, out=e, cmd='', wall=0)))
            continue
        sc = os.path.join(bdir, 'scratch')
        os.makedirs(sc, exist_ok=True)
        r = h.run(tier, sc, seed)
        if not r['done'] and not r['fails'] and r['rc'] != 'timeout':
            r2 = h.run(tier, sc, seed)      # one retry: distinguish an environment hiccup from a crash of the code
            if r2['done'] or r2['fails']:
                r = r2
        hres.append((h, r))
    known = load_known(pid)
    nob = sum(len(r['obs']) for r in results)
    ndis = sum(1 for r in results for o in r['obs'] if o['status'] == 'discharged')
    refuted = [(r, o) for r in results for o in r['obs'] if o['status'] == 'refuted']
    unknown = [(r, o) for r in results for o in r['obs'] if o['status'] == 'unknown']
    errors = [r for r in results if r['error']]
    hfail = []
    hbroken = []
    for h, r in hres:
        if r['fails']:
            for f in r['fails']:
                hfail.append((h, r, f))
        elif r['rc'] == 'timeout':
            hfail.append((h, r, 'FAIL harness=%s hang: no termination within %d s (deadlock or livelock); last output: %s' % (h.src, h.timeout, r['out'][-300:].replace('\n', ' | '))))
        elif not r['done']:
            if r['rc'] == 'build':
                hbroken.append((h, r))
            else:
                hfail.append((h, r, 'FAIL harness=%s crashed rc=%s; last output: %s' % (h.src, r['rc'], r['out'][-300:].replace('\n', ' | '))))
    # known findings
    kf_seen = []
    def is_known(txt):
        for k in known:
            if k['match'] in txt:
                if k['match'] not in kf_seen:
                    kf_seen.append(k['match'])
                    print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
                return True
        return False
    hfail = [x for x in hfail if not is_known(x[2])]
    refuted = [(r, o) for r, o in refuted if not is_known('%s / %s / %s' % (r['name'], o['name'], o['where']))]
    violations = 0
    vdir = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(vdir, exist_ok=True)
    verdict = 0
    if hfail or refuted:
        verdict = 1
        rp = os.path.join(vdir, '%s.txt' % pid)
        with open(rp, 'w') as f:
            f.write('property %s (tier %s)\n' % (pid, tier))
            for r, o in refuted:
                f.write('\nFAILED OBLIGATION: group "%s" obligation "%s" (%s) at %s\n  goal: %s\n  back end: %s\n  counterexample: %s\n' %
                        (r['name'], o['name'], o['kind'], o['where'], o['detail'], o['backend'], o['model']))
            for h, r, l in hfail[:50]:
                f.write('\nFAILING INPUT on the real code: %s\n  reproduce: build harness/%s against /repo (bin/check does) and run: %s\n' % (l, h.src, r['cmd']))
            for r in errors:
                f.write('\nundecided group "%s": %s\n' % (r['name'], r['error']))
        violations = len(hfail) + len(refuted)
        if hfail:
            print('VIOLATION property=%s replay=%s' % (pid, rp))
        else:
            print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, rp))
        for r, o in refuted[:5]:
            print('  obligation refuted: [%s] %s at %s' % (r['name'], o['name'], o['where']))
        for h, r, l in hfail[:5]:
            print('  ' + l[:400])
    undecided = []
    for r in errors:
        undecided.append('%s: %s' % (r['name'], r['error']))
        if len(undecided) <= 12:
            print('  undecided: [%s] %s' % (r['name'], r['error'].splitlines()[0] if r['error'] else ''))
    for r, o in unknown:
        undecided.append('%s: %s (solver unknown) at %s' % (r['name'], o['name'], o['where']))
        if len(undecided) <= 20:
            print('  unknown: [%s] %s at %s' % (r['name'], o['name'], o['where']))
    for h, r in hbroken:
        undecided.append('stand-in %s: %s' % (h.src, r['out'][:300]))
        print('  stand-in not built: %s %s' % (h.src, r['out'][:1500]))
    backends = {}
    kinds = {}
    for r in results:
        for o in r['obs']:
            backends[o['backend']] = backends.get(o['backend'], 0) + 1
            kinds[o['kind']] = kinds.get(o['kind'], 0) + 1
    st = {}
    for r in results:
        for k, v in r.get('stats', {}).items():
            st[k] = max(st.get(k, 0), v)
    funcs = sorted(set(f for r in results for f in r['funcs']))
    inl = sorted(set(f for r in results for f in r['inlined']))
    assumed = sorted(set(a for r in results for a in r['assumed']))
    wall = time.time() - t0
    ev = dict(property=pid, tier=tier, seed=seed, level=mod.LEVEL if not undecided else 'other',
              coverage=dict(
                  obligations=nob, discharged=ndis,
                  explanation='' if not undecided else 'some obligations are undecided on this tree; the bounded stand-in decided the run',
                  checker_cmd='bin/check %s %s' % (pid, tier),
                  trusted_base=['clang 18 AST (front end)', 'cver VC generator (/verif/cver)', 'z3 %s' % __import__('z3').get_version_string(), 'cvc5 binary',
                                           'assumed contracts of std:: and MPI in cver/stdmodel.py'] + list(getattr(mod, 'TRUSTED', [])),
                  functions_under_contract=funcs, functions_expanded=[f for f in inl if f not in funcs],
                  obligations_by_kind=kinds, obligations_by_backend=backends,
                  solver_seconds=round(sum(r.get('stats', {}).get('z3_time', 0) for r in results) / max(1, 1), 1),
                  groups=[dict(name=r['name'], level=r['level'], bound=r['bound'], obligations=len(r['obs']), discharged=sum(o['status'] == 'discharged' for o in r['obs']),
                               error=r['error'], paths=r['paths'], seconds=round(r.get('time', 0), 2)) for r in sorted(results, key=lambda r: r['name'])],
                  bounded_standins=[dict(harness=h.src, bound=h.bound, covered=r['covered'], functions=h.standin, wall_s=round(r['wall'], 1), completed=r['done']) for h, r in hres],
                  undecided=undecided),
              assumptions=assumed + list(getattr(mod, 'ASSUMPTIONS', [])),
              wall_s=round(wall, 1), violations=violations)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s %s: %d/%d obligations discharged in %d groups, %d undecided, %d stand-in runs, %.1f s -> %s' %
          (pid, tier, ndis, nob, len(groups), len(undecided), len(hres), wall, 'VIOLATION' if verdict else 'ok'))
    if not verdict and ndis == 0 and not any(r['done'] for h, r in hres):
        print('  nothing could be decided')
        return 2
    return verdict


def load_known(pid):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get('findings', []) if k['property'] == pid]
