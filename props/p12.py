"""P12: load models and task rescheduling."""
from fractions import Fraction
from .dfgcommon import *
from .p13 import fold
from cver.runner import Group, Harness

LEVEL = 'proof'
ASSUMPTIONS = ['sums of durations stay below 2^53 microseconds', 'floating point division is treated as real division (operands are integers below 2^53)',
               'rescheduling plans are decided for fixed small task sets and iteration limits with unbounded symbolic durations (bounded groups)',
               'durations are passed for existing tasks only', 'iostream and the file system are external: the contents of the files of the averaging model are covered by the harness']
TRUSTED = ['std::map, std::deque, std::accumulate, std::min_element, std::minmax_element (library models)', 'std::pow(2, l) is the power of two']
LM = 'combigrid::AverageOfLastNLoadModel'
AV = 'combigrid::AveragingLoadModel'
RS = 'combigrid::RebalancingTaskRescheduler'
K = [Vec([1, 2], 'unsigned char'), Vec([2, 1], 'unsigned char'), Vec([3, 1], 'unsigned char'), Vec([4, 4], 'unsigned char')]


def model(ex, n, hist):
    return ex.alloc(Obj(LM, {'lastN_': n, 'levelVectorToLastNDurations_': Bag('map', list(zip(K, hist))), 'loadModelIfNoHistory_': Ptr(ex.alloc(Opq('fallback')), None)}))


def g_add(ex, P, which):
    """the durations kept are the last n of the history, and only those of the given grid change"""
    n, k = ex.fresh('n', 'int', 1, (1 << 32) - 1), ex.fresh('k', 'int', 0, (1 << 32) - 1)
    ex.assume(le(k, n))
    h = [ex.freshfun('h%d' % i, 'int') for i in range(2)]
    m = model(ex, n, [SVec(k, lambda i: h[0](zt(i)), 'unsigned long'), SVec(k, lambda i: h[1](zt(i)), 'unsigned long')])
    x = ex.fresh('duration', 'int', 0, (1 << 62))
    ex.invoke(P.find(LM + '::addDurationInformation'), m, [ex.alloc(Obj('combigrid::DurationInformation', {'duration': x, 'task_id': 0, 'real_dt': 0, 'simtime_now': 0, 'pgroup_id': 0, 'nProcesses': 1})), ex.alloc(K[which])])
    b = ex.rd(m).f['levelVectorToLastNDurations_']
    ex.oblige('no task is added', len(b.items) == 2)
    d = b.items[which][1]
    full = eq(k, n)
    ex.oblige('at most n durations are kept, none is dropped before', eq(seqlen(d), ite(full, n, add(k, 1))))
    j = ex.fresh('j', 'int', 0, (1 << 32))
    ex.assume(lt(j, sub(seqlen(d), 1)))
    ex.oblige('the most recent durations are kept in order', eq(elem(d, j), h[which](zt(add(j, ite(full, 1, 0))))))
    ex.oblige('the new duration is the last one', eq(elem(d, sub(seqlen(d), 1)), x))
    o = b.items[1 - which][1]
    i = ex.fresh('i', 'int', 0, (1 << 32))
    ex.assume(lt(i, k))
    ex.oblige('other grids keep their durations', and_(eq(seqlen(o), k), eq(elem(o, i), h[1 - which](zt(i)))))


class Sums(list):
    def __init__(self, ex):
        self.ex = ex

    def append(self, x):      # every partial sum of the durations is below 2^53 microseconds (stated assumption)
        s, init, S = x
        self.ex.fact(zt(and_(le(0, S(zt(s.n))), le(S(zt(s.n)), 1 << 53))))
        list.append(self, x)


def g_uot_any(ex, P, fn):
    """the same for histories of any length"""
    n, k = ex.fresh('n', 'int', 1, (1 << 32) - 1), ex.fresh('k', 'int', 1, (1 << 32) - 1)
    ex.assume(le(k, n))
    h = ex.freshfun('h', 'int')
    j = z3.Int('hj')
    ex.axioms.append(z3.ForAll([j], z3.And(h(j) >= 0, h(j) <= 1 << 20), patterns=[h(j)]))
    m = model(ex, n, [SVec(k, lambda i: h(zt(i)), 'unsigned long'), Vec([ex.fresh('o', 'int', 0, 1 << 40)], 'unsigned long')])
    ex.sums = Sums(ex)
    r = ex.val(ex.invoke(P.find(LM + '::' + fn), m, [ex.alloc(K[0])]))
    if len(ex.sums) != 1:
        raise Unsupported('sum of the durations not recognised')
    s, init, S = ex.sums[0]
    i = ex.fresh('i', 'int', 0, (1 << 32))
    ex.assume(lt(i, k))
    ex.oblige('all kept durations are summed', and_(eq(init, 0), eq(s.n, k), eq(s.fn(i), h(zt(i)))))
    s = S(zt(k))
    ex.oblige('mean of the durations, rounded down to microseconds', and_(le(mul(r, k), s), lt(s, mul(add(r, 1), k))))


def g_uot(ex, P, k, fn):
    """prognosis: mean of the kept durations; the fallback model without history"""
    n = ex.fresh('n', 'int', 1, (1 << 32) - 1)
    h = [ex.fresh('h%d' % i, 'int', 0, 1 << 40) for i in range(k)]
    m = model(ex, n, [Vec(h, 'unsigned long'), Vec([ex.fresh('o', 'int', 0, 1 << 40)], 'unsigned long')])
    F = ex.fresh('F', 'real')
    ex.hooks['eval'] = ex.hooks['combigrid::LoadModel::eval'] = lambda ex, this, a: F
    r = ex.val(ex.invoke(P.find(LM + '::' + fn), m, [ex.alloc(K[0])]))
    if isinstance(r, Obj):
        r = list(r.f.values())[0]
    if k == 0:
        ex.oblige('the fallback model decides without history' if fn == 'eval' else 'zero without history', eq(r, F if fn == 'eval' else 0))
    else:
        s = sum_(h)
        ex.oblige('mean of the durations, rounded down to microseconds', and_(le(mul(r, k), s), lt(s, mul(add(r, 1), k))))


def sum_(xs):
    r = 0
    for x in xs:
        r = add(r, x)
    return r


def dur(ex, x):
    return Obj('combigrid::DurationInformation', {'duration': x, 'task_id': 0, 'real_dt': 0, 'simtime_now': 0, 'pgroup_id': 0, 'nProcesses': 1})


def avmodel(ex, hist, last):
    m = ex.alloc(Bag('map', list(zip(K, hist))))
    return m, ex.alloc(Obj(AV, {'writeEveryNCombis_': 50, 'durationsOfLevels_': Obj('smartptr', {'ptr': Ptr(m, None)}), 'last_durations_avg_': Bag('map', last)}))


def g_avg(ex, P, case):
    """averaging model: mean of the durations received, else the mean of the file, else the linear model"""
    h, F = ex.freshfun('h', 'int'), ex.fresh('F', 'real')
    k = ex.fresh('k', 'int', 1, 1 << 31) if case == 'durations' else 0
    S = fold(ex, 'sum', 0, lambda m, i: add(m, z3.ToReal(h(zt(i)))))
    f = ex.fresh('file', 'int', 0, 1 << 53)
    other = (K[1], ex.fresh('file2', 'int', 0, 1 << 53))
    d = SVec(k, lambda i: dur(ex, h(zt(i))), 'combigrid::DurationInformation') if case == 'durations' else Vec([], 'combigrid::DurationInformation')
    m, o = avmodel(ex, [d, Vec([dur(ex, ex.fresh('o', 'int', 0, 1 << 40))])], [(K[0], f), other] if case == 'file' else [other])
    j = z3.Int('hj')
    ex.axioms.append(z3.ForAll([j], z3.And(h(j) >= 0, h(j) <= 1 << 52), patterns=[h(j)]))
    ex.hooks['combigrid::LinearLoadModel::eval'] = lambda ex, this, a: F if [simp(x) for x in ex.val(a[0]).e] == list(K[0].e) else ex.fresh('wrong', 'real')
    ex.loopspecs.append(lambda ex, cx: {'values': {cx.rest[0]: S}} if len(cx.rest) == 1 and isscalar(cx.H[cx.rest[0]]) else None)
    r = ex.val(ex.invoke(P.find(AV + '::eval'), o, [ex.alloc(K[0])]))
    if case == 'durations':
        ex.oblige('mean of the durations received', eq(mul(r, z3.ToReal(zt(k))), S(k)))
    else:
        ex.oblige('mean recorded in the file' if case == 'file' else 'linear model', eq(r, f if case == 'file' else F))


def g_avgadd(ex, P, k, which):
    """averaging model: durations received are kept; once 50 are kept and another one arrives they are moved to the file"""
    h = [[ex.fresh('h', 'int', 0, 1 << 50) for i in range(k)] for g in range(2)]
    m, o = avmodel(ex, [Vec([dur(ex, x) for x in h[g]], 'combigrid::DurationInformation') for g in range(2)], [])
    x = ex.fresh('x', 'int', 0, 1 << 50)
    ex.invoke(P.find(AV + '::addDurationInformation'), o, [ex.alloc(dur(ex, x)), ex.alloc(K[which])])
    b = ex.rd(m)
    got = b.items[which][1]
    want = h[which] + [x] if k < 50 else [x]
    ex.oblige('number of durations kept', eq(seqlen(got), len(want)))
    ex.oblige('durations kept in order', and_(*[eq(elem(got, i).f['duration'], w) for i, w in enumerate(want)]))
    o = b.items[1 - which][1]
    ex.oblige('other grids keep their durations', and_(len(b.items) == 2, eq(seqlen(o), k), *[eq(elem(o, i).f['duration'], w) for i, w in enumerate(h[1 - which])]))


def g_linear(ex, P, dim):
    """linear model: 2 to the power of the level sum"""
    l = [ex.fresh('l%d' % d, 'int', 0, 60) for d in range(dim)]
    pw = ex.freshfun('pw', 'real')

    def pow_(ex, this, a):
        ex.oblige('powers of two', eq(ex.val(a[0]), 2))
        for d in range(dim):
            if ex.provable(eq(ex.val(a[1]), l[d])):
                return pw(zt(l[d]))
        raise Unsupported('pow')
    ex.hooks['pow'] = ex.hooks['std::pow'] = pow_
    r = ex.val(ex.invoke(P.find('combigrid::LinearLoadModel::eval'), ex.alloc(Obj('combigrid::LinearLoadModel', {})), [ex.alloc(Vec(l, 'unsigned char'))]))
    w = 1
    for d in range(dim):
        w = mul(w, pw(zt(l[d])))
    ex.oblige('product of the powers of two of all levels', eq(r, w))


def g_plan(ex, P, groups, iters, exact, imb, model='micro'):
    n = len(groups)
    d = [ex.fresh('d%d' % i, 'int', 0, 1 << 50) for i in range(n)]
    p = d if exact else [ex.fresh('p%d' % i, 'int', 0, 1 << 50) for i in range(n)]
    R = ex.alloc(Obj(RS, {'max_iterations_': iters, 'min_inbalance_': imb}))

    def prog(ex, this, a):
        key = ex.val(a[0])
        for i in range(n):
            if [simp(x) for x in key.e] == list(K[i].e):
                return p[i]
        ex.oblige('prognosis of an existing task', False)
    ex.hooks['evalSpecificUOT'] = prog
    ex.hooks['count'] = lambda ex, this, a: ex.val(this)
    ex.hooks['dynamic_cast'] = lambda ex, this, a: a[0]
    r = ex.val(ex.invoke(P.find(RS + '::eval'), R, [ex.alloc(Bag('map', list(zip(K, groups)))), ex.alloc(Bag('map', list(zip(K, d)))), ex.alloc(Ptr(ex.alloc(Opq('model')), None))]))
    after = list(groups)
    ex.oblige('at most as many moves as iterations', le(seqlen(r), iters))
    seen = set()
    for x in r.e:
        key, g = x.f['first'], simp(x.f['second'])
        ks = [i for i in range(n) if [simp(y) for y in key.e] == list(K[i].e)]
        ex.oblige('only existing tasks are moved', len(ks) == 1)
        ex.oblige('each task is moved at most once', ks[0] not in seen)
        seen.add(ks[0])
        ex.oblige('tasks are moved to existing groups', g in groups)
        ex.oblige('tasks are moved to another group', g != groups[ks[0]])
        after[ks[0]] = g
    G = sorted(set(groups))
    L = {g: sum_([d[i] for i in range(n) if groups[i] == g]) for g in G}
    A = {g: sum_([d[i] for i in range(n) if after[i] == g]) for g in G}
    if exact:
        for g in G:
            ex.oblige('no group gets slower than the slowest was', or_(*[le(A[g], L[q]) for q in G]))
    if r.e and len(G):
        w = ex.fresh('avg', 'int', 0)
        s = sum_(d)
        ex.assume(and_(le(mul(w, len(G)), s), lt(s, mul(add(w, 1), len(G)))))
        ex.oblige('nothing is moved below the minimum imbalance', and_(lt(0, w), or_(*[le(mul(imb, w), L[q]) for q in G])))


def groups(tier):
    out = []
    for w in (0, 1):
        out.append(Group('add duration of grid %d' % w, g_add, 'loadmodel.cpp', dict(which=w), [LM + '::addDurationInformation']))
    for k in (0, 1, 2, 3):
        for fn in ('evalSpecificUOT', 'eval'):
            out.append(Group('%s with %d durations' % (fn, k), g_uot, 'loadmodel.cpp', dict(k=k, fn=fn), [LM + '::' + fn]))
    for fn in ('evalSpecificUOT', 'eval'):
        out.append(Group('%s with any number of durations' % fn, g_uot_any, 'loadmodel.cpp', dict(fn=fn), [LM + '::' + fn]))
    for c in ('durations', 'file', 'none'):
        out.append(Group('averaging model: %s' % c, g_avg, 'loadmodel.cpp', dict(case=c), [AV + '::eval']))
    for k in (0, 3, 49, 50):
        for w in (0, 1):
            out.append(Group('averaging model: duration %d of grid %d' % (k + 1, w), g_avgadd, 'loadmodel.cpp', dict(k=k, which=w), [AV + '::addDurationInformation', AV + '::writeDurationsToFile']))
    for d in range(1, 7):
        out.append(Group('linear model in %d dimensions' % d, g_linear, 'loadmodel.cpp', dict(dim=d), ['combigrid::LinearLoadModel::eval']))
    plans = [([], 1), ([0], 1), ([0, 0], 2), ([0, 1], 2), ([0, 0, 1], 0), ([0, 0, 1], 1), ([3, 1, 1], 2), ([0, 1, 2], 2), ([1, 1, 1], 1), ([5, 5, 5, 2], 1)]
    for gr, it in plans + ([([0, 0, 1], 2), ([0, 0, 1, 2], 2), ([0, 0, 0, 1], 2)] if tier != 'quick' else []):
        for exact in (True, False):
            if len(gr) < 2 and not exact or (it > 1 and len(gr) > 2 and not exact):
                continue
            for imb in (Fraction(6, 5), Fraction(0)) if len(gr) < 3 and exact else (Fraction(6, 5),):
                out.append(Group('plan for groups %s, %d iterations, minimum imbalance %s, %s prognosis' % (gr, it, imb, 'exact' if exact else 'any'), g_plan, 'loadmodel.cpp',
                                 dict(groups=gr, iters=it, exact=exact, imb=imb), [RS + '::eval'], level='bounded', bound='%d tasks, %d iterations, all durations below 2^50' % (len(gr), it)))
    return out


def harnesses(tier):
    return [Harness('h_p12.cpp', sources=['src/loadmodel/AverageOfLastNLoadModel.cpp', 'src/loadmodel/AveragingLoadModel.cpp', 'src/loadmodel/LinearLoadModel.cpp', 'src/rescheduler/RebalancingTaskRescheduler.cpp', 'src/utils/LevelVector.cpp', 'src/utils/Stats.cpp'],
                    np=0, timeout=300, bound='all distributions of up to 4 tasks (4 durations each) on 3 groups, random task sets of up to 40 tasks on 6 groups; random histories of up to 80 durations; files of the averaging model over 3 program runs',
                    standin=[RS + '::eval (any number of tasks and iterations)', AV + '::addLevelVectorToLoadModel, getAverageOfFirstColumn (file contents)'])]
