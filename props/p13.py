"""P13: interpolation and norms of distributed grids."""
from fractions import Fraction
from .dfgcommon import *
from cver.runner import Group, Harness

LEVEL = 'proof'
ASSUMPTIONS = ['floating point is treated as real arithmetic in the proofs (grid spacings are powers of two); the harness uses the real arithmetic',
               'levels, boundary flags and dimension are enumerated (structural); coordinates, sub-domain bounds and values are unbounded symbols',
               'number of grid points fits IndexType']
TRUSTED = ['MPI_Allreduce combines the contributions of all processes']


def npts(l, b):
    return (1 << l) - 1 + b


def setup(ex, P, levels, bd, box=None):
    dim = len(levels)
    n = [npts(l, b) for l, b in zip(levels, bd)]
    o, n, lb, ub, lext = mk_dfg(ex, dim, boundary=bd, levels=levels, n=n)
    ex.wr(o.f('gridSpacing_'), Vec([Fraction(1, 1 << l) for l in levels], 'double'))
    if box:
        for d, (a, b) in enumerate(box):
            ex.assume(and_(eq(lb[d], a), eq(ub[d], b)))
        lb, ub = [a for a, b in box], [b for a, b in box]
        lext = [b - a for a, b in box]
        ob = ex.rd(o)
        ex.wr(o, Obj(ob.cls, dict(ob.f, myPartitionsLowerBounds_=Vec(lb, 'int'), myPartitionsUpperBounds_=Vec(ub, 'int'), localTensor_=mk_indexer(ex, lext, 'combigrid::Tensor<double>'))))
    else:
        mono(ex, lext)
    val = ex.freshfun('val', 'real')
    data = ex.alloc(SVec(prod(lext), lambda i: val(zt(i)), 'double'))
    ex.hooks[DFG + '::getData'] = lambda ex, this, a: Ptr(data, 0)
    ex.hooks['getCartesianUtils'] = lambda ex, this, a: ex.alloc(Opq('cart'))
    ex.hooks['isOnLowerBoundaryInDimension'] = lambda ex, this, a: sel([eq(x, 0) for x in lb], ex.val(a[0]))
    return o, n, lb, ub, lext, val


def sel(xs, i):
    return xs[i]


def g_dist(ex, P, level, b):
    """distance of a grid point to a coordinate"""
    o, n, lb, ub, lext, val = setup(ex, P, [level], [b])
    i, c = ex.fresh('i', 'int', -1, n[0]), ex.fresh('c', 'real')
    r = ex.invoke(P.find(DFG + '::getPointDistanceToCoordinate'), o, [ex.alloc(i), ex.alloc(c), ex.alloc(0)])
    e = sub(mul(add(add(lb[0], i), 0 if b else 1), Fraction(1, 1 << level)), c)
    ex.oblige('distance between the point and the coordinate', eq(ex.val(r), ite(le(0, e), e, neg(e))))


def g_eval(ex, P, levels, bd, split=True):
    dim = len(levels)
    o, n, lb, ub, lext, val = setup(ex, P, levels, bd)
    x, g, fr = [], [], []
    for d in range(dim):   # position: x = (g + off + fr) * h lies between the points g and g+1
        gd, f = ex.fresh('g%d' % d, 'int', -1, n[d]), ex.fresh('fr%d' % d, 'real')
        ex.assume(and_(le(0, f), lt(f, 1)))
        t = mul(add(add(gd, 0 if bd[d] else 1), f), Fraction(1, 1 << levels[d]))
        ex.assume(and_(le(0, t), le(t, 1)))
        x.append(t)
        g.append(gd)
        fr.append(f)
    for d in range(dim if split else 0):   # case split (completeness is by construction of branch)
        ex.branch(lt(add(g[d], 1), lb[d])) or ex.branch(lt(g[d], lb[d])) or ex.branch(lt(add(g[d], 1), ub[d])) or ex.branch(lt(g[d], ub[d]))

    def dist(ex, this, a):   # contract of getPointDistanceToCoordinate (proved in group "distance"), in the form used here
        i, c, d = ex.val(a[0]), ex.val(a[1]), ex.val(a[2])
        h = Fraction(1, 1 << levels[d])
        e = sub(mul(add(add(lb[d], i), 0 if bd[d] else 1), h), c)
        for r in (mul(fr[d], h), mul(sub(1, fr[d]), h)):
            if ex.provable(or_(eq(e, r), eq(e, neg(r)))):
                return r
        return ite(le(0, e), e, neg(e))
    if split:
        ex.hooks[DFG + '::getPointDistanceToCoordinate'] = dist
    v = ex.alloc(ex.fresh('old', 'real'))
    off = prefix(lext)
    want = 0
    for e in range(1 << dim):
        w, own, addr = 1, [], 0
        for d in range(dim):
            up = (e >> d) & 1
            p = add(g[d], up)
            if bd[d] == 1:
                p = 0 if ex.branch(eq(p, n[d])) else p
            w = mul(w, fr[d] if up else sub(1, fr[d]))
            own.append(and_(le(lb[d], p), lt(p, ub[d])))
            addr = add(addr, mul(sub(p, lb[d]), off[d]))
        if not ex.branch(and_(*own)):
            continue
        D = val(zt(addr))
        ex.fact(z3.Implies(zt(w) == 0, zt(mul(w, D)) == 0))
        ex.fact(zt(le(0, w)))    # product of numbers in [0,1]
        want = add(want, mul(w, D))
    ex.invoke(P.find(DFG + '::evalLocal', r'^void \('), o, [ex.alloc(Vec(x, 'double')), v])
    ex.oblige('local contribution is the sum of the hat functions of the owned points', eq(ex.rd(v), want))


def absr(x):
    return ite(le(0, x), x, neg(x))


def fold(ex, name, start, step):
    """recursively defined ghost function: f(0) = start, f(k+1) = step(f(k), k); unfolded where it is used"""
    f = ex.freshfun('unk', 'real')     # only partly axiomatised: never refutes ('unk'), a concrete length is unfolded completely
    ex.axioms.append(zt(eq(f(z3.IntVal(0)), start)))

    def at(k):
        if isinstance(simp(k), int):
            r = start
            for j in range(simp(k)):
                r = step(r, j)
            return r
        ex.axioms.append(z3.Implies(zt(le(0, k)), zt(eq(f(zt(add(k, 1))), step(f(zt(k)), k)))))
        return f(zt(k))
    return at


def g_norm(ex, P, p, levels, bd, box=None):
    o, n, lb, ub, lext, val = setup(ex, P, levels, bd, box)
    N = prod(lext)
    glob, comm = ex.fresh('global', 'real'), Opq('comm')
    ex.assume(le(0, glob))
    seen = ex.alloc(0)
    ex.hooks['getMPIDatatype'] = ex.hooks['getabstractionDataType'] = lambda ex, this, a: Opq('mpitype')
    ex.hooks['getCommunicator'] = lambda ex, this, a: comm
    ex.hooks['var:MPI_MAX'] = lambda ex: Opq('MAX')
    if p == 0:
        F = fold(ex, 'mx', 0, lambda m, i: ite(le(m, absr(val(zt(i)))), absr(val(zt(i))), m))
    else:
        bits = [ex.freshfun('unk', 'bool') for d in range(len(levels))]

        def onb(ex, this, a):      # contract of isLocalLinearIndexOnBoundary (own group)
            i = ex.val(a[0])
            ex.oblige('boundary test for a local point', and_(le(0, i), lt(i, N)))
            return Vec([b(zt(i)) for b in bits], 'bool')
        if not box:
            ex.hooks[DFG + '::isLocalLinearIndexOnBoundary'] = onb

        def weight(i):
            w = Fraction(1)
            if box:
                for d in range(len(levels)):
                    q, i = i % lext[d] + lb[d], i // lext[d]
                    w = w / 2 if bd[d] == 2 and q in (0, n[d] - 1) else w
                return w
            for b in bits:
                w = mul(w, ite(b(zt(i)), Fraction(1, 2), Fraction(1)))
            return w
        F = fold(ex, 'sm', 0, lambda m, i: add(m, mul(absr(val(zt(i))), weight(i))))
        ex.hooks['pow'] = ex.hooks['std::pow'] = power
    ex.loopspecs.append(lambda ex, cx: {'values': {cx.rest[0]: F}} if len(cx.rest) == 1 and isscalar(cx.H[cx.rest[0]]) else None)

    def red(ex, this, a):
        s, r, c = ex.val(a[0]), ex.val(a[1]), ex.val(a[2])
        get = lambda q: ex.rd(q.lv if q.idx is None else q.lv.i(q.idx))
        ex.oblige('one value per process is combined', eq(c, 1))
        ex.oblige('the local part is complete', eq(get(s), F(N)))
        ex.wr(r.lv if r.idx is None else r.lv.i(r.idx), glob)
        ex.wr(seen, 1)
        return 0
    ex.hooks['MPI_Allreduce'] = red
    r = ex.val(ex.invoke(P.find(DFG + '::getLpNorm'), o, [ex.alloc(p)]))
    ex.oblige('all processes take part', eq(ex.rd(seen), 1))
    h = Fraction(1)
    for l in levels:
        h /= 1 << l
    ex.oblige('norm of the whole grid', eq(r, glob if p == 0 else mul(glob, h)))


def power(ex, this, a):
    b, e = ex.val(a[0]), simp(ex.val(a[1]))
    if e == 1:
        return b
    raise Unsupported('pow')


def g_boundary(ex, P, levels, bd):
    """boundary test of a local point: in exactly the dimensions with two-sided boundary in which it is first or last"""
    ex.contracts = ti_contracts()
    o, n, lb, ub, lext, val = setup(ex, P, levels, bd)
    dim = len(levels)
    i = ex.fresh('i', 'int', 0, I31)
    ex.assume(lt(i, prod(n)))
    r = ex.invoke(P.find(DFG + '::isGlobalLinearIndexOnBoundary'), o, [ex.alloc(i)])
    r = ex.val(r)
    v = ex.rd(LV('static:getVectorIndex')).e
    ex.oblige('one entry per dimension', eq(seqlen(r), dim))
    for d in range(dim):
        ex.oblige('boundary in dimension %d' % d, eq(tobool(r.e[d]), or_(eq(v[d], 0), eq(v[d], n[d] - 1)) if bd[d] == 2 else False))


def g_many(ex, P):
    """evaluation at any number of points: every point gets its own local value before the values are combined"""
    o, n, lb, ub, lext, val = setup(ex, P, [3, 2], [2, 1])
    N = ex.fresh('N', 'int', 1, I31)
    L = ex.freshfun('L', 'real')
    c = ex.alloc(SVec(N, lambda i: Opq('coords'), 'std::vector<double>'))
    ex.hooks[DFG + '::evalLocal'] = at_point(ex, c, L)
    done = combine(ex, N, L, 1)
    r = ex.val(ex.invoke(P.find(DFG + '::getInterpolatedValues'), o, [c]))
    ex.oblige('values are combined over the processes of the grid', eq(ex.rd(done), 1))
    ex.oblige('one value per point', eq(seqlen(r), N))


def at_point(ex, c, L):
    def ev(ex, this, a):
        q = a[0]
        ok = isinstance(q, LV) and q.root == c.root and len(q.path) == 1
        ex.oblige('evaluates one of the given points', ok)
        i = q.path[-1][1] if ok and isinstance(q.path[-1], tuple) else q.path[-1] if ok else 0
        v = L(zt(i))
        if len(a) > 1:
            ex.wr(a[1], v)
            return None
        return v
    return ev


def combine(ex, N, L, times):
    done = ex.alloc(0)
    p = ex.fresh('p', 'int', 0, I31)
    ex.assume(lt(p, N))

    def red(ex, this, a):
        q, cnt = ex.val(a[1]), ex.val(a[2])
        ex.oblige('all values are combined', eq(cnt, N))
        ok = isinstance(q, Ptr) and simp(q.idx) == 0
        ex.oblige('combination of the values in place', ok)
        if ok:
            ex.oblige('local value of every point', eq(elem(ex.rd(q.lv), p), L(zt(p))))
        c = ex.val(a[5])
        ex.wr(done, add(ex.rd(done), {'local': 10, 'reduce': 100}.get(getattr(c, 'tag', ''), 1)))
        return 0
    ex.hooks['MPI_Allreduce'] = red
    ex.hooks['getCommunicator'] = lambda ex, this, a: Opq('comm')
    ex.hooks['getMPIDatatype'] = ex.hooks['getabstractionDataType'] = lambda ex, this, a: Opq('mpitype')
    return done


def g_tasks(ex, P, nt):
    """combined solution: sum of the local values of all component grids, weighted with their coefficients"""
    N = ex.fresh('N', 'int', 1, I31)
    Ls = [ex.freshfun('L%d' % t, 'real') for t in range(nt)]
    co = [ex.fresh('coeff%d' % t, 'real') for t in range(nt)]
    c = ex.alloc(SVec(N, lambda i: Opq('coords'), 'std::vector<double>'))
    objs = [ex.alloc(Obj('task', {'t': t})) for t in range(nt)]
    tasks = ex.alloc(Vec([Obj('smartptr', {'ptr': Ptr(x, None)}) for x in objs], 'std::unique_ptr<combigrid::Task<double>>'))
    idx = lambda this: ex.rd(this).f['t']
    ex.hooks['getCoefficient'] = lambda ex, this, a: co[idx(this)]
    ex.hooks['getDistributedFullGrid'] = lambda ex, this, a: this
    ex.hooks['evalLocal'] = lambda ex, this, a: at_point(ex, c, Ls[idx(this)])(ex, this, a)

    def want(i):
        s = 0
        for x, L in zip(co, Ls):
            s = add(s, mul(x, L(zt(i))))
        return s
    done = combine(ex, N, want, 2)
    ex.hooks['getLocalComm'] = lambda ex, this, a: Opq('local')
    ex.hooks['getGlobalReduceComm'] = lambda ex, this, a: Opq('reduce')
    ex.hooks['theMPISystem'] = lambda ex, this, a: Ptr(ex.alloc(Opq('MPISystem')), None)
    r = ex.val(ex.invoke(P.find('combigrid::interpolateValues'), None, [tasks, c]))
    ex.oblige('values are combined within and across the process groups', eq(ex.rd(done), 110))
    ex.oblige('one value per point', eq(seqlen(r), N))


def groups(tier):
    D = 'dfg.cpp'
    gs = []
    lv = range(0, 30) if tier != 'quick' else (0, 1, 2, 3, 5, 10, 17, 24, 29)
    for b in (0, 1, 2):
        for l in lv:
            if npts(l, b) < 1:
                continue
            gs.append(Group('evalLocal[1-d level=%d,boundary=%d]' % (l, b), g_eval, D, dict(levels=[l], bd=[b]), [DFG + '::evalLocal', DFG + '::evalIndexAndAllUpperNeighbors', DFG + '::getPointDistanceToCoordinate', DFG + '::getLowerBoundsCoord', DFG + '::getInverseGridSpacingIn', TI + '::sequentialIndex']))
    for l, b, box in (([2], [2], [(1, 4)]), ([1, 2], [1, 2], [(0, 2), (1, 3)]), ([2, 2], [2, 0], [(3, 5), (0, 1)])):
        for q in (0, 1):
            gs.append(Group('%s of small parts[%s,%s,%s]' % ('1-norm' if q else 'max norm', l, b, box), g_norm, D, dict(p=q, levels=l, bd=b, box=box), [DFG + '::getLpNorm']))
    F2 = [DFG + '::evalLocal', DFG + '::evalIndexAndAllUpperNeighbors', DFG + '::getPointDistanceToCoordinate', DFG + '::getLowerBoundsCoord']
    for b in [(1, 0), (0, 2), (2, 1)] + ([] if tier == 'quick' else [(0, 0), (1, 1), (2, 2)]):
        for l in [(3, 2)] if tier == 'quick' else [(3, 2), (1, 1), (1, 6), (8, 9)]:
            gs.append(Group('evalLocal[2-d level=%s,boundary=%s]' % (l, b), g_eval, D, dict(levels=list(l), bd=list(b)), F2))
    if tier != 'quick':
        gs.append(Group('evalLocal[3-d level=(2,3,1),boundary=(1,2,0)]', g_eval, D, dict(levels=[2, 3, 1], bd=[1, 2, 0]), F2))
    for b in (0, 1, 2):
        for l in (1, 4, 11, 29):
            gs.append(Group('distance[level=%d,boundary=%d]' % (l, b), g_dist, D, dict(level=l, b=b), [DFG + '::getPointDistanceToCoordinate']))
    for l, b in (([3], [2]), ([2, 4], [1, 2]), ([5, 3], [2, 2]), ([2, 9], [0, 1])):
        gs.append(Group('max norm[%s,%s]' % (l, b), g_norm, D, dict(p=0, levels=l, bd=b), [DFG + '::getLpNorm']))
        gs.append(Group('1-norm[%s,%s]' % (l, b), g_norm, D, dict(p=1, levels=l, bd=b), [DFG + '::getLpNorm', DFG + '::getInnerNodalBasisFunctionIntegral']))
        gs.append(Group('boundary points[%s,%s]' % (l, b), g_boundary, D, dict(levels=l, bd=b), [DFG + '::isGlobalLinearIndexOnBoundary']))
    gs.append(Group('getInterpolatedValues', g_many, D, {}, [DFG + '::getInterpolatedValues']))
    for nt in (1, 2, 3):
        gs.append(Group('interpolateValues[%d grids]' % nt, g_tasks, 'interp.cpp', dict(nt=nt), ['combigrid::interpolateValues']))
    return gs


def harnesses(tier):
    return [Harness('h_p13.cpp', sources=['src/utils/LevelVector.cpp', 'src/utils/LevelSetUtils.cpp', 'src/utils/Stats.cpp'], np=0, timeout=400,
                    bound='random grids of dimension 1..5 (levels <= 18 in 1-d), all ranks of random decompositions, random evaluation points including grid points, cell midpoints, domain ends and their floating point neighbours; values double and complex<double>',
                    standin=[DFG + '::getInterpolatedValues (real arithmetic)', DFG + '::evalLocal (dimension > 2, real floating point)'])]
