"""P03: hierarchical levels, predecessors and subspace enumeration partition the grid points."""
from .dfgcommon import *
from cver.runner import Group, Harness
from cver.loopsum import entries_of, zsub

LEVEL = 'proof'
NS = 'combigrid::'
ASSUMPTIONS = ['maximum level enumerated over the full supported range 1..29; indices and local ranges are unbounded symbols',
               'tensor enumeration: dimensions 1-4 proved for 1-d lists of any length (higher dimensions by harness only); linear indices fit IndexType there (mixed-radix lemma, P01)']


def npts(l, b):
    return (1 << l) - 1 + b


def grid1(ex, lmax, b):
    """1-d grid (dimension 0 of a 2-d grid whose other dimension is arbitrary), arbitrary local range"""
    n0 = npts(lmax, b)
    n = [n0, ex.fresh('n1', 'int', 1, I31)]
    ex.assume(le(mul(n[0], n[1]), I31))
    lev1 = ex.fresh('lev1', 'int', 1, 29)
    b1 = ex.fresh('b1', 'int', 0, 2)
    o, n, lb, ub, lext = mk_dfg(ex, 2, boundary=[b, b1], levels=[lmax, lev1], n=n)
    return o, n, lb, ub, lext


def is_level(i, l, lmax):
    """nodal index i (counted from the left domain boundary) has hierarchical level l"""
    c = eq(tmod(i, 1 << (lmax - l)), 0)
    if l == 0:
        return c
    return and_(c, not_(eq(tmod(i, 1 << (lmax - l + 1)), 0)))


def in_subspace(i, l, lmax, b):
    """level-l subspace; level 1 also holds the boundary points"""
    if l == 1 and b > 0:
        return eq(tmod(i, 1 << (lmax - 1)), 0)
    return is_level(i, l, lmax)


def g_level(ex, P, lmax, b):
    o, n, lb, ub, lext = grid1(ex, lmax, b)
    i = ex.fresh('i', 'int', 0, n[0] - 1)
    nod = i if b else add(i, 1)
    r = ex.invoke(P.find(DFG + '::getLevel'), o, [ex.alloc(0), ex.alloc(i)])
    for l in range(0, lmax + 1):
        ex.oblige('getLevel: level-%d points' % l, eq(eq(r, l), is_level(nod, l, lmax)))
    ex.oblige('getLevel: exactly one level', and_(le(0, r), le(r, lmax)))
    lp = ex.invoke(P.find(DFG + '::getLeftPredecessor'), o, [ex.alloc(0), ex.alloc(i)])
    rp = ex.invoke(P.find(DFG + '::getRightPredecessor'), o, [ex.alloc(0), ex.alloc(i)])
    for l in range(0, lmax + 1):
        h = 1 << (lmax - l)
        if l == 0:
            ex.oblige('boundary points have no left predecessor', implies(is_level(nod, 0, lmax), eq(lp, -1)))
            ex.oblige('boundary points have no right predecessor', implies(is_level(nod, 0, lmax), eq(rp, -1)))
            continue
        c = is_level(nod, l, lmax)
        ex.oblige('left predecessor of level %d' % l, implies(c, or_(eq(lp, sub(i, h)), and_(lt(sub(i, h), 0), lt(lp, 0)))))
        lim = n[0] + 1 if b == 1 else n[0]
        ex.oblige('right predecessor of level %d' % l, implies(c, ite(lt(add(i, h), lim), eq(rp, add(i, h)), eq(rp, -1))))


def g_sub(ex, P, lmax, b, l):
    o, n, lb, ub, lext = grid1(ex, lmax, b)
    out = ex.alloc(Vec((), 'int'))
    ex.invoke(P.find(DFG + '::get1dIndicesLocal'), o, [ex.alloc(0), ex.alloc(l), out])
    v = ex.rd(out)
    num = ex.invoke(P.find(DFG + '::getNumPointsOnThisPartition', r'LevelType, DimType'), o, [ex.alloc(l), ex.alloc(0)])
    ex.oblige('reported number of points equals the number enumerated', eq(num, v.n))
    k = ex.fresh('k', 'int', 0, I31)
    e = v.fn(k) if isinstance(v, SVec) else None
    if e is None:
        raise Unsupported('concrete enumeration')
    nod = lambda j: add(add(lb[0], j), 0 if b else 1)
    ink = and_(le(0, k), lt(k, v.n))
    ex.oblige('enumerated points are local', implies(ink, and_(le(0, e), lt(e, lext[0]))))
    ex.oblige('enumerated points have the level', implies(ink, in_subspace(nod(e), l, lmax, b)))
    e2 = v.fn(add(k, 1))
    ex.oblige('enumeration strictly increasing (no duplicates)', implies(and_(ink, lt(add(k, 1), v.n)), lt(e, e2)))
    # completeness: between consecutive enumerated points, before the first and after the last there is none of the level
    j = ex.fresh('j', 'int', 0, I31)
    ex.assume(lt(j, lext[0]))
    lev = in_subspace(nod(j), l, lmax, b)
    ex.oblige('no point of the level before the first', implies(and_(lev, lt(0, v.n)), le(v.fn(0), j)))
    ex.oblige('no point of the level if none enumerated', implies(eq(v.n, 0), not_(lev)))
    ex.oblige('no point of the level between neighbours', implies(and_(ink, lt(add(k, 1), v.n), lt(e, j), lt(j, e2)), not_(lev)))
    ex.oblige('no point of the level after the last', implies(and_(eq(add(k, 1), v.n), lt(e, j)), not_(lev)))


def g_above(ex, P, lmax, b):
    o, n, lb, ub, lext = grid1(ex, lmax, b)
    out = ex.alloc(Vec([7, 8], 'int'))
    ex.invoke(P.find(DFG + '::get1dIndicesLocal'), o, [ex.alloc(0), ex.alloc(lmax + 1), out])
    ex.oblige('no points for levels above the grid level', eq(ex.rd(out).n, 0))


def g_partition_lemma(ex, P, lmax, b):
    """levels 1..lmax cover every nodal index exactly once (pure arithmetic over the predicate used above)"""
    i = ex.fresh('i', 'int', 0, npts(lmax, b) - 1)
    nod = i if b else add(i, 1)
    D = lambda l: eq(tmod(nod, 1 << (lmax - l)), 0)
    for l in range(1, lmax + 1):
        ex.oblige('multiples nest (%d)' % l, implies(D(l - 1), D(l)))
        if l == 1 and b:
            ex.oblige('level-1 subspace with boundary', eq(in_subspace(nod, 1, lmax, b), D(1)))
        else:
            ex.oblige('level %d subspace' % l, eq(in_subspace(nod, l, lmax, b), and_(D(l), not_(D(l - 1)))))
    ex.oblige('finest multiples cover all', D(lmax))
    if not b:
        ex.oblige('inner indices are no boundary points', not_(D(0)))
    # propositional summing-up over the facts just proved
    d = [eq(ex.fresh('D%d' % l, 'int', 0, 1), 1) for l in range(lmax + 1)]
    hyp = and_(d[lmax], *[implies(d[l - 1], d[l]) for l in range(1, lmax + 1)])
    if not b:
        hyp = and_(hyp, not_(d[0]))
    s = 0
    for l in range(1, lmax + 1):
        s = add(s, ite(d[1] if (l == 1 and b) else and_(d[l], not_(d[l - 1])), 1, 0))
    ex.oblige('every axis index lies in exactly one subspace', implies(hyp, eq(s, 1)))


def g_points(ex, P, dim):
    """tensor-product enumeration for 1-d lists of arbitrary length and content: all combinations, first dimension fastest"""
    o, n, lb, ub, lext = mk_dfg(ex, dim)
    loff = prefix(lext)
    cnt = [ex.fresh('c%d' % d, 'int', 1, I31) for d in range(dim)]
    fs = [ex.freshfun('one%d' % d) for d in range(dim)]
    ex.assume_fits = True
    ex.safety = False     # address overflow is the mixed-radix lemma of P01; list accesses are in range by construction
    levels = ex.rd(o.f('levels_')).e
    lvl = [ex.fresh('l%d' % d, 'int', 1, 29) for d in range(dim)]
    for a, b in zip(lvl, levels):
        ex.assume(le(a, b))

    def c_one(ex, this, args):
        d = ex.rd(args[0])
        ex.oblige('get1dIndicesLocal called with the level of that dimension', eq(ex.rd(args[1]), lvl[d]))
        ex.wr(args[2], SVec(cnt[d], lambda i: fs[d](zt(i)), 'int'))
        return None
    ex.hooks[DFG + '::get1dIndicesLocal'] = c_one
    r = ex.val(ex.invoke(P.find(DFG + '::getFGPointsOfSubspace'), o, [ex.alloc(Vec(lvl, 'int'))]))
    if isinstance(r, Vec):      # path on which the product of the counts is not positive
        ex.oblige('nothing enumerated only if some dimension has no points (product wraps only beyond the index range)', eq(r.n, 0))
        tot = 1
        for c in cnt:
            tot = mul(tot, c)
        ex.assume(le(tot, I31))
        ex.assume(lt(0, tot))
        raise Infeasible()
    es = entries_of(r)
    if es is None or len(es) != 1 or len(es[0].params) != dim:
        raise Unsupported('enumeration not summarised as one append per combination')
    e = es[0]
    ks = [ex.fresh('k%d' % d, 'int', 0, I31) for d in range(dim)]     # position in the list of dimension d
    for k, c in zip(ks, cnt):
        ex.assume(lt(k, c))
    # parameters: outermost loop = last dimension
    order = list(reversed(range(dim)))
    for (p, nn), d in zip(e.params, order):
        ex.oblige('loop over dimension %d runs over all its points' % d, eq(zsub(nn, [(q, ks[dd]) for (q, _), dd in zip(e.params, order)]), cnt[d]))
    cond, idx, val = e.at([ks[d] for d in order])
    ex.oblige('every combination is appended', cond)
    pos, size = 0, 1
    for d in range(dim):
        pos, size = add(pos, mul(size, ks[d])), mul(size, cnt[d])
    ex.oblige('position of the combination (first dimension fastest)', eq(idx, pos))
    ex.oblige('number of points is the product of the 1-d counts', eq(r.n, size))
    ex.oblige('appended value is the linear index of the combination', eq(val, dot([fs[d](ks[d]) for d in range(dim)], loff)))


def g_points_above(ex, P, dim, d):
    o, n, lb, ub, lext = mk_dfg(ex, dim)
    levels = ex.rd(o.f('levels_')).e
    lvl = [ex.fresh('l%d' % k, 'int', 1, 40) for k in range(dim)]
    ex.assume(lt(levels[d], lvl[d]))
    for k in range(d):
        ex.assume(le(lvl[k], levels[k]))
    ex.hooks[DFG + '::get1dIndicesLocal'] = lambda ex, this, args: ex.wr(args[2], Vec([0], 'int'))
    r = ex.val(ex.invoke(P.find(DFG + '::getFGPointsOfSubspace'), o, [ex.alloc(Vec(lvl, 'int'))]))
    ex.oblige('no points for a subspace finer than the grid in dim %d' % d, eq(r.n, 0))


def g_dof(ex, P):
    find = lambda nm, sig: P.find(NS + nm, sig)
    for l in range(0, 31):
        for b in range(3):
            if l == 30 and b == 2 and False:
                continue
            if l >= 1 and l <= 29:
                h = ex.val(ex.invoke(find('getNumDofHierarchical', r'\(const LevelType &, const BoundaryType &\)'), None, [ex.alloc(l), ex.alloc(b)]))
                ex.oblige('points of 1-d level-%d subspace, boundary %d' % (l, b), eq(h, 1 + b if l == 1 else 1 << (l - 1)))
                m = ex.val(ex.invoke(find('getNumDofNodal', r'\(const LevelType &, const BoundaryType &\)'), None, [ex.alloc(l), ex.alloc(b)]))
                ex.oblige('points of 1-d level-%d grid, boundary %d' % (l, b), eq(m, (1 << l) - 1 + b))
    for dim in range(1, 7):
        for seed in range(4):
            L = [1 + (seed * 7 + 3 * k) % 4 for k in range(dim)]
            B = [(seed + k) % 3 for k in range(dim)]
            h = ex.val(ex.invoke(find('getNumDofHierarchical', r'\(const LevelVector &,'), None, [ex.alloc(Vec(L, 'int')), ex.alloc(Vec(B, 'unsigned char'))]))
            e = 1
            for l, b in zip(L, B):
                e *= 1 + b if l == 1 else 1 << (l - 1)
            ex.oblige('tensor subspace size %s %s' % (L, B), eq(h, e))
            m = ex.val(ex.invoke(find('getNumDofNodal', r'\(const LevelVector &,'), None, [ex.alloc(Vec(L, 'int')), ex.alloc(Vec(B, 'unsigned char'))]))
            e = 1
            for l, b in zip(L, B):
                e *= (1 << l) - 1 + b
            ex.oblige('tensor grid size %s %s' % (L, B), eq(m, e))


def groups(tier):
    gs = []
    F1 = [DFG + '::' + x for x in ('getLevel', 'getLeftPredecessor', 'getRightPredecessor')]
    F2 = [DFG + '::' + x for x in ('get1dIndicesLocal', 'getStrideForThisLevel', 'getLocalStartForThisLevel', 'getNumPointsOnThisPartition')]
    for lmax in range(1, 30):
        for b in (0, 1, 2):
            gs.append(Group('levels/predecessors lmax=%d boundary=%d' % (lmax, b), g_level, 'dfg.cpp', dict(lmax=lmax, b=b), F1, budget=100))
            gs.append(Group('partition lemma lmax=%d boundary=%d' % (lmax, b), g_partition_lemma, 'dfg.cpp', dict(lmax=lmax, b=b), []))
            gs.append(Group('above lmax=%d boundary=%d' % (lmax, b), g_above, 'dfg.cpp', dict(lmax=lmax, b=b), F2))
            for l in range(1, lmax + 1):
                if tier == 'quick' and lmax > 8 and l not in (1, 2, lmax - 1, lmax, lmax // 2):
                    continue
                gs.append(Group('subspace lmax=%d boundary=%d l=%d' % (lmax, b, l), g_sub, 'dfg.cpp', dict(lmax=lmax, b=b, l=l), F2, budget=60))
    for dim in range(1, 4 if tier == 'quick' else 5):
        gs.append(Group('getFGPointsOfSubspace dim=%d' % dim, g_points, 'dfg.cpp', dict(dim=dim), [DFG + '::getFGPointsOfSubspace', DFG + '::getFGPointsOfSubspaceRecursive'], budget=400))
    for dim in (1, 2, 3):
        for d in range(dim):
            gs.append(Group('getFGPointsOfSubspace above dim=%d d=%d' % (dim, d), g_points_above, 'dfg.cpp', dict(dim=dim, d=d), [DFG + '::getFGPointsOfSubspace']))
    gs.append(Group('degrees of freedom', g_dof, 'dfg.cpp', {}, [NS + 'getNumDofNodal', NS + 'getNumDofHierarchical']))
    return gs


def harnesses(tier):
    return [Harness('h_p03.cpp', ['src/utils/LevelVector.cpp', 'src/utils/LevelSetUtils.cpp'], np=0, timeout=300,
                    bound='1-d grids up to level 10 with up to 5 processes, random 2- to 4-d grids, all ranks, all subspaces')]
