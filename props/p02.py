"""P02: domain decomposition: every axis index owned by exactly one process; consistent bounds; coarsening keeps owners."""
from .dfgcommon import *
from cver.runner import Group, Harness
import itertools

LEVEL = 'proof'
ASSUMPTIONS = ['doubles treated as reals in the default decomposition: exact because (points x processes) < 2^52 and ceil/floor of a correctly rounded quotient of such integers is exact',
               'MPI_Cart_get/MPI_Cart_coords return row-major cartesian coordinates (MPI standard)',
               'process counts per dimension enumerated (1..32 in one dimension, selected layouts up to 4 dimensions); axis sizes are unbounded symbols']
NS = 'combigrid::'
CU = 'combigrid::MPICartesianUtils'


def g_default(ex, P, procs, fwd):
    dim = len(procs)
    n = [ex.fresh('n%d' % k, 'int', 1, I31) for k in range(dim)]
    ok = and_(*[le(p, m) for p, m in zip(procs, n)])
    fits = ex.branch(ok)
    try:
        r = ex.invoke(P.find(NS + 'getDefaultDecomposition'), None, [ex.alloc(Vec(n, 'int')), ex.alloc(Vec(list(procs), 'int')), ex.alloc(fwd)])
    except Throw:
        ex.oblige('getDefaultDecomposition: exception only when some dimension has more processes than points', not_(ok))
        return
    ex.oblige('getDefaultDecomposition: more processes than points is rejected', ok)
    if not fits:
        return
    dec = ex.val(r)
    ex.oblige('one decomposition per dimension', eq(dec.n, dim))
    for k in range(dim):
        d = dec.e[k]
        ex.oblige('dim %d: one lower bound per process' % k, eq(d.n, procs[k]))
        if d.n != procs[k]:
            continue
        e = d.e
        ex.oblige('dim %d: ranges start at 0' % k, eq(e[0], 0))
        for j in range(procs[k]):
            up = e[j + 1] if j + 1 < procs[k] else n[k]
            ex.oblige('dim %d: range %d is non-empty' % (k, j), lt(e[j], up))
            # balanced: floor(n/p) or ceil(n/p) points
            s = mul(procs[k], sub(up, e[j]))
            ex.oblige('dim %d: range %d holds n/p points rounded down or up' % (k, j), and_(lt(sub(n[k], procs[k]), s), lt(s, add(n[k], procs[k]))))
            # rounding direction: forward -> first index at or after j*n/p, backward -> last index at or before
            t = mul(procs[k], e[j])
            x = mul(n[k], j)
            if fwd:
                ex.oblige('dim %d: bound %d rounds up' % (k, j), and_(le(x, t), lt(t, add(x, procs[k]))))
            else:
                ex.oblige('dim %d: bound %d rounds down' % (k, j), and_(le(t, x), lt(sub(x, procs[k]), t)))


def coords(procs, r):
    c = [0] * len(procs)
    for k in reversed(range(len(procs))):
        c[k] = r % procs[k]
        r //= procs[k]
    return c


def setup_cart(ex, P, procs, rank):
    """runs the real MPICartesianUtils constructor over the assumed MPI topology contracts"""
    dim = len(procs)
    size = 1
    for p in procs:
        size *= p

    H = ex.hooks
    H['MPI_Topo_test'] = lambda ex, t, a: (wr1(ex, a[1], CART), 0)[1]
    H['MPI_Cartdim_get'] = lambda ex, t, a: (wr1(ex, a[1], dim), 0)[1]

    def cart_get(ex, t, a):
        wrn(ex, a[2], procs)
        wrn(ex, a[3], [0] * dim)
        wrn(ex, a[4], coords(procs, rank))
        return 0
    H['MPI_Cart_get'] = cart_get

    def cart_coords(ex, t, a):
        wrn(ex, a[3], coords(procs, ex.rd(a[1])))
        return 0
    H['MPI_Cart_coords'] = cart_coords
    H['MPI_Comm_rank'] = lambda ex, t, a: (wr1(ex, a[1], rank), 0)[1]
    H['MPI_Comm_size'] = lambda ex, t, a: (wr1(ex, a[1], size), 0)[1]
    cu = ex.alloc(ex.default(CU), 'cartutils')
    ex.invoke(P.find(CU + '::MPICartesianUtils', r'\(CommunicatorType\)|\(MPI_Comm\)'), cu, [ex.alloc(Opq('comm'))])
    H['var:cartesianUtils_'] = lambda ex: cu
    return cu, size


CART = 1


def ptr_at(p, i):
    return LV(p.lv.root, p.lv.path + (('i', add(p.idx or 0, i)),)) if p.idx is not None else p.lv


def wr1(ex, lv, v):
    p = ex.rd(lv)
    ex.wr(ptr_at(p, 0) if p.idx is not None else p.lv, v)


def wrn(ex, lv, vals):
    p = ex.rd(lv)
    for i, v in enumerate(vals):
        ex.wr(ptr_at(p, i), v)


def sym_decomposition(ex, procs, n):
    dec = []
    for k, p in enumerate(procs):
        e = [0] + [ex.fresh('dec%d_%d' % (k, j), 'int', 1, I31) for j in range(1, p)]
        for a, b in zip(e, e[1:] + [n[k]]):
            ex.assume(lt(a, b))
        dec.append(e)
    return dec


def g_bounds(ex, P, procs, rank):
    dim = len(procs)
    cu, size = setup_cart(ex, P, procs, rank)
    n = fresh_extents(ex, dim)
    dec = sym_decomposition(ex, procs, n)
    o, n, lb, ub, lext = mk_dfg(ex, dim, n=n, decomposition=Vec([Vec(e, 'int') for e in dec], 'std::vector<int>'))
    me = coords(procs, rank)
    for k in range(dim):
        ex.assume(eq(lb[k], dec[k][me[k]]))
        ex.assume(eq(ub[k], dec[k][me[k] + 1] if me[k] + 1 < procs[k] else n[k]))
    ex.oblige('communicator size is the product of the layout', eq(ex.invoke(P.find(CU + '::getCommunicatorSize'), cu, []), size))
    ex.oblige('own rank', eq(ex.invoke(P.find(CU + '::getCommunicatorRank'), cu, []), rank))
    for r in range(size):
        c = coords(procs, r)
        q = ex.invoke(P.find(CU + '::getPartitionCoordsOfRank'), cu, [ex.alloc(r)])
        ex.oblige('coordinates of rank %d' % r, and_(*[eq(a, b) for a, b in zip(ex.val(q).e, c)]))
        q = ex.invoke(P.find(CU + '::getRankFromPartitionCoords'), cu, [ex.alloc(Vec(c, 'int'))])
        ex.oblige('rank at coordinates of rank %d' % r, eq(q, r))
        L = ex.val(ex.invoke(P.find(DFG + '::getLowerBounds', r'\(RankType\)|\(int\)'), o, [ex.alloc(r)]))
        U = ex.val(ex.invoke(P.find(DFG + '::getUpperBounds', r'\(RankType\)|\(int\)'), o, [ex.alloc(r)]))
        for k in range(dim):
            ex.oblige('lower bound of rank %d in dim %d' % (r, k), eq(L.e[k], dec[k][c[k]]))
            ex.oblige('upper bound of rank %d in dim %d' % (r, k), eq(U.e[k], dec[k][c[k] + 1] if c[k] + 1 < procs[k] else n[k]))
    for k in range(dim):
        ex.oblige('isOnLowerBoundaryInDimension %d' % k, eq(tobool(ex.invoke(P.find(CU + '::isOnLowerBoundaryInDimension'), cu, [ex.alloc(k)])), me[k] == 0))
        ex.oblige('isOnUpperBoundaryInDimension %d' % k, eq(tobool(ex.invoke(P.find(CU + '::isOnUpperBoundaryInDimension'), cu, [ex.alloc(k)])), me[k] == procs[k] - 1))
        q = ex.val(ex.invoke(P.find(CU + '::getAllMyPoleNeighborRanks'), cu, [ex.alloc(k)]))
        exp = []
        for j in range(procs[k]):
            if j != me[k]:
                c = list(me)
                c[k] = j
                exp.append(next(r for r in range(size) if coords(procs, r) == c))
        ex.oblige('getAllMyPoleNeighborRanks(%d): exactly the other processes of the pole' % k, len(q.e) == len(exp) and and_(*[eq(a, b) for a, b in zip(q.e, exp)]))
        # owner of an axis index
        i = ex.fresh('idx', 'int', -I31 - 1, I31)
        ex.assume(lt(i, I31))
        r = ex.invoke(P.find(DFG + '::getNeighbor1dFromAxisIndex'), o, [ex.alloc(k), ex.alloc(i)])
        outside = or_(lt(i, 0), le(n[k], i))
        ex.oblige('owner of an axis index outside the grid is negative (dim %d)' % k, implies(outside, lt(r, 0)))
        good = []
        for j in range(procs[k]):
            c = list(me)
            c[k] = j
            rk = next(r_ for r_ in range(size) if coords(procs, r_) == c)
            up = dec[k][j + 1] if j + 1 < procs[k] else n[k]
            good.append(implies(and_(le(dec[k][j], i), lt(i, up)), eq(r, rk)))
        ex.oblige('owner of an axis index is the pole process whose range contains it (dim %d)' % k, and_(*good))
    v = [ex.fresh('v%d' % k, 'int', 0, I31) for k in range(dim)]
    ex.assume(inrange(v, n))
    out = ex.alloc(Vec([0] * dim, 'int'))
    ex.invoke(P.find(DFG + '::getPartitionCoords'), o, [ex.alloc(Vec(v, 'int')), out])
    pc = ex.val(out)
    for k in range(dim):
        good = []
        for j in range(procs[k]):
            up = dec[k][j + 1] if j + 1 < procs[k] else n[k]
            good.append(implies(and_(le(dec[k][j], v[k]), lt(v[k], up)), eq(pc.e[k], j)))
        ex.oblige('partition coordinates of a point are those of its owner (dim %d)' % k, and_(*good))


def g_down(ex, P, diffs, bnd, p):
    dim = len(diffs)
    lref = [ex.fresh('lref%d' % k, 'int', d + 1, 29) for k, d in enumerate(diffs)]
    # level difference is the structural parameter: enumerate the reference level concretely as well
    lref = [max(d + 1, 1) for d in diffs]
    new = [a - d for a, d in zip(lref, diffs)]
    dec = []
    for k in range(dim):
        n = (1 << lref[k]) - 1 + bnd[k]
        e = [0] + [ex.fresh('dec%d_%d' % (k, j), 'int', 0, n - 1) for j in range(1, p)]
        for a, b in zip(e, e[1:]):
            ex.assume(le(a, b))
        dec.append(e)
    r = ex.invoke(P.find(NS + 'downsampleDecomposition'), None,
                  [ex.alloc(Vec([Vec(e, 'int') for e in dec], 'std::vector<int>')), ex.alloc(Vec(lref, 'int')), ex.alloc(Vec(new, 'int')), ex.alloc(Vec(list(bnd), 'unsigned char'))])
    out = ex.val(r)
    ex.oblige('downsample: one decomposition per dimension', eq(out.n, dim))
    for k in range(dim):
        d = out.e[k]
        ex.oblige('downsample: same number of processes (dim %d)' % k, eq(d.n, p))
        n = (1 << new[k]) - 1 + bnd[k]
        c = ex.fresh('c', 'int', 0, n - 1)     # coarse index
        f = mul(c, 1 << diffs[k]) if bnd[k] else sub(mul(add(c, 1), 1 << diffs[k]), 1)
        for j in range(p):
            ex.oblige('downsample: common points stay on the same side of boundary %d (dim %d)' % (j, k), eq(le(d.e[j], c), le(dec[k][j], f)))
            ex.oblige('downsample: bounds non-negative', le(0, d.e[j]))


def g_down_empty(ex, P):
    r = ex.invoke(P.find(NS + 'downsampleDecomposition'), None,
                  [ex.alloc(Vec((), 'std::vector<int>')), ex.alloc(Vec([5, 4], 'int')), ex.alloc(Vec([3, 2], 'int')), ex.alloc(Vec([2, 2], 'unsigned char'))])
    ex.oblige('downsample of an empty decomposition stays empty (default decomposition is used)', eq(ex.val(r).n, 0))


def g_std(ex, P, procs):
    dim = len(procs)
    for L in ([2] * dim, [3] * dim, [7] * dim, [20] * dim, list(range(2, 2 + dim))):
        r = ex.invoke(P.find(NS + 'getStandardDecomposition'), None, [ex.alloc(Vec(L, 'int')), ex.alloc(Vec(list(procs), 'int'))])
        out = ex.val(r)
        ex.oblige('standard decomposition: dims', eq(out.n, dim))
        for k in range(dim):
            e = list(out.e[k].e)
            ex.oblige('standard decomposition: valid (dim %d level %d)' % (k, L[k]), len(e) == procs[k] and and_(eq(e[0], 0), *[lt(a, b) for a, b in zip(e, e[1:] + [(1 << L[k]) + 1])]))


def groups(tier):
    gs = []
    maxp = 32 if tier == 'quick' else 128
    for fwd in (True, False):
        for p in range(1, maxp + 1):
            gs.append(Group('getDefaultDecomposition p=%d fwd=%s' % (p, fwd), g_default, 'dfg.cpp', dict(procs=(p,), fwd=fwd), [NS + 'getDefaultDecomposition']))
        for ps in ((1, 2), (3, 2), (2, 4, 3), (1, 5, 1), (2, 1, 3, 2), (2, 2, 2, 2, 2), (1, 2, 3, 1, 2, 4)):
            gs.append(Group('getDefaultDecomposition procs=%s fwd=%s' % (ps, fwd), g_default, 'dfg.cpp', dict(procs=ps, fwd=fwd), [NS + 'getDefaultDecomposition']))
    lay = [(1,), (2,), (5,), (2, 2), (3, 2), (1, 4), (2, 3, 2), (1, 1, 3), (2, 1, 2, 2)]
    for ps in lay:
        size = 1
        for x in ps:
            size *= x
        for r in sorted({0, size - 1, size // 2}):
            gs.append(Group('bounds/owners layout=%s rank=%d' % (ps, r), g_bounds, 'dfg.cpp', dict(procs=ps, rank=r),
                            [DFG + '::getLowerBounds', DFG + '::getUpperBounds', DFG + '::getNeighbor1dFromAxisIndex', DFG + '::getPartitionCoords', CU + '::MPICartesianUtils',
                             CU + '::getPartitionCoordsOfRank', CU + '::getRankFromPartitionCoords', CU + '::getNeighbor1dFromPartitionIndex', CU + '::getAllMyPoleNeighborRanks',
                             CU + '::isOnLowerBoundaryInDimension', CU + '::isOnUpperBoundaryInDimension'], budget=120))
    for d in range(0, 29):
        for b in (0, 1, 2):
            gs.append(Group('downsampleDecomposition diff=%d boundary=%d' % (d, b), g_down, 'dfg.cpp', dict(diffs=(d,), bnd=(b,), p=4), [NS + 'downsampleDecomposition']))
    gs.append(Group('downsampleDecomposition mixed', g_down, 'dfg.cpp', dict(diffs=(2, 0, 3), bnd=(0, 2, 1), p=3), [NS + 'downsampleDecomposition']))
    gs.append(Group('downsampleDecomposition empty', g_down_empty, 'dfg.cpp', {}, [NS + 'downsampleDecomposition']))
    for ps in ((1,), (2,), (3,), (4,), (2, 3, 1), (4, 1, 2, 3)):
        gs.append(Group('getStandardDecomposition %s' % (ps,), g_std, 'dfg.cpp', dict(procs=ps), [NS + 'getStandardDecomposition']))
    return gs


def harnesses(tier):
    return [Harness('h_p02.cpp', np=0, timeout=400, bound='axis sizes <= 200 with every process count (default decomposition), levels <= 9, random layouts up to 4 dimensions, every axis index',
                    standin=[DFG + '::DistributedFullGrid (constructor)', DFG + '::getUpperBoundsCoords', DFG + '::getLowerBoundsCoord'])]
