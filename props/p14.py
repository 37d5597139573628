"""P14: ghost layers, boundary copies, corner values and the gathered grid transfer the right values."""
from .dfgcommon import *
from cver.runner import Group, Harness
import itertools

LEVEL = 'proof'
ASSUMPTIONS = ['the number of grid points fits IndexType; dimension enumerated 1..4; extents, bounds, neighbours and values are unbounded symbols',
               'neighbours along a dimension have the same index ranges in all other dimensions (cartesian decomposition, P02)',
               'the communicator is periodic in a dimension exactly if the grid has one-sided boundary there, as the code asserts']
TRUSTED = ['MPI: subarray types, cartesian shifts, point-to-point messages and sums behave as specified by the standard']
NOTE = 'message contents and partners proved for symbolic extents; the composition over real processes is additionally exercised by a bounded stand-in'


def base(ex, P, dim, bd):
    o, n, lb, ub, lext = mk_dfg(ex, dim, boundary=bd)
    mono(ex, lext)
    val = ex.freshfun('val', 'real')
    data = ex.alloc(SVec(prod(lext), lambda i: val(zt(i)), 'double'))
    ex.hooks[DFG + '::getData'] = lambda ex, this, a: Ptr(data, 0)
    ex.hooks['getMPIDatatype'] = ex.hooks['getabstractionDataType'] = lambda ex, this, a: Opq('double')
    ex.hooks['getCommunicator'] = lambda ex, this, a: Opq('comm')
    return o, n, lb, ub, lext, val, data


def entries(ex, p, k):
    p = ex.val(p)
    i = p.idx if p.idx is not None else 0
    return [ex.rd(p.lv.i(add(i, j))) for j in range(k)]


def put(ex, p, v):
    p = ex.val(p)
    ex.wr(p.lv if p.idx is None else p.lv.i(p.idx), v)


def subarrays(ex, dim, sizes):
    """records the described boxes; a type handle is the number of its box"""
    rec = []

    def create(ex, this, a):
        ex.oblige('subarray: one entry per dimension', eq(ex.val(a[0]), dim))
        S, s, t = (entries(ex, x, dim) for x in a[1:4])
        ex.oblige('subarray: extents of the array', and_(*[eq(x, y) for x, y in zip(S, sizes)]))
        ex.oblige('subarray: first index runs fastest', ex.val(a[4]) == 1)
        for k, (x, y) in enumerate(rec):
            if same(Vec(s, 'int'), Vec(x, 'int')) is True and same(Vec(t, 'int'), Vec(y, 'int')) is True:
                put(ex, a[6], Opq('box%d' % k))
                return 0
        rec.append((s, t))
        put(ex, a[6], Opq('box%d' % (len(rec) - 1)))
        return 0
    ex.hooks['MPI_Type_create_subarray'] = create
    ex.hooks['MPI_Type_commit'] = ex.hooks['MPI_Type_free'] = lambda ex, this, a: 0
    return rec


def boxof(rec, t):
    tag = getattr(t, 'tag', '')
    return rec[int(tag[3:])] if tag.startswith('box') else None


def layer(ex, what, rec, t, d, lext, upper):
    b = boxof(rec, t)
    ex.oblige(what + ': message describes a part of the local data', b is not None)
    if b is None:
        return
    for k in range(len(lext)):
        ex.oblige(what + ': extent in dimension %d' % k, eq(b[0][k], 1 if k == d else lext[k]))
        ex.oblige(what + ': start in dimension %d' % k, eq(b[1][k], (sub(lext[k], 1) if upper else 0) if k == d else 0))


def shift(ex, d, disp, lower, higher):
    def cs(ex, this, a):
        ex.oblige('neighbours are asked for in the right dimension', eq(ex.val(a[1]), d))
        ex.oblige('neighbours are asked for at the right distance', eq(ex.val(a[2]), disp))
        put(ex, a[3], lower)
        put(ex, a[4], higher)
        return 0
    ex.hooks['MPI_Cart_shift'] = cs


def g_ghost(ex, P, dim, d, has, asyn):
    o, n, lb, ub, lext, val, data = base(ex, P, dim, [2] * dim)
    rec = subarrays(ex, dim, lext)
    lower = ex.fresh('lower', 'int', 0, I31) if has else -2
    higher = ex.fresh('higher', 'int', -2, I31)
    shift(ex, d, 1, lower, higher)
    ne = prod([1 if k == d else lext[k] for k in range(dim)]) if has else 0
    ex.fact(zt(and_(le(1, prod([1 if k == d else lext[k] for k in range(dim)])), le(prod([1 if k == d else lext[k] for k in range(dim)]), prod(lext)))))
    # partial products (the library multiplies in index order)
    q = 1
    for k in range(dim):
        q = mul(q, 1 if k == d else lext[k])
        ex.fact(zt(and_(le(1, q), le(q, prod(lext)))))
    old = ex.fresh('oldlen', 'int', 0, I31)
    of = ex.freshfun('old', 'real')
    buf = ex.alloc(SVec(old, lambda i: of(zt(i)), 'double'))
    ext = ex.alloc(Vec([ex.fresh('e%d' % k, 'int', 0, I31) for k in range(2)], 'int'))
    got = ex.alloc(0)

    def send(ex, p, c, t, dst, tag):
        p = ex.val(p)
        ex.oblige('sends the local data', isinstance(p, Ptr) and p.lv.same(data) and simp(p.idx) == 0)
        ex.oblige('sends one layer', eq(ex.val(c), 1))
        ex.oblige('sends to the higher neighbour', eq(ex.val(dst), higher))
        layer(ex, 'sent layer', rec, ex.val(t), d, lext, True)
        ex.wr(got, add(ex.rd(got), 1))
        return ex.val(tag)

    def recv(ex, p, c, t, src, tag):
        p = ex.val(p)
        ex.oblige('receives into the buffer', isinstance(p, Ptr) and p.lv.same(buf) and simp(p.idx) == 0)
        ex.oblige('receives as many values as the layer has', eq(ex.val(c), ne))
        ex.oblige('buffer has room for the layer', eq(seqlen(ex.rd(buf)), ne))
        ex.oblige('receives from the lower neighbour', eq(ex.val(src), lower))
        ex.wr(got, add(ex.rd(got), 10))
        return ex.val(tag)

    def sendrecv(ex, this, a):
        t1 = send(ex, a[0], a[1], a[2], a[3], a[4])
        t2 = recv(ex, a[5], a[6], a[7], a[8], a[9])
        ex.oblige('both directions use the same tag', eq(t1, t2))
        return 0
    tags = []
    ex.hooks['MPI_Sendrecv'] = sendrecv
    ex.hooks['MPI_Irecv'] = lambda ex, this, a: (recv(ex, *a[:5]), 0)[1]
    ex.hooks['MPI_Send'] = lambda ex, this, a: (send(ex, *a[:5]), 0)[1]
    req = ex.alloc(Ptr(ex.alloc(Opq('req')), None) if asyn else NULL)
    ex.invoke(P.find(DFG + '::exchangeGhostLayerUpward', r'^void \('), o, [ex.alloc(d), ext, buf, req])
    ex.oblige('one layer is sent and one received', eq(ex.rd(got), 11))
    e = ex.rd(ext)
    ex.oblige('one extent per dimension', eq(seqlen(e), dim))
    for k in range(dim):
        ex.oblige('extent of the received layer in dimension %d' % k, eq(elem(e, k), (1 if k == d else lext[k]) if has else 0))
    i = ex.fresh('i', 'int', 0, I31)
    ex.assume(lt(i, prod(lext)))
    ex.oblige('own data unchanged', eq(elem(ex.rd(data), i), val(i)))


def g_copy(ex, P, dim, d):
    o, n, lb, ub, lext, val, data = base(ex, P, dim, [2] * dim)
    rec = subarrays(ex, dim, lext)
    lower, higher = ex.fresh('lower', 'int', -2, I31), ex.fresh('higher', 'int', -2, I31)
    procs = [ex.fresh('p%d' % k, 'int', 1, I31) for k in range(dim)]
    ex.hooks['getParallelization'] = lambda ex, this, a: ex.alloc(Vec(procs, 'int'))
    shift(ex, d, sub(procs[d], 1), lower, higher)
    got = ex.alloc(0)

    def sendrecv(ex, this, a):
        for p in (a[0], a[5]):
            p = ex.val(p)
            ex.oblige('operates on the local data', isinstance(p, Ptr) and p.lv.same(data) and simp(p.idx) == 0)
        ex.oblige('one layer each', and_(eq(ex.val(a[1]), 1), eq(ex.val(a[6]), 1)))
        ex.oblige('sends to the process at the upper end', eq(ex.val(a[3]), higher))
        ex.oblige('receives from the process at the lower end', eq(ex.val(a[8]), lower))
        ex.oblige('same tag', eq(ex.val(a[4]), ex.val(a[9])))
        layer(ex, 'sent layer', rec, ex.val(a[2]), d, lext, False)
        layer(ex, 'received layer', rec, ex.val(a[7]), d, lext, True)
        ex.wr(got, add(ex.rd(got), 1))
        return 0
    ex.hooks['MPI_Sendrecv'] = sendrecv
    ex.invoke(P.find(DFG + '::writeLowerBoundaryToUpperBoundary'), o, [ex.alloc(d)])
    ex.oblige('exactly one exchange', eq(ex.rd(got), 1))
    i = ex.fresh('i', 'int', 0, I31)
    ex.assume(lt(i, prod(lext)))
    ex.oblige('no value changes except by the exchange', eq(elem(ex.rd(data), i), val(i)))


def g_corners(ex, P, dim):
    o, n, lb, ub, lext, val, data = base(ex, P, dim, [2] * dim)
    ex.contracts = ti_contracts()
    seen = ex.alloc(0)
    off = prefix(lext)

    def red(ex, this, a):
        p, c = ex.val(a[1]), ex.val(a[2])
        ex.oblige('all corner values are combined', eq(c, 1 << dim))
        vs = ex.rd(p.lv)
        found = {}
        for k in range(1 << dim):
            # corner k in the order in which getCornersGlobalVectorIndices lists them (first dimension slowest)
            cv = [(sub(n[d], 1) if (k >> (dim - 1 - d)) & 1 else 0) for d in range(dim)]
            here = and_(*[and_(le(lb[d], cv[d]), lt(cv[d], ub[d])) for d in range(dim)])
            addr = dot([sub(cv[d], lb[d]) for d in range(dim)], off)
            ex.oblige('corner %d: contributed by its owner only' % k, eq(elem(vs, k), ite(here, val(zt(addr)), 0)))
        ex.wr(seen, 1)
        return 0
    ex.hooks['MPI_Allreduce'] = red
    r = ex.val(ex.invoke(P.find(DFG + '::getCornersValues'), o, []))
    ex.oblige('corner values of all processes', eq(ex.rd(seen), 1))
    ex.oblige('one value per corner', eq(seqlen(r), 1 << dim))


def g_cornerlist(ex, P, dim):
    o, n, lb, ub, lext, val, data = base(ex, P, dim, [2] * dim)
    r = ex.val(ex.invoke(P.find(DFG + '::getCornersGlobalVectorIndices'), o, []))
    want = list(itertools.product(*[(0, sub(x, 1)) for x in n]))
    ok = isinstance(r, Vec) and len(r.e) == len(want)
    ex.oblige('all corners are listed', ok)
    if ok:
        for k, w in enumerate(want):
            ex.oblige('corner %d' % k, len(r.e[k].e) == dim and and_(*[eq(x, y) for x, y in zip(r.e[k].e, w)]))


def g_gather(ex, P, dim, nproc, isroot):
    o, n, lb, ub, lext, val, data = base(ex, P, dim, [2] * dim)
    rec = subarrays(ex, dim, n)
    L = [[ex.fresh('L%d_%d' % (r, d), 'int', 0, I31) for d in range(dim)] for r in range(nproc)]
    U = [[ex.fresh('U%d_%d' % (r, d), 'int', 0, I31) for d in range(dim)] for r in range(nproc)]
    for r in range(nproc):
        for d in range(dim):
            ex.assume(and_(lt(L[r][d], U[r][d]), le(U[r][d], n[d])))
    root = ex.fresh('root', 'int', 0, nproc - 1)
    me = root if isroot else ex.fresh('me', 'int', 0, nproc - 1)
    if not isroot:
        ex.assume(not_(eq(me, root)))
    ex.hooks['getCommunicatorSize'] = lambda ex, this, a: nproc
    ex.hooks['getRank'] = lambda ex, this, a: me
    Lv, Uv, sz = [[ex.alloc(Vec(x, 'int')) for x in X] for X in (L + [lb], U + [ub], [n])]
    ex.hooks[DFG + '::getLowerBounds'] = lambda ex, this, a: Lv[ex.val(a[0]) if a else -1]
    ex.hooks[DFG + '::getUpperBounds'] = lambda ex, this, a: Uv[ex.val(a[0]) if a else -1]
    fgd = ex.alloc(SVec(prod(n), lambda i: 0, 'double'))
    created = ex.fresh('created', 'bool')
    fg = ex.alloc(Obj('combigrid::FullGrid<double>', {}))
    ex.hooks['isGridCreated'] = lambda ex, this, a: created
    ex.hooks['createFullGrid'] = lambda ex, this, a: None
    ex.hooks['combigrid::FullGrid<double>::getSizes'] = lambda ex, this, a: sz[0]
    ex.hooks['combigrid::FullGrid<double>::getData'] = lambda ex, this, a: Ptr(fgd, 0)
    sent, recvd = ex.alloc(0), ex.alloc(0)

    def isend(ex, this, a):
        p = ex.val(a[0])
        ex.oblige('sends the local data', isinstance(p, Ptr) and p.lv.same(data) and simp(p.idx) == 0)
        ex.oblige('sends all local values', eq(ex.val(a[1]), prod(lext)))
        ex.oblige('sends to the collecting process', eq(ex.val(a[3]), root))
        ex.wr(sent, add(ex.rd(sent), 1))
        return 0

    def irecv(ex, this, a):
        p = ex.val(a[0])
        ex.oblige('only the collecting process receives', isroot)
        ex.oblige('receives into the full grid', isinstance(p, Ptr) and p.lv.same(fgd) and simp(p.idx) == 0)
        src = ex.val(a[3])
        b = boxof(rec, ex.val(a[2]))
        ok = b is not None and isinstance(src, int) and 0 <= src < nproc
        ex.oblige('receives a box of the full grid from a process', ok)
        if ok:
            for d in range(dim):
                ex.oblige('box of the sender: start', eq(b[1][d], L[src][d]))
                ex.oblige('box of the sender: extent', eq(b[0][d], sub(U[src][d], L[src][d])))
            ex.wr(recvd, add(ex.rd(recvd), 10 ** src))
        return 0
    ex.hooks.update(MPI_Isend=isend, MPI_Irecv=irecv, MPI_Wait=lambda ex, this, a: 0, MPI_Waitall=lambda ex, this, a: 0)
    ex.invoke(P.find(DFG + '::gatherFullGrid'), o, [fg, ex.alloc(root)])
    ex.oblige('every process sends once', eq(ex.rd(sent), 1))
    ex.oblige('one part per process is received', eq(ex.rd(recvd), sum(10 ** r for r in range(nproc)) if isroot else 0))


def groups(tier):
    D, gs = 'dfg.cpp', []
    for dim in (1, 2, 3, 4):
        for d in range(dim):
            for has in (True, False):
                for asyn in (False, True):
                    gs.append(Group('ghost layer[dim=%d,d=%d,%s,%s]' % (dim, d, 'neighbour' if has else 'no neighbour', 'request' if asyn else 'blocking'), g_ghost, D, dict(dim=dim, d=d, has=has, asyn=asyn),
                                    [DFG + '::exchangeGhostLayerUpward', DFG + '::getUpwardSubarray']))
            gs.append(Group('boundary copy[dim=%d,d=%d]' % (dim, d), g_copy, D, dict(dim=dim, d=d), [DFG + '::writeLowerBoundaryToUpperBoundary', DFG + '::getUpwardSubarray', DFG + '::getDownwardSubarray', DFG + '::getHighestAndLowestNeighbor']))
        gs.append(Group('corner list[dim=%d]' % dim, g_cornerlist, D, dict(dim=dim), [DFG + '::getCornersGlobalVectorIndices', DFG + '::getCornersGlobalVectorIndicesRecursive']))
        if dim < 4:
            gs.append(Group('corner values[dim=%d]' % dim, g_corners, D, dict(dim=dim), [DFG + '::getCornersValues']))
            for np in (1, 3):
                gs.append(Group('gather[dim=%d,%d processes]' % (dim, np), g_gather, D, dict(dim=dim, nproc=np, isroot=True), [DFG + '::gatherFullGrid'], level='bounded', bound='number of processes enumerated'))
            gs.append(Group('gather[dim=%d, not collecting]' % dim, g_gather, D, dict(dim=dim, nproc=3, isroot=False), [DFG + '::gatherFullGrid']))
    return gs


def harnesses(tier):
    return [Harness('h_p14.cpp', sources=['src/utils/LevelVector.cpp', 'src/utils/LevelSetUtils.cpp', 'src/utils/Stats.cpp'], np=6, timeout=400,
                    bound='random grids of dimension 1..4, levels <= 6, random decompositions on up to 6 processes, both data types, both ways of receiving, all dimensions',
                    standin=['composition of the messages of several processes', DFG + '::gatherFullGrid (number of processes)'])]
