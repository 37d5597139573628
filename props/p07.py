"""P07: global reduction of sparse grids."""
from .p06 import *
from .p06 import mk_filled, sizes, mk_dsg, table
from cver.runner import Group, Harness
from cver import frontend as F
import os

LEVEL = 'proof'
CC = NS + 'CombiCom::'
IMAX = (1 << 31) - 1
ASSUMPTIONS = ['every process calls the reduction with the same subspaces, limit and number of threads',
               'chunks, data types and indexed sum: up to 4 subspaces or 3 blocks of any size (labelled bounded); whole-grid chunking and size reconciliation: any number',
               'the number of elements of one process fits 32 bit, that of one chunk of subspaces too',
               'floating point sums are order dependent; the harness uses values that add without rounding',
               'the choice of participants (256-bit votes) is decided by the bounded stand-in']
TRUSTED = ['MPI collectives combine the same number of elements on every process in rank order']
NOTE = 'whole-grid reduction and size exchange proved for any sizes and limits; chunking of subspaces, data types and indexed sum proved for any sizes with a bounded number of subspaces; the composition over real processes is a bounded stand-in'
DT = 'combigrid::DistributedSparseGridUniform<double>'


def dtype(ex, this, args):
    return Opq('mpitype')


def g_chunk_size(ex, P, T, size):
    m = ex.fresh('MiB', 'int', 0, U32)
    th = ex.fresh('threads', 'int', 1, 4096)
    ex.hooks['getNumThreads'] = lambda ex, this, args: th
    r = ex.val(ex.invoke(P.find(CC + 'getGlobalReduceChunkSize', targs=[T]), None, [ex.alloc(m)]))
    ex.oblige('chunk holds at least one element and fits an int', and_(le(1, r), le(r, IMAX)))
    ex.oblige('chunk stays within the limit per thread', implies(and_(lt(0, m), le(m, IMAX)), le(mul(r, size), mul(mul(m, 1 << 20), th))))


def calls(ex, P, o, data, n, chunk, comm):
    """ghost: number of elements communicated so far; every call continues there"""
    ghost = ex.alloc(0)
    cnt = ex.alloc(0)

    def at(ex, p, c, what):
        ok = isinstance(p, Ptr) and p.lv.same(data)
        ex.oblige(what + ': operates on the sparse grid data', ok)
        if not ok:
            return 0
        ex.oblige(what + ': continues after the elements communicated before', eq(p.idx, ex.rd(ghost)))
        ex.oblige(what + ': stays within the data', and_(le(0, c), le(add(p.idx, c), n)))
        ex.oblige(what + ': at most one chunk', le(c, chunk))
        ex.wr(ghost, add(p.idx, c))
        return 0
    return ghost, at


def g_sparse_reduce(ex, P, mode):
    n = ex.fresh('n', 'int', 1, U32)
    chunk = ex.fresh('chunk', 'int', 1, IMAX)
    K = ex.fresh('K', 'int', 1, I31)
    val = ex.freshfun('val', 'real')
    o, c = mk_dsg(ex, 'double', K, ex.freshfun('size'), ex.freshfun('al', 'bool'))
    data = c.f('subspacesData_')
    ex.wr(data, SVec(n, lambda i: val(zt(i)), 'double'))
    me, root = ex.fresh('me', 'int', 0, 100), ex.fresh('root', 'int', 0, 100)
    comm = Opq('comm')
    ghost, at = calls(ex, P, o, data, n, chunk, comm)
    ex.hooks['getGlobalReduceChunkSize'] = lambda ex, this, args: chunk
    ex.hooks['getGlobalReduceRank'] = lambda ex, this, args: me
    ex.hooks['theMPISystem'] = lambda ex, this, args: ex.alloc(Opq('MPISystem'))
    ex.hooks['getMPIDatatype'] = ex.hooks['getabstractionDataType'] = dtype
    V = lambda x: ex.val(x)
    inplace = lambda p: not (isinstance(p, Ptr) and p.lv.same(data))

    def allred(ex, this, a):
        a = [V(x) for x in a]
        ex.oblige('all-reduce is in place', inplace(a[0]))
        return at(ex, a[1], a[2], 'all-reduce')

    def red(ex, this, a):
        a = [V(x) for x in a]
        ex.oblige('reduce goes to the collecting process', eq(a[5], root))
        collecting = eq(me, root)
        if inplace(a[0]):
            ex.oblige('only the collecting process receives', collecting)
            return at(ex, a[1], a[2], 'reduce')
        ex.oblige('collecting process receives in place', not_(collecting))
        return at(ex, a[0], a[2], 'reduce')
    snd = lambda ex, this, a: at(ex, V(a[0]), V(a[1]), 'message')
    ex.hooks.update(MPI_Allreduce=allred, MPI_Reduce=red, MPI_Send=snd, MPI_Recv=snd)

    def spec(ex, cx):
        if ghost.root not in [k[0] for k in cx.rest]:
            return None
        gk = [k for k in cx.rest if k[0] == ghost.root][0]
        return {'values': {gk: lambda k: mul(chunk, k)}, 'named': lambda k, get: [('within the data', le(mul(chunk, k), n))]}
    ex.loopspecs.append(spec)
    if mode in ('send', 'recv'):
        chunk_ = IMAX
        ex.assume(eq(chunk, IMAX))
        ex.invoke(P.find(CC + mode + 'DsgData'), None, [o, ex.alloc(root), ex.alloc(comm)])
    else:
        ex.invoke(P.find(CC + 'distributedGlobalSparseGridReduce'), None, [o, ex.alloc(5), ex.alloc(-2 if mode == 'all' else root), ex.alloc(comm)])
    ex.oblige('all elements are communicated exactly once', eq(ex.rd(ghost), n))


def g_chunks(ex, P, idx, upto):
    """every partition of the listed subspaces, any sizes and any limit"""
    K = max(idx) + 2
    szs = [ex.fresh('size%d' % i, 'int', 0, upto) for i in range(K)]
    o, c = mk_dsg(ex, 'double', K, table(szs), table([True] * K))
    ex.wr(o.f('subspacesDataSizes_'), Vec(szs, 'unsigned int'))
    lim = ex.fresh('limit', 'int', 1, IMAX)
    r = ex.invoke(P.find(CC + 'getChunkedSubspaces'), None, [o, ex.alloc(Vec(idx, 'int')), ex.alloc(lim)])
    r = ex.val(r)
    items = [list(x.items) if isinstance(x, Bag) else list(x.e) for x in r.e]
    flat = [x for it in items for x in it]
    ex.oblige('every subspace in exactly one chunk, in order', sorted(flat) == sorted(idx) and all(i == sorted(i) for i in items) and flat == sorted(flat))
    for it in items:
        ex.oblige('no empty chunk', len(it) > 0)
        if len(it) > 1:
            s = 0
            for x in it:
                s = add(s, szs[x])
            ex.oblige('no chunk of several subspaces exceeds the limit', le(s, lim))


def g_indexed(ex, P, nb):
    """element-wise sum over nb disjoint blocks of any length; everything between the blocks is untouched"""
    T = 'double'
    n = ex.fresh('n', 'int', 1, I31)
    lens = [ex.fresh('len%d' % i, 'int', 0, I31) for i in range(nb)]
    disp, at = [], 0
    for i in range(nb):
        d = ex.fresh('disp%d' % i, 'int', 0, I31) if i else 0
        ex.assume(le(at, d))
        disp.append(d)
        at = add(d, lens[i])
    ex.assume(le(at, n))
    fi, fo = ex.freshfun('in', 'real'), ex.freshfun('inout', 'real')
    a, b = ex.alloc(SVec(n, lambda i: fi(zt(i)), T)), ex.alloc(SVec(n, lambda i: fo(zt(i)), T))
    ex.hooks['enum:MPI_COMBINER_INDEXED'] = lambda ex: 7
    base = Opq('mpitype')
    ex.hooks['getMPIDatatype'] = ex.hooks['getabstractionDataType'] = lambda ex, this, args: base

    def put(p, v):
        p = ex.val(p)
        ex.wr(p.lv if p.idx is None else p.lv.i(p.idx), v)

    def env(ex, this, a):
        for p, v in zip(a[1:], (2 * nb + 1, 0, 1, 7)):
            put(p, v)
        return 0

    def cont(ex, this, a):
        p = ex.val(a[4])
        for k, v in enumerate([nb] + lens + disp):
            ex.wr(p.lv.i(add(p.idx, k)), v)
        t = ex.val(a[6])
        ex.wr(t.lv.i(t.idx), base)
        return 0
    ex.hooks.update(MPI_Type_get_envelope=env, MPI_Type_get_contents=cont)
    ex.invoke(P.find(CC + 'addIndexedElements'), None, [ex.alloc(Ptr(a, 0)), ex.alloc(Ptr(b, 0)), ex.alloc(Ptr(ex.alloc(1), None)), ex.alloc(Ptr(ex.alloc(base), None))])
    r = ex.rd(b)
    p = ex.fresh('p', 'int', 0, I31)
    ex.assume(lt(p, n))
    inb = or_(*[and_(le(disp[i], p), lt(p, add(disp[i], lens[i]))) for i in range(nb)])
    ex.oblige('entries of the blocks are summed once, all others unchanged', eq(elem(r, p), ite(inb, add(fo(p), fi(p)), fo(p))))
    ex.oblige('the incoming data is unchanged', eq(elem(ex.rd(a), p), fi(p)))


def g_types(ex, P, chunks):
    """one data type per chunk: block lengths are the subspace sizes, displacements those of the storage"""
    K = 6
    szs = [ex.fresh('size%d' % i, 'int', 0, 1 << 27) for i in range(K)]
    o, c = mk_dsg(ex, 'double', K, table(szs), table([True] * K))
    off = [0]
    for x in szs:
        off.append(add(off[-1], x))
    ex.wr(o.f('subspacesDataSizes_'), Vec(szs, 'unsigned int'))
    val = ex.freshfun('val', 'real')
    ex.wr(c.f('subspacesData_'), SVec(off[-1], lambda i: val(zt(i)), 'double'))
    ex.wr(c.f('subspaces_'), Vec([Ptr(c.f('subspacesData_'), x) for x in off[:-1]], 'double *'))
    ch = ex.alloc(Vec([Bag('set', x) for x in chunks], 'std::set<int>'))
    lim = ex.fresh('limit', 'int', 1, IMAX)
    ex.hooks['getMPIDatatype'] = ex.hooks['getabstractionDataType'] = dtype

    def chunked(ex, this, a):
        ex.oblige('chunks respect the limit asked for', eq(ex.val(a[2]), lim))
        return ch
    ex.hooks['getChunkedSubspaces'] = chunked
    made = ex.alloc(0)

    def indexed(ex, this, a):
        n, l, d = ex.val(a[0]), ex.val(a[1]), ex.val(a[2])
        k = ex.rd(made)
        ok = isinstance(k, int) and k < len(chunks)
        ex.oblige('one data type per chunk', ok)
        if ok:
            ex.oblige('one block per subspace of the chunk', eq(n, len(chunks[k])))
            for j, x in enumerate(chunks[k]):
                ex.oblige('block length is the size of the subspace', eq(ex.rd(l.lv.i(add(l.idx, j))), szs[x]))
                ex.oblige('displacement is that of the storage', eq(ex.rd(d.lv.i(add(d.idx, j))), sub(off[x], off[chunks[k][0]])))
            p = ex.val(a[4])
            ex.wr(p.lv if p.idx is None else p.lv.i(p.idx), Opq('type%d' % k))
            ex.wr(made, k + 1)
        return 0
    ex.hooks['MPI_Type_indexed'] = indexed
    r = ex.val(ex.invoke(P.find(CC + 'getReductionDatatypes'), None, [o, ex.alloc(Vec((), 'int')), ex.alloc(lim)]))
    ex.oblige('every chunk has a data type', eq(ex.rd(made), len(chunks)))
    ex.oblige('types are returned with the first subspace of their chunk',
              [(q.f['first'], str(q.f['second'])) for q in r.e] == [(x[0], str(Opq('type%d' % k))) for k, x in enumerate(chunks)])


def g_subspace_reduce(ex, P, ncomm, ntypes, collect):
    """every data type of every communicator is reduced exactly once, starting at its first subspace"""
    K = 5
    szs = [ex.fresh('size%d' % i, 'int', 0, 1 << 27) for i in range(K)]
    o, c = mk_dsg(ex, 'double', K, table(szs), table([True] * K))
    off = [0]
    for x in szs:
        off.append(add(off[-1], x))
    ex.wr(o.f('subspacesDataSizes_'), Vec(szs, 'unsigned int'))
    val = ex.freshfun('val', 'real')
    ex.wr(c.f('subspacesData_'), SVec(off[-1], lambda i: val(zt(i)), 'double'))
    ex.wr(c.f('subspaces_'), Vec([Ptr(c.f('subspacesData_'), x) for x in off[:-1]], 'double *'))
    subs = [Vec([k], 'int') for k in range(ncomm)]
    ex.wr(o.f('subspacesByComm_'), Vec([Obj('pair', {'first': Opq('comm%d' % k), 'second': subs[k]}) for k in range(ncomm)], 'pair'))
    me, root = ex.fresh('me', 'int', 0, 100), ex.fresh('root', 'int', 0, 100)
    ex.hooks['getGlobalReduceRank'] = lambda ex, this, args: me
    ex.hooks['theMPISystem'] = lambda ex, this, args: ex.alloc(Opq('MPISystem'))
    ex.hooks['getRank'] = lambda ex, this, args: 0
    first = lambda k, j: (k + 2 * j) % K

    mib, lim = ex.fresh('MiB', 'int', 0, U32), ex.fresh('limit', 'int', 1, IMAX)

    def chunk(ex, this, a):
        ex.oblige('chunk size for the limit asked for', eq(ex.val(a[0]), mib))
        return lim
    ex.hooks['getGlobalReduceChunkSize'] = chunk

    def types(ex, this, a):
        ex.oblige('chunks of the size allowed', eq(ex.val(a[2]), lim))
        k = ex.val(a[1]).e[0]
        return Vec([Obj('pair', {'first': first(k, j), 'second': Opq('type%d.%d' % (k, j))}) for j in range(ntypes)], 'pair')
    ex.hooks['getReductionDatatypes'] = types
    log = ex.alloc(Vec((), 'x'))

    def note(ex, buf, n, t, op, comm):
        ok = isinstance(buf, Ptr) and buf.lv.same(c.f('subspacesData_'))
        ex.oblige('reduces the sparse grid data', ok)
        done = ex.rd(log)
        hit = None
        for k in range(ncomm):
            for j in range(ntypes):
                if str(t) == str(Opq('type%d.%d' % (k, j))):
                    hit = (k, j)
        ex.oblige('reduces a data type of the communicator', hit is not None)
        if ok and hit:
            ex.oblige('starts at the first subspace of the data type', eq(buf.idx, off[first(*hit)]))
            ex.oblige('one item of the data type', eq(n, 1))
            ex.oblige('between the processes sharing the subspaces', str(comm) == str(Opq('comm%d' % hit[0])))
            ex.oblige('no data type is reduced twice', all(x != hit[0] * 100 + hit[1] for x in done.e))
            ex.wr(log, Vec(tuple(done.e) + (hit[0] * 100 + hit[1],), 'x'))
        return 0

    def allred(ex, this, a):
        a = [ex.val(x) for x in a]
        ex.oblige('all-reduce only if nobody collects', not collect)
        return note(ex, a[1], a[2], a[3], a[4], a[5])

    def red(ex, this, a):
        a = [ex.val(x) for x in a]
        ex.oblige('reduce goes to the collecting process', collect and eq(a[5], root))
        inpl = not (isinstance(a[0], Ptr) and a[0].lv.same(c.f('subspacesData_')))
        ex.oblige('the collecting process, and only it, receives', eq(me, root) if inpl else not_(eq(me, root)))
        return note(ex, a[1] if inpl else a[0], a[2], a[3], a[4], a[6])
    ok = lambda ex, this, a: 0
    ex.hooks.update(MPI_Allreduce=allred, MPI_Reduce=red, MPI_Op_create=ok, MPI_Op_free=ok, MPI_Type_free=ok)
    ex.invoke(P.find(CC + 'distributedGlobalSubspaceReduce', targs=[DT, '0']), None, [o, ex.alloc(mib), ex.alloc(root if collect else -2)])
    ex.oblige('all data types of all communicators are reduced', len(ex.rd(log).e) == ncomm * ntypes)


def g_sizes(ex, P, what):
    """subspace sizes: all of them, from and to their own place, to the maximum"""
    K = ex.fresh('K', 'int', 1, I31)
    sz = ex.freshfun('size')
    i = z3.Int('qi')
    ex.fact(z3.ForAll([i], z3.And(sz(i) >= 0, sz(i) <= U32), patterns=[sz(i)]))
    o, c = mk_dsg(ex, 'double', K, sz, ex.freshfun('al', 'bool'))
    n = ex.fresh('n', 'int', 1, I31)
    val = ex.freshfun('val', 'real')
    ex.wr(c.f('subspacesData_'), SVec(n, lambda i: val(zt(i)), 'double'))
    ex.hooks['getMPIDatatype'] = ex.hooks['getabstractionDataType'] = dtype
    me, root = ex.fresh('me', 'int', 0, 100), ex.fresh('root', 'int', 0, 100)
    ex.hooks['getGlobalReduceRank'] = lambda ex, this, args: me
    ex.hooks['theMPISystem'] = lambda ex, this, args: ex.alloc(Opq('MPISystem'))
    maxlv = ex.alloc(Opq('MPI_MAX'))
    ex.hooks['var:ompi_mpi_op_max'] = lambda ex: maxlv
    seen = ex.alloc(0)
    mine = lambda p: isinstance(p, Ptr) and p.lv.same(o.f('subspacesDataSizes_'))

    def buf(p, cnt):
        ex.oblige('exchanges the subspace sizes', mine(p))
        if mine(p):
            ex.oblige('exchanges all sizes', and_(eq(p.idx, 0), eq(cnt, K)))
        ex.wr(seen, add(ex.rd(seen), 1))
        return 0

    def maxop(op):
        ex.oblige('sizes are combined by their maximum', isinstance(op, Ptr) and op.lv.same(maxlv))

    def allred(ex, this, a):
        a = [ex.val(x) for x in a]
        ex.oblige('in place', not mine(a[0]))
        maxop(a[4])
        return buf(a[1], a[2])

    def red(ex, this, a):
        a = [ex.val(x) for x in a]
        inpl = not mine(a[0])
        ex.oblige('the collecting process, and only it, receives', eq(me, root) if inpl else not_(eq(me, root)))
        ex.oblige('to the collecting process', eq(a[5], root))
        maxop(a[4])
        return buf(a[1] if inpl else a[0], a[2])

    def bcast(ex, this, a):
        a = [ex.val(x) for x in a]
        ex.oblige('from the process asked for', eq(a[3], root))
        return buf(a[0], a[1])
    ex.hooks.update(MPI_Allreduce=allred, MPI_Reduce=red, MPI_Bcast=bcast)
    comm = ex.alloc(Opq('comm'))
    args = {'reduceSubspaceSizes': [o, comm], 'maxReduceSubspaceSizesAcrossGroups': [o, ex.alloc(root), comm], 'broadcastSubspaceSizes': [o, comm, ex.alloc(root)]}[what]
    ex.invoke(P.find(CC + what), None, args)
    ex.oblige('sizes are exchanged exactly once', eq(ex.rd(seen), 1))
    ex.oblige('storage of the former sizes is released', eq(seqlen(ex.rd(c.f('subspacesData_'))), 0))


def groups(tier):
    gs = [Group('chunk size %s' % T, g_chunk_size, 'combicom.cpp', dict(T=T, size=s), [CC + 'getGlobalReduceChunkSize']) for T, s in (('double', 8), ('float', 4), ('std::complex<double>', 16))]
    for m in ('all', 'root', 'send', 'recv'):
        gs.append(Group('whole sparse grid in chunks: %s' % m, g_sparse_reduce, 'combicom.cpp', dict(mode=m), [CC + ('%sDsgData' % m if m in ('send', 'recv') else 'distributedGlobalSparseGridReduce')]))
    for idx in ((1,), (0, 1), (0, 2, 3), (0, 1, 2, 4)):
        gs.append(Group('chunks of %d subspaces' % len(idx), g_chunks, 'combicom.cpp', dict(idx=idx, upto=U32 >> 3), [CC + 'getChunkedSubspaces'], level='bounded', bound='number of subspaces; any sizes and limit'))
    for nb in (1, 2, 3):
        gs.append(Group('indexed sum, %d blocks' % nb, g_indexed, 'combicom.cpp', dict(nb=nb), [CC + 'addIndexedElements'], level='bounded', bound='number of blocks; any lengths, gaps and values'))
    for ch in (((0, 1, 2),), ((1,), (2, 4), (5,))):
        gs.append(Group('data types of %d chunks' % len(ch), g_types, 'combicom.cpp', dict(chunks=ch), [CC + 'getReductionDatatypes'], level='bounded', bound='number of subspaces; any sizes'))
    for nc, nt in ((1, 1), (1, 3), (2, 2)):
        for col in (False, True):
            if not (col and nc > 1):
                gs.append(Group('subspace reduce %d communicators %d chunks%s' % (nc, nt, ' collected' if col else ''), g_subspace_reduce, 'combicom.cpp', dict(ncomm=nc, ntypes=nt, collect=col), [CC + 'distributedGlobalSubspaceReduce'], level='bounded', bound='number of communicators and chunks; any sizes'))
    for w in ('reduceSubspaceSizes', 'maxReduceSubspaceSizesAcrossGroups', 'broadcastSubspaceSizes'):
        gs.append(Group('sizes: ' + w, g_sizes, 'combicom.cpp', dict(what=w), [CC + w]))
    return gs


FT = ['src/mpi_fault_simulator/' + x for x in sorted(os.listdir(os.path.join(F.REPO, 'src/mpi_fault_simulator'))) if x.endswith('.cpp')]


def harnesses(tier):
    return [Harness('h_p07.cpp', ['src/utils/LevelVector.cpp', 'src/utils/LevelSetUtils.cpp', 'src/utils/Stats.cpp', 'src/mpi/MPISystem.cpp', 'src/mpi/OpenMPUtils.cpp', 'src/sparsegrid/AnyDistributedSparseGrid.cpp'] + FT,
                    np=5, timeout=300, flags=['-DOMPI_SKIP_MPICXX'], bound='5 processes, up to 9 subspaces of up to 2 MiB, limits of 1 MiB to 2 PiB, all variants; up to 256 simulated process groups for the choice of participants',
                    standin=[NS + 'AnyDistributedSparseGrid::setOutgroupCommunicator', NS + 'AnyDistributedSparseGrid::setSubspaceCommunicators', CC + 'asyncBcastDsgData'])]
