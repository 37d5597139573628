"""P10: files written and read collectively."""
import os
from .dfgcommon import *
from .p06 import mk_dsg
from cver import frontend as F
from cver.runner import Group, Harness
from cver.houdini import Cut
from cver.execu import Throw

LEVEL = 'proof'
ASSUMPTIONS = ['fewer than 2^31 values (bytes, if compressed) per process and fewer than 2^58 in total', 'the buffer for reading and reducing holds at least one value, the same number on every process',
               'reading uses the same number of values per process as writing; a different distribution of the same total number of values is not detected in uncompressed files']
TRUSTED = ['MPI-IO: an access at a byte offset transfers the values of the given type from or to there, and MPI_Get_count returns how many', 'MPI_Exscan, MPI_Allreduce', 'LZ4 frame compression and its inverse', 'std::transform, std::vector']
NOTE = 'offsets, counts, order, reduction and size checks of uncompressed files and the calls of the sparse grid output proved for any sizes, ranks and buffers; compression framing in parts, the stream of reduced compressed values and the file contents on real MPI bounded'
NS = 'combigrid::'
IO = NS + 'mpiio::'
FC = IO + 'MPIFileConsecutive'
SG = NS + 'DistributedSparseGridIO::'
D = 'io.cpp'
I31 = (1 << 31) - 1
BIG = 1 << 58
SIZE = {'char': 1, 'float': 4, 'double': 8, 'std::complex<double>': 16, 'unsigned int': 4}


class File:
    """ghost state of one process: its part of the files, transfers so far"""
    def __init__(s, ex, T, names=('file',)):
        s.ex, s.T, s.W = ex, T, SIZE[T]
        s.comm = Opq('comm')
        s.n = ex.fresh('n', 'int', 0, I31)
        s.rank = ex.fresh('rank', 'int', 0, I31)
        s.before = ex.fresh('before', 'int', 0, BIG)       # values of the processes with a smaller rank
        ex.assume(implies(eq(s.rank, 0), eq(s.before, 0)))
        s.total = ex.fresh('total', 'int', 0, BIG)
        ex.assume(le(add(s.before, s.n), s.total))
        s.fd = [Opq('MPI_File%d' % i) for i in range(len(names))]
        s.F = [ex.freshfun('file%d' % i, 'real') for i in range(len(names))]
        s.dt = Opq('mpitype')
        s.reads = ex.alloc(0, 'greads')
        s.done = ex.alloc(0, 'gdone')
        s.collective = True
        s.most = None
        ex.hooks['getMPIDatatype'] = ex.hooks['getabstractionDataType'] = lambda ex, this, a: s.dt
        ex.hooks['getMpiErrorString'] = lambda ex, this, a: Opq('string')
        ex.hooks['MPI_Comm_rank'] = lambda ex, this, a: (ex.wr(ex.rd(a[1]).lv, s.rank), 0)[1]
        ex.hooks['getCommRank'] = lambda ex, this, a: s.rank
        s.ops = {}
        for o in ('sum', 'max', 'min', 'prod'):
            s.ops[o] = ex.alloc(Opq('op_' + o))
            ex.hooks['var:ompi_mpi_op_' + o] = (lambda l: lambda ex: l)(s.ops[o])

    def op(s, v, o):
        if not (isinstance(v, Ptr) and any(v.lv.same(l) for l in s.ops.values())):
            raise Unsupported('operation')
        s.ex.oblige('combined by ' + o, v.lv.same(s.ops[o]))

    def which(s, v):
        for i, f in enumerate(s.fd):
            if isinstance(v, Opq) and v.tag == f.tag:
                return i
        raise Unsupported('file handle %r' % (v,))


def is_(a, b):
    return isinstance(a, Opq) and a.tag == b.tag


def lv(p):
    return p.lv if p.idx is None else p.lv.i(p.idx)


def hook_exscan(ex, f):
    def h(ex, this, a):
        a = [ex.rd(x) for x in a]
        ex.oblige('position: sums up over the communicator', is_(a[5], f.comm))
        ex.oblige('position: one number of values per process', eq(a[2], 1))
        f.op(a[4], 'sum')
        ex.oblige('position: own number of values contributed', eq(ex.rd(lv(a[0])), f.n))
        if not ex.branch(eq(f.rank, 0)):     # the result is not set on the first process
            ex.wr(lv(a[1]), f.before)
        return 0
    ex.hooks['MPI_Exscan'] = h


def g_position(ex, P):
    f = File(ex, 'double')
    hook_exscan(ex, f)
    r = ex.val(ex.invoke(P.find(IO + 'getPositionFromNumValues'), None, [ex.alloc(f.n), ex.alloc(f.comm)]))
    ex.oblige('position is the number of values of all processes before', eq(r, f.before))


def g_others(ex, P):
    f = File(ex, 'double')
    B = ex.fresh('buffer', 'int', 1, I31)
    m = ex.fresh('most', 'int', 0, I31)

    def h(ex, this, a):
        a = [ex.rd(x) for x in a]
        ex.oblige('number of reads: over the communicator', and_(is_(a[5], f.comm), eq(a[2], 1)))
        f.op(a[4], 'max')
        v = ex.rd(lv(a[0]))
        ex.oblige('contributes the number of buffers that its values fill', and_(le(f.n, mul(v, B)), implies(lt(0, v), lt(mul(sub(v, 1), B), f.n)), le(0, v)))
        ex.assume(le(v, m))
        f.own = v
        ex.wr(lv(a[1]), m)
        return 0
    ex.hooks['MPI_Allreduce'] = h
    r = ex.val(ex.invoke(P.find(IO + 'getNumReadsOfOthers'), None, [ex.alloc(f.n), ex.alloc(B), ex.alloc(f.comm)]))
    ex.oblige('reads that other processes perform in addition', eq(r, sub(m, f.own)))


def g_access(ex, P, T, what):
    """write / read at a position: offset in bytes, number and type of the values, result"""
    f = File(ex, T)
    pos = ex.fresh('position', 'int', 0, BIG)
    off = ex.fresh('off', 'int', 0, I31)
    data = ex.alloc(Opq('memory'))
    p = Ptr(data, off)
    ok = ex.fresh('ok', 'bool')
    got = ex.fresh('got', 'int', 0, I31)
    ex.assume(le(got, f.n))
    calls = ex.alloc(0, 'gcalls')

    def h(ex, this, a):
        a = [ex.rd(x) for x in a]
        f.which(a[0])
        ex.oblige('byte offset of the position', eq(a[1], mul(pos, f.W)))
        ex.oblige('values of the caller', and_(isinstance(a[2], Ptr) and a[2].lv.same(data), eq(a[2].idx, off)))
        ex.oblige('number of values', eq(a[3], f.n))
        ex.oblige('type of the values', is_(a[4], f.dt))
        ex.wr(calls, add(ex.rd(calls), 1))
        return ite(ok, 0, 35)

    def count(ex, this, a):
        a = [ex.rd(x) for x in a]
        ex.oblige('count: type of the values', is_(a[1], f.dt))
        ex.wr(lv(a[2]), got)
        return 0
    op = 'write' if what.startswith('write') else 'read'
    ex.hooks['MPI_File_%s_at_all' % op] = ex.hooks['MPI_File_%s_at' % op] = h
    ex.hooks['MPI_Get_count'] = count
    this = ex.alloc(Obj('MPIFileConsecutive', {'file_': f.fd[0]}))
    r = ex.val(ex.invoke(P.find('%s<%s>::%s' % (FC, T, what)), this, [ex.alloc(p), ex.alloc(f.n), ex.alloc(pos)]))
    ex.oblige('accesses the file once', eq(ex.rd(calls), 1))
    if op == 'write':
        ex.oblige('returns the number of values written, zero on failure', eq(r, ite(ok, f.n, 0)))
    else:
        ex.oblige('returns the number of values read, zero on failure', eq(r, ite(ok, got, 0)))


def g_size(ex, P, T):
    f = File(ex, T)
    bytes_ = ex.fresh('bytes', 'int', 0, 1 << 62)

    def red(ex, this, a):
        a = [ex.rd(x) for x in a]
        ex.oblige('size: over the communicator', and_(is_(a[5], f.comm), eq(a[2], 1)))
        f.op(a[4], 'sum')
        ex.oblige('size: own number of values contributed', eq(ex.rd(lv(a[0])), f.n))
        ex.wr(lv(a[1]), f.total)
        return 0

    def size(ex, this, a):
        a = [ex.rd(x) for x in a]
        f.which(a[0])
        ex.wr(lv(a[1]), bytes_)
        return 0
    ex.hooks['MPI_Allreduce'], ex.hooks['MPI_File_get_size'] = red, size
    this = ex.alloc(Obj('MPIFileConsecutive', {'file_': f.fd[0]}))
    right = eq(bytes_, mul(f.total, f.W))
    try:
        r = ex.val(ex.invoke(P.find('%s<%s>::checkFileSizeConsecutive' % (FC, T)), this, [ex.alloc(f.n), ex.alloc(f.comm)]))
    except Throw:
        ex.oblige('no report if the size is right', not_(right))
        return
    ex.oblige('a file of another size is reported', right)
    ex.oblige('a file of the right size is accepted', r)


def use(ex, f, P):
    """callers see the contracts proved above"""
    ex.hooks['getPositionFromNumValues'] = lambda ex, this, a: position(ex, f, a)

    def opener(mode):
        def h(ex, this, a):
            i = simp(ex.rd(f.opened))
            ex.wr(f.opened, i + 1)
            if i >= len(f.fd):
                raise Unsupported('more files opened')
            ex.oblige('opens the file on the communicator', is_(ex.rd(a[1]), f.comm))
            ex.oblige('opens the file to ' + mode, mode == f.mode)
            return Obj('MPIFileConsecutive', {'file_': f.fd[i]})
        return h
    f.opened = ex.alloc(0, 'gopened')
    ex.hooks['getFileToRead'], ex.hooks['getFileToWrite'] = opener('read'), opener('write')
    ex.hooks['method:~MPIFileConsecutive'] = lambda ex, this, a: None
    ex.hooks['MPI_File_close'] = lambda ex, this, a: 0
    f.checked = [ex.alloc(False, 'gchecked') for _ in f.fd]

    def check(ex, this, a):
        i = f.which(ex.rd(this.f('file_')))
        ex.oblige('checks the size with the own number of values', and_(eq(ex.rd(a[0]), f.n), is_(ex.rd(a[1]), f.comm)))
        if not ex.branch(f.right[i]):
            raise Throw('file size')
        ex.wr(f.checked[i], True)
        return True
    f.right = [ex.fresh('right%d' % i, 'bool') for i in range(len(f.fd))]
    ex.hooks['checkFileSizeConsecutive'] = check


def position(ex, f, a):
    ex.oblige('position of the own number of values', and_(eq(ex.rd(a[0]), f.n), is_(ex.rd(a[1]), f.comm)))
    return f.before


def values(ex, f, nm='v'):
    g = ex.freshfun(nm, 'real')
    m = ex.alloc(SVec(f.n, lambda j: g(zt(j)), f.T), 'values')
    return m, g


def g_write(ex, P, T):
    f = File(ex, T)
    f.mode = 'write'
    use(ex, f, P)
    m, g = values(ex, f)
    ok = ex.fresh('ok', 'bool')
    calls = ex.alloc(0, 'gcalls')

    def wr(ex, this, a):
        p, n, pos = [ex.rd(x) for x in a]
        f.which(ex.rd(this.f('file_')))
        ex.oblige('writes the own values', and_(isinstance(p, Ptr) and p.lv.same(m), eq(p.idx, 0), eq(n, f.n)))
        ex.oblige('behind the values of the processes before', eq(pos, f.before))
        ex.wr(calls, add(ex.rd(calls), 1))
        return ite(ok, n, 0)
    ex.hooks['writeValuesToFileAtPosition'] = wr
    r = ex.val(ex.invoke(P.find(IO + 'writeValuesConsecutive', targs=[T]), None, [ex.alloc(Ptr(m, 0)), ex.alloc(f.n), ex.alloc(Opq('string')), ex.alloc(f.comm), ex.alloc(ex.fresh('repl', 'bool')), ex.alloc(ex.fresh('cb', 'bool'))]))
    ex.oblige('writes once', eq(ex.rd(calls), 1))
    ex.oblige('returns the number of values written', eq(r, ite(ok, f.n, 0)))


def reading(ex, f, P):
    """contract of readValuesFromFileAtPosition: a prefix of the requested values"""
    def rdv(ex, this, a):
        p, n, pos = [ex.rd(x) for x in a]
        i = f.which(ex.rd(this.f('file_')))
        ex.oblige('size checked before reading', ex.rd(f.checked[i]))
        ex.oblige('number of values to read', and_(le(0, n), le(n, I31)))
        if isc(n) and n == 0:
            if i == 0:
                ex.wr(f.reads, add(ex.rd(f.reads), 1))
            return 0
        v = ex.rd(p.lv)
        o = p.idx if p.idx is not None else 0
        k = ex.fresh('k', 'int', 0, I31)
        ex.fact(zt(le(k, n)))
        if ex.branch(eq(k, n)):
            k = n
        if isinstance(v, Vec) and not v.e:
            ex.oblige('buffer large enough', eq(n, 0))
        else:
            ex.oblige('buffer large enough', le(add(o, n), v.n))
            old = v
            ex.wr(p.lv, SVec(v.n, lambda j: ite(and_(le(o, j), lt(j, add(o, k))), f.F[i](zt(add(pos, sub(j, o)))), elem(old, j)), f.T))
        if i == 0:
            ex.wr(f.reads, add(ex.rd(f.reads), 1))
            ex.wr(f.done, add(ex.rd(f.done), k))
        return k
    ex.hooks['readValuesFromFileAtPosition'] = rdv


def g_read(ex, P, T):
    f = File(ex, T)
    f.mode = 'read'
    use(ex, f, P)
    reading(ex, f, P)
    m, g = values(ex, f)
    try:
        r = ex.val(ex.invoke(P.find(IO + 'readValuesConsecutive', targs=[T]), None, [ex.alloc(Ptr(m, 0)), ex.alloc(f.n), ex.alloc(Opq('string')), ex.alloc(f.comm), ex.alloc(ex.fresh('cb', 'bool'))]))
    except Throw:
        return
    j = ex.fresh('j', 'int', 0)
    ex.oblige('file size checked', f.right[0])
    ex.oblige('values at the own position of the file, in order', implies(and_(lt(j, f.n), lt(j, r)), eq(ex.rd(m).fn(j), f.F[0](zt(add(f.before, j))))))
    ex.oblige('at most the own values', le(r, f.n))
    ex.oblige('returns the number of values read', eq(r, ex.rd(f.done)))


def g_readreduce(ex, P, T, nf):
    f = File(ex, T, ('a', 'b')[:nf])
    f.mode = 'read'
    use(ex, f, P)
    reading(ex, f, P)
    m, g = values(ex, f)
    B = ex.fresh('buffer', 'int', 1, I31)
    own = ex.fresh('own', 'int', 0, I31)
    ex.assume(and_(le(f.n, mul(own, B)), implies(lt(0, own), lt(mul(sub(own, 1), B), f.n))))
    most = ex.fresh('most', 'int', 0, I31)
    ex.assume(le(own, most))

    def others(ex, this, a):
        a = [ex.rd(x) for x in a]
        ex.oblige('number of reads for the own values', and_(eq(a[0], f.n), eq(a[1], B), is_(a[2], f.comm)))
        return sub(most, own)
    ex.hooks['getNumReadsOfOthers'] = others
    R = z3.RealSort()
    RED = z3.Function('reduced', *([R] * (nf + 2)))
    fun = ex.alloc(Fun(lambda ex, a: RED(*[zt(ex.val(x)) for x in a]), 'reduce'))
    if nf == 1:
        new = lambda k: RED(f.F[0](zt(add(f.before, k))), g(zt(k)))
    else:
        new = lambda k: RED(f.F[0](zt(add(f.before, k))), g(zt(k)), f.F[1](zt(add(f.before, k))))
    filled = lambda p: SVec(f.n, lambda k: ite(lt(k, p), new(k), g(zt(k))), T)

    def scal(v0, p0):
        d = lambda p: sub(p, p0)
        if isinstance(v0, bool) or (isterm(v0) and z3.is_bool(v0)):
            return [('fun', lambda p: v0)]
        return [('fun', lambda p: add(v0, d(p))), ('fun', lambda p: sub(v0, d(p))), ('fun', lambda p: v0),
                ('pred', lambda x, p: le(1, x)), ('pred', lambda x, p: le(x, B)), ('pred', lambda x, p: le(0, x)), ('pred', lambda x, p: le(x, I31)),
                ('pred', lambda x, p: or_(eq(x, B), eq(p, f.n))), ('pred', lambda x, p: or_(eq(mul(x, B), p), and_(eq(p, f.n), eq(x, own))))]

    def arrays(root, v0):
        return [filled] if root == m.root else [('lenpred', lambda x, p: or_(eq(x, B), eq(p, f.n)))]

    def cut(ex, n):
        if ex.loopdepth != 0 or ex.rd(f.done) is None:
            return None
        p0 = ex.rd(f.done)
        if f.afterwards():
            return None
        return Cut(f.done.root, p0, [lambda x, p: le(p0, x), lambda x, p: le(x, f.n)], scal, arrays, 1)
    f.afterwards = lambda: ex.provable(eq(ex.rd(f.done), f.n)) and not ex.provable(eq(ex.rd(f.reads), 0))
    ex.cut = cut
    name = 'readReduceValuesConsecutive' if nf == 1 else 'readMultipleReduceValuesConsecutive'
    fn = ex.alloc(Opq('string')) if nf == 1 else ex.alloc(Vec([Opq('string')] * nf, 'std::string'))
    try:
        r = ex.val(ex.invoke(P.find(IO + name, targs=[T]), None, [ex.alloc(Ptr(m, 0)), ex.alloc(f.n), fn, ex.alloc(f.comm), ex.alloc(B), fun, ex.alloc(ex.fresh('cb', 'bool'))]))
    except Throw:
        return
    j = ex.fresh('j', 'int', 0)
    for i in range(nf):
        ex.oblige('file size checked', f.right[i])
    ex.oblige('every value reduced exactly once with the value at its position', implies(lt(j, f.n), eq(elem(ex.rd(m), j), new(j))))
    ex.oblige('returns the number of values', eq(r, f.n))
    ex.oblige('takes part in as many collective reads as every other process', eq(ex.rd(f.reads), most))


SGD = NS + 'DistributedSparseGridUniform<double>'
WRAP = {  # function: (callee, reduces, data or subspace sizes, communicator)
    'writeOneFile': ('write', 'data', 'grid'), 'readOneFile': ('read', 'data', 'grid'), 'readOneFileAndReduce': ('reduce', 'data', 'grid'),
    'writeSomeFiles': ('write', 'data', 'output'), 'readSomeFiles': ('read', 'data', 'output'), 'readSomeFilesAndReduce': ('reduce', 'data', 'output'),
    'writeSubspaceSizesToFile': ('write', 'sizes', 'grid'), 'readSubspaceSizesFromFile': ('read', 'sizes', 'grid'),
    'readReduceSubspaceSizesFromFile': ('reduce', 'sizes', 'grid'), 'readReduceSubspaceSizesFromFiles': ('reduce2', 'sizes', 'grid')}
CALLEE = {'writeValuesConsecutive': 'write', 'writeCompressedValuesConsecutive': 'write', 'readValuesConsecutive': 'read', 'readCompressedValuesConsecutive': 'read',
          'readReduceValuesConsecutive': 'reduce', 'readReduceCompressedValuesConsecutive': 'reduce', 'readMultipleReduceValuesConsecutive': 'reduce2'}


def g_wrap(ex, P, fn):
    kind, what, comm = WRAP[fn]
    K, n = ex.fresh('K', 'int', 1, I31), ex.fresh('n', 'int', 0, I31)
    o, c = mk_dsg(ex, 'double', K, ex.freshfun('size'), ex.freshfun('al', 'bool'))
    g = ex.freshfun('v', 'real')
    ex.wr(c.f('subspacesData_'), SVec(n, lambda j: g(zt(j)), 'double'))
    ex.wr(o.f('comm_'), Opq('gridcomm'))
    part = ex.fresh('part', 'int', 0, 65535)
    ex.hooks['theMPISystem'] = lambda ex, this, a: ex.alloc(Opq('MPISystem'))
    ex.hooks['getOutputComm'] = lambda ex, this, a: ex.alloc(Opq('outputcomm'))
    ex.hooks['getFilePartNumber'] = lambda ex, this, a: part
    ex.hooks['getGlobalReduceChunkSize'] = lambda ex, this, a: ex.fresh('chunk', 'int', 1, I31)
    ret = ex.fresh('ret', 'int', 0, I31)
    calls = ex.alloc(0)
    target = c.f('subspacesData_') if what == 'data' else o.f('subspacesDataSizes_')
    number = n if what == 'data' else K
    B = ex.fresh('buffer', 'int', 0, I31)

    def callee(nm, k):
        def h(ex, this, a):
            a = [ex.rd(x) for x in a]
            ex.wr(calls, add(ex.rd(calls), 1))
            ex.oblige('kind of access', k == kind)
            ex.oblige('accesses the values of the grid', and_(isinstance(a[0], Ptr) and a[0].lv.same(target), eq(a[0].idx, 0) if isinstance(a[0], Ptr) else False))
            ex.oblige('number of values of this process', eq(a[1], number))
            ex.oblige('processes that share the file', is_(a[3], Opq('gridcomm' if comm == 'grid' else 'outputcomm')))
            if what == 'sizes' and kind.startswith('reduce'):
                ex.oblige('buffer holds at least one value', le(1, a[4]))
                ex.oblige('buffer as requested', implies(lt(0, B), eq(a[4], B)))
            return ret
        return h
    for nm, k in CALLEE.items():
        ex.hooks[nm] = callee(nm, k)
    name = Opq('string')
    args = [o, ex.alloc(name)]
    if fn == 'readReduceSubspaceSizesFromFiles':
        args[1] = ex.alloc(Vec([name, name], 'std::string'))
    if fn in ('writeOneFile', 'writeSomeFiles'):
        args.append(ex.alloc(ex.fresh('repl', 'bool')))
    elif what == 'data' and kind == 'reduce':
        args.append(ex.alloc(ex.fresh('MiB', 'int', 1, 1 << 20)))
    elif what == 'sizes' and kind.startswith('reduce'):
        args += [ex.alloc(Fun(None, 'reduce')), ex.alloc(B), ex.alloc(False)]
    elif fn == 'readSubspaceSizesFromFile':
        args.append(ex.alloc(False))
    r = ex.val(ex.invoke(P.find(SG + fn), None, args))
    ex.oblige('accesses the file once', eq(ex.rd(calls), 1))
    ex.oblige('returns the number of values', eq(r, ret))


def g_writecompressed(ex, P, T):
    f = File(ex, T)
    m, g = values(ex, f)
    L = ex.fresh('L', 'int', 1, I31)
    z = ex.freshfun('z', 'int')
    ex.hooks['isInitialized'] = lambda ex, this, a: False

    def comp(ex, this, a):
        p = ex.rd(a[0])
        ex.oblige('compresses the own values', and_(isinstance(p, Ptr) and p.lv.same(m), eq(p.idx, 0) if isinstance(p, Ptr) else False, eq(ex.rd(a[1]), f.n), is_(ex.rd(a[2]), f.comm)))
        ex.wr(a[3], SVec(L, lambda j: z(zt(j)), 'char'))

    def wr(ex, this, a):
        p, n = ex.rd(a[0]), ex.rd(a[1])
        v = ex.rd(p.lv)
        j = ex.fresh('j', 'int', 0)
        ex.oblige('writes the whole compressed string', and_(eq(n, L), eq(p.idx, 0), implies(lt(j, L), eq(elem(v, j), z(zt(j)))), is_(ex.rd(a[3]), f.comm)))
        ex.oblige('does not keep the end of an older file', ex.rd(a[4]))
        return ex.fresh('ret', 'int', 0, I31)
    ex.hooks['compressBufferToLZ4FrameAndGatherHeader'], ex.hooks['writeValuesConsecutive'] = comp, wr
    ex.invoke(P.find(IO + 'writeCompressedValuesConsecutive', targs=[T]), None, [ex.alloc(Ptr(m, 0)), ex.alloc(f.n), ex.alloc(Opq('string')), ex.alloc(f.comm), ex.alloc(ex.fresh('repl', 'bool')), ex.alloc(False)])


def g_readcompressed(ex, P, T):
    f = File(ex, 'char')
    f.mode = 'read'
    use(ex, f, P)
    size, pos = ex.fresh('framesize', 'int', 1, I31), ex.fresh('framepos', 'int', 0, BIG)
    nv = ex.fresh('nv', 'int', 0, I31)
    V = File(ex, T)
    m, g = values(ex, V)

    def header(ex, this, a):
        ex.oblige('header of the opened file', is_(ex.rd(a[0].f('file_')), f.fd[0]) and is_(ex.rd(a[3]), f.comm))
        ex.wr(a[1], size)
        ex.wr(a[2], pos)
        ex.wr(f.checked[0], True)

    def dec(ex, this, a):
        v, p, n = ex.rd(a[0]), ex.rd(a[1]), ex.rd(a[2])
        j = ex.fresh('j', 'int', 0)
        ex.oblige('decompresses into the values of the caller', and_(isinstance(p, Ptr) and p.lv.same(m), eq(p.idx, 0), eq(n, V.n)))
        if not isinstance(v, (Vec, SVec)):
            raise Unsupported('string %r' % (v,))
        if not ex.branch(eq(v.n, size)):
            raise Throw('incomplete')
        ex.oblige('decompresses the frame of this process', implies(lt(j, size), eq(elem(v, j), f.F[0](zt(add(pos, j))))))
        return n
    ex.hooks['getFrameSizeAndPosFromHeader'], ex.hooks['decompressLZ4FrameToBuffer'] = header, dec
    reading(ex, f, P)
    try:
        r = ex.val(ex.invoke(P.find(IO + 'readCompressedValuesConsecutive', targs=[T]), None, [ex.alloc(Ptr(m, 0)), ex.alloc(V.n), ex.alloc(Opq('string')), ex.alloc(f.comm)]))
    except Throw:
        return
    ex.oblige('returns the number of values', eq(r, V.n))


def prefs(ex):
    l = ex.alloc(Obj('LZ4F_preferences_t', {'frameInfo': Obj('LZ4F_frameInfo_t', {'contentSize': 0, 'blockSizeID': 7}), 'compressionLevel': 5}))
    ex.hooks['var:lz4Preferences'] = lambda ex: l
    ex.hooks['ctor:LZ4F_preferences_t'] = lambda ex, this, a: ex.rd(a[0]) if a else ex.rd(l)


def g_header(ex, P):
    prefs(ex)
    f = File(ex, 'char')
    size = ex.fresh('mysize', 'int', 1, I31)
    f.n = size
    H = ex.fresh('headersize', 'int', 1, I31)
    first = ex.branch(eq(f.rank, 0))
    if first:
        ex.assume(le(H, size))
        ex.assume(eq(f.before, 0))
    C = ex.fresh('C', 'int', 1, I31)
    ex.hooks['getCommSize'] = lambda ex, this, a: C
    ex.hooks['getSizeOfHeaderFrame'] = lambda ex, this, a: H
    ex.hooks['getPositionFromNumValues'] = lambda ex, this, a: position(ex, f, a)
    z = ex.freshfun('z', 'int')
    sizes = ex.freshfun('sizes', 'int')
    ex.fact(sizes(0) == zt(size))
    checked = ex.alloc(False)

    def rdv(ex, this, a):
        p, n, pos = [ex.rd(x) for x in a]
        v = ex.rd(p.lv)
        ex.oblige('reads the header frame', and_(eq(n, H), eq(pos, 0), eq(v.n, H), eq(p.idx, 0)))
        ex.wr(p.lv, SVec(v.n, lambda j: z(zt(j)), 'char'))
        return n

    def dec(ex, this, a):
        v = ex.rd(a[0])
        w = ex.rd(a[1])
        j = ex.fresh('j', 'int', 0)
        ex.oblige('decompresses the header frame', and_(eq(v.n, H), implies(lt(j, H), eq(elem(v, j), z(zt(j))))))
        ex.oblige('one size per process', eq(w.n, C))
        ex.wr(a[1], SVec(C, lambda j: sizes(zt(j)), 'long'))
        return C

    def scatter(ex, this, a):
        a = [ex.rd(x) for x in a]
        ex.oblige('scatters from the first process', and_(eq(a[6], 0), is_(a[7], f.comm)))
        ex.oblige('receives one size', eq(a[4], 1))
        if first:
            v = ex.rd(a[0].lv)
            j = ex.fresh('j', 'int', 0)
            ex.oblige('sends each process its size', and_(eq(a[0].idx, 0), eq(a[1], 1), eq(v.n, C), implies(lt(j, C), eq(elem(v, j), sizes(zt(j))))))
        ex.wr(lv(a[3]), size)
        return 0

    def check(ex, this, a):
        ex.oblige('checks the size of the whole file', and_(eq(ex.rd(a[0]), size), is_(ex.rd(a[1]), f.comm)))
        if not ex.branch(ex.fresh('right', 'bool')):
            raise Throw('file size')
        ex.wr(checked, True)
        return True
    ex.hooks.update({'readValuesFromFileAtPositionSingleRank': rdv, 'decompressLZ4FrameToBuffer': dec, 'MPI_Scatter': scatter, 'checkFileSizeConsecutive': check})
    a, b = ex.alloc(ex.fresh('fs0', 'int', 0, I31)), ex.alloc(ex.fresh('p0', 'int', 0, I31))
    this = ex.alloc(Obj('MPIFileConsecutive', {'file_': f.fd[0]}))
    try:
        ex.invoke(P.find(IO + 'getFrameSizeAndPosFromHeader'), None, [this, a, b, ex.alloc(f.comm)])
    except Throw:
        return
    ex.oblige('file size checked', ex.rd(checked))
    ex.oblige('size of the frame of this process', eq(ex.rd(a), sub(size, H) if first else size))
    ex.oblige('position of the frame of this process', eq(ex.rd(b), H if first else f.before))


def g_compress(ex, P, T):
    prefs(ex)
    f = File(ex, T)
    m, g = values(ex, f)
    old = ex.fresh('old', 'int', 0, I31)
    c0 = ex.freshfun('c0', 'int')
    s = ex.alloc(SVec(old, lambda j: c0(zt(j)), 'char'), 'string')
    bound, used = ex.fresh('bound', 'int', 1, 1 << 33), ex.fresh('used', 'int', 1, 1 << 33)
    z = ex.freshfun('z', 'int')
    fails = ex.fresh('fails', 'bool')
    ex.hooks['LZ4_compressBound'] = lambda ex, this, a: ex.fresh('cb', 'int', 0, 1 << 31)
    ex.hooks['LZ4F_compressFrameBound'] = lambda ex, this, a: bound
    ex.hooks['LZ4F_isError'] = lambda ex, this, a: 1 if ex.branch(fails) else 0
    ex.hooks['LZ4F_getErrorName'] = lambda ex, this, a: Opq('string')
    calls = ex.alloc(0)

    def comp(ex, this, a):
        d, cap, src, n = [ex.rd(x) for x in a[:4]]
        ex.wr(calls, add(ex.rd(calls), 1))
        ex.oblige('compresses the values of the caller', and_(isinstance(src, Ptr) and src.lv.same(m), eq(src.idx, 0) if isinstance(src, Ptr) else False, eq(n, mul(f.n, f.W))))
        if not (isinstance(d, Ptr) and d.lv.same(s)):
            raise Unsupported('compresses elsewhere')
        v = ex.rd(s)
        ex.oblige('string large enough', le(add(d.idx, cap), v.n))
        o = d.idx
        ex.assume(le(used, cap))
        ex.wr(s, SVec(v.n, lambda j: ite(and_(le(o, j), lt(j, add(o, used))), z(zt(sub(j, o))), elem(v, j)), 'char'))
        return used
    ex.hooks['LZ4F_compressFrame'] = comp
    try:
        ex.invoke(P.find(IO + 'compressBufferToLZ4Frame', targs=[T]), None, [ex.alloc(Ptr(m, 0)), ex.alloc(f.n), s])
    except Throw:
        ex.oblige('only a failed compression is reported', fails)
        return
    ex.oblige('failure is reported', not_(fails))
    v = ex.rd(s)
    j = ex.fresh('j', 'int', 0)
    ex.oblige('compressed once', eq(ex.rd(calls), 1))
    ex.oblige('the frame is appended', and_(eq(v.n, add(old, used)), implies(lt(j, used), eq(elem(v, add(old, j)), z(zt(j))))))
    ex.oblige('the string before is kept', implies(lt(j, old), eq(elem(v, j), c0(zt(j)))))


def dec_state(ex, T):
    L = ex.fresh('L', 'int', 0, I31)
    n = ex.fresh('n', 'int', 0, I31)
    z, g = ex.freshfun('z', 'int'), ex.freshfun('v', 'real')
    src = ex.alloc(SVec(L, lambda j: z(zt(j)), 'char'), 'compressed')
    m = ex.alloc(SVec(n, lambda j: g(zt(j)), T), 'values')
    cpos, dpos = ex.alloc(0, 'gcpos'), ex.alloc(0, 'gdpos')
    return L, n, src, m, cpos, dpos


def g_nextblocks(ex, P, T):
    """one step: continues in the compressed string and in the values (byte addresses) where the last step ended"""
    L, n, src, m, cpos, dpos = dec_state(ex, T)
    W = SIZE[T]
    c0, d0 = ex.fresh('c0', 'int', 0, I31), ex.fresh('d0', 'int', 0, 1 << 36)
    ex.assume(and_(le(c0, L), le(d0, mul(n, W))))
    fails = ex.fresh('fails', 'bool')
    ex.hooks['LZ4F_isError'] = lambda ex, this, a: 1 if ex.branch(fails) else 0
    ex.hooks['LZ4F_getErrorName'] = lambda ex, this, a: Opq('string')
    k, c = ex.fresh('k', 'int', 0, 1 << 36), ex.fresh('c', 'int', 0, I31)
    calls = ex.alloc(0)

    def dec(ex, this, a):
        d, cap, s, len_ = [ex.rd(x) for x in a[1:5]]
        ex.wr(calls, add(ex.rd(calls), 1))
        ex.oblige('continues behind the values decompressed before', and_(isinstance(d, Ptr) and d.lv.same(m), eq(d.idx, d0)))
        ex.oblige('writes at most the rest of the values', and_(le(0, ex.rd(lv(cap))), le(add(d.idx, ex.rd(lv(cap))), mul(n, W))))
        ex.oblige('continues behind the bytes consumed before', and_(isinstance(s, Ptr) and s.lv.same(src), eq(s.idx, c0)))
        ex.oblige('reads at most the rest of the frame', and_(le(0, ex.rd(lv(len_))), le(add(s.idx, ex.rd(lv(len_))), L)))
        ex.assume(and_(le(k, ex.rd(lv(cap))), le(c, ex.rd(lv(len_)))))
        ex.wr(lv(cap), k)
        ex.wr(lv(len_), c)
        return ex.fresh('hint', 'int', 0, I31)
    ex.hooks['LZ4F_decompress'] = dec
    this = ex.alloc(Obj('FrameDecompressor', {'compressedString_': src, 'decompressValuesStart_': Ptr(m, 0), 'opts_': Opq('opts'), 'dctx_': Opq('ctx'), 'decompressedByNow_': d0, 'readCompressedByNow_': c0}))
    try:
        r = ex.val(ex.invoke(P.find(IO + 'FrameDecompressor<%s>::decompressNextBlocks' % T), this, [ex.alloc(n)]))
    except Throw:
        ex.oblige('only failures are reported', fails)
        return
    ex.oblige('failure is reported', not_(fails))
    ex.oblige('one step', eq(ex.rd(calls), 1))
    ex.oblige('progress is reported', eq(r, or_(lt(0, k), lt(0, c))))
    ex.oblige('finished when the frame is consumed', eq(ex.val(ex.invoke(P.find(IO + 'FrameDecompressor<%s>::isFinished' % T), this, [])), eq(add(c0, c), L)))
    ex.oblige('number of bytes', eq(ex.val(ex.invoke(P.find(IO + 'FrameDecompressor<%s>::getNumDecompressedBytes' % T), this, [])), add(d0, k)))


def g_decompress(ex, P, T):
    L, n, src, m, cpos, dpos = dec_state(ex, T)
    W = SIZE[T]
    total = mul(n, W)

    def ctor(ex, this, a):
        p = ex.rd(a[1])
        ex.oblige('decompresses the string into the values', and_(a[0].same(src), isinstance(p, Ptr) and p.lv.same(m), eq(p.idx, 0)))
        return Opq('decompressor')

    def step(ex, this, a):
        ex.oblige('room for the values', eq(ex.rd(a[0]), n))
        k, c = ex.fresh('k', 'int', 0, 1 << 36), ex.fresh('c', 'int', 0, I31)
        ex.fact(zt(and_(le(add(ex.rd(dpos), k), total), le(add(ex.rd(cpos), c), L))))
        ex.wr(dpos, add(ex.rd(dpos), k))
        ex.wr(cpos, add(ex.rd(cpos), c))
        return or_(lt(0, k), lt(0, c))
    ex.hooks['ctor:' + IO + 'FrameDecompressor<%s>' % T] = ex.hooks['ctor:FrameDecompressor<%s>' % T] = ctor
    ex.hooks['decompressNextBlocks'] = step
    ex.hooks['isFinished'] = lambda ex, this, a: eq(ex.rd(cpos), L)
    ex.hooks['getNumDecompressedBytes'] = lambda ex, this, a: ex.rd(dpos)
    ex.hooks['to_string'] = lambda ex, this, a: Opq('string')

    def scal(v0, p0):
        return [('fun', lambda p: v0), ('pred', lambda x, p: le(0, x)), ('pred', lambda x, p: le(x, L))]
    ex.cut = lambda ex, nd: Cut(dpos.root, ex.rd(dpos), [lambda x, p: le(0, x), lambda x, p: le(x, total)], scal, lambda root, v0: []) if ex.loopdepth == 0 else None
    done = lambda: and_(eq(ex.rd(dpos), total), eq(ex.rd(cpos), L))
    try:
        r = ex.val(ex.invoke(P.find(IO + 'decompressLZ4FrameToBuffer', targs=[T], nparams=3), None, [src, ex.alloc(Ptr(m, 0)), ex.alloc(n)]))
    except Throw:
        ex.oblige('no report if everything was decompressed', not_(done()))
        return
    ex.oblige('returns only if all values and the whole frame were decompressed', done())
    ex.oblige('returns the number of values', eq(r, n))


def g_gather(ex, P, T):
    f = File(ex, T)
    prefs(ex)
    m, g = values(ex, f)
    first = ex.branch(eq(f.rank, 0))
    H, C, used = ex.fresh('headersize', 'int', 1, I31), ex.fresh('C', 'int', 1, I31), ex.fresh('used', 'int', 1, I31)
    old = ex.freshfun('old', 'int')
    s = ex.alloc(SVec(ex.fresh('oldlen', 'int', 0, I31), lambda j: old(zt(j)), 'char'), 'string')
    z, h, sizes = ex.freshfun('z', 'int'), ex.freshfun('h', 'int'), ex.freshfun('sizes', 'int')
    own = add(H, used) if first else used
    gathered = ex.alloc(0)
    ex.hooks['getCommSize'] = lambda ex, this, a: C
    ex.hooks['getSizeOfHeaderFrame'] = lambda ex, this, a: (ex.wr(a[1], ex.fresh('bound', 'int', 1, I31)), H)[1]
    ex.hooks['LZ4F_isError'] = lambda ex, this, a: 0

    def comp(ex, this, a):
        p, v = ex.rd(a[0]), ex.rd(a[2])
        ex.oblige('compresses the own values', and_(isinstance(p, Ptr) and p.lv.same(m), eq(p.idx, 0), eq(ex.rd(a[1]), f.n)))
        n = v.n
        if isinstance(v, Vec) and not v.e:
            ex.wr(a[2], SVec(used, lambda j: z(zt(j)), 'char'))
            return
        ex.wr(a[2], SVec(add(n, used), lambda j: ite(lt(j, n), elem_(v, j), z(zt(sub(j, n)))), 'char'))

    def gather(ex, this, a):
        a = [ex.rd(x) for x in a]
        ex.wr(gathered, add(ex.rd(gathered), 1))
        ex.oblige('sends the size of the own part of the file', and_(eq(ex.rd(lv(a[0])), own), eq(a[1], 1)))
        ex.oblige('gathers on the first process', and_(eq(a[6], 0), is_(a[7], f.comm)))
        if first:
            w = ex.rd(a[3].lv)
            ex.oblige('one size per process', and_(eq(a[4], 1), eq(w.n, C), eq(a[3].idx, 0)))
            ex.wr(a[3].lv, SVec(C, lambda j: sizes(zt(j)), 'long'))
        return 0

    def head(ex, this, a):
        d, cap, src, n = [ex.rd(x) for x in a[:4]]
        w = ex.rd(src.lv)
        j = ex.fresh('j', 'int', 0)
        ex.oblige('header holds the sizes of all processes', and_(eq(n, mul(C, 8)), eq(src.idx, 0), implies(lt(j, C), eq(elem(w, j), sizes(zt(j))))))
        ex.oblige('header at the beginning of the file', and_(first, isinstance(d, Ptr) and d.lv.same(s), eq(d.idx, 0)))
        v = ex.rd(s)
        ex.oblige('room for the header', le(H, v.n))
        ex.wr(s, SVec(v.n, lambda j: ite(lt(j, H), h(zt(j)), elem_(v, j)), 'char'))
        return H
    ex.hooks.update({'compressBufferToLZ4Frame': comp, 'MPI_Gather': gather, 'LZ4F_compressFrame': head})
    ex.invoke(P.find(IO + 'compressBufferToLZ4FrameAndGatherHeader', targs=[T]), None, [ex.alloc(Ptr(m, 0)), ex.alloc(f.n), ex.alloc(f.comm), s])
    v = ex.rd(s)
    j = ex.fresh('j', 'int', 0)
    b = H if first else 0
    ex.oblige('gathers once', eq(ex.rd(gathered), 1))
    ex.oblige('size of the part of this process', eq(v.n, own))
    ex.oblige('own frame behind the header', implies(lt(j, used), eq(elem(v, add(b, j)), z(zt(j)))))
    if first:
        ex.oblige('header at the beginning', implies(lt(j, H), eq(elem(v, j), h(zt(j)))))


def elem_(v, j):
    from cver.loopsum import safe_elem
    return safe_elem(v, j)


def groups(tier):
    gs = [Group('getPositionFromNumValues', g_position, D, {}, [IO + 'getPositionFromNumValues']),
          Group('getNumReadsOfOthers', g_others, D, {}, [IO + 'getNumReadsOfOthers'])]
    for T in SIZE:
        for what in ('writeValuesToFileAtPosition', 'readValuesFromFileAtPosition', 'readValuesFromFileAtPositionSingleRank'):
            gs.append(Group('%s %s' % (what, T), g_access, D, dict(T=T, what=what), ['%s<%s>::%s' % (FC, T, what)]))
        gs.append(Group('checkFileSizeConsecutive ' + T, g_size, D, dict(T=T), ['%s<%s>::checkFileSizeConsecutive' % (FC, T)]))
    for T in ('float', 'double'):
        gs.append(Group('writeValuesConsecutive ' + T, g_write, D, dict(T=T), [IO + 'writeValuesConsecutive']))
        gs.append(Group('readValuesConsecutive ' + T, g_read, D, dict(T=T), [IO + 'readValuesConsecutive']))
        for nf in (1, 2):
            nm = 'readReduceValuesConsecutive' if nf == 1 else 'readMultipleReduceValuesConsecutive'
            gs.append(Group('%s %s' % (nm, T), g_readreduce, D, dict(T=T, nf=nf), [IO + nm]))
    for fn in WRAP:
        gs.append(Group('sparse grid ' + fn, g_wrap, D, dict(fn=fn), [SG + fn]))
    gs.append(Group('getFrameSizeAndPosFromHeader', g_header, D, {}, [IO + 'getFrameSizeAndPosFromHeader']))
    for T in ('float', 'double'):
        gs.append(Group('writeCompressedValuesConsecutive ' + T, g_writecompressed, D, dict(T=T), [IO + 'writeCompressedValuesConsecutive']))
        gs.append(Group('readCompressedValuesConsecutive ' + T, g_readcompressed, D, dict(T=T), [IO + 'readCompressedValuesConsecutive']))
        gs.append(Group('compressBufferToLZ4Frame ' + T, g_compress, D, dict(T=T), [IO + 'compressBufferToLZ4Frame']))
        gs.append(Group('FrameDecompressor::decompressNextBlocks ' + T, g_nextblocks, D, dict(T=T), [IO + 'FrameDecompressor<%s>::decompressNextBlocks' % T]))
        gs.append(Group('decompressLZ4FrameToBuffer ' + T, g_decompress, D, dict(T=T), [IO + 'decompressLZ4FrameToBuffer']))
        gs.append(Group('compressBufferToLZ4FrameAndGatherHeader ' + T, g_gather, D, dict(T=T), [IO + 'compressBufferToLZ4FrameAndGatherHeader']))
    return gs


FT = ['src/mpi_fault_simulator/' + x for x in sorted(os.listdir(os.path.join(F.REPO, 'src/mpi_fault_simulator'))) if x.endswith('.cpp')]


def harnesses(tier):
    return [Harness('h_p10.cpp', sources=['src/mpi/MPISystem.cpp', 'src/mpi/OpenMPUtils.cpp', 'src/utils/Stats.cpp'] + FT, np=4, timeout=200, flags=['-DOMPI_SKIP_MPICXX'],
                    bound='4 processes, random sizes per process up to 3000 values including none, 4 to 16 byte values, buffers of 1 to 1000 values, up to 8.8 MB of compressed values per process, 1 to 4 output parts; sizes that differ and truncated files')]
