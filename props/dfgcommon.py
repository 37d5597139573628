"""Shared symbolic representation of the real classes (fields by their names in /repo) and shared contracts."""
import z3
from cver.values import *
from cver.execu import *
from cver.contract import Contract

I31 = 2**31 - 1
TI = 'combigrid::TensorIndexer'
DFG = 'combigrid::DistributedFullGrid<double>'


def prod(xs):
    r = 1
    for x in xs:
        r = mul(r, x)
    return r


def prefix(xs):
    out = [1]
    for x in xs[:-1]:
        out.append(mul(out[-1], x))
    return out


def dot(a, b):
    r = 0
    for x, y in zip(a, b):
        r = add(r, mul(x, y))
    return r


def mk_indexer(ex, ext, cls=TI, data=None):
    """well-formed TensorIndexer: offsets are the column-major prefix products, the size fits IndexType"""
    f = {'extents_': Vec(ext, 'int'), 'localOffsets_': Vec(prefix(list(ext)), 'int')}
    if cls != TI:
        f['data_'] = data if data is not None else NULL
    return Obj(cls, f)


def fresh_extents(ex, dim, tag='n'):
    e = [ex.fresh(tag + str(k), 'int', 1, I31) for k in range(dim)]
    ex.assume(le(prod(e), I31))
    mono(ex, e)
    return e


def mono(ex, e):
    """product monotonicity hints (valid for factors >= 1)"""
    p = prefix(list(e)) + [prod(e)]
    for a, b in zip(p, p[1:]):
        ex.assume(and_(le(1, a), le(a, b)))


def lemma_mixed_radix(ex, v, ext):
    """for in-range digits: partial sums are bounded by the next radix product (proved as its own group)"""
    off = prefix(list(ext)) + [prod(ext)]
    for k in range(1, len(v) + 1):
        s = dot(v[:k], off[:k])
        ex.assume(and_(le(0, s), lt(s, off[k])))


def wf_requires(ex, this, args):
    return []


def inrange(v, ext):
    return and_(*[and_(le(0, a), lt(a, b)) for a, b in zip(v, ext)])


# --- contracts of TensorIndexer, used at call sites (each proved against its body in P01)
def ti_ext(ex, this):
    return ex.rd(this.f('extents_')).e


def ti_off(ex, this):
    return ex.rd(this.f('localOffsets_')).e


def c_seq():
    def req(ex, this, a):
        v = ex.rd(a[0])
        return [('vector has one entry per dimension', len(v.e) == len(ti_ext(ex, this))),
                ('index vector inside the tensor', inrange(v.e, ti_ext(ex, this)))]

    def ens(ex, this, a, r):
        v = ex.rd(a[0])
        return [eq(r, dot(v.e, ti_off(ex, this))), le(0, r), lt(r, prod(ti_ext(ex, this)))]
    return Contract(TI + '::sequentialIndex', req, ens, lambda ex, t, a: ex.fresh('seq', 'int', 0, I31))


def c_vec(lemma=None):
    def req(ex, this, a):
        l = ex.rd(a[0])
        return [('linear index inside the tensor', and_(le(0, l), lt(l, prod(ti_ext(ex, this)))))]

    def res(ex, this, a):
        dim = len(ti_ext(ex, this))
        lv = LV('static:getVectorIndex')
        ex.st.mem[lv.root] = Vec([ex.fresh('vi', 'int', 0, I31) for _ in range(dim)], 'int')
        return lv

    def ens(ex, this, a, r):
        l = ex.rd(a[0])
        v = ex.rd(r)
        return [inrange(v.e, ti_ext(ex, this)), eq(dot(v.e, ti_off(ex, this)), l)] + (lemma(ex, v.e) if lemma else [])
    return Contract(TI + '::getVectorIndex', req, ens, res)


def c_size():
    return Contract(TI + '::size', None, lambda ex, t, a, r: [eq(r, prod(ti_ext(ex, t)) if ti_ext(ex, t) else 0)],
                    lambda ex, t, a: ex.fresh('size', 'int', 0, I31))


def ti_contracts(lemma=None):
    return {TI + '::sequentialIndex': c_seq(), TI + '::getVectorIndex': c_vec(lemma), TI + '::size': c_size()}


def mk_dfg(ex, dim, boundary=None, levels=None, n=None, decomposition=None, local=True):
    """symbolic DistributedFullGrid<double> satisfying its representation invariant"""
    n = n if n is not None else fresh_extents(ex, dim, 'n')
    lb = [ex.fresh('lb%d' % k, 'int', 0, I31) for k in range(dim)]
    ub = [ex.fresh('ub%d' % k, 'int', 0, I31) for k in range(dim)]
    for k in range(dim):
        ex.assume(and_(lt(lb[k], ub[k]), le(ub[k], n[k])))
    lext = [sub(u, l) for u, l in zip(ub, lb)]
    f = {
        'dim_': dim,
        'levels_': Vec(levels if levels is not None else [ex.fresh('lev%d' % k, 'int', 0, 29) for k in range(dim)], 'int'),
        'gridSpacing_': Vec([ex.fresh('h%d' % k, 'real') for k in range(dim)], 'double'),
        'globalIndexer_': mk_indexer(ex, n),
        'localTensor_': mk_indexer(ex, lext, 'combigrid::Tensor<double>'),
        'hasBoundaryPoints_': Vec(boundary if boundary is not None else [ex.fresh('bd%d' % k, 'int', 0, 2) for k in range(dim)], 'unsigned char'),
        'myPartitionsLowerBounds_': Vec(lb, 'int'),
        'myPartitionsUpperBounds_': Vec(ub, 'int'),
        'myPartitionsFirstGlobalIndex_': dot(lb, prefix(list(n))),
        'decomposition_': decomposition if decomposition is not None else Vec((), 'std::vector<int>'),
        'downwardSubarrays_': Vec((), 'MPI_Datatype'),
        'upwardSubarrays_': Vec((), 'MPI_Datatype'),
    }
    o = ex.alloc(Obj(DFG, f), 'dfg')
    return o, n, lb, ub, lext


def seqlen(v):
    return len(v.e) if isinstance(v, Vec) else v.n
