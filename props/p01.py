"""P01: linear index <-> vector index maps are mutually inverse bijections in column-major order; local/global maps agree."""
from .dfgcommon import *
from cver.runner import Group, Harness

LEVEL = 'proof'
ASSUMPTIONS = ['number of grid points of a grid fits IndexType (int32), as the code requires',
               'dimension enumerated 1..6 (structural parameter); extents, bounds and indices are unbounded symbols']


def g_ctor(ex, P, dim):
    ext = fresh_extents(ex, dim)
    o = ex.alloc(ex.default(TI))
    ex.invoke(P.find(TI + '::TensorIndexer', 'IndexVector'), o, [ex.alloc(Vec(ext, 'int'))])
    v = ex.rd(o)
    off = prefix(ext)
    ex.oblige('ctor: number of extents', eq(v.f['extents_'].n, dim))
    ex.oblige('ctor: number of offsets', eq(v.f['localOffsets_'].n, dim))
    for k in range(dim):
        ex.oblige('ctor: extent %d stored' % k, eq(v.f['extents_'].e[k], ext[k]))
        ex.oblige('ctor: offset %d is the column-major prefix product' % k, eq(v.f['localOffsets_'].e[k], off[k]))
    g = ex.call_decl(P.find(TI + '::getExtentsVector'), o, args=[])
    ex.oblige('getExtentsVector returns the extents', and_(*[eq(a, b) for a, b in zip(ex.rd(g).e, ext)]))
    g = ex.call_decl(P.find(TI + '::getOffsetsVector'), o, args=[])
    ex.oblige('getOffsetsVector returns the offsets', and_(*[eq(a, b) for a, b in zip(ex.rd(g).e, off)]))


def g_size(ex, P, dim):
    ext = fresh_extents(ex, dim) if dim else []
    o = ex.alloc(mk_indexer(ex, ext) if dim else Obj(TI, {'extents_': Vec((), 'int'), 'localOffsets_': Vec((), 'int')}))
    r = ex.invoke(P.find(TI + '::size'), o, [])
    ex.oblige('size() is the number of elements', eq(r, prod(ext) if dim else 0))


def g_seq(ex, P, dim):
    ext = fresh_extents(ex, dim)
    o = ex.alloc(mk_indexer(ex, ext))
    v = [ex.fresh('v%d' % k, 'int', 0, I31) for k in range(dim)]
    ex.assume(inrange(v, ext))
    lemma_mixed_radix(ex, v, ext)
    terms(ex, v, ext)
    r = ex.invoke(P.find(TI + '::sequentialIndex'), o, [ex.alloc(Vec(v, 'int'))])
    ex.oblige('sequentialIndex is the column-major address', eq(r, dot(v, prefix(ext))))
    ex.oblige('sequentialIndex in [0,size)', and_(le(0, r), lt(r, prod(ext))))


def terms(ex, v, ext):
    """each addend v_k*off_k lies in [0,size): instance of the mixed-radix lemma"""
    off = prefix(list(ext))
    for k in range(len(v)):
        t = mul(v[k], off[k])
        ex.assume(and_(le(0, t), lt(t, prod(ext))))


def g_vec(ex, P, dim):
    ext = fresh_extents(ex, dim)
    o = ex.alloc(mk_indexer(ex, ext))
    before = ex.rd(o)
    l = ex.fresh('lin', 'int', 0, I31)
    ex.assume(lt(l, prod(ext)))
    r = ex.invoke(P.find(TI + '::getVectorIndex'), o, [ex.alloc(l)])
    v = ex.rd(r)
    if not isinstance(v, Vec) or len(v.e) != dim:
        ex.oblige('getVectorIndex: one entry per dimension', eq(v.n, dim))
        return
    for k in range(dim):
        ex.oblige('getVectorIndex: entry %d inside extent' % k, and_(le(0, v.e[k]), lt(v.e[k], ext[k])))
    ex.oblige('getVectorIndex: address of the result is the argument', eq(dot(v.e, prefix(ext)), l))
    ex.oblige('getVectorIndex: indexer unchanged', same(ex.rd(o), before))


def g_lemma(ex, P, dim):
    """mixed radix: in-range digit vectors are bounded and determined by their address (injectivity)"""
    ext = fresh_extents(ex, dim)
    v = [ex.fresh('v%d' % k, 'int', 0, I31) for k in range(dim)]
    w = [ex.fresh('w%d' % k, 'int', 0, I31) for k in range(dim)]
    ex.assume(inrange(v, ext))
    ex.assume(inrange(w, ext))
    off = prefix(list(ext)) + [prod(ext)]
    # bounds, by induction over k with S_k, off_k abstracted to fresh symbols
    for k in range(dim):
        S, O, E, D = ex.fresh('S'), ex.fresh('O'), ex.fresh('E'), ex.fresh('D')
        ex.oblige('radix bound step %d' % k, implies(and_(le(0, S), lt(S, O), le(1, O), le(0, D), lt(D, E)),
                                                     and_(le(0, add(S, mul(D, O))), lt(add(S, mul(D, O)), mul(O, E)),
                                                          le(0, mul(D, O)), lt(mul(D, O), mul(O, E)))))
    # uniqueness step: S + D*O == T + F*O with 0<=S,T<O implies D==F and S==T
    S, T, O, D, Fq = ex.fresh('S'), ex.fresh('T'), ex.fresh('O'), ex.fresh('D'), ex.fresh('F')
    ex.oblige('radix uniqueness step', implies(and_(le(0, S), lt(S, O), le(0, T), lt(T, O), eq(add(S, mul(D, O)), add(T, mul(Fq, O)))),
                                               and_(eq(D, Fq), eq(S, T))))


def dfgcall(ex, P, o, name, args, sig=None):
    return ex.invoke(P.find(DFG + '::' + name, sig), o, args)


def g_dfg(ex, P, dim, which):
    ex.contracts = ti_contracts()
    o, n, lb, ub, lext = mk_dfg(ex, dim)
    goff, loff = prefix(n), prefix(lext)
    before = ex.rd(o)
    mono(ex, lext)
    if which == 'glob_vec':
        l = ex.fresh('lin', 'int', 0, I31)
        ex.assume(lt(l, prod(n)))
        out = ex.alloc(Vec([0] * dim, 'int'))
        dfgcall(ex, P, o, 'getGlobalVectorIndex', [ex.alloc(l), out], r'^void \(IndexType, IndexVector &\)')
        v = ex.rd(out).e
        ex.oblige('getGlobalVectorIndex(lin): inverse of the global address', and_(inrange(v, n), eq(dot(v, goff), l)))
        l2 = dfgcall(ex, P, o, 'getGlobalLinearIndex', [ex.alloc(Vec(v, 'int'))], r'\(const IndexVector &\)')
        ex.oblige('getGlobalLinearIndex(getGlobalVectorIndex(l)) == l', eq(l2, l))
    elif which == 'glob_lin':
        v = [ex.fresh('v%d' % k, 'int', 0, I31) for k in range(dim)]
        ex.assume(inrange(v, n))
        l = dfgcall(ex, P, o, 'getGlobalLinearIndex', [ex.alloc(Vec(v, 'int'))], r'\(const IndexVector &\)')
        ex.oblige('getGlobalLinearIndex(vec): column-major address', and_(eq(l, dot(v, goff)), le(0, l), lt(l, prod(n))))
    elif which == 'loc_lin':
        v = [ex.fresh('v%d' % k, 'int', 0, I31) for k in range(dim)]
        ex.assume(inrange(v, lext))
        l = dfgcall(ex, P, o, 'getLocalLinearIndex', [ex.alloc(Vec(v, 'int'))], r'\(const IndexVector &\)')
        ex.oblige('getLocalLinearIndex(vec): column-major local address', and_(eq(l, dot(v, loff)), le(0, l), lt(l, prod(lext))))
    elif which == 'loc_vec':
        l = ex.fresh('lin', 'int', 0, I31)
        ex.assume(lt(l, prod(lext)))
        out = ex.alloc(Vec([0] * dim, 'int'))
        dfgcall(ex, P, o, 'getLocalVectorIndex', [ex.alloc(l), out], r'^void \(IndexType, IndexVector &\)')
        v = ex.rd(out).e
        ex.oblige('getLocalVectorIndex(lin): inverse of the local address', and_(inrange(v, lext), eq(dot(v, loff), l)))
    elif which == 'loc_to_glob_vec':
        v = [ex.fresh('v%d' % k, 'int', 0, I31) for k in range(dim)]
        ex.assume(inrange(v, lext))
        out = ex.alloc(Vec([0] * dim, 'int'))
        dfgcall(ex, P, o, 'getGlobalVectorIndex', [ex.alloc(Vec(v, 'int')), out], r'\(const IndexVector &, IndexVector &\)')
        g = ex.rd(out).e
        for k in range(dim):
            ex.oblige('getGlobalVectorIndex(locvec)[%d] = lower bound + local index' % k, eq(g[k], add(lb[k], v[k])))
    elif which == 'glob_to_loc_vec':
        g = [ex.fresh('g%d' % k, 'int', 0, I31) for k in range(dim)]
        ex.assume(inrange(g, n))
        out = ex.alloc(Vec([0] * dim, 'int'))
        r = dfgcall(ex, P, o, 'getLocalVectorIndex', [ex.alloc(Vec(g, 'int')), out], r'\(const IndexVector &, IndexVector &\)')
        here = and_(*[and_(le(lb[k], g[k]), lt(g[k], ub[k])) for k in range(dim)])
        ex.oblige('getLocalVectorIndex(globvec): true exactly for owned points', eq(r, here))
        v = ex.rd(out).e
        for k in range(dim):
            ex.oblige('getLocalVectorIndex(globvec)[%d] = global - lower bound' % k, implies(here, eq(v[k], sub(g[k], lb[k]))))
        h = dfgcall(ex, P, o, 'isGlobalIndexHere', [ex.alloc(Vec(g, 'int'))], r'\(IndexVector\)')
        ex.oblige('isGlobalIndexHere(vec) exactly for owned points', eq(h, here))
        l = dot(g, goff)
        ex.assume(and_(le(0, l), lt(l, prod(n))))      # mixed-radix lemma (group "lemma")
        h2 = dfgcall(ex, P, o, 'isGlobalIndexHere', [ex.alloc(l)], r'\(IndexType\)')
        vi = ex.rd(LV('static:getVectorIndex')).e
        ex.assume(and_(*[eq(a, b) for a, b in zip(vi, g)]))   # radix uniqueness (group "lemma")
        ex.oblige('isGlobalIndexHere(lin) exactly for owned points', eq(h2, here))
    elif which == 'loc_to_glob_lin':
        l = ex.fresh('lin', 'int', 0, I31)
        ex.assume(lt(l, prod(lext)))
        # lemma instances: global address of (lb + v) is in range
        sums(ex, lb, ub, n)

        def lemma(ex, v):
            # instances of the mixed-radix lemma (group "lemma") for the digits v and lb+v of the global tensor
            a, b = dot(v, goff), dot(lb, goff)
            return [and_(le(0, a), lt(a, prod(n))), and_(le(0, add(a, b)), lt(add(a, b), prod(n)))]
        ex.contracts = ti_contracts(lemma)
        r = dfgcall(ex, P, o, 'getGlobalLinearIndex', [ex.alloc(l)], r'\(IndexType\)')
        v = ex.rd(LV('static:getVectorIndex')).e
        ex.oblige('getGlobalLinearIndex(loclin) is the global address of the same point',
                  eq(r, dot([add(a, b) for a, b in zip(lb, v)], goff)))
    elif which == 'glob_to_loc_lin':
        l = ex.fresh('lin', 'int', 0, I31)
        ex.assume(lt(l, prod(n)))
        r = dfgcall(ex, P, o, 'getLocalLinearIndex', [ex.alloc(l)], r'\(IndexType\)')
        g = ex.rd(LV('static:getVectorIndex')).e
        here = and_(*[and_(le(lb[k], g[k]), lt(g[k], ub[k])) for k in range(dim)])
        ex.oblige('getLocalLinearIndex(globlin): -1 for points of other processes', implies(not_(here), eq(r, -1)))
        ex.oblige('getLocalLinearIndex(globlin): local address of the same point',
                  implies(here, eq(r, dot([sub(a, b) for a, b in zip(g, lb)], loff))))
    ex.oblige('%s: grid unchanged' % which, same(ex.rd(o), before))


def sums(ex, lb, ub, n):
    off = prefix(list(n))
    s = dot(lb, off)
    ex.assume(and_(le(0, s), lt(s, prod(n))))


def groups(tier):
    gs = []
    D = range(1, 7)
    for d in D:
        gs.append(Group('TensorIndexer ctor dim=%d' % d, g_ctor, 'dfg.cpp', dict(dim=d), [TI + '::TensorIndexer', TI + '::getExtentsVector', TI + '::getOffsetsVector']))
        gs.append(Group('TensorIndexer size dim=%d' % d, g_size, 'dfg.cpp', dict(dim=d), [TI + '::size']))
        gs.append(Group('TensorIndexer sequentialIndex dim=%d' % d, g_seq, 'dfg.cpp', dict(dim=d), [TI + '::sequentialIndex']))
        gs.append(Group('TensorIndexer getVectorIndex dim=%d' % d, g_vec, 'dfg.cpp', dict(dim=d), [TI + '::getVectorIndex']))
        gs.append(Group('mixed radix lemma dim=%d' % d, g_lemma, 'dfg.cpp', dict(dim=d), []))
        for w in ('glob_vec', 'glob_lin', 'loc_lin', 'loc_vec', 'loc_to_glob_vec', 'glob_to_loc_vec', 'loc_to_glob_lin', 'glob_to_loc_lin'):
            gs.append(Group('DistributedFullGrid %s dim=%d' % (w, d), g_dfg, 'dfg.cpp', dict(dim=d, which=w),
                            [DFG + '::' + x for x in ('getGlobalVectorIndex', 'getLocalVectorIndex', 'getGlobalLinearIndex', 'getLocalLinearIndex', 'isGlobalIndexHere')]))
    gs.append(Group('TensorIndexer size dim=0', g_size, 'dfg.cpp', dict(dim=0), [TI + '::size']))
    return gs


def harnesses(tier):
    return [Harness('h_p01.cpp', np=0, timeout=400, bound='dims 1..6, extents <= 40, random sub-boxes/decompositions; every point of each grid',
                    standin=[DFG + '::getCoordsGlobal', DFG + '::getCoordsLocal', DFG + '::DistributedFullGrid', TI + ' (redundant)'])]
