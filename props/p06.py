"""P06: sparse grid storage, gather and scatter."""
from fractions import Fraction
from .dfgcommon import *
from cver.runner import Group, Harness
from cver.loopsum import entries_of, zsub, safe_elem

LEVEL = 'proof'
NS = 'combigrid::'
DSG = NS + 'DistributedSparseGridUniform<%s>'
CON = NS + 'DistributedSparseGridDataContainer<%s>'
ANY = NS + 'AnyDistributedSparseGrid'
U32 = (1 << 32) - 1
ASSUMPTIONS = ['the number of allocated points per process fits the 32-bit subspace size type, the number of points of one subspace the index type',
               'floating point arithmetic treated as real arithmetic in the compensated sum (rounding covered by the harness within 1e-12 of the magnitudes added)',
               'gather, scatter and registration: one arbitrary subspace and two consecutive ones of the down set, in an arbitrary state (the loop carries only the last index found); '
               'the search contract is proved separately (getIndexInRange), the points of a subspace and their number are contracts of P03',
               'OpenMP threads do not interfere (each iteration writes its own subspace)',
               'copies and extreme coefficients: 1 and 3 subspaces of any size']
TRUSTED = ['std::set, std::lower_bound, memset models', 'AnyDistributedSparseGrid::getAccumulatedDataSize over a set (sum of the sizes; run by the harness)']
NOTE = 'storage layout, lookup, registration, gather and scatter proved for any number and size of subspaces; copies and extremes bounded in the number of subspaces'


def table(vals, last=None):
    """quantifier-free function given by its values"""
    def f(i):
        r = zt(vals[-1] if last is None else last)
        for k in range(len(vals) - 1, -1, -1):
            r = z3.If(zt(i) == k, zt(vals[k]), r)
        return z3.simplify(r)
    return f


def sizes(ex, K, inst=None):
    """arbitrary subspace sizes, arbitrary set of allocated subspaces and the running total of their sizes;
    with inst: those of a small instance, free of quantifiers, so that a violation is refuted with a model"""
    if inst:
        s, a = inst
        p = [0]
        for x, y in zip(s, a):
            p.append(p[-1] + (x if y else 0))
        return table(s, 0), table(a, False), table(p)
    sz, al, pref = ex.freshfun('size'), ex.freshfun('alloc', 'bool'), ex.freshfun('pref')
    i, j = z3.Int('si'), z3.Int('sj')
    step = lambda i: z3.If(al(i), sz(i), 0)
    ex.fact(z3.ForAll([i], z3.And(sz(i) >= 0, sz(i) <= U32), patterns=[sz(i)]))
    ex.fact(pref(0) == 0)
    ex.fact(z3.ForAll([i], z3.Implies(i >= 0, pref(i + 1) == pref(i) + step(i)), patterns=[pref(i + 1)]))
    ex.fact(z3.ForAll([i], z3.Implies(i >= 0, pref(i + 1) == pref(i) + step(i)), patterns=[z3.MultiPattern(pref(i), sz(i))]))
    # monotonicity of the running total: proved by induction in its own group
    ex.fact(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j), pref(i) + step(i) <= pref(j)), patterns=[z3.MultiPattern(pref(i), pref(j))]))
    ex.fact(z3.ForAll([i], z3.Implies(i >= 0, pref(i) >= 0), patterns=[pref(i)]))
    ex.assume(le(pref(zt(K)), U32))
    return sz, al, pref


def mk_dsg(ex, T, K, sz, al, nonempty=True):
    con = {'subspacesWithData_': PSet(lambda x: and_(le(0, x), lt(x, K), al(zt(x))), ex.fresh('nAlloc', 'int', 1 if nonempty else 0, I31)),
           'subspaces_': SVec(K, lambda i: NULL, T + ' *'), 'subspacesData_': Vec((), T),
           'kahanDataBegin_': SVec(K, lambda i: NULL, T + ' *'), 'kahanData_': Vec((), T)}
    o = ex.alloc(Obj(DSG % T, {'dim_': 2, 'levels_': Vec((), 'std::vector<int>'), 'subspacesDataSizes_': SVec(K, lambda i: sz(zt(i)), 'unsigned int'),
                               'rank_': 0, 'comm_': Opq('comm'), 'subspacesByComm_': Vec((), 'pair'), 'myOwnSubspaceCommunicators_': False,
                               'minCoefficientPerSubspace_': Vec((), 'double'), 'maxCoefficientPerSubspace_': Vec((), 'double'),
                               'subspacesDataContainer_': Obj(CON % T, con)}))
    c = o.f('subspacesDataContainer_')
    ex.wr(c.f('dsgu_'), o) if False else None
    ob = ex.rd(c)
    ex.wr(c, Obj(ob.cls, dict(ob.f, dsgu_=o)))
    return o, c


def g_prefix_lemma(ex, P):
    """induction for the monotonicity facts used by sizes()"""
    a, b, s = ex.fresh('pi', 'int', 0, None), ex.fresh('pj', 'int', 0, None), ex.fresh('s', 'int', 0, None)
    sj = ex.fresh('sj', 'int', 0, None)
    ex.oblige('first block', eq(add(a, s), add(a, s)))
    ex.oblige('step of the induction', implies(le(add(a, s), b), le(add(a, s), add(b, sj))))
    ex.oblige('totals are not negative', implies(le(0, a), le(0, add(a, s))))


def g_create(ex, P, T, what):
    K = ex.fresh('K', 'int', 1, I31)
    sz, al, pref = sizes(ex, K)
    o, c = mk_dsg(ex, T, K, sz, al)
    total = pref(zt(K))
    ex.hooks[ANY + '::getAccumulatedDataSize'] = lambda ex, this, args: total if args else None
    ex.loopspecs.append(lambda ex, cx: {'values': {cx.rest[0]: lambda k: pref(zt(k))}} if len(cx.rest) == 1 and isscalar(cx.H[cx.rest[0]]) else None)
    if what == 'stale':     # content and compensation terms of an earlier allocation
        m0 = ex.fresh('oldn', 'int', 1, U32)
        m1 = ex.fresh('oldk', 'int', 1, U32)
        fa, fb = ex.freshfun('olda', 'real'), ex.freshfun('oldb', 'real')
        ex.wr(c.f('subspacesData_'), SVec(m0, lambda i: fa(zt(i)), T))
        ex.wr(c.f('kahanData_'), SVec(m1, lambda i: fb(zt(i)), T))
        ex.invoke(P.find(CON % T + '::allocateDifferentSubspaces'), c, [ex.alloc(ex.rd(c.f('subspacesWithData_')))])
    else:
        ex.invoke(P.find(CON % T + '::createSubspaceData'), c, [])
    i = ex.fresh('i', 'int', 0, I31)
    ex.assume(lt(i, K))
    for dat, beg in (('subspacesData_', 'subspaces_'), ('kahanData_', 'kahanDataBegin_')):
        d = ex.rd(c.f(dat))
        ex.oblige(dat + ': exactly the allocated points are stored', eq(seqlen(d), total))
        p = ex.fresh('p', 'int', 0, U32)
        ex.oblige(dat + ': all entries start from zero', implies(lt(p, total), eq(elem(d, p), 0)))
        s = ex.rd(c.f(beg))
        ex.oblige(beg + ': one pointer per subspace', eq(seqlen(s), K))
        q = elem(s, i)
        ok = isinstance(q, Ptr) and q.lv.same(c.f(dat))
        ex.oblige(beg + ': blocks lie in ' + dat, ok)
        if ok:
            ex.oblige(beg + ': block of a subspace starts after all earlier blocks', eq(q.idx, pref(i)))


INST = {True: ((2, 0, 1, 3), (True,) * 4), False: ((2, 0, 1, 3), (True, True, False, True))}


def mk_filled(ex, T='double', kahan=0, inst=None):
    """sparse grid with arbitrary sizes, allocation and content, storage laid out as proved for createSubspaceData"""
    K = len(inst[0]) if inst else ex.fresh('K', 'int', 1, I31)
    sz, al, pref = sizes(ex, K, inst)
    o, c = mk_dsg(ex, T, K, sz, al)
    total = lit(pref(zt(K)))
    ex.assume(lt(0, total))
    val = ex.freshfun('val', 'real')
    ex.wr(c.f('subspacesData_'), SVec(total, lambda i: val(zt(i)), T))
    ex.wr(c.f('kahanData_'), SVec(total, lambda i: Fraction(kahan), T))
    ex.wr(c.f('subspaces_'), SVec(K, lambda i: Ptr(c.f('subspacesData_'), pref(zt(i))), T + ' *'))
    ex.wr(c.f('kahanDataBegin_'), SVec(K, lambda i: Ptr(c.f('kahanData_'), pref(zt(i))), T + ' *'))
    return o, c, K, sz, al, pref, total, val


def mk_grid(ex, dim=2):
    g, n, lb, ub, lext = mk_dfg(ex, dim)
    nl = ex.fresh('nl', 'int', 1, I31)
    ex.assume(eq(nl, prod(lext)))
    fg = ex.freshfun('fg', 'real')
    data = ex.alloc(SVec(nl, lambda i: fg(zt(i)), 'double'))
    t = ex.rd(g.f('localTensor_'))
    ex.wr(g.f('localTensor_'), Obj(t.cls, dict(t.f, data_=Ptr(data, 0))))
    return g, data, nl, fg, lb, ub, lext


def lookup_contracts(ex, K, sz, al, pref, nl, levels, inst):
    """contracts of getDownSet, getIndexInRange and getFGPointsOfSubspace; returns (number, points) per level of the down set"""
    ex.hooks[NS + 'getDownSet'] = lambda ex, this, args: Vec([Vec(l, 'int') for l in levels], 'std::vector<int>')
    found, pts, pvs = [], [], []
    for k in range(len(levels)):
        r = ex.fresh('idx%d' % k, 'int', -1, I31)       # number of the subspace, or -1
        ex.assume(lt(r, K))
        for r0 in found:         # the down set and the list of subspaces are sorted
            ex.assume(implies(and_(le(0, r), le(0, r0)), lt(r0, r)))
        found.append(r)
        n = sz(zt(r))
        if inst:
            pv = [ex.fresh('pt%d_%d' % (k, q), 'int', 0, I31) for q in range(3)]
            ex.assume(and_(lt(pv[0], pv[1]), lt(pv[1], pv[2]), lt(pv[2], nl)))
            for q in pvs:
                ex.assume(and_(*[not_(eq(x, y)) for x in pv for y in q]))
            pvs.append(pv)
            pts.append(table(pv))
            continue
        f = ex.freshfun('pts%d' % k)
        a, b = z3.Int('pa'), z3.Int('pb')
        # P03: in range and strictly increasing; P06 registration: as many as the stored size; points of different subspaces are different
        ex.fact(z3.ForAll([a], z3.Implies(z3.And(0 <= a, a < zt(n)), z3.And(f(a) >= 0, f(a) < zt(nl))), patterns=[f(a)]))
        ex.fact(z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < b, b < zt(n)), f(a) < f(b)), patterns=[z3.MultiPattern(f(a), f(b))]))
        for r2, f2 in zip(found, pts):
            ex.fact(z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < sz(zt(r)), 0 <= b, b < sz(zt(r2))), f(a) != f2(b)), patterns=[z3.MultiPattern(f(a), f2(b))]))
        pts.append(f)

    def which(l):
        for k, x in enumerate(levels):
            if len(x) == seqlen(l) and all(eq(elem(l, d), x[d]) is True for d in range(len(x))):
                return k
        raise Unsupported('lookup of a level that is not an element of the down set')

    def h_index(ex, this, args):
        k = which(ex.rd(args[0]))
        lo = ex.rd(args[1])
        ex.oblige('search range contains the subspace', and_(le(-1, lo), lt(lo, K), implies(le(0, found[k]), le(lo, found[k]))))
        return found[k]
    ex.hooks[DSG % 'double' + '::getIndexInRange'] = h_index

    def h_pts(ex, this, args):
        k = which(ex.rd(args[0]))
        return SVec(sz(zt(found[k])), lambda i: pts[k](zt(i)), 'int')
    ex.hooks[DFG + '::getFGPointsOfSubspace'] = h_pts
    return list(zip(found, pts))


def veq(a, b):
    return and_(seqlen(a) == seqlen(b), *[eq(elem(a, d), elem(b, d)) for d in range(seqlen(b))])


def g_add(ex, P, M, full, inst=False):
    o, c, K, sz, al, pref, total, val = mk_filled(ex, inst=INST[full] if inst else None)
    g, data, nl, fg, lb, ub, lext = mk_grid(ex)
    if full and not inst:
        i = z3.Int('fi')
        ex.fact(z3.ForAll([i], al(i), patterns=[al(i)]))
    levels = [[ex.fresh('l%d_%d' % (m, d), 'int', 1, 29) for d in range(2)] for m in range(M)]
    log = lookup_contracts(ex, K, sz, al, pref, nl, levels, inst)
    coeff = ex.fresh('coeff', 'real')
    ex.invoke(P.find(DSG % 'double' + '::addDistributedFullGrid', None, targs=['-1' if full else '0']), o, [g, ex.alloc(coeff)])
    d = ex.rd(c.f('subspacesData_'))
    kh = ex.rd(c.f('kahanData_'))
    ex.oblige('storage keeps its size', and_(eq(d.n, total), eq(kh.n, total)))
    p = ex.fresh('p', 'int', 0, U32)
    ex.assume(lt(p, total))
    hit = []
    for k, (r, f) in enumerate(log):
        stored = and_(le(0, r), lt(0, sz(zt(r))), al(zt(r)))
        j = ex.fresh('j', 'int', 0, U32)
        q = add(pref(zt(r)), j)
        ex.fact(pref(zt(r) + 1) == pref(zt(r)) + z3.If(al(zt(r)), sz(zt(r)), 0))
        inj = and_(stored, lt(j, sz(zt(r))))
        ex.oblige('entry gets coefficient times the value of its point', implies(inj, eq(elem(d, q), add(val(zt(q)), mul(coeff, fg(f(j)))))))
        ex.oblige('compensation vanishes in exact arithmetic', implies(inj, eq(elem(kh, q), 0)))
        hit.append(and_(stored, le(pref(zt(r)), p), lt(p, add(pref(zt(r)), sz(zt(r))))))
    ex.oblige('all other entries are unchanged', implies(not_(or_(*hit)), eq(elem(d, p), val(zt(p)))))
    ex.oblige('the grid is unchanged', ex.rd(data).fn(p) is not None and eq(ex.rd(data).fn(p), fg(p)))


def g_extract(ex, P, M, full, inst=False):
    o, c, K, sz, al, pref, total, val = mk_filled(ex, inst=INST[full] if inst else None)
    g, data, nl, fg, lb, ub, lext = mk_grid(ex)
    if full and not inst:
        i = z3.Int('fi')
        ex.fact(z3.ForAll([i], al(i), patterns=[al(i)]))
    levels = [[ex.fresh('l%d_%d' % (m, d), 'int', 1, 29) for d in range(2)] for m in range(M)]
    log = lookup_contracts(ex, K, sz, al, pref, nl, levels, inst)
    n = ex.val(ex.invoke(P.find(DFG + '::extractFromUniformSG', None, targs=['-1' if full else '0']), g, [o]))
    a = z3.Int('pa')
    d = ex.rd(data)
    p = ex.fresh('p', 'int', 0, I31)
    ex.assume(lt(p, nl))
    cnt, none = 0, []
    for k, (r, f) in enumerate(log):
        stored = and_(le(0, r), lt(0, sz(zt(r))), al(zt(r)))
        cnt = add(cnt, ite(stored, sz(zt(r)), 0))
        j = ex.fresh('j', 'int', 0, U32)
        ex.fact(pref(zt(r) + 1) == pref(zt(r)) + z3.If(al(zt(r)), sz(zt(r)), 0))
        ex.oblige('point gets the stored value of its own entry', implies(and_(stored, lt(j, sz(zt(r)))), eq(elem(d, f(j)), val(zt(add(pref(zt(r)), j))))))
        if inst:
            none.append(implies(stored, and_(*[implies(lt(x, sz(zt(r))), not_(eq(f(x), p))) for x in range(3)])))
            continue
        none.append(z3.Implies(stored, z3.ForAll([a], z3.Implies(z3.And(0 <= a, a < sz(zt(r))), f(a) != p), patterns=[f(a)])))
    ex.oblige('number of extracted values', eq(n, cnt))
    ex.oblige('all other points are unchanged', implies(and_(*none), eq(elem(d, p), fg(p))))
    ex.oblige('the sparse grid is unchanged', eq(elem(ex.rd(c.f('subspacesData_')), p), val(p)) if True else True)


def g_register(ex, P, M, dim, inst=False):
    K = 4 if inst else ex.fresh('K', 'int', 1, I31)
    if inst:
        sv = [ex.fresh('sz%d' % k, 'int', 0, U32) for k in range(4)]
        sz, al, pref = table(sv, 0), table([True] * 4), None
    else:
        sz, al, pref = sizes(ex, K)
    o, c = mk_dsg(ex, 'double', K, sz, al)
    ex.wr(o.f('dim_'), dim)
    m0 = ex.fresh('oldn', 'int', 0, U32)
    fa = ex.freshfun('olda', 'real')
    ex.wr(c.f('subspacesData_'), SVec(m0, lambda i: fa(zt(i)), 'double'))
    ex.wr(c.f('kahanData_'), SVec(m0, lambda i: fa(zt(i)), 'double'))
    g, n, lb, ub, lext = mk_dfg(ex, dim)
    levels = [[ex.fresh('l%d_%d' % (m, d), 'int', 1, 29) for d in range(dim)] for m in range(M)]
    log = lookup_contracts(ex, K, sz, al, pref, 100, levels, True)
    np_ = [ex.freshfun('np%d' % d) for d in range(dim)]
    want = []
    for m in range(M):
        w = 1
        for d in range(dim):
            x = np_[d](levels[m][d])
            ex.fact(z3.And(x >= 0, x <= I31))
            w = mul(w, x)
            ex.fact(z3.And(zt(w) >= 0, zt(w) <= I31))     # the number of local points fits the index type
        want.append(w)

    def h_num(ex, this, args):
        l, d = ex.rd(args[0]), ex.rd(args[1])
        if not isc(d):
            raise Unsupported('symbolic dimension')
        return np_[d](zt(l))
    ex.hooks[DFG + '::getNumPointsOnThisPartition'] = h_num
    ex.invoke(P.find(DSG % 'double' + '::registerDistributedFullGrid'), o, [g])
    s = ex.rd(o.f('subspacesDataSizes_'))
    ex.oblige('number of subspaces unchanged', eq(seqlen(s), K))
    i = ex.fresh('i', 'int', 0, I31)
    ex.assume(lt(i, K))
    hit = False
    for k, (r, f) in enumerate(log):
        ex.oblige('size of a common subspace is the number of its local points, once', implies(le(0, r), eq(elem(s, r), ite(eq(sz(zt(r)), 0), want[k], sz(zt(r))))))
        hit = or_(hit, eq(i, r))
    ex.oblige('sizes of other subspaces unchanged', implies(not_(hit), eq(elem(s, i), sz(i))))
    changed = or_(*[and_(le(0, r), not_(eq(elem(s, r), sz(zt(r))))) for r, f in log])
    ex.oblige('storage of the old sizes is dropped', implies(changed, and_(eq(seqlen(ex.rd(c.f('subspacesData_'))), 0), eq(seqlen(ex.rd(c.f('kahanData_'))), 0))))


def g_index(ex, P, dim, inst=False):
    """getIndexInRange on a sorted list of subspaces of any length"""
    K = 3 if inst else ex.fresh('K', 'int', 1, I31)
    o, c = mk_dsg(ex, 'double', K, lambda i: z3.IntVal(1), lambda i: z3.BoolVal(True))
    if inst:
        L = [[ex.fresh('s%d_%d' % (k, d), 'int', 1, 29) for d in range(dim)] for k in range(K)]
        at = lambda k: Vec([table([L[q][d] for q in range(K)])(k) for d in range(dim)], 'int')
        ex.wr(o.f('levels_'), Vec([Vec(x, 'int') for x in L], 'std::vector<int>'))
    else:
        fs = [ex.freshfun('lev%d' % d) for d in range(dim)]
        at = lambda k: Vec([f(zt(k)) for f in fs], 'int')
        ex.wr(o.f('levels_'), SVec(K, at, 'std::vector<int>'))
    from cver.stdmodel import vlt
    less = lambda a, b: vlt(ex, a, b)
    if inst:
        for k in range(K - 1):
            ex.assume(less(at(k), at(k + 1)))
    else:
        a, b = z3.Int('sa'), z3.Int('sb')
        ex.fact(z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < b, b < zt(K)), zt(less(at(a), at(b)))), patterns=[z3.MultiPattern(fs[0](a), fs[0](b))]))
    l = Vec([ex.fresh('l%d' % d, 'int', 1, 29) for d in range(dim)], 'int')
    lo = ex.fresh('lo', 'int', -1, I31)
    ex.assume(lt(lo, K))
    r = ex.val(ex.invoke(P.find(DSG % 'double' + '::getIndexInRange'), o, [ex.alloc(l), ex.alloc(lo)]))
    j = ex.fresh('j', 'int', 0, I31)
    ex.assume(lt(j, K))
    ex.oblige('result is a subspace number or -1', and_(le(-1, r), lt(r, K)))
    ex.oblige('a number found is that of the level', implies(le(0, r), veq(at(r), l)))
    ex.oblige('found if it is in the range searched', implies(and_(le(lo, j), veq(at(j), l)), eq(r, j)))


def g_copy(ex, P, K, sub):
    """copyDataFrom between two sparse grids with the same subspaces, arbitrary sizes and allocations"""
    sv = [ex.fresh('sz%d' % k, 'int', 0, 1 << 20) for k in range(K)]
    gr = []
    for t in range(2):
        av = [z3.Bool('al%d_%d' % (t, k)) for k in range(K)] if not sub else [z3.BoolVal(True)] * K
        p = [0]
        for k in range(K):
            p.append(add(p[-1], ite(av[k], sv[k], 0)))
        o, c = mk_dsg(ex, 'double', K, table(sv, 0), table(av, False))
        f = ex.freshfun('v%d' % t, 'real')
        ex.assume(lt(0, p[K]))
        ex.wr(c.f('subspacesData_'), SVec(p[K], (lambda f: lambda i: f(zt(i)))(f), 'double'))
        ex.wr(c.f('subspaces_'), Vec([Ptr(c.f('subspacesData_'), p[k]) for k in range(K)], 'double *'))
        gr.append((o, c, av, p, f))
    (o, c, av, p, f), (o2, c2, av2, p2, f2) = gr
    if sub:
        chosen = [k for k in range(K) if k % 2 == 0]
        ex.invoke(P.find(DSG % 'double' + '::copyDataFrom', r'SubspaceIndexContainer|std::set|set<', targs=None), o, [o2, ex.alloc(Bag('set', chosen))])
    else:
        chosen = range(K)
        ex.invoke(P.find(DSG % 'double' + '::copyDataFrom', r'^[^,]*\(const[^,]*\)'), o, [o2])
    d = ex.rd(c.f('subspacesData_'))
    ex.oblige('storage keeps its size', eq(seqlen(d), p[K]))
    j = ex.fresh('j', 'int', 0, U32)
    for k in range(K):
        own = and_(av[k], lt(j, sv[k]))
        both = and_(own, av2[k]) if k in chosen else False
        ex.oblige('subspace %d: copied if allocated in both' % k, implies(both, eq(elem(d, add(p[k], j)), f2(zt(add(p2[k], j))))))
        ex.oblige('subspace %d: unchanged otherwise' % k, implies(and_(own, not_(both)), eq(elem(d, add(p[k], j)), f(zt(add(p[k], j))))))


def g_zero(ex, P):
    o, c, K, sz, al, pref, total, val = mk_filled(ex)
    f = ex.freshfun('kh', 'real')
    ex.wr(c.f('kahanData_'), SVec(total, lambda i: f(zt(i)), 'double'))
    ex.invoke(P.find(DSG % 'double' + '::setZero'), o, [])
    p = ex.fresh('p', 'int', 0, U32)
    ex.assume(lt(p, total))
    for nm in ('subspacesData_', 'kahanData_'):
        d = ex.rd(c.f(nm))
        ex.oblige(nm + ': size unchanged', eq(seqlen(d), total))
        ex.oblige(nm + ': all entries zero', eq(elem(d, p), 0))


def g_minmax(ex, P, first, K):
    """recorded extremes after one more record (number of subspaces concrete, sizes and data arbitrary)"""
    sv = [ex.fresh('sz%d' % k, 'int', 0, 1 << 20) for k in range(K)]
    p = [0]
    for k in range(K):
        p.append(add(p[-1], sv[k]))
    o, c = mk_dsg(ex, 'double', K, table(sv, 0), table([True] * K, False))
    ex.wr(c.f('subspacesWithData_'), Bag('set', range(K)))
    f = ex.freshfun('v', 'real')
    ex.assume(lt(0, p[K]))
    ex.wr(c.f('subspacesData_'), SVec(p[K], lambda i: f(zt(i)), 'double'))
    ex.wr(c.f('subspaces_'), Vec([Ptr(c.f('subspacesData_'), p[k]) for k in range(K)], 'double *'))
    ex.wr(o.f('subspacesDataSizes_'), Vec(sv, 'unsigned int'))
    lo = [ex.fresh('lo%d' % k, 'real') for k in range(K)]
    hi = [ex.fresh('hi%d' % k, 'real') for k in range(K)]
    if not first:
        ex.wr(o.f('minCoefficientPerSubspace_'), Vec(lo, 'double'))
        ex.wr(o.f('maxCoefficientPerSubspace_'), Vec(hi, 'double'))
    big = 10**300
    ex.invoke(P.find(DSG % 'double' + '::accumulateMinMaxCoefficients'), o, [])
    mn, mx = ex.rd(o.f('minCoefficientPerSubspace_')), ex.rd(o.f('maxCoefficientPerSubspace_'))
    j = ex.fresh('j', 'int', 0, U32)
    w = ex.fresh('w', 'int', 0, U32)
    for k in range(K):
        x = f(zt(add(p[k], j)))
        ink = and_(lt(j, sv[k]), lt(-big, x), lt(x, big))
        ex.oblige('subspace %d: no value below the minimum' % k, implies(ink, le(elem(mn, k), x)))
        ex.oblige('subspace %d: no value above the maximum' % k, implies(ink, le(x, elem(mx, k))))
        if not first:
            ex.oblige('subspace %d: earlier extremes kept' % k, and_(le(elem(mn, k), lo[k]), le(hi[k], elem(mx, k))))
        if first:    # attained: on a subspace whose values are all below 0 the maximum is below 0, and vice versa
            q = z3.Int('q')
            neg_ = z3.ForAll([q], z3.Implies(z3.And(q >= zt(p[k]), q < zt(p[k + 1])), z3.And(f(q) < -1, f(q) > -big)), patterns=[f(q)])
            pos_ = z3.ForAll([q], z3.Implies(z3.And(q >= zt(p[k]), q < zt(p[k + 1])), z3.And(f(q) > 1, f(q) < big)), patterns=[f(q)])
            ex.oblige('subspace %d: maximum is attained (all negative)' % k, implies(and_(lt(0, sv[k]), neg_), lt(elem(mx, k), -1)))
            ex.oblige('subspace %d: minimum is attained (all positive)' % k, implies(and_(lt(0, sv[k]), pos_), lt(1, elem(mn, k))))


def groups(tier):
    gs = [Group('running totals', g_prefix_lemma, 'dsg.cpp', {}, [])]
    for T in ('double', 'float'):
        for w in ('fresh', 'stale'):
            gs.append(Group('storage layout %s %s' % (T, w), g_create, 'dsg.cpp', dict(T=T, what=w), [CON % T + '::createSubspaceData', CON % T + '::createKahanBuffer'], budget=200))
    for full in (True, False):
        for M in (1, 2):
            w = 'all allocated' if full else 'some allocated'
            gs.append(Group('add grid, %s, %d subspaces' % (w, M), g_add, 'dsg.cpp', dict(M=M, full=full), [DSG % 'double' + '::addDistributedFullGrid'], budget=300))
            gs.append(Group('extract grid, %s, %d subspaces' % (w, M), g_extract, 'dsg.cpp', dict(M=M, full=full), [DFG + '::extractFromUniformSG'], budget=300))
            gs.append(Group('add grid, instance, %s, %d subspaces' % (w, M), g_add, 'dsg.cpp', dict(M=M, full=full, inst=True), [DSG % 'double' + '::addDistributedFullGrid'], level='bounded', bound='4 subspaces of 0-3 points (quantifier-free copy of the proof, to refute with a model)', budget=300))
            gs.append(Group('extract grid, instance, %s, %d subspaces' % (w, M), g_extract, 'dsg.cpp', dict(M=M, full=full, inst=True), [DFG + '::extractFromUniformSG'], level='bounded', bound='4 subspaces of 0-3 points (quantifier-free copy of the proof, to refute with a model)', budget=300))
    for M, dim in ((1, 1), (1, 3), (2, 2)):
        for inst in (False, True):
            kw = dict(level='bounded', bound='4 subspaces (quantifier-free copy of the proof, to refute with a model)') if inst else {}
            gs.append(Group('register grid, %d subspaces dim=%d%s' % (M, dim, ' instance' if inst else ''), g_register, 'dsg.cpp', dict(M=M, dim=dim, inst=inst), [DSG % 'double' + '::registerDistributedFullGrid', DSG % 'double' + '::setDataSize'], budget=200, **kw))
    for dim in (1, 2, 3):
        for inst in (False, True):
            kw = dict(level='bounded', bound='3 subspaces (quantifier-free copy of the proof)') if inst else {}
            gs.append(Group('subspace lookup dim=%d%s' % (dim, ' instance' if inst else ''), g_index, 'dsg.cpp', dict(dim=dim, inst=inst), [DSG % 'double' + '::getIndexInRange'], budget=200, **kw))
    for K in (1, 3):
        gs.append(Group('copy between sparse grids, %d subspaces' % K, g_copy, 'dsg.cpp', dict(K=K, sub=False), [DSG % 'double' + '::copyDataFrom'], level='bounded', bound='%d subspaces of any size' % K, budget=200))
        for first in (True, False):
            gs.append(Group('extreme coefficients, %d subspaces%s' % (K, ' first record' if first else ''), g_minmax, 'dsg.cpp', dict(first=first, K=K), [DSG % 'double' + '::accumulateMinMaxCoefficients'], level='bounded', bound='%d subspaces of any size' % K, budget=200))
    gs.append(Group('set to zero', g_zero, 'dsg.cpp', {}, [DSG % 'double' + '::setZero']))
    return gs


def harnesses(tier):
    return [Harness('h_p06.cpp', ['src/sparsegrid/AnyDistributedSparseGrid.cpp', 'src/utils/LevelSetUtils.cpp', 'src/utils/LevelVector.cpp', 'src/utils/Stats.cpp'], np=0, timeout=300,
                    bound='random grids of 1-3 dimensions up to level 6, up to 27 ranks, histories of 8 operations, real and complex values',
                    standin=[ANY + '::getAccumulatedDataSize', DSG % 'double' + '::maxReduceSubspaceSizes', DSG % 'double' + '::deleteSubspaceData'])]
