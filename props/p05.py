"""P05: combination schemes: level sets, component grids and coefficients."""
import itertools
from fractions import Fraction
from .dfgcommon import *
from cver.runner import Group, Harness
from cver.loopsum import entries_of, zsub, Entry, NMap, safe_elem

LEVEL = 'proof'
ASSUMPTIONS = ['component-grid and level ranges up to 200 per dimension (getDownSet: 1000), dimensions 1-4 (lemma and coefficients 1-6); the number of grids is unbounded',
               'the recursion of createTruncatedHierarchicalLevelsRec / getDownSetRecursively is proved level by level: each recursive call is replaced by the same contract for the next dimension',
               'counting lemma: the number of level vectors with a given sum above a lower bound is the stars-and-bars number']
TRUSTED = ['boost::math::binomial_coefficient', 'std::vector, std::accumulate, std::transform models']
NOTE = 'proved: level sets, classical scheme without dummy dimensions, classical coefficients, combination lemma; bounded (harness): dummy dimensions, adaptive schemes, fault tolerance, conjoint/down sets of schemes, HypercubeDownSetGenerator'
NS = 'combigrid::'
CS = NS + 'CombiMinMaxScheme'


def h_kod(ex, this, args):
    k, d = ex.rd(args[0]), ex.rd(args[1])
    v = Vec([Vec(list(c), 'unsigned char') for c in itertools.combinations(range(d), k)], 'std::vector<unsigned char>')
    return ex.alloc(v)


def ssum(v):
    s = 0
    for x in v:
        s = add(s, x)
    return s


def g_downset(ex, P, dim):
    """getDownSet: exactly the vectors 1 <= k <= l, each once, lexicographic"""
    l = [ex.fresh('l%d' % d, 'int', 1, 1000) for d in range(dim)]
    ex.assume_fits = True
    ex.safety = False
    r = ex.val(ex.invoke(P.find(NS + 'getDownSet'), None, [ex.alloc(Vec(l, 'int'))]))
    es = entries_of(r)
    if es is None or len(es) != 1 or len(es[0].params) != dim:
        raise Unsupported('enumeration not summarised as one append per combination')
    e = es[0]
    ks = [ex.fresh('k%d' % d, 'int', 0, 1000) for d in range(dim)]
    for k, c in zip(ks, l):
        ex.assume(lt(k, c))
    for (p, nn), d in zip(e.params, range(dim)):
        ex.oblige('level in dimension %d runs over 1..l' % d, eq(zsub(nn, [(q, ks[j]) for j, (q, _) in enumerate(e.params)]), l[d]))
    cond, idx, val = e.at(ks)
    ex.oblige('every combination is enumerated', cond)
    for d in range(dim):
        ex.oblige('entry %d of the enumerated vector' % d, eq(val.e[d], add(ks[d], 1)))
    size, pos = 1, 0
    for d in range(dim):
        pos = add(mul(pos, l[d]), ks[d])
        size = mul(size, l[d])
    ex.oblige('position (each combination once)', eq(idx, pos))
    ex.oblige('number of vectors', eq(r.n, size))


def member(l, lmax, rlmin, n):
    dim = len(l)
    c = [and_(le(1, x), le(x, m)) for x, m in zip(l, lmax)]
    for k in range(2, dim + 1):
        for K in itertools.combinations(range(dim), k):
            c.append(le(ssum([l[i] for i in K]), add(ssum([rlmin[i] for i in K]), n)))
    return and_(*c)


def level_set(ex, dim, created, lmax, rlmin, n, tag):
    """created contains exactly the members, each once"""
    es = entries_of(created)
    if es is None or len(es) != 1 or len(es[0].params) != dim:
        raise Unsupported('level set not summarised')
    e = es[0]
    ks = [ex.fresh('k%d' % d, 'int', 0, None) for d in range(dim)]
    cond, idx, val = e.at(ks)
    m = [(q, k) for (q, _), k in zip(e.params, ks)]
    inr = and_(*[and_(le(0, k), lt(k, zsub(nn, m))) for (q, nn), k in zip(e.params, ks)])
    ex.oblige(tag + ': created levels satisfy all truncation conditions', implies(and_(inr, cond), member(val.e, lmax, rlmin, n)))
    for d in range(dim):
        ex.oblige(tag + ': distinct iterations create distinct levels (%d)' % d, eq(val.e[d], add(ks[d], 1)))
    v = [ex.fresh('v%d' % d, 'int') for d in range(dim)]
    kv = [sub(x, 1) for x in v]
    cond, idx, val = e.at(kv)
    m = [(q, zt(k)) for (q, _), k in zip(e.params, kv)]
    inr = and_(*[and_(le(0, k), lt(k, zsub(nn, m))) for (q, nn), k in zip(e.params, kv)])
    for d, ((q, nn), k) in enumerate(zip(e.params, kv)):
        ex.oblige(tag + ': every admissible level is visited (%d)' % d, implies(member(v, lmax, rlmin, n), and_(le(0, k), lt(k, zsub(nn, m)))))
    ex.oblige(tag + ': every admissible level is created', implies(member(v, lmax, rlmin, n), cond))
    for d in range(dim):
        ex.oblige(tag + ': and is the created vector (%d)' % d, eq(val.e[d], v[d]))


def mk_minmax(ex, dim, lo=1):
    lmin = [ex.fresh('lmin%d' % d, 'int', lo, 100) for d in range(dim)]
    lmax = [ex.fresh('lmax%d' % d, 'int', 1, 200) for d in range(dim)]
    for a, b in zip(lmin, lmax):
        ex.assume(le(a, b))
    return lmin, lmax


def vmin(ex, xs):
    m = xs[0]
    for x in xs[1:]:
        m = ite(lt(x, m), x, m)
    return m


def rec_contract(D, lmax, lmin, n):
    """createTruncatedHierarchicalLevelsRec(dim, n, l, lmax, lmin, created): for any prefix l[0..dim-1] within 1..lmax, appends every
    vector with that prefix that satisfies the truncation conditions, each at its own position; l[0..dim-1] is unchanged"""
    def c(ex, this, args):
        dim = ex.rd(args[0])
        if not isc(dim):
            raise Unsupported('symbolic recursion dimension')
        l = ex.rd(args[2])
        pre = list(l.e[:dim])
        ex.oblige('recursion: dimension in range', 0 < dim < D)
        ex.oblige('recursion: level difference passed on', eq(ex.rd(args[1]), n))
        for d in range(D):
            ex.oblige('recursion: lmax/lmin passed on (%d)' % d, and_(eq(ex.rd(args[3]).e[d], lmax[d]), eq(ex.rd(args[4]).e[d], lmin[d])))
        for d, x in enumerate(pre):
            ex.oblige('recursion: prefix within 1..lmax (%d)' % d, and_(le(1, x), le(x, lmax[d])))
        free = D - dim
        created = ex.rd(args[5])
        ex.uniq += 1
        I = z3.IntSort()
        B = z3.Function('block.%d' % ex.uniq, *([I] * (dim + 1)))
        pos = z3.Function('pos.%d' % ex.uniq, *([I] * (D + 1)))
        ps = [z3.Int('x%d.%d' % (d, ex.uniq)) for d in range(dim, D)]
        qs = [z3.Int('y%d.%d' % (d, ex.uniq)) for d in range(dim)]
        val = lambda pr: list(pr) + [add(p, 1) for p in ps]
        body = z3.Implies(zt(and_(*([le(0, p) for p in ps] + [member(val(qs), lmax, lmin, n)]))),
                          z3.And(pos(*(qs + ps)) >= 0, pos(*(qs + ps)) < B(*qs)))
        ex.fact(z3.ForAll(qs + ps, body, patterns=[pos(*(qs + ps))]))
        ex.fact(z3.ForAll(qs, B(*qs) >= 0, patterns=[B(*qs)]))
        ex.loopdefs.extend(ex.st.pc[-2:])
        zp = [zt(x) for x in pre]
        ent = Entry([(p, lmax[dim + k]) for k, p in enumerate(ps)], member(val(pre), lmax, lmin, n), add(created.n, pos(*(zp + ps))), Vec(val(pre), 'int'))
        base = created.fn if isinstance(created, SVec) else NBase((lambda vv: lambda i: safe_elem(vv, i))(created))
        ex.wr(args[5], SVec(add(created.n, B(*zp)), NMap(ex, base, [ent]), created.ty))
        ex.wr(args[2], Vec(pre + [ex.fresh('lx', 'int') for _ in range(free)], l.ty))
    return c


def g_rec(ex, P, D, dim, lo):
    """the contract of one recursion level, the next level replaced by its contract (induction on the dimension)"""
    n = ex.fresh('n', 'int', 0, 200)
    lmin = [ex.fresh('rlmin%d' % d, 'int', lo, 100) for d in range(D)]
    lmax = [add(x, n) for x in lmin]
    for x in lmax:
        ex.assume(le(1, x))
    pre = [ex.fresh('pre%d' % d, 'int', 1, 1000) for d in range(dim)]
    for x, y in zip(pre, lmax):
        ex.assume(le(x, y))
    ex.havoc_rest = True
    ex.hooks[NS + 'AllKOutOfDDimensions::get'] = h_kod
    fn = P.find(NS + 'createTruncatedHierarchicalLevelsRec')
    hook = rec_contract(D, lmax, lmin, n)
    ex.hooks[NS + 'createTruncatedHierarchicalLevelsRec'] = hook
    l = ex.alloc(Vec(pre + [ex.fresh('lx', 'int') for _ in range(D - dim)], 'int'))
    out = ex.alloc(Vec((), 'std::vector<int>'))
    ex.invoke(fn, None, [ex.alloc(dim), ex.alloc(n), l, ex.alloc(Vec(lmax, 'int')), ex.alloc(Vec(lmin, 'int')), out])
    for d in range(dim):
        ex.oblige('prefix unchanged (%d)' % d, eq(ex.rd(l).e[d], pre[d]))
    created = ex.rd(out)
    es = entries_of(created)
    if es is None or len(es) != 1 or len(es[0].params) != D - dim:
        raise Unsupported('level set not summarised')
    e = es[0]
    ks = [ex.fresh('k%d' % d, 'int', 0, None) for d in range(dim, D)]
    cond, idx, val = e.at(ks)
    m = [(q, k) for (q, _), k in zip(e.params, ks)]
    inr = and_(*[and_(le(0, k), lt(k, zsub(nn, m))) for (q, nn), k in zip(e.params, ks)])
    ex.oblige('created levels satisfy all truncation conditions', implies(and_(inr, cond), member(val.e, lmax, lmin, n)))
    for d in range(D):
        ex.oblige('created level is the prefix followed by the enumerated entries (%d)' % d, eq(val.e[d], pre[d] if d < dim else add(ks[d - dim], 1)))
    v = pre + [ex.fresh('v%d' % d, 'int') for d in range(dim, D)]
    kv = [sub(x, 1) for x in v[dim:]]
    cond, idx, val = e.at(kv)
    m = [(q, zt(k)) for (q, _), k in zip(e.params, kv)]
    mem = member(v, lmax, lmin, n)
    for d, ((q, nn), k) in enumerate(zip(e.params, kv)):
        ex.oblige('every admissible level is visited (%d)' % (dim + d), implies(mem, and_(le(0, k), lt(k, zsub(nn, m)))))
    ex.oblige('every admissible level is created', implies(mem, cond))


def g_trunc(ex, P, dim):
    """createTruncatedHierarchicalLevels establishes the precondition of the recursion and hands its result on"""
    lmin, lmax = mk_minmax(ex, dim, -100)
    calls = []

    def c_rec(ex, this, args):
        calls.append(1)
        n, ml = vmin(ex, [sub(a, b) for a, b in zip(lmax, lmin)]), ex.rd(args[4])
        ex.oblige('recursion starts at dimension 0', eq(ex.rd(args[0]), 0))
        ex.oblige('recursion gets the smallest level difference', eq(ex.rd(args[1]), n))
        ex.oblige('working vector has one entry per dimension', eq(ex.rd(args[2]).n, dim))
        for d in range(dim):
            ex.oblige('lmax passed on (%d)' % d, eq(ex.rd(args[3]).e[d], lmax[d]))
            ex.oblige('lmax = lmin + n (%d)' % d, eq(ml.e[d], sub(lmax[d], n)))
        ex.wr(args[5], SVec(ex.fresh('num', 'int', 0, I31), lambda i: Vec([0] * dim, 'int'), 'std::vector<int>'))
    ex.hooks[NS + 'createTruncatedHierarchicalLevelsRec'] = c_rec
    out = ex.alloc(Vec((), 'std::vector<int>'))
    ex.invoke(P.find(NS + 'createTruncatedHierarchicalLevels'), None, [ex.alloc(Vec(lmax, 'int')), ex.alloc(Vec(lmin, 'int')), out])
    ex.oblige('recursion called once', len(calls) == 1)


def c_trunc(dim, spec):
    """contract of createTruncatedHierarchicalLevels as proved above, in terms of an enumeration of the level set"""
    def c(ex, this, args):
        lmax, lmin = ex.rd(args[0]).e, ex.rd(args[1]).e
        ex.oblige('truncated levels: arguments have one entry per dimension', and_(eq(len(lmax), len(lmin)), len(lmax) > 0))
        D = len(lmax)
        for d in range(D):
            ex.oblige('truncated levels: lmin <= lmax (%d)' % d, le(lmin[d], lmax[d]))
        ex.oblige('truncated levels: output empty', eq(ex.rd(args[2]).n, 0))
        n = vmin(ex, [sub(a, b) for a, b in zip(lmax, lmin)])
        rl = [sub(a, n) for a in lmax]
        fs = [ex.freshfun('lev%d' % d) for d in range(D)]
        ex.uniq += 1
        pos = z3.Function('posof.%d' % ex.uniq, *([z3.IntSort()] * (D + 1)))
        num = ex.fresh('num', 'int', 0, I31)
        i = z3.Int('li')
        ex.fact(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < num), z3.And(zt(member([f(i) for f in fs], lmax, rl, n)), pos(*[f(i) for f in fs]) == i)), patterns=[fs[0](i)]))
        vs = [z3.Int('lv%d' % d) for d in range(D)]
        ex.fact(z3.ForAll(vs, z3.Implies(zt(member(vs, lmax, rl, n)), z3.And(pos(*vs) >= 0, pos(*vs) < num, *[fs[d](pos(*vs)) == vs[d] for d in range(D)])), patterns=[pos(*vs)]))
        spec.update(fs=fs, pos=pos, num=num, n=n, rl=rl, lmax=lmax)
        ex.wr(args[2], SVec(num, lambda k: Vec([f(zt(k)) for f in fs], 'int'), 'std::vector<int>'))
    return c


def mk_scheme(ex, D, lmin, lmax, eff):
    return ex.alloc(Obj(CS, {'n_': 0, 'dim_': D, 'effDim_': eff, 'lmin_': Vec(lmin, 'int'), 'lmax_': Vec(lmax, 'int'),
                             'levels_': Vec((), 'std::vector<int>'), 'combiSpaces_': Vec((), 'std::vector<int>'), 'coefficients_': Vec((), 'double')}))


def g_classical(ex, P, D, dummy):
    """component grids of the classical scheme: exactly the vectors >= lmin' on the diagonals n'-q, q < effective dimension, where
    lmin' = lmax - (smallest positive level difference) in active dimensions and lmax in dummy dimensions"""
    lmin = [ex.fresh('lmin%d' % d, 'int', 1, 100) for d in range(D)]
    lmax = [lmin[d] if d in dummy else add(lmin[d], ex.fresh('diff%d' % d, 'int', 1, 100)) for d in range(D)]
    act = [d for d in range(D) if d not in dummy]
    eff = len(act)
    o = mk_scheme(ex, D, lmin, lmax, eff)
    spec = {}
    ex.havoc_rest = True
    ex.name_terms = True
    ex.hooks[NS + 'createTruncatedHierarchicalLevels'] = c_trunc(eff, spec)
    ex.hooks[CS + '::computeCombiCoeffsClassical'] = lambda ex, this, args: None
    kind = ex.invoke(P.find(CS + '::createClassicalCombischeme'), o, [])
    c = vmin(ex, [sub(lmax[d], lmin[d]) for d in act])
    nlmin = [lmax[d] if d in dummy else sub(lmax[d], c) for d in range(D)]
    n = add(ssum(nlmin), c)
    ob = ex.rd(o)
    for d in range(D):
        ex.oblige('minimum level raised to the regular scheme (%d)' % d, eq(ob.f['lmin_'].e[d], nlmin[d]))
        ex.oblige('maximum level unchanged (%d)' % d, eq(ob.f['lmax_'].e[d], lmax[d]))
    ex.oblige('diagonal of the scheme', eq(ob.f['n_'], n))
    sp = ob.f['combiSpaces_']
    es = entries_of(sp)
    if not es:
        raise Unsupported('component grids not summarised')
    on = lambda v: and_(*([le(nlmin[d], v[d]) for d in range(D)] + [or_(*[eq(ssum(v), sub(n, q)) for q in range(eff)])]))
    for t, e in enumerate(es):
        ks = [ex.fresh('k', 'int', 0, None) for _ in e.params]
        cond, idx, val = e.at(ks)
        m = [(q, k) for (q, _), k in zip(e.params, ks)]
        inr = and_(*[and_(le(0, k), lt(k, zsub(nn, m))) for (q, nn), k in zip(e.params, ks)])
        h = and_(inr, cond)
        ex.oblige('grids have one level per dimension', len(val.e) == D)
        ex.oblige('every grid lies on one of the diagonals, >= lmin (%d)' % t, implies(h, on(val.e)))
        for d in range(D):
            ex.oblige('every grid is within lmin and lmax (%d)' % d, implies(h, and_(le(lmin[d], val.e[d]), le(val.e[d], lmax[d]))))
    # completeness and uniqueness: the vector v is added by exactly one entry
    v = [ex.fresh('v%d' % d, 'int') for d in range(D)]
    h = on(v)
    p = spec['pos'](*[zt(v[d]) for d in act])
    ex.assume(h)
    ex.oblige('grids on the diagonals belong to the level set', and_(member([v[d] for d in act], spec['lmax'], spec['rl'], spec['n'])))
    hits = []
    for e in es:
        if len(e.params) == 1:
            cond, idx, val = e.at([p])
            hits.append(and_(cond, *[eq(a, b) for a, b in zip(val.e, v)]))
        else:
            ks = [p] + [sub(v[d], 1) for d in dummy]
            if len(ks) != len(e.params):
                raise Unsupported('unexpected enumeration')
            cond, idx, val = e.at(ks)
            hits.append(and_(cond, *[eq(a, b) for a, b in zip(val.e, v)]))
    ex.oblige('every grid on the diagonals is added', or_(*hits))
    ex.oblige('every grid on the diagonals is added once', and_(*[not_(and_(a, b)) for i, a in enumerate(hits) for b in hits[:i]]))


def h_binom(ex, this, args):
    n, k = ex.val(args[0]), ex.val(args[1])
    if not isc(n):
        raise Unsupported('binomial')
    from math import comb
    r = Fraction(0)
    ex.oblige('binomial coefficient arguments in range', and_(le(0, k), le(k, n)))
    r = 0
    for j in range(int(n) + 1):
        r = ite(eq(k, j), Fraction(comb(int(n), j)), r)
    return r


def sym_spaces(ex, D, lo=1, hi=200):
    fs = [ex.freshfun('sp%d' % d) for d in range(D)]
    num = ex.fresh('num', 'int', 0, I31)
    i = z3.Int('si')
    for f in fs:
        ex.fact(z3.ForAll([i], z3.And(f(i) >= lo, f(i) <= hi), patterns=[f(i)]))
    return num, fs


def g_coeffs(ex, P, D):
    """one coefficient per component grid: (-1)^q * binomial(effective dimension - 1, q) on diagonal n - q"""
    from math import comb
    num, fs = sym_spaces(ex, D)
    n = ex.fresh('n', 'int', D, 10000)
    i = z3.Int('si')
    tot = lambda t: ssum([f(zt(t)) for f in fs])
    ex.fact(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < num), z3.And(zt(le(tot(i), n)), zt(lt(sub(n, D), tot(i))))), patterns=[fs[0](i)]))
    o = mk_scheme(ex, D, [1] * D, [1] * D, D)
    ex.wr(o.f('n_'), n)
    ex.wr(o.f('combiSpaces_'), SVec(num, lambda k: Vec([f(zt(k)) for f in fs], 'int'), 'std::vector<int>'))
    ex.hooks['binomial_coefficient'] = ex.hooks['boost::math::binomial_coefficient'] = h_binom
    ex.invoke(P.find(CS + '::computeCombiCoeffsClassical'), o, [])
    co = ex.rd(o.f('coefficients_'))
    ex.oblige('one coefficient per component grid', eq(co.n, num))
    k = ex.fresh('k', 'int', 0, I31)
    ex.assume(lt(k, num))
    c = elem(co, k)
    for q in range(D):
        ex.oblige('coefficient on diagonal n-%d' % q, implies(eq(tot(k), sub(n, q)), eq(c, Fraction((-1) ** q * comb(D - 1, q)))))


def g_lemma(ex, P, D):
    """sum over the diagonals: for a subspace m, s = n - |max(m,lmin)| >= 0, the number of level vectors >= max(m,lmin) with sum n-q is
    binomial(s-q+D-1, D-1) (0 if q > s); then sum_q (-1)^q binomial(D-1,q) binomial(s-q+D-1,D-1) = 1"""
    from math import comb, factorial
    s = z3.Real('s')
    ex.assume(s >= 0)
    lhs = z3.RealVal(0)
    for q in range(D):
        t = z3.RealVal(1)
        for j in range(1, D):
            t = t * (s - q + j)
        lhs = lhs + (-1) ** q * comb(D - 1, q) * t / factorial(D - 1)
    ex.oblige('coefficients of the grids containing a subspace sum to one (dimension %d)' % D, lhs == 1)
    # the polynomial vanishes where no vector exists: -(D-1) <= s-q <= -1
    u = z3.Int('u')
    if D > 1:
        ex.assume(z3.And(u <= -1, u >= -(D - 1)))
    t = z3.IntVal(1)
    for j in range(1, D):
        t = t * (u + j)
    if D > 1:
        ex.oblige('no level vectors beyond the smallest (dimension %d)' % D, t == 0)
    # number of vectors with D positive-slack entries and given sum: recurrence c(D,r) = sum_{x=0..r} c(D-1,r-x) -> Pascal step
    r = ex.fresh('r', 'int', 1, None)
    P1, P2, P3 = z3.RealVal(1), z3.RealVal(1), z3.RealVal(1)
    for j in range(1, D):
        P1 = P1 * (z3.ToReal(r) + j)          # (D-1)! * c(D, r)
        P2 = P2 * (z3.ToReal(r) - 1 + j)      # (D-1)! * c(D, r-1)
    for j in range(1, D - 1):
        P3 = P3 * (z3.ToReal(r) + j)          # (D-2)! * c(D-1, r)
    if D > 1:
        ex.oblige('counting recurrence (dimension %d)' % D, P1 == P2 + (D - 1) * P3)


def groups(tier):
    gs = []
    for dim in (1, 2, 3, 4):
        gs.append(Group('getDownSet dim=%d' % dim, g_downset, 'scheme.cpp', dict(dim=dim), [NS + 'getDownSet', NS + 'getDownSetRecursively'], budget=200))
    R = [NS + 'createTruncatedHierarchicalLevelsRec']
    for D in range(1, 5 if tier == 'quick' else 7):
        for lo in (1, -100):
            for dim in range(D):
                if tier == 'quick' and D == 4 and dim == 3 and lo < 0:
                    continue
                gs.append(Group('truncated levels D=%d level %d lmin>=%d' % (D, dim, lo), g_rec, 'scheme.cpp', dict(D=D, dim=dim, lo=lo), R, budget=300))
        gs.append(Group('truncated levels entry dim=%d' % D, g_trunc, 'scheme.cpp', dict(dim=D), [NS + 'createTruncatedHierarchicalLevels']))
    for D, dummy in ((1, ()), (2, ()), (3, ())) + (() if tier == 'quick' else ((4, ()),)):
        gs.append(Group('classical scheme dim=%d dummy=%s' % (D, dummy), g_classical, 'scheme.cpp', dict(D=D, dummy=dummy), [CS + '::createClassicalCombischeme'], budget=200))
    for D in (1, 2, 3, 4, 5, 6):
        gs.append(Group('classical coefficients dim=%d' % D, g_coeffs, 'scheme.cpp', dict(D=D), [CS + '::computeCombiCoeffsClassical'], budget=120))
        gs.append(Group('combination lemma dim=%d' % D, g_lemma, 'scheme.cpp', dict(D=D), []))
    return gs


def harnesses(tier):
    return [Harness('h_p05.cpp', ['src/combischeme/CombiMinMaxScheme.cpp', 'src/utils/LevelSetUtils.cpp', 'src/utils/LevelVector.cpp'], np=0, timeout=300, bound='all schemes of dimension <= 4 with small levels, random ones up to dimension 6',
                    standin=[CS + '::createAdaptiveCombischeme', CS + '::computeCombiCoeffsAdaptive', CS + '::makeFaultTolerant', CS + '::createDownSet', CS + ' (dummy dimensions)', NS + 'getConjointSet', NS + 'HypercubeDownSetGenerator', NS + 'AllKOutOfDDimensions'])]
