"""P09: every component grid is assigned to exactly one executor."""
from .dfgcommon import *
from .p05 import ssum, sym_spaces, mk_scheme, NS, CS
from cver.runner import Group, Harness
from cver.loopsum import entries_of, zsub, Entry, NMap, safe_elem

LEVEL = 'proof'
ASSUMPTIONS = ['fractions are non-negative and sum to exactly 1 over the reals (rounding of the machine sums is covered by the harness only); 1-6 systems',
               'load-balanced split: bounded proof (up to 3 grids, thorough 4, arbitrary loads) plus harness']
TRUSTED = ['std::sort, std::map, std::iota models', 'boost::property_tree JSON reader (harness runs the real one)']
NOTE = 'round robin, file based and fractional splits proved for any number of grids; load balanced split bounded'


def out3(ex):
    return (ex.alloc(Vec([], 'std::vector<int>')), ex.alloc(Vec([], 'double')), ex.alloc(Vec([], 'unsigned long')))


def g_rr(ex, P, D):
    num, fs = sym_spaces(ex, D)
    co = ex.freshfun('co', 'real')
    G = ex.fresh('G', 'int', 1, I31)
    g = ex.fresh('g', 'int', 0, I31)
    ex.assume(lt(g, G))
    ex.safety = False
    o = mk_scheme(ex, D, [1] * D, [1] * D, D)
    ex.wr(o.f('combiSpaces_'), SVec(num, lambda k: Vec([f(zt(k)) for f in fs], 'int'), 'std::vector<int>'))
    ex.wr(o.f('coefficients_'), SVec(num, lambda k: co(zt(k)), 'double'))
    L, C, T = out3(ex)
    r = ex.val(ex.invoke(P.find(NS + 'getRoundRobinLevels'), None, [o, ex.alloc(g), ex.alloc(G), L, C, T]))
    ex.oblige('the total number of grids is reported', eq(r, num))
    L, C, T = ex.rd(L), ex.rd(C), ex.rd(T)
    k = ex.fresh('k', 'int', 0, I31)
    ex.oblige('levels, coefficients and numbers belong together (lengths)', and_(eq(L.n, T.n), eq(C.n, T.n)))
    kk = ex.fresh('kk', 'int', 0, I31)
    ex.assume(lt(kk, T.n))
    t = elem(T, kk)
    ex.oblige('assigned numbers are grids', and_(le(0, t), lt(t, num)))
    ex.oblige('own coefficient', eq(elem(C, kk), co(zt(t))))
    for d in range(D):
        ex.oblige('own level in dimension %d' % d, eq(elem(elem(L, kk), d), fs[d](zt(t))))
    k2 = ex.fresh('k2', 'int', 0, I31)
    ex.assume(lt(k2, kk))
    ex.oblige('no grid twice', not_(eq(elem(T, k2), t)))
    return num, T, G, g


def g_rr_all(ex, P, D):
    num, T, G, g = g_rr(ex, P, D)
    kk = ex.fresh('kq', 'int', 0, I31)
    ex.assume(lt(kk, T.n))
    # T[k] = g + k*G and its length is the number of such values below num: every t in [0,num) has exactly one owner g = t mod G
    ex.oblige('grid numbers of a group are g, g+G, g+2G, ...', eq(elem(T, kk), add(g, mul(kk, G))))
    ex.oblige('all grids of the residue class are taken', and_(le(num, add(g, mul(T.n, G)))))


def g_assigned(ex, P, D):
    num, fs = sym_spaces(ex, D)
    co = ex.freshfun('co', 'real')
    pg = ex.freshfun('pg')
    i = z3.Int('si')
    ex.fact(z3.ForAll([i], z3.And(pg(i) >= 0, pg(i) <= I31), patterns=[pg(i)]))
    ex.assume(lt(0, num))
    g = ex.fresh('g', 'int', 0, I31)
    ex.safety = False
    o = mk_scheme(ex, D, [1] * D, [1] * D, D)
    for nm, v in (('combiSpaces_', SVec(num, lambda k: Vec([f(zt(k)) for f in fs], 'int'), 'std::vector<int>')), ('coefficients_', SVec(num, lambda k: co(zt(k)), 'double')),
                  ('processGroupNumbers_', SVec(num, lambda k: pg(zt(k)), 'int'))):
        ex.wr(o.f(nm), v)
    L, C, T = out3(ex)
    r = ex.val(ex.invoke(P.find(NS + 'getAssignedLevels'), None, [o, ex.alloc(g), L, C, T]))
    ex.oblige('the total number of grids is reported', eq(r, num))
    L, C, T = ex.rd(L), ex.rd(C), ex.rd(T)
    ex.oblige('levels, coefficients and numbers belong together (lengths)', and_(eq(L.n, T.n), eq(C.n, T.n)))
    es = [entries_of(v) for v in (T, C, L)]
    k = ex.fresh('k', 'int', 0, I31)
    ex.assume(lt(k, num))
    for nm, e in zip(('numbers', 'coefficients', 'levels'), es):
        if e is None or len(e) != 1 or len(e[0].params) != 1:
            raise Unsupported('selection of %s not summarised as one conditional append' % nm)
        e = e[0]
        p, nn = e.params[0]
        ex.oblige(nm + ': every grid is considered', eq(nn, num))
        ex.oblige(nm + ': selected exactly if the group matches', eq(tobool(zsub(e.cond, [(p, k)])), eq(pg(zt(k)), g)))
        v = e.val
        if nm == 'numbers':
            ex.oblige('own number', eq(zsub(v, [(p, k)]), k))
        elif nm == 'coefficients':
            ex.oblige('own coefficient', eq(zsub(v, [(p, k)]), co(zt(k))))
        else:
            for d in range(D):
                ex.oblige('own level %d' % d, eq(zsub(elem(v, d), [(p, k)]), fs[d](zt(k))))


def g_split(ex, P, D, S):
    """decomposeScheme: consecutive disjoint ranges that cover the whole scheme, levels and coefficients cut at the same positions"""
    num, fs = sym_spaces(ex, D)
    co = ex.freshfun('co', 'real')
    fr = [ex.fresh('fr%d' % i, 'real') for i in range(S)]
    for f in fr:
        ex.assume(le(0, f))
    ex.assume(eq(ssum(fr), 1))
    ex.safety = False
    A = ex.alloc(SVec(num, lambda k: Vec([f(zt(k)) for f in fs], 'int'), 'std::vector<int>'))
    B = ex.alloc(SVec(num, lambda k: co(zt(k)), 'double'))
    DS, DC = ex.alloc(Vec([], 'std::vector<std::vector<int>>')), ex.alloc(Vec([], 'std::vector<double>'))
    ex.invoke(P.find(NS + 'CombiThirdLevelScheme::decomposeScheme'), None, [A, B, DS, DC, ex.alloc(S), ex.alloc(Vec(fr, 'double'))])
    ds, dc = ex.rd(DS), ex.rd(DC)
    ex.oblige('one part per system', and_(eq(seqlen(ds), S), eq(seqlen(dc), S)))
    k = ex.fresh('k', 'int', 0, I31)
    start = 0
    for s in range(S):
        l, c = elem(ds, s), elem(dc, s)
        n = seqlen(l)
        ex.oblige('system %d: as many coefficients as grids' % s, eq(seqlen(c), n))
        ex.oblige('system %d: part size in range' % s, and_(le(0, n), le(add(start, n), num)))
        for d in range(D):
            ex.oblige('system %d: own level %d' % (s, d), implies(lt(k, n), eq(elem(elem(l, k), d), fs[d](zt(add(start, k))))))
        ex.oblige('system %d: own coefficient' % s, implies(lt(k, n), eq(elem(c, k), co(zt(add(start, k))))))
        start = add(start, n)
    ex.oblige('all grids are distributed', eq(start, num))


def g_select(ex, P, D, S):
    """createThirdLevelScheme: a system gets its own part of the decomposition (contract of decomposeScheme)"""
    fs = [[ex.fresh('l%d_%d' % (s, d), 'int') for d in range(D)] for s in range(max(S, 1))]
    cs = [ex.fresh('c%d' % s, 'real') for s in range(max(S, 1))]
    A, B = ex.alloc(Vec([Vec(f, 'int') for f in fs], 'std::vector<int>')), ex.alloc(Vec(cs, 'double'))
    called = []

    def h(ex, this, args):
        called.append(1)
        ex.oblige('the whole scheme is decomposed', and_(args[0].same(A), args[1].same(B)))
        ex.oblige('number of systems', eq(ex.val(args[4]), S))
        ex.wr(args[2], Vec([Vec([Vec(f, 'int')], 'std::vector<int>') for f in fs], 'std::vector<std::vector<int>>'))
        ex.wr(args[3], Vec([Vec([c], 'double') for c in cs], 'std::vector<double>'))
    ex.hooks[NS + 'CombiThirdLevelScheme::decomposeScheme'] = h
    sysn = ex.fresh('sys', 'int', 0, max(S, 1) - 1)
    NL, NC = ex.alloc(Vec([], 'std::vector<int>')), ex.alloc(Vec([], 'double'))
    ex.safety = False
    ex.invoke(P.find(NS + 'CombiThirdLevelScheme::createThirdLevelScheme'), None, [A, B, ex.alloc(sysn), ex.alloc(S), NL, NC, ex.alloc(Vec([], 'double'))])
    nl, nc = ex.rd(NL), ex.rd(NC)
    if S < 2:
        ex.oblige('one system keeps the whole scheme', and_(not called, eq(seqlen(nl), 1), eq(elem(nc, 0), cs[0]), *[eq(elem(elem(nl, 0), d), fs[0][d]) for d in range(D)]))
    else:
        for s in range(S):
            ex.oblige('system %d gets its own part' % s, implies(eq(sysn, s), and_(eq(seqlen(nl), 1), eq(seqlen(nc), 1), eq(elem(nc, 0), cs[s]), *[eq(elem(elem(nl, 0), d), fs[s][d]) for d in range(D)])))


def g_load(ex, P, N, G):
    """load-balanced split of N grids with arbitrary loads over G groups"""
    load = [ex.fresh('load%d' % i, 'int', 1, 1 << 60) for i in range(N)]
    ex.assume(le(ssum(load), 1 << 62))
    co = [ex.fresh('co%d' % i, 'real') for i in range(N)]
    ex.hooks[NS + 'getCombiDegreesOfFreedom'] = lambda ex, this, args: elem(Vec(load), elem(ex.rd(args[0]), 0))
    ex.safety = False
    parts = []
    for g in range(G):
        o = mk_scheme(ex, 1, [1], [1], 1)
        ex.wr(o.f('combiSpaces_'), Vec([Vec([i], 'int') for i in range(N)], 'std::vector<int>'))
        ex.wr(o.f('coefficients_'), Vec(co, 'double'))
        L, C, T = out3(ex)
        r = ex.val(ex.invoke(P.find(NS + 'getLoadBalancedLevels'), None, [o, ex.alloc(g), ex.alloc(G), ex.alloc(Vec([2], 'unsigned char')), L, C, T]))
        ex.oblige('the total number of grids is reported', eq(r, N))
        L, C, T = ex.rd(L), ex.rd(C), ex.rd(T)
        parts.append((L, C, T))
        ex.oblige('lengths', and_(eq(seqlen(L), seqlen(T)), eq(seqlen(C), seqlen(T))))
        for k in range(seqlen(T)):
            t = elem(T, k)
            ex.oblige('own level and coefficient', and_(eq(elem(elem(L, k), 0), t), eq(elem(C, k), elem(Vec(co), t))))
    for i in range(N):
        cnt = 0
        for L, C, T in parts:
            for k in range(seqlen(T)):
                cnt = add(cnt, ite(eq(elem(T, k), i), 1, 0))
        ex.oblige('grid %d has exactly one group' % i, eq(cnt, 1))
    # greedy: a group's load without its last (smallest) grid never exceeds the final load of any other group
    tot = [ssum([elem(Vec(load), elem(T, k)) for k in range(seqlen(T))]) for L, C, T in parts]
    for a in range(G):
        T = parts[a][2]
        if seqlen(T):
            last = elem(Vec(load), elem(T, seqlen(T) - 1))
            for b in range(G):
                if a != b:
                    ex.oblige('each grid went to a least loaded group', le(sub(tot[a], last), tot[b]))


def groups(tier):
    gs = []
    for D in (1, 2, 3, 6):
        gs.append(Group('round robin dim=%d' % D, g_rr_all, 'scheme.cpp', dict(D=D), [NS + 'getRoundRobinLevels']))
        gs.append(Group('scheme file groups dim=%d' % D, g_assigned, 'scheme.cpp', dict(D=D), [NS + 'getAssignedLevels']))
    for S in (1, 2, 3, 4, 6):
        gs.append(Group('split over %d systems' % S, g_split, 'scheme.cpp', dict(D=2, S=S), [NS + 'CombiThirdLevelScheme::decomposeScheme']))
        gs.append(Group('part of %d systems' % S, g_select, 'scheme.cpp', dict(D=2, S=S), [NS + 'CombiThirdLevelScheme::createThirdLevelScheme']))
    for N, G in ((1, 1), (2, 2), (3, 2), (3, 3)) + (() if tier == 'quick' else ((4, 2), (4, 3))):
        gs.append(Group('load balancing %d grids %d groups' % (N, G), g_load, 'scheme.cpp', dict(N=N, G=G), [NS + 'getLoadBalancedLevels'], level='bounded', bound='%d grids with arbitrary loads, %d groups' % (N, G), budget=300))
    return gs


def harnesses(tier):
    return [Harness('h_p09.cpp', ['src/combischeme/CombiMinMaxScheme.cpp', 'src/combischeme/CombiThirdLevelScheme.cpp', 'src/utils/LevelSetUtils.cpp', 'src/utils/LevelVector.cpp', 'src/io/BroadcastParameters.cpp',
                                  'src/io/H5InputOutput.cpp', 'src/utils/MonteCarlo.cpp'], np=1, timeout=300, bound='up to 700 grids, 300 groups, 7 systems; 70000 grids for the fractional split',
                    standin=[NS + 'getLoadBalancedLevels', NS + 'getCombiDegreesOfFreedom', NS + 'CombiMinMaxSchemeFromFile'])]
