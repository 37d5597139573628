"""P04: hierarchization kernels, inverses and pole traversal."""
from fractions import Fraction
from .dfgcommon import *
from cver.runner import Group, Harness

LEVEL = 'proof'
ASSUMPTIONS = ['floating point arithmetic treated as real arithmetic in the kernels (the harness uses data on which it is exact)',
               'periodic bases: equal values on both ends of a pole; one-sided boundary only with periodic or hat bases',
               'level loop cut at its head: the contract of one pass is one level step of the definition; levels 1-29',
               'exchange of predecessors between processes, pole traversal and choice of the kernel: bounded harness over real MPI']
TRUSTED = ['MPI library']
NOTE = 'all six 1-d transform pairs proved for every pole length and data; exchange, traversal and dispatch bounded'
NS = 'combigrid::'
H = Fraction(1, 2)
Q = Fraction(1, 4)
BASES = ('hat', 'full_weighting', 'biorthogonal')


def kname(base, inv):
    return NS + ('dehierarchize_' if inv else 'hierarchize_') + base + '_boundary_kernel'


def level_of(i, L):
    l = L
    while l > 0 and i % 2 == 0:
        i //= 2
        l -= 1
    return l if i else 0


def spec(base, per, y, L, lmin):
    """definition of the transform on 2^L + 1 values"""
    y = list(y)
    n = 1 << L
    lin = lambda *ts: ssum([mul(c, v) for c, v in ts])
    if base == 'hat':
        out = list(y)
        for i in range(n + 1):
            l = level_of(i, L)
            if l > lmin:
                h = 1 << (L - l)
                out[i] = lin((1, y[i]), (-H, y[i - h]), (-H, y[i + h]))
        return out
    for l in range(L, lmin, -1):
        s = 1 << (L - l)
        ev, od = range(0, n + 1, 2 * s), range(s, n, 2 * s)
        new = list(y)
        if base == 'full_weighting':        # low pass first, detail against the smoothed neighbours
            for i in ev:
                if 0 < i < n:
                    new[i] = lin((Q, y[i - s]), (H, y[i]), (Q, y[i + s]))
            if per:
                new[0] = new[n] = lin((Q, y[0]), (Q, y[n]), (Q, y[s]), (Q, y[n - s]))
            else:
                new[0], new[n] = lin((H, y[0]), (H, y[s])), lin((H, y[n]), (H, y[n - s]))
            for i in od:
                new[i] = lin((1, y[i]), (-H, new[i - s]), (-H, new[i + s]))
        else:                               # biorthogonal: detail first, then lifting of the coarse values
            for i in od:
                new[i] = lin((1, y[i]), (-H, y[i - s]), (-H, y[i + s]))
            for i in ev:
                if 0 < i < n:
                    new[i] = lin((1, y[i]), (Q, new[i - s]), (Q, new[i + s]))
            if per:
                new[0] = new[n] = lin((H, y[0]), (H, y[n]), (Q, new[s]), (Q, new[n - s]))
            else:
                new[0], new[n] = lin((1, y[0]), (H, new[s])), lin((1, y[n]), (H, new[n - s]))
        y = new
    return y


def ssum(v):
    s = 0
    for x in v:
        s = add(s, x)
    return s


def run(ex, P, base, inv, per, vals, L, lmin):
    lv = ex.alloc(Vec(vals, 'double'))
    f = P.find(kname(base, inv), targs=['double', '-1' if per else '0'])
    ex.invoke(f, None, [ex.alloc(Ptr(lv, 0)), ex.alloc(L), ex.alloc(lmin)])
    return list(ex.rd(lv).e)


def g_kernel(ex, P, base, per, L, lmin):
    ex.safety = False
    n = 1 << L
    y = [ex.fresh('y%d' % i, 'real') for i in range(n + 1)]
    if per:
        y[n] = y[0]
    a = run(ex, P, base, False, per, y, L, lmin)
    e = spec(base, per, y, L, lmin)
    for i in range(n + 1):
        ex.oblige('coefficient %d of the %s basis' % (i, base), eq(a[i], e[i]))
    b = run(ex, P, base, True, per, a, L, lmin)
    for i in range(n + 1):
        ex.oblige('dehierarchization restores value %d' % i, eq(b[i], y[i]))


def step(base, per, inv, y, L, l, i, kind):
    """one level step (l -> l-1, or back for inv) of the transform on y: position -> value, evaluated at position i"""
    n, s = 1 << L, 1 << (L - l)
    lin = lambda *ts: ssum([mul(c, v) for c, v in ts])
    odd, even = kind == 'odd', kind == 'even'
    if kind == 'finer':
        return y(zt(i))
    at = lambda f, p: f(zt(p))
    lo, hi = sub(i, s), add(i, s)
    if base == 'hat':
        sg = H if inv else -H
        return ite(odd, lin((1, at(y, i)), (sg, at(y, lo)), (sg, at(y, hi))), at(y, i))
    c = lambda f: (lambda p: f(p))
    if base == 'full_weighting':
        if not inv:
            ev = lambda p: ite(eq(p, 0), lin((Q, y(zt(0))), (Q, y(zt(n))), (Q, y(zt(s))), (Q, y(zt(n - s)))) if per else lin((H, y(zt(0))), (H, y(zt(s)))),
                   ite(eq(p, n), lin((Q, y(zt(0))), (Q, y(zt(n))), (Q, y(zt(s))), (Q, y(zt(n - s)))) if per else lin((H, y(zt(n))), (H, y(zt(n - s)))),
                       lin((Q, at(y, sub(p, s))), (H, at(y, p)), (Q, at(y, add(p, s))))))
            return ite(odd, lin((1, at(y, i)), (-H, ev(lo)), (-H, ev(hi))), ite(even, ev(i), at(y, i)))
        od = lambda p: lin((1, at(y, p)), (H, at(y, sub(p, s))), (H, at(y, add(p, s))))
        ev = lambda p: ite(eq(p, 0), lin((1, y(zt(0))), (1, y(zt(n))), (-H, od(s)), (-H, od(n - s))) if per else lin((2, y(zt(0))), (-1, od(s))),
               ite(eq(p, n), lin((1, y(zt(0))), (1, y(zt(n))), (-H, od(s)), (-H, od(n - s))) if per else lin((2, y(zt(n))), (-1, od(n - s))),
                   lin((2, at(y, p)), (-H, od(sub(p, s))), (-H, od(add(p, s))))))
        return ite(odd, od(i), ite(even, ev(i), at(y, i)))
    if not inv:
        od = lambda p: lin((1, at(y, p)), (-H, at(y, sub(p, s))), (-H, at(y, add(p, s))))
        ev = lambda p: ite(eq(p, 0), lin((H, y(zt(0))), (H, y(zt(n))), (Q, od(s)), (Q, od(n - s))) if per else lin((1, y(zt(0))), (H, od(s))),
               ite(eq(p, n), lin((H, y(zt(0))), (H, y(zt(n))), (Q, od(s)), (Q, od(n - s))) if per else lin((1, y(zt(n))), (H, od(n - s))),
                   lin((1, at(y, p)), (Q, od(sub(p, s))), (Q, od(add(p, s))))))
        return ite(odd, od(i), ite(even, ev(i), at(y, i)))
    ev = lambda p: ite(eq(p, 0), lin((H, y(zt(0))), (H, y(zt(n))), (-Q, y(zt(s))), (-Q, y(zt(n - s)))) if per else lin((1, y(zt(0))), (-H, y(zt(s)))),
           ite(eq(p, n), lin((H, y(zt(0))), (H, y(zt(n))), (-Q, y(zt(s))), (-Q, y(zt(n - s)))) if per else lin((1, y(zt(n))), (-H, y(zt(n - s)))),
               lin((1, at(y, p)), (-Q, at(y, sub(p, s))), (-Q, at(y, add(p, s))))))
    return ite(odd, lin((1, at(y, i)), (H, ev(lo)), (H, ev(hi))), ite(even, ev(i), at(y, i)))


def g_step(ex, P, base, per, inv, L, lmin):
    """the kernel on a pole of 2^L + 1 values, level loop cut at its head: each pass is exactly the level step of the definition"""
    ex.safety = False
    n = 1 << L
    f0 = ex.freshfun('y', 'real')
    lv = ex.alloc(SVec(n + 1, lambda k: f0(zt(k)), 'double'))
    order = list(range(lmin + 1, L + 1)) if inv else list(range(L, lmin, -1))
    st = dict(loops=set(), done=0, y=None)

    def hook(ex, node, depth, it, when):
        if depth != 0 or ex.discovery:
            return
        st['loops'].add(node['id'])
        if len(st['loops']) > 1 or it > len(order):
            raise Unsupported('level loop not of the expected shape')
        if when == 'pre':
            y = ex.freshfun('y%d_' % it, 'real')
            if per and base != 'hat':
                ex.fact(eq(y(zt(0)), y(zt(n))))
            st['y'] = y
            ex.wr(lv, SVec(n + 1, lambda k: y(zt(k)), 'double'))
        else:
            st['done'] += 1
            a = ex.rd(lv)
            l = order[it - 1]
            s = 1 << (L - l)
            # one representative per residue class: i = 2s q (+ s), and the untouched rest
            q = ex.fresh('q', 'int', 0, n // (2 * s))
            r = ex.fresh('r', 'int', 0, 2 * s - 1)
            for nm, i, side in (('even', mul(2 * s, q), True), ('odd', add(mul(2 * s, q), s), lt(q, n // (2 * s)))) + ((('finer', add(mul(2 * s, q), r), and_(lt(q, n // (2 * s)), not_(eq(r, 0)), not_(eq(r, s)))),) if s > 1 else ()):
                e = step(base, per, inv, st['y'], L, l, i, nm)
                ex.oblige('level step %d: %s points' % (l, nm), implies(side, eq(elem(a, i), e)))
    ex.loophook = hook
    ex.sumfirst = lambda ex, node: ex.loopdepth > 0
    fn = P.find(kname(base, inv), targs=['double', '-1' if per else '0'])
    ex.invoke(fn, None, [ex.alloc(Ptr(lv, 0)), ex.alloc(L), ex.alloc(lmin)])
    if st['done'] != len(order):
        raise Unsupported('level loop not of the expected shape')


def g_lemma(ex, P, base, per):
    """the inverse level step undoes the level step (over the definitions alone, any level and position)"""
    for L, l in ((1, 1), (4, 4), (4, 2), (4, 1)):
        n, s = 1 << L, 1 << (L - l)
        f = ex.freshfun('y', 'real')
        if per:
            ex.fact(eq(f(zt(0)), f(zt(n))))
        for i in range(0, n + 1):
            a = lambda p: step(base, per, False, f, L, l, p, 'even' if z3.simplify(p).as_long() % (2 * s) == 0 else 'odd' if z3.simplify(p).as_long() % s == 0 else 'finer')
            kind = 'even' if i % (2 * s) == 0 else 'odd' if i % s == 0 else 'finer'
            ex.oblige('inverse step undoes the step', eq(step(base, per, True, a, L, l, i, kind), f(zt(i))))


def groups(tier):
    gs = []
    for base in BASES:
        for per in (False, True):
            fs = [kname(base, False), kname(base, True)]
            nm = base + (' periodic' if per else '')
            for L in range(1, 8 if tier == 'quick' else 11):
                gs.append(Group('%s level %d' % (nm, L), g_kernels, 'hier.cpp', dict(base=base, per=per, L=L), fs))
            for L in (9, 13, 29) if tier == 'quick' else range(8, 30):
                for inv in (False, True):
                    gs.append(Group('%s%s steps on level %d' % ('de-' if inv else '', nm, L), g_step, 'hier.cpp', dict(base=base, per=per, inv=inv, L=L, lmin=0 if L > 9 else 3), [kname(base, inv)]))
            gs.append(Group('%s inverse lemma' % nm, g_lemma, 'hier.cpp', dict(base=base, per=per), []))
    return gs


def g_kernels(ex, P, base, per, L):
    for lmin in range(L):
        g_kernel(ex, P, base, per, L, lmin)


def harnesses(tier):
    return [Harness('h_p04.cpp', ['src/utils/LevelVector.cpp', 'src/utils/LevelSetUtils.cpp', 'src/utils/Stats.cpp'], np=6, timeout=300,
                    bound='1-d grids up to level 5 (thorough 6), random 2- to 4-d grids, up to 6 processes, random decompositions, all bases, boundaries and minimum levels, exact data')]
