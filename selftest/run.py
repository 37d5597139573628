import sys; sys.path.insert(0, '/verif')
sys.setrecursionlimit(20000)
from cver import frontend as F
from cver.execu import *
from cver.values import *
import cver.loopsum as L
import traceback
P = F.Program('/verif/selftest/loops.cpp', 'selftest')
I31 = (1 << 31) - 1
def t(name, f):
    if len(sys.argv) > 1 and name not in sys.argv[1:]: return
    ex = Ex(P); ex.loopdebug = True
    try:
        ex.explore(lambda: f(ex))
    except Exception as e:
        traceback.print_exc()
    bad = [o for o in ex.obs if o.status != 'discharged']
    print(name, len(ex.obs), 'obligations', [(o.name, o.status, o.detail[:200], o.where) for o in bad][:6])
def fn(ex, nm): return P.find('selftest::' + nm)
def arr(ex, n, base='a', sort='real'):
    g = ex.freshfun(base, sort)
    lv = ex.alloc(SVec(n, lambda i: g(zt(i)), 'double' if sort == 'real' else 'int'))
    return lv, g
def t1(ex):
    n = ex.fresh('n', 'int', 0, 1000)
    r = ex.invoke(fn(ex, 'sumaff'), None, [ex.alloc(n)])
    ex.oblige('sum', eq(ex.val(r), add(3, mul(2, n))))
t('sumaff', t1)
def t2(ex, name='copyadd'):
    n = ex.fresh('n', 'int', 0, 1000); m = ex.fresh('m', 'int', 0, 100000); off = ex.fresh('off', 'int', 0, 1000)
    s, sf = arr(ex, add(off, n)); f, ff = arr(ex, m); ind, inf = arr(ex, n, 'ind', 'int')
    j = z3.Int('j'); j2 = z3.Int('j2')
    ex.fact(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.And(inf(j) >= 0, inf(j) < m)), patterns=[inf(j)]))
    ex.fact(z3.ForAll([j, j2], z3.Implies(z3.And(j >= 0, j < j2, j2 < n), inf(j) < inf(j2)), patterns=[z3.MultiPattern(inf(j), inf(j2))]))
    c = ex.fresh('c', 'real')
    q = ex.fresh('q', 'int', 0, 1000); ex.assume(lt(q, n))
    o = ex.fresh('o', 'int', 0, 100000); ex.assume(lt(o, m))
    if name == 'copyadd':
        ex.invoke(fn(ex, name), None, [ex.alloc(Ptr(s, off)), ex.alloc(Ptr(f, 0)), ind, ex.alloc(c)])
        ex.oblige('entry', eq(ex.rd(s).fn(add(off, q)), sf(off + q) + c * ff(inf(q))))
        ex.assume(lt(o, off))
        ex.oblige('frame', eq(ex.rd(s).fn(o), sf(o)))
    else:
        ex.invoke(fn(ex, name), None, [ex.alloc(Ptr(f, 0)), ex.alloc(Ptr(s, off)), ind])
        ex.oblige('entry', eq(ex.rd(f).fn(inf(q)), sf(off + q)))
        ex.fact(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), inf(j) != o)))
        ex.oblige('frame', eq(ex.rd(f).fn(o), ff(o)))
t('copyadd', t2)
t('scatter', lambda ex: t2(ex, 'scatter'))
def t3(ex):
    n = ex.fresh('n', 'int', 0, 1000)
    r = ex.val(ex.invoke(fn(ex, 'evens'), None, [ex.alloc(n)]))
    q = ex.fresh('q', 'int', 0, 1000); ex.assume(lt(q, n))
    ex.oblige('len', eq(r.n, n)); ex.oblige('el', eq(r.fn(q), mul(2, q)))
t('evens', t3)
def t4(ex):
    n = ex.fresh('n', 'int', 0, 1000); a, af = arr(ex, n, 'a', 'int'); g = ex.fresh('g', 'int', 0, 50)
    r = ex.val(ex.invoke(fn(ex, 'filt'), None, [a, ex.alloc(g)]))
    q = ex.fresh('q', 'int', 0, 1000); ex.assume(lt(q, n)); ex.assume(eq(af(q), g))
    C, k, c = ex.countfuns[-1]
    ex.oblige('member', eq(r.fn(C(q)), q))
    ex.oblige('len<=n', le(r.n, n))
t('filt', t4)
def t5(ex):
    n = ex.fresh('n', 'int', 0, 1000); a, af = arr(ex, n, 'a', 'int'); g = ex.fresh('g', 'int', 0, 50)
    r = ex.val(ex.invoke(fn(ex, 'find'), None, [a, ex.alloc(g)]))
    q = ex.fresh('q', 'int', 0, 1000); ex.assume(lt(q, n))
    ex.oblige('found is right', implies(le(0, r), and_(lt(r, n), eq(af(zt(r)), g))))
    ex.oblige('not found', implies(lt(r, 0), not_(eq(af(q), g))))
    ex.oblige('first', implies(and_(le(0, r), lt(q, r)), not_(eq(af(q), g))))
t('find', t5)
def t6(ex):
    n = ex.fresh('n', 'int', 0, 1000); off = ex.fresh('off', 'int', 1, 1000); d, df = arr(ex, ex.fresh('m', 'int', 5000, 10000))
    ex.invoke(fn(ex, 'strided'), None, [ex.alloc(Ptr(d, 0)), ex.alloc(n), ex.alloc(off)])
    q = ex.fresh('q', 'int', 0, 1000); ex.assume(lt(q, n))
    r = ex.rd(d)
    ex.oblige('val', eq(r.fn(off + 2 * q), df(off + 2 * q) - (df(off + 2 * q - 1) + df(off + 2 * q + 1)) / 2))
    ex.oblige('frame', eq(r.fn(off + 2 * q + 1), df(off + 2 * q + 1)))
t('strided', t6)
def t7(ex, nm='nest'):
    n = ex.fresh('n', 'int', 0, 1000); m = ex.fresh('m', 'int', 0, 1000) ; d, df = arr(ex, 1000000)
    if nm == 'nest2': ex.assume(le(n, 5))
    ex.invoke(fn(ex, nm), None, [ex.alloc(Ptr(d, 0)), ex.alloc(n), ex.alloc(m)])
    q = ex.fresh('q', 'int', 0, 1000); ex.assume(lt(q, n)); p = ex.fresh('p', 'int', 0, 1000); ex.assume(lt(p, m if nm == 'nest2' else 4))
    r = ex.rd(d)
    if nm == 'nest': ex.oblige('val', eq(r.fn(4 * q + p), q + 10 * p))
    else: ex.oblige('val', eq(r.fn(5 * p + q), q + 10 * p))
t('nest', t7)
t('nest2', lambda ex: t7(ex, 'nest2'))
def t8(ex):
    n = ex.fresh('n', 'int', 0, 1000); d, df = arr(ex, n)
    ex.invoke(fn(ex, 'bad'), None, [ex.alloc(Ptr(d, 0)), ex.alloc(n)])
t('bad', t8)
def t9(ex):
    n = ex.fresh('n', 'int', 0, 1000); a, af = arr(ex, n, 'a', 'int')
    g = z3.Int('g')
    def spec(ex, L):
        key = L.rest[0]
        return dict(named=lambda k, get: [('upper bound', z3.ForAll([g], z3.Implies(z3.And(g >= 0, g < zt(k)), af(g) <= zt(get(key))), patterns=[af(g)])), ('nonneg', le(0, get(key)))])
    ex.loopspecs.append(spec)
    r = ex.val(ex.invoke(fn(ex, 'mx'), None, [a]))
    q = ex.fresh('q', 'int', 0, 1000); ex.assume(lt(q, n))
    ex.oblige('max', le(af(q), r))
t('mx', t9)
