"""Symbolic values. Scalars are Python int/bool/Fraction (concrete) or z3 terms (Int, Real, Bool)."""
import z3
from fractions import Fraction


class Unsupported(Exception):
    pass


class MergeFail(Exception):
    pass


CONC = (int, bool, Fraction)


def isc(x):
    return isinstance(x, CONC)


def isterm(x):
    return isinstance(x, z3.ExprRef)


def isscalar(x):
    return isinstance(x, CONC) or isinstance(x, z3.ExprRef)


def zt(x):
    """to a z3 term"""
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, Fraction):
        return z3.RealVal(x)
    return x


def isreal(x):
    return isinstance(x, Fraction) or (isterm(x) and z3.is_real(x))


def simp(x):
    if isc(x):
        return x
    y = z3.simplify(x)
    return lit(y)


def lit(y):
    if z3.is_int_value(y):
        return y.as_long()
    if z3.is_true(y):
        return True
    if z3.is_false(y):
        return False
    if z3.is_rational_value(y):
        return Fraction(y.numerator_as_long(), y.denominator_as_long())
    return y


def _num2(a, b):
    a = int(a) if isinstance(a, bool) else a
    b = int(b) if isinstance(b, bool) else b
    if isterm(a) and z3.is_bool(a):
        a = z3.If(a, z3.IntVal(1), z3.IntVal(0))
    if isterm(b) and z3.is_bool(b):
        b = z3.If(b, z3.IntVal(1), z3.IntVal(0))
    ra, rb = isreal(a), isreal(b)
    if ra and not rb:
        b = Fraction(b) if isc(b) else z3.ToReal(b)
    elif rb and not ra:
        a = Fraction(a) if isc(a) else z3.ToReal(a)
    return a, b


def add(a, b):
    a, b = _num2(a, b)
    if isc(a) and isc(b):
        return a + b
    if isc(a) and a == 0:
        return b
    if isc(b) and b == 0:
        return a
    return zt(a) + zt(b)


def sub(a, b):
    a, b = _num2(a, b)
    if isc(a) and isc(b):
        return a - b
    if isc(b) and b == 0:
        return a
    if isterm(a) and isterm(b) and a.eq(b):
        return Fraction(0) if z3.is_real(a) else 0
    return simp(zt(a) - zt(b)) if not isreal(a) else zt(a) - zt(b)


def mul(a, b):
    a, b = _num2(a, b)
    if isc(a) and isc(b):
        return a * b
    for x, y in ((a, b), (b, a)):
        if isc(x):
            if x == 0:
                return Fraction(0) if isreal(a) else 0
            if x == 1:
                return y
    return zt(a) * zt(b)


def neg(a):
    return sub(0, a)


def tdiv(a, b):
    """C truncating integer division (b != 0)."""
    if isc(a) and isc(b):
        q = abs(a) // abs(b)
        return q if (a >= 0) == (b >= 0) else -q
    if isc(b) and b == 1:
        return a
    a_, b_ = zt(a), zt(b)
    if isc(b) and b > 0:
        return simp(z3.If(a_ >= 0, a_ / b_, -((-a_) / b_)))
    return z3.If(a_ >= 0, a_ / b_, -((-a_) / b_))   # z3 div: floor for b>0, ceil for b<0 on the nonneg numerator = trunc


def tmod(a, b):
    if isc(a) and isc(b):
        return a - tdiv(a, b) * b
    if isc(b) and b in (1, -1):
        return 0
    a_, b_ = zt(a), zt(b)
    return z3.If(a_ >= 0, a_ % b_, -((-a_) % b_))


def rdiv(a, b):
    a = Fraction(a) if isinstance(a, (int, bool)) else (z3.ToReal(a) if z3.is_int(a) else a) if isterm(a) else a
    b = Fraction(b) if isinstance(b, (int, bool)) else (z3.ToReal(b) if z3.is_int(b) else b) if isterm(b) else b
    if isc(a) and isc(b):
        if b == 0:
            raise Unsupported('real division by zero')
        return a / b
    if isc(b) and b == 1:
        return a
    return zt(a) / zt(b)


def eq(a, b):
    if isinstance(a, bool) or isinstance(b, bool) or (isterm(a) and z3.is_bool(a)) or (isterm(b) and z3.is_bool(b)):
        a, b = tobool(a), tobool(b)
        if isc(a) and isc(b):
            return a == b
        if isc(a):
            return b if a else not_(b)
        if isc(b):
            return a if b else not_(a)
        return a == b
    a, b = _num2(a, b)
    if isc(a) and isc(b):
        return a == b
    if isterm(a) and isterm(b) and a.eq(b):
        return True
    return lit(z3.simplify(zt(a) == zt(b)))


def lt(a, b):
    a, b = _num2(a, b)
    if isc(a) and isc(b):
        return a < b
    return lit(z3.simplify(zt(a) < zt(b)))


def le(a, b):
    a, b = _num2(a, b)
    if isc(a) and isc(b):
        return a <= b
    return lit(z3.simplify(zt(a) <= zt(b)))


def tobool(a):
    if isinstance(a, bool):
        return a
    if isinstance(a, (int, Fraction)):
        return a != 0
    if z3.is_bool(a):
        return a
    return lit(z3.simplify(a != 0))


def not_(a):
    if isinstance(a, bool):
        return not a
    return lit(z3.simplify(z3.Not(a)))


def and_(*xs):
    ys = []
    for x in xs:
        x = tobool(x)
        if x is False:
            return False
        if x is True:
            continue
        ys.append(x)
    if not ys:
        return True
    return ys[0] if len(ys) == 1 else z3.And(ys)


def or_(*xs):
    ys = []
    for x in xs:
        x = tobool(x)
        if x is True:
            return True
        if x is False:
            continue
        ys.append(x)
    if not ys:
        return False
    return ys[0] if len(ys) == 1 else z3.Or(ys)


def implies(a, b):
    return or_(not_(a), b)


def ite(c, a, b):
    c = tobool(c)
    if c is True:
        return a
    if c is False:
        return b
    return merge(c, a, b)


class Val:
    pass


class Obj(Val):
    __slots__ = ('cls', 'f')

    def __init__(self, cls, f):
        self.cls, self.f = cls, f

    def set(self, k, v):
        g = dict(self.f)
        g[k] = v
        return Obj(self.cls, g)

    def __repr__(self):
        return 'Obj(%s,%s)' % (self.cls, self.f)


class Vec(Val):
    """sequence of concrete length"""
    __slots__ = ('e', 'ty')

    def __init__(self, e, ty=None):
        self.e, self.ty = tuple(e), ty

    @property
    def n(self):
        return len(self.e)

    def __repr__(self):
        return 'Vec%s' % (self.e,)


class Node:
    """array content: index term -> value"""
    def __call__(self, i):
        raise NotImplementedError


class NBase(Node):
    def __init__(self, fn, zf=None):
        self.fn, self.zf = fn, zf

    def __call__(self, i):
        return self.fn(i)


class NStore(Node):
    def __init__(self, p, i, v):
        self.p, self.i, self.v = p, i, v

    def __call__(self, j):
        c = eq(j, self.i)
        if c is True:
            return self.v
        if c is False:
            return self.p(j)
        return merge(c, self.v, self.p(j))


class NIte(Node):
    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __call__(self, j):
        return merge(self.c, self.a(j), self.b(j))


class SVec(Val):
    """sequence of symbolic length (or symbolic content); fn: Node"""
    __slots__ = ('n', 'fn', 'ty', 'ver')

    def __init__(self, n, fn, ty=None):
        self.n = n
        self.fn = fn if isinstance(fn, Node) else NBase(fn)
        self.ty = ty

    def __repr__(self):
        return 'SVec(%s)' % (self.n,)


class Ptr(Val):
    """pointer / iterator: element idx of the sequence stored at lvalue seq; or to an object (idx None)."""
    __slots__ = ('lv', 'idx')

    def __init__(self, lv, idx):
        self.lv, self.idx = lv, idx

    def __repr__(self):
        return 'Ptr(%s,%s)' % (self.lv, self.idx)


class Null(Val):
    def __repr__(self):
        return 'NULL'


NULL = Null()


class Opq(Val):
    __slots__ = ('tag',)

    def __init__(self, tag):
        self.tag = tag

    def __repr__(self):
        return 'Opq(%s)' % (self.tag,)


class Str(Val):
    __slots__ = ('s',)

    def __init__(self, s):
        self.s = s

    def __repr__(self):
        return 'Str(%r)' % (self.s,)


class Clo(Val):
    def __init__(self, node, env, this):
        self.node, self.env, self.this = node, env, this


class Fun(Val):
    def __init__(self, f, name=''):
        self.f, self.name = f, name


class Bag(Val):
    """concrete-shape associative/ordered container: kind in (set,map,list,deque); items tuple"""
    __slots__ = ('kind', 'items')

    def __init__(self, kind, items=()):
        self.kind, self.items = kind, tuple(items)

    def __repr__(self):
        return '%s%s' % (self.kind, self.items)


class PSet(Val):
    """std::set of integers given by its membership predicate (any size); iterators are the keys themselves"""
    __slots__ = ('pred', 'n')
    END = 1 << 62

    def __init__(self, pred, n=None):
        self.pred, self.n = pred, n


class LV:
    __slots__ = ('root', 'path')

    def __init__(self, root, path=()):
        self.root, self.path = root, path

    def f(self, name):
        return LV(self.root, self.path + (name,))

    def i(self, idx):
        return LV(self.root, self.path + (('i', idx),))

    def same(self, o):
        if self.root != o.root or len(self.path) != len(o.path):
            return False
        for p, q in zip(self.path, o.path):
            if isinstance(p, tuple) != isinstance(q, tuple):
                return False
            if isinstance(p, tuple):
                c = eq(p[1], q[1])
                if c is not True:
                    return False
            elif p != q:
                return False
        return True

    def __repr__(self):
        return 'LV(%s%s)' % (self.root, ''.join('.%s' % (p,) for p in self.path))


def elem(v, i):
    if isinstance(v, Vec):
        if isc(i):
            if not 0 <= i < len(v.e):
                raise Unsupported('index %s out of range %d' % (i, len(v.e)))
            return v.e[i]
        if not v.e:
            raise Unsupported('symbolic index into empty vector')
        r = v.e[-1]
        for k in range(len(v.e) - 2, -1, -1):
            r = ite(eq(i, k), v.e[k], r)
        return r
    if isinstance(v, SVec):
        return v.fn(i)
    if isinstance(v, Bag) and isc(i) and 0 <= i < len(v.items):
        return v.items[i][1] if v.kind == 'map' else v.items[i]
    raise Unsupported('elem of %r' % (v,))


def setelem(v, i, x):
    if isinstance(v, Vec):
        if isc(i):
            if not 0 <= i < len(v.e):
                raise Unsupported('store index %s out of range %d' % (i, len(v.e)))
            e = list(v.e)
            e[i] = x
            return Vec(e, v.ty)
        return Vec([ite(eq(i, k), x, y) for k, y in enumerate(v.e)], v.ty)
    if isinstance(v, SVec):
        return SVec(v.n, NStore(v.fn, i, x), v.ty)
    if isinstance(v, Bag) and isc(i) and 0 <= i < len(v.items):
        e = list(v.items)
        e[i] = (e[i][0], x) if v.kind == 'map' else x
        return Bag(v.kind, e)
    raise Unsupported('setelem of %r' % (v,))


def same(a, b):
    if a is b:
        return True
    if isscalar(a) and isscalar(b):
        if isc(a) and isc(b):
            return a == b and isinstance(a, bool) == isinstance(b, bool)
        if isterm(a) and isterm(b):
            return a.eq(b)
        return False
    if isinstance(a, Vec) and isinstance(b, Vec):
        return len(a.e) == len(b.e) and all(same(x, y) for x, y in zip(a.e, b.e))
    if isinstance(a, Obj) and isinstance(b, Obj):
        return a.cls == b.cls and a.f.keys() == b.f.keys() and all(same(a.f[k], b.f[k]) for k in a.f)
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.lv.same(b.lv) and (same(a.idx, b.idx) if a.idx is not None and b.idx is not None else a.idx is b.idx)
    if isinstance(a, Str) and isinstance(b, Str):
        return a.s == b.s
    if isinstance(a, Opq) and isinstance(b, Opq):
        return a.tag == b.tag
    if isinstance(a, Bag) and isinstance(b, Bag):
        return a.kind == b.kind and len(a.items) == len(b.items) and all(
            (same(x, y) if not isinstance(x, tuple) else same(x[0], y[0]) and same(x[1], y[1])) for x, y in zip(a.items, b.items))
    if isinstance(a, SVec) and isinstance(b, SVec):
        return a.fn is b.fn and same(a.n, b.n)
    return False


def merge(c, a, b):
    if same(a, b):
        return a
    if isscalar(a) and isscalar(b):
        if (isinstance(a, bool) or (isterm(a) and z3.is_bool(a))) and (isinstance(b, bool) or (isterm(b) and z3.is_bool(b))):
            return lit(z3.simplify(z3.If(c, zt(a), zt(b))))
        a, b = _num2(a, b)
        return z3.If(c, zt(a), zt(b))
    if isinstance(a, Obj) and isinstance(b, Obj) and a.cls == b.cls and a.f.keys() == b.f.keys():
        return Obj(a.cls, {k: merge(c, a.f[k], b.f[k]) for k in a.f})
    if isinstance(a, Vec) and isinstance(b, Vec) and len(a.e) == len(b.e):
        return Vec([merge(c, x, y) for x, y in zip(a.e, b.e)], a.ty)
    if isinstance(a, SVec) and isinstance(b, SVec):
        return SVec(merge(c, a.n, b.n), NIte(c, a.fn, b.fn), a.ty)
    if isinstance(a, SVec) and isinstance(b, Vec) and not b.e:      # content beyond the length is never read
        return SVec(merge(c, a.n, 0), a.fn, a.ty)
    if isinstance(b, SVec) and isinstance(a, Vec) and not a.e:
        return SVec(merge(c, 0, b.n), b.fn, b.ty)
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.lv.same(b.lv) and a.idx is not None and b.idx is not None:
        return Ptr(a.lv, merge(c, a.idx, b.idx))
    raise MergeFail('%r / %r' % (a, b))
