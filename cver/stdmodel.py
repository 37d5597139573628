"""Assumed contracts of std:: containers/algorithms, libc and MPI, as executable symbolic models.
Everything here is part of the trusted base (reported in the evidence)."""
import re, z3
from fractions import Fraction
from .values import *
from . import frontend as F
from .frontend import tyof, clean, INTS, FLOATS, int_range


def tsplit(s):
    out, d, cur = [], 0, ''
    for ch in s:
        if ch in '<(':
            d += 1
        if ch in '>)':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def targs(t):
    i = t.find('<')
    if i < 0 or not t.endswith('>'):
        return None
    return tsplit(t[i + 1:-1])


ALIAS = {'IndexVector': 'std::vector<int>', 'LevelVector': 'std::vector<int>', 'combigrid::IndexVector': 'std::vector<int>',
         'combigrid::LevelVector': 'std::vector<int>', 'LevelVectorList': 'std::vector<std::vector<int>>'}


def norm_t(t):
    t = clean(t)
    t = ALIAS.get(t, t)
    return t


def vec_elem(t):
    t = norm_t(t)
    if t.startswith('std::vector<') or t.startswith('std::array<') or t.startswith('vector<') or t.startswith('std::initializer_list<') \
       or t.startswith('std::deque<'):
        a = targs(t)
        return clean(a[0]) if a else None
    return None


def default_std(ex, t):
    t = norm_t(t)
    if t.startswith('std::array<'):
        a = targs(t)
        return Vec([ex.default(a[0]) for _ in range(int(re.sub(r'[^0-9]', '', a[1])))], clean(a[0]))
    e = vec_elem(t)
    if e is not None:
        return Vec((), e)
    if t.startswith('std::set<') or t.startswith('std::unordered_set<'):
        return Bag('set')
    if t.startswith('std::map<') or t.startswith('std::unordered_map<'):
        return Bag('map')
    if t.startswith('std::pair<'):
        a = targs(t)
        return Obj('pair', {'first': ex.default(a[0], True), 'second': ex.default(a[1], True)})
    if t.startswith('std::tuple<'):
        a = targs(t)
        return Obj('tuple', {'_%d' % i: ex.default(x, True) for i, x in enumerate(a)})
    if t in ('std::string', 'std::basic_string<char>') or t.startswith('std::basic_string<char'):
        return Str('')
    if t.startswith('std::unique_ptr') or t.startswith('std::shared_ptr'):
        return Obj('smartptr', {'ptr': NULL})
    m = re.match(r'(.*)\[(\d+)\]$', t)
    if m:
        return Vec([ex.default(m.group(1).strip()) for _ in range(int(m.group(2)))], m.group(1).strip())
    return None


def enumconst(ex, name):
    return Opq('enum:' + str(name))


def globalvar(ex, rd):
    nm = rd.get('name', '')
    t = clean((rd.get('type') or {}).get('desugaredQualType') or (rd.get('type') or {}).get('qualType', ''))
    if nm in ('cout', 'cerr', 'clog') or nm.startswith('ompi_') or nm.startswith('_1'):
        return Opq('ext:' + nm)
    return None


FUNCTORS = {
    'multiplies': lambda ex, t: Fun(lambda e, a: binop(e, '*', a, t)),
    'plus': lambda ex, t: Fun(lambda e, a: binop(e, '+', a, t)),
    'minus': lambda ex, t: Fun(lambda e, a: binop(e, '-', a, t)),
    'divides': lambda ex, t: Fun(lambda e, a: binop(e, '/', a, t)),
    'modulus': lambda ex, t: Fun(lambda e, a: binop(e, '%', a, t)),
    'greater': lambda ex, t: Fun(lambda e, a: lt(a[1], a[0])),
    'less': lambda ex, t: Fun(lambda e, a: lt(a[0], a[1])),
    'equal_to': lambda ex, t: Fun(lambda e, a: eq(a[0], a[1])),
    'not_equal_to': lambda ex, t: Fun(lambda e, a: not_(eq(a[0], a[1]))),
    'greater_equal': lambda ex, t: Fun(lambda e, a: le(a[1], a[0])),
    'less_equal': lambda ex, t: Fun(lambda e, a: le(a[0], a[1])),
    'logical_or': lambda ex, t: Fun(lambda e, a: or_(a[0], a[1])),
    'logical_and': lambda ex, t: Fun(lambda e, a: and_(a[0], a[1])),
    'negate': lambda ex, t: Fun(lambda e, a: neg(a[0])),
}


def conv(ex, v, t):
    t = clean(t)
    if not isscalar(v):
        return v
    if t in INTS:
        return ex.real_to_int(v, t) if isreal(v) else ex.cast_int(v, t)
    if t in FLOATS:
        return ex.to_real(v)
    return v


def binop(ex, op, a, t):
    t = clean(t)
    if t == 'void':
        t = 'long'
        if any(isreal(x) for x in a):
            t = 'double'
        elif isterm(a[0]) or isterm(a[1]):
            t = 'long'
    return ex.arith(op, conv(ex, a[0], t), conv(ex, a[1], t), t)


def mkvec(ex, n, v, et):
    n = simp(n)
    if isc(n):
        if n > 20000:
            return SVec(n, lambda i: v, et)
        return Vec([v] * int(n), et)
    return SVec(n, lambda i: v, et)


def is_functor_type(t):
    m = re.match(r'std::(multiplies|plus|minus|divides|modulus|greater|less|equal_to|not_equal_to|greater_equal|less_equal|logical_and|logical_or|negate)<(.*)>$', t)
    return m


def construct(ex, t, args, n):
    t = norm_t(t)
    if t.startswith('std::chrono::duration<'):      # a duration is its number of ticks
        a = [x for x in args if x.get('kind') != 'CXXDefaultArgExpr']
        v = ex.ev(a[0]) if a else 0
        if rtype(a[0]).startswith('std::chrono::duration<') if a else False:
            if clean(targs(rtype(a[0]))[1]) != clean(targs(t)[1]):
                raise Unsupported('conversion of durations')
            return v
        return conv(ex, v, clean(targs(t)[0]))
    m = is_functor_type(t)
    if m:
        return FUNCTORS[m.group(1)](ex, m.group(2) or 'void')
    if t.startswith('std::vector<') or t.startswith('std::deque<'):
        et = vec_elem(t)
        ct = n.get('ctorType', {}).get('qualType', '')
        a = [x for x in args if x.get('kind') != 'CXXDefaultArgExpr']
        if not a:
            return Vec((), et)
        if 'initializer_list' in ct:
            v = ex.ev(a[0])
            if isinstance(v, Obj) and v.cls == 'initlist':
                v = v.f['v']
            if isinstance(v, Vec):
                return Vec([conv(ex, x, et) for x in v.e], et)
            return v
        v0 = ex.ev(a[0])
        if isinstance(v0, (Vec, SVec)):
            if isinstance(v0, SVec) and isc(simp(v0.n)) and simp(v0.n) <= 64:
                return Vec([v0.fn(k) for k in range(simp(v0.n))], et)
            return v0
        if isinstance(v0, Obj) and v0.cls == 'initlist':
            return Vec(v0.f['v'].e, et)
        if isinstance(v0, Ptr) and len(a) >= 2:
            v1 = ex.ev(a[1])
            return seq_copy(ex, v0, v1, et)
        if isscalar(v0):
            if len(a) >= 2:
                return mkvec(ex, v0, conv(ex, ex.ev(a[1]), et), et)
            return mkvec(ex, v0, ex.default(et, True), et)
        raise Unsupported('vector constructor from %r' % (v0,))
    if t.startswith('std::array<'):
        if len(args) == 1:
            return ex.ev(args[0])
        return default_std(ex, t)
    if t.startswith('std::set<') or t.startswith('std::map<') or t.startswith('std::unordered_map') or t.startswith('std::unordered_set'):
        a = [x for x in args if x.get('kind') != 'CXXDefaultArgExpr']
        kind = 'map' if 'map' in t.split('<')[0] else 'set'
        if not a:
            return Bag(kind)
        v = ex.ev(a[0])
        if isinstance(v, (Bag, PSet)):
            return v
        if isscalar(v) and len(a) >= 2 and 'counting_iterator' in tyof(a[0]):
            w = ex.ev(a[1])
            return PSet(lambda x: and_(le(v, x), lt(x, w)), ite(le(v, w), sub(w, v), 0))
        if isinstance(v, Obj) and v.cls == 'initlist':
            b = Bag(kind)
            for x in v.f['v'].e:
                b = bag_insert(ex, b, x)[0]
            return b
        if isinstance(v, Ptr) and len(a) >= 2:
            s = seq_copy(ex, v, ex.ev(a[1]), None)
            if isinstance(s, Vec):
                b = Bag(kind)
                for x in s.e:
                    b = bag_insert(ex, b, x)[0]
                return b
        raise Unsupported('set/map constructor')
    if t.startswith('std::bitset<') and args and isinstance(x := ex.ev(args[0]), int):
        return Obj('bitset', {'v': x})
    if t.startswith('std::pair<'):
        ta = targs(t)
        if len(args) == 2:
            return Obj('pair', {'first': conv(ex, ex.ev(args[0]), ta[0]), 'second': conv(ex, ex.ev(args[1]), ta[1])})
        if len(args) == 1:
            return ex.ev(args[0])
        return default_std(ex, t)
    if t.startswith('std::tuple<'):
        ta = targs(t)
        if len(args) == 1 and len(ta) != 1:
            return ex.ev(args[0])
        return Obj('tuple', {'_%d' % i: conv(ex, ex.ev(a), x) for i, (a, x) in enumerate(zip(args, ta))})
    if t in ('std::string', 'std::basic_string<char>') or t.startswith('std::basic_string<char'):
        a = [x for x in args if x.get('kind') != 'CXXDefaultArgExpr']
        if not a:
            return Str('')
        v = ex.ev(a[0])
        if isinstance(v, (Str, Opq, Vec, SVec)):
            return v
        if ex.strings and isinstance(v, Ptr) and len(a) == 2 and v.idx is not None:
            s, k, o = ex.rd(v.lv), ex.ev(a[1]), v.idx
            if isinstance(s, (Vec, SVec)) and isscalar(k):
                ex.oblige('string constructed inside its buffer', le(add(o, k), s.n), 'bounds')
                return SVec(k, lambda j: elem(s, add(o, j)), 'char')
        if ex.strings and len(a) == 2 and isscalar(v) and isscalar(c := ex.ev(a[1])):
            return SVec(v, lambda j: c, 'char')
        return Opq('string')
    if 'counting_iterator<' in t and len(args) == 1:
        return ex.ev(args[0])
    if '__normal_iterator' in t or t.endswith('*') or t.startswith('std::reverse_iterator') or 'iterator' in t.split('<')[0] or '_Rb_tree' in t:
        if len(args) == 1:
            return ex.ev(args[0])
    if t.startswith('std::initializer_list') and len(args) == 1:
        return ex.ev(args[0])
    if t.startswith('std::unique_ptr') or t.startswith('std::shared_ptr'):
        a = [x for x in args if x.get('kind') != 'CXXDefaultArgExpr']
        if not a:
            return Obj('smartptr', {'ptr': NULL})
        v = ex.ev(a[0])
        if isinstance(v, Obj) and v.cls == 'smartptr':
            return v
        return Obj('smartptr', {'ptr': v})
    if t.startswith('std::function<') and args:
        return ex.ev(args[0])
    if t.startswith('(lambda') and len(args) == 1:
        return ex.ev(args[0])
    return None


def construct_unknown(ex, t, args, n):
    h = ex.hooks.get('ctor:' + norm_t(t))
    if h is not None:
        return h(ex, None, [ex.lv_or_tmp(a) for a in args if a.get('kind') != 'CXXDefaultArgExpr'])
    if len(args) == 1:
        v = ex.ev(args[0])
        if isinstance(v, (Clo, Fun, Ptr, Opq)):
            return v
    for a in args:
        if a.get('kind') != 'CXXDefaultArgExpr':
            try:
                ex.ev(a)
            except Unsupported:
                pass
    ex.assumed.add('construction of external type %s has no effect on verified state' % t)
    return Opq('obj:' + t)


def initlist(ex, t, args, n):
    t = norm_t(t)
    m = is_functor_type(t)
    if m:
        return FUNCTORS[m.group(1)](ex, m.group(2) or 'void')
    if t.startswith('std::array<'):
        a = targs(t)
        if len(args) == 1 and args[0].get('kind') == 'InitListExpr':
            return ex.ev(args[0])
        e = [ex.ev(x) for x in args]
        n_ = int(re.sub(r'[^0-9]', '', a[1]))
        while len(e) < n_:
            e.append(ex.default(a[0], True))
        return Vec(e, clean(a[0]))
    if t.startswith('std::initializer_list<'):
        return Obj('initlist', {'v': Vec([ex.ev(a) for a in args])})
    if default_std(ex, t) is not None and not args:
        return default_std(ex, t)
    if t.startswith('std::pair<') and len(args) == 2:
        return Obj('pair', {'first': ex.ev(args[0]), 'second': ex.ev(args[1])})
    return None


def slen(v):
    return v.n


def seq_copy(ex, p, q, et=None):
    """copy of [p,q)"""
    if not (isinstance(p, Ptr) and isinstance(q, Ptr)):
        raise Unsupported('range %r %r' % (p, q))
    if not p.lv.same(q.lv):
        raise Unsupported('range over two containers')
    s = ex.rd(p.lv)
    if isinstance(s, Bag):
        return Vec([x if not isinstance(x, tuple) else Obj('pair', {'first': x[0], 'second': x[1]}) for x in s.items[p.idx:q.idx]])
    n = simp(sub(q.idx, p.idx))
    if isc(n) and n <= 4096:
        if n < 0:
            raise Unsupported('negative range')
        if n:
            ex.inbounds(s, p.idx)
            ex.inbounds(s, sub(q.idx, 1))
        r = []
        for k in range(int(n)):
            x = elem(s, simp(add(p.idx, k)))
            r.append(conv(ex, x, et) if et and (et in INTS or et in FLOATS) else x)
        return Vec(r, et or s.ty)
    if ex.safety:
        ex.oblige('iterator range inside container', and_(le(0, p.idx), le(q.idx, s.n), le(p.idx, q.idx)), 'bounds')
    i0 = p.idx
    return SVec(n, lambda i: elem(s, add(i0, i)), et or s.ty)


def seq_write(ex, p, vals):
    """write concrete-length list starting at p"""
    if isinstance(p, Obj) and p.cls == 'back_inserter':
        v = ex.rd(p.f['lv'].lv)
        ex.wr(p.f['lv'].lv, vec_concat(ex, v, vals))
        return p
    s = ex.rd(p.lv)
    if isinstance(vals, Vec):
        for k, x in enumerate(vals.e):
            i = simp(add(p.idx, k))
            ex.inbounds(s, i)
            s = setelem(s, i, conv(ex, x, s.ty) if s.ty else x)
        ex.wr(p.lv, s)
        return Ptr(p.lv, add(p.idx, len(vals.e)))
    i0, n, old = p.idx, vals.n, s
    if ex.safety:
        ex.oblige('output range inside container', and_(le(0, i0), le(add(i0, n), s.n)), 'bounds')
    oldf = (lambda j: elem(old, j))
    ex.wr(p.lv, SVec(s.n, lambda j: ite(and_(le(i0, j), lt(j, add(i0, n))), vals.fn(sub(j, i0)), oldf(j)), s.ty))
    return Ptr(p.lv, add(i0, n))


def vec_concat(ex, a, b):
    if isinstance(a, Vec) and isinstance(b, Vec):
        return Vec(a.e + b.e, a.ty)
    na = a.n
    return SVec(add(na, b.n), lambda j: ite(lt(j, na), elem_safe(a, j), elem_safe(b, sub(j, na))), a.ty)


def elem_safe(v, j):
    if isinstance(v, Vec):
        if not v.e:
            return 0
        if isc(j):
            return v.e[max(0, min(len(v.e) - 1, int(j)))]
    return elem(v, j)


def vlt(ex, a, b):
    """operator< as std::less on keys"""
    if isscalar(a) and isscalar(b):
        return lt(a, b)
    if isinstance(a, Vec) and isinstance(b, Vec):
        # std::vector operator< : lexicographic.  NOTE: /repo overloads operator< on IndexVector inside namespace
        # combigrid; std::less<std::vector> looks up operator< in std (ADL), i.e. lexicographic.
        r = len(a.e) < len(b.e)
        for x, y in reversed(list(zip(a.e, b.e))):
            r = ite(lt(x, y), True, ite(lt(y, x), False, r))
        return r
    if isinstance(a, Str) and isinstance(b, Str):
        return a.s < b.s
    if isinstance(a, Obj) and isinstance(b, Obj) and a.cls == 'pair':
        return or_(vlt(ex, a.f['first'], b.f['first']), and_(not_(vlt(ex, b.f['first'], a.f['first'])), vlt(ex, a.f['second'], b.f['second'])))
    raise Unsupported('ordering of %r' % (a,))


def veq(ex, a, b):
    if isscalar(a) and isscalar(b):
        return eq(a, b)
    if isinstance(a, Vec) and isinstance(b, Vec):
        if len(a.e) != len(b.e):
            return False
        return and_(*[veq(ex, x, y) for x, y in zip(a.e, b.e)])
    if isinstance(a, Str) and isinstance(b, Str):
        return a.s == b.s
    if isinstance(a, Opq) or isinstance(b, Opq):
        if isinstance(a, Opq) and isinstance(b, Opq) and a.tag == b.tag:
            return True
        return ex.fresh('opqeq', 'bool')
    raise Unsupported('equality of %r %r' % (a, b))


def bag_insert(ex, b, x, val=None):
    """returns (bag, pos, inserted)"""
    key = x
    if b.kind == 'map':
        if isinstance(x, Obj) and x.cls == 'pair':
            key, val = x.f['first'], x.f['second']
    items = list(b.items)
    for i, it in enumerate(items):
        k = it[0] if b.kind == 'map' else it
        if ex.branch(veq(ex, k, key)):
            return b, i, False
        if ex.branch(vlt(ex, key, k)):
            items.insert(i, (key, val) if b.kind == 'map' else key)
            return Bag(b.kind, items), i, True
    items.append((key, val) if b.kind == 'map' else key)
    return Bag(b.kind, items), len(items) - 1, True


def bag_find(ex, b, key):
    for i, it in enumerate(b.items):
        k = it[0] if b.kind == 'map' else it
        if ex.branch(veq(ex, k, key)):
            return i
    return None


def method(ex, obj, name, args, n):
    v = ex.rd(obj)
    A = [a for a in args if a.get('kind') != 'CXXDefaultArgExpr']
    if ex.strings and isinstance(v, Str) and name in ('resize', 'assign', 'push_back', 'clear', 'begin', 'end'):
        v = strval(v)
        ex.wr(obj, v)
    if isinstance(v, (Vec, SVec)):
        et = v.ty
        if name in ('size', 'length', 'max_size'):
            return v.n
        if name == 'empty':
            return eq(v.n, 0)
        if name in ('begin', 'cbegin', 'data', 'c_str'):
            return Ptr(obj, 0)
        if name in ('end', 'cend'):
            return Ptr(obj, v.n)
        if name in ('rbegin', 'crbegin'):
            return Obj('revit', {'p': Ptr(obj, v.n)})
        if name in ('rend', 'crend'):
            return Obj('revit', {'p': Ptr(obj, 0)})
        if name in ('back', 'front'):
            i = simp(sub(v.n, 1)) if name == 'back' else 0
            ex.inbounds(v, i)
            return obj.i(i)
        if name == 'at':
            i = ex.ev(A[0])
            if not ex.branch(and_(le(0, i), lt(i, v.n))):
                from .execu import Throw
                raise Throw('std::out_of_range')
            return obj.i(i)
        if name in ('reserve', 'shrink_to_fit'):
            for a in A:
                ex.ev(a)
            return None
        if name == 'clear':
            ex.wr(obj, Vec((), et))
            return None
        if name == 'resize':
            k = simp(ex.ev(A[0]))
            fill = conv(ex, ex.ev(A[1]), et) if len(A) > 1 else None
            ex.wr(obj, vec_resize(ex, v, k, fill))
            return None
        if name == 'assign':
            if len(A) == 2:
                a, b = ex.ev(A[0]), ex.ev(A[1])
                if isinstance(a, Ptr):
                    ex.wr(obj, seq_copy(ex, a, b, et))
                else:
                    ex.wr(obj, mkvec(ex, a, conv(ex, b, et), et))
                return None
            x = ex.ev(A[0])
            if isinstance(x, Obj) and x.cls == 'initlist':
                x = x.f['v']
            ex.wr(obj, x)
            return None
        if name in ('push_back', 'emplace_back', 'push'):
            if name == 'emplace_back' and len(A) != 1:
                x = emplace(ex, et, A)
            else:
                x = conv(ex, ex.ev(A[0]), et) if et else ex.ev(A[0])
            if isinstance(v, Vec):
                ex.wr(obj, Vec(v.e + (x,), et))
            else:
                ex.wr(obj, SVec(add(v.n, 1), NStore(v.fn, v.n, x), et))
            return obj.i(v.n)
        if name in ('pop_back',):
            if isinstance(v, Vec):
                if not v.e:
                    ex.oblige('pop_back on non-empty container', False, 'safety')
                    raise Unsupported('pop on empty')
                ex.wr(obj, Vec(v.e[:-1], et))
            else:
                ex.wr(obj, SVec(sub(v.n, 1), v.fn, et))
            return None
        if name == 'pop_front':
            if isinstance(v, Vec):
                if not v.e:
                    ex.oblige('pop_front on non-empty container', False, 'safety')
                    raise Unsupported('pop on empty')
                ex.wr(obj, Vec(v.e[1:], et))
                return None
            if ex.safety:
                ex.oblige('pop_front on non-empty container', lt(0, v.n), 'safety')
            ex.wr(obj, SVec(sub(v.n, 1), lambda i, f=v.fn: f(add(i, 1)), et))
            return None
        if name == 'swap':
            o = ex.lv(A[0])
            w = ex.rd(o)
            ex.wr(o, v)
            ex.wr(obj, w)
            return None
        if name == 'insert':
            p = ex.ev(A[0])
            if len(A) == 3:
                a, b = ex.ev(A[1]), ex.ev(A[2])
                s = seq_copy(ex, a, b, et)
                if isinstance(v, Vec) and isinstance(s, Vec) and isc(p.idx):
                    ex.wr(obj, Vec(v.e[:p.idx] + s.e + v.e[p.idx:], et))
                    return Ptr(obj, p.idx)
                if same(simp(p.idx), simp(v.n)):
                    if isinstance(v, SVec) and isinstance(s, Vec) and len(s.e) <= 16:
                        w = v
                        for x in s.e:
                            w = SVec(simp(add(w.n, 1)), NStore(w.fn, w.n, x), et)
                        ex.wr(obj, w)
                        return Ptr(obj, p.idx)
                    ex.wr(obj, vec_concat(ex, v, s))
                    return Ptr(obj, p.idx)
            elif len(A) == 2 and isinstance(v, Vec) and isc(p.idx):
                x = ex.ev(A[1])
                ex.wr(obj, Vec(v.e[:p.idx] + (x,) + v.e[p.idx:], et))
                return Ptr(obj, p.idx)
        if name == 'erase':
            p = ex.ev(A[0])
            if isinstance(v, Vec) and isc(p.idx):
                q = ex.ev(A[1]).idx if len(A) > 1 else p.idx + 1
                if isc(q):
                    ex.wr(obj, Vec(v.e[:p.idx] + v.e[q:], et))
                    return Ptr(obj, p.idx)
        if name == 'fill':
            x = ex.ev(A[0])
            ex.wr(obj, mkvec(ex, v.n, x, et))
            return None
        if name == 'operator[]':
            i = ex.ev(A[0])
            ex.inbounds(v, i)
            return obj.i(i)
    if isinstance(v, PSet):
        if name in ('find', 'count', 'contains'):
            key = ex.ev(A[0])
            c = v.pred(key)
            return ite(c, 1, 0) if name == 'count' else c if name == 'contains' else Ptr(obj, ite(c, key, PSet.END))
        if name in ('end', 'cend'):
            return Ptr(obj, PSet.END)
        if name == 'size' and v.n is not None:
            return v.n
        if name == 'empty' and v.n is not None:
            return eq(v.n, 0)
        raise Unsupported('set method ' + name)
    if isinstance(v, Bag):
        return bag_method(ex, obj, v, name, A)
    if isinstance(v, Obj) and v.cls == 'smartptr':
        if name == 'get':
            return v.f['ptr']
        if name == 'operator bool':
            return not isinstance(v.f['ptr'], Null)
        if name == 'reset':
            ex.wr(obj, Obj('smartptr', {'ptr': ex.ev(A[0]) if A else NULL}))
            return None
    if isinstance(v, Obj) and v.cls == 'revit' and name == 'base':
        return v.f['p']
    if isinstance(v, Str):
        if name in ('c_str', 'data'):
            return v
        if name in ('size', 'length'):
            return len(v.s)
        if name == 'empty':
            return len(v.s) == 0
    if isinstance(v, Obj) and v.cls == 'bitset' and name == 'test' and isinstance(k := simp(ex.ev(A[0])), int):
        return bool((v.f['v'] >> k) & 1)
    if name == 'count' and isscalar(v) and not A:      # std::chrono::duration
        return v
    h = ex.hooks.get('method:' + str(name))
    if h is not None:
        return h(ex, obj, [ex.lv_or_tmp(a) for a in A])
    if isinstance(v, Opq):
        for a in A:
            try:
                ex.ev(a)
            except Unsupported:
                pass
        ex.assumed.add('external method %s on %s has no effect on verified state' % (name, v.tag))
        t = clean(tyof(n))
        if t == 'void':
            return None
        h = ex.havoc(t, 'unk')
        return h if h is not None else Opq('ret:%s' % name)
    if isinstance(v, Clo) and name.startswith('operator '):      # conversion to a function pointer
        return v
    raise Unsupported('method %s on %r' % (name, v))


def emplace(ex, et, A):
    k, r = ex.record(et)
    vals = [ex.ev(a) for a in A]
    if vec_elem(et) is not None:
        if not vals:
            return Vec((), vec_elem(et))
        if len(vals) == 2 and isscalar(vals[0]):
            return mkvec(ex, vals[0], vals[1], vec_elem(et))
        if len(vals) == 2 and isinstance(vals[0], Ptr):
            return seq_copy(ex, vals[0], vals[1], vec_elem(et))
    if norm_t(et).startswith('std::pair<'):
        return Obj('pair', {'first': vals[0], 'second': vals[1]})
    raise Unsupported('emplace of ' + str(et))


def vec_resize(ex, v, k, fill=None):
    et = v.ty
    z = fill if fill is not None else (ex.default(et, True) if et else 0)
    if isc(k):
        if k > 20000:
            old = v
            return SVec(k, lambda j: ite(lt(j, old.n), elem_safe(old, j), z), et)
        if isinstance(v, Vec):
            e = list(v.e[:k])
            while len(e) < k:
                e.append(z)
            return Vec(e, et)
        return Vec([ite(lt(j, v.n), v.fn(j), z) for j in range(int(k))], et)
    old = v
    if isc(v.n) and v.n == 0:
        return SVec(k, lambda j: z, et)
    return SVec(k, lambda j: ite(lt(j, old.n), elem_safe(old, j), z), et)


def bag_method(ex, obj, v, name, A):
    if name == 'size':
        return len(v.items)
    if name == 'empty':
        return len(v.items) == 0
    if name in ('begin', 'cbegin'):
        return Ptr(obj, 0)
    if name in ('end', 'cend'):
        return Ptr(obj, len(v.items))
    if name == 'clear':
        ex.wr(obj, Bag(v.kind))
        return None
    if name in ('insert', 'emplace'):
        if name == 'emplace' and len(A) == 2:
            x = Obj('pair', {'first': ex.ev(A[0]), 'second': ex.ev(A[1])})
        elif len(A) == 2:
            a, b = ex.ev(A[0]), ex.ev(A[1])
            s = seq_copy(ex, a, b)
            for y in s.e:
                v = bag_insert(ex, v, y)[0]
            ex.wr(obj, v)
            return None
        else:
            x = ex.ev(A[0])
        b, i, ins = bag_insert(ex, v, x)
        ex.wr(obj, b)
        return Obj('pair', {'first': Ptr(obj, i), 'second': ins})
    if name in ('find', 'count', 'contains', 'at', 'erase'):
        key = ex.ev(A[0])
        if name == 'erase' and isinstance(key, Ptr):
            ex.wr(obj, Bag(v.kind, v.items[:key.idx] + v.items[key.idx + 1:]))
            return Ptr(obj, key.idx)
        i = bag_find(ex, v, key)
        if name == 'find':
            return Ptr(obj, len(v.items) if i is None else i)
        if name == 'count':
            return 0 if i is None else 1
        if name == 'contains':
            return i is not None
        if name == 'at':
            if i is None:
                from .execu import Throw
                raise Throw('std::out_of_range')
            return LV(obj.root, obj.path + (('m', i),))
        if name == 'erase':
            if i is not None:
                ex.wr(obj, Bag(v.kind, v.items[:i] + v.items[i + 1:]))
            return 0 if i is None else 1
    raise Unsupported('container method ' + name)


def operator(ex, nm, args, n):
    op = nm[len('operator'):]
    if nm in ex.hooks:
        return ex.hooks[nm](ex, None, [ex.lv(a, tmp=True) for a in args])
    if op == '()':
        f = ex.ev(args[0])
        return ex.call_value(f, args[1:], n)
    if op == '=':
        rv = ex.ev(args[1])
        lv = ex.lv(args[0])
        old = ex.st.mem.get(lv.root)
        cur = ex.rd(lv)
        if isinstance(rv, Obj) and rv.cls == 'initlist':
            rv = rv.f['v']
        if isinstance(cur, (Vec, SVec)) and isinstance(rv, (Vec,)) and rv.ty is None:
            rv = Vec(rv.e, cur.ty)
        if isinstance(cur, (Vec, SVec)) and isinstance(rv, SVec) and isc(simp(rv.n)) and simp(rv.n) <= 64:
            rv = Vec([rv.fn(k) for k in range(simp(rv.n))], rv.ty)
        if isinstance(cur, Obj) and cur.cls == 'smartptr' and not (isinstance(rv, Obj) and rv.cls == 'smartptr'):
            rv = Obj('smartptr', {'ptr': rv})
        ex.wr(lv, rv)
        return lv
    if op == '[]':
        obj = ex.lv(args[0], tmp=True)
        v = ex.rd(obj)
        if isinstance(v, Ptr):
            i = ex.ev(args[1])
            q = Ptr(v.lv, add(v.idx if v.idx is not None else 0, i))
            return ex.deref(q)
        if isinstance(v, Bag) and v.kind == 'map':
            key = ex.ev(args[1])
            i = bag_find(ex, v, key)
            if i is None:
                vt = map_valtype(ex, args[0])
                b, i, _ = bag_insert(ex, v, key, ex.default(vt, True))
                ex.wr(obj, b)
            return LV(obj.root, obj.path + (('m', i),))
        if isinstance(v, Str):
            return Opq('char')
        i = ex.ev(args[1])
        if not isinstance(v, (Vec, SVec)):
            raise Unsupported('operator[] on %r' % (v,))
        ex.inbounds(v, i)
        return obj.i(i)
    if op in ('<<', '>>') :
        l = ex.lv(args[0], tmp=True)
        v = ex.rd(l)
        if isinstance(v, Opq):
            for a in args[1:]:
                try:
                    ex.ev(a)
                except Unsupported:
                    pass
            ex.assumed.add('stream output has no effect on verified state')
            return l
        raise Unsupported('stream operator')
    if op in ('==', '!=', '<', '>', '<=', '>='):
        a, b = ex.ev(args[0]), ex.ev(args[1])
        if isinstance(a, Obj) and a.cls == 'revit':
            a, b = b.f['p'], a.f['p']
        if isinstance(a, Obj) and a.cls == 'smartptr':
            a = a.f['ptr']
        if isinstance(b, Obj) and b.cls == 'smartptr':
            b = b.f['ptr']
        if isinstance(a, (Ptr, Null, Opq)) and isinstance(b, (Ptr, Null, Opq)):
            return ex.ptrcmp(op, a, b)
        if op in ('==', '!='):
            e = veq(ex, a, b)
            return e if op == '==' else not_(e)
        if op == '<':
            return vlt(ex, a, b)
        if op == '>':
            return vlt(ex, b, a)
        if op == '<=':
            return not_(vlt(ex, b, a))
        return not_(vlt(ex, a, b))
    if op in ('++', '--'):
        lv = ex.lv(args[0])
        old = ex.rd(lv)
        d = 1 if op == '++' else -1
        if isinstance(old, Obj) and old.cls == 'revit':
            new = Obj('revit', {'p': Ptr(old.f['p'].lv, add(old.f['p'].idx, -d))})
        else:
            new = Ptr(old.lv, add(old.idx, d))
        ex.wr(lv, new)
        return old if len(args) == 2 else lv
    if op in ('*', '->') and len(args) == 1:
        p = ex.ev(args[0])
        if isinstance(p, Obj) and p.cls == 'revit':
            return ex.deref(Ptr(p.f['p'].lv, simp(sub(p.f['p'].idx, 1))))
        if isinstance(p, Ptr) and p.idx is not None and isinstance(ex.rd(p.lv), PSet):
            return ex.alloc(p.idx, 'setit')
        if isinstance(p, Ptr) and p.idx is not None and isinstance(ex.rd(p.lv), Bag):
            b = ex.rd(p.lv)
            if not isc(p.idx) or not 0 <= p.idx < len(b.items):
                raise Unsupported('dereference of end iterator')
            it = b.items[p.idx]
            r = ex.alloc(Obj('pair', {'first': it[0], 'second': it[1]}) if isinstance(it, tuple) else it, 'bagit')
            return Ptr(r, None) if op == '->' else r
        if op == '->':
            if isinstance(p, Ptr):
                if p.idx is None:
                    return p
                return Ptr(p.lv.i(p.idx), None)
            if isinstance(p, Obj) and p.cls == 'smartptr':
                return p.f['ptr']
            return p
        return ex.deref(p)
    if op in ('+', '-'):
        a, b = ex.ev(args[0]), ex.ev(args[1])
        if ex.strings and op == '+' and strval(a) is not None and strval(b) is not None:
            return vec_concat(ex, strval(a), strval(b))
        if isinstance(a, (Str, Opq)) or isinstance(b, (Str, Opq)):
            return Opq('string')
        return ex.arith(op, a, b, 'long')
    if op in ('+=', '-='):
        lv = ex.lv(args[0])
        a, b = ex.rd(lv), ex.ev(args[1])
        if ex.strings and op == '+=' and strval(a) is not None and strval(b) is not None and (isinstance(a, (Str, Vec, SVec))):
            ex.wr(lv, vec_concat(ex, strval(a), strval(b)))
            return lv
        if isinstance(a, (Str, Opq)):
            ex.wr(lv, Opq('string'))
            return lv
        ex.wr(lv, ex.arith(op[0], a, b, 'long'))
        return lv
    raise Unsupported('operator ' + nm)


def strval(v):
    if isinstance(v, Str):
        return Vec([ord(c) for c in v.s], 'char')
    if isinstance(v, (Vec, SVec)):
        return v
    if isscalar(v) and not isreal(v):
        return Vec([v], 'char')
    return None


def map_valtype(ex, a):
    t = norm_t(tyof(a))
    ta = targs(t)
    if ta and len(ta) >= 2:
        return ta[1]
    raise Unsupported('map value type of ' + t)


def minmax(ex, nm, a, b):
    c = lt(b, a) if nm == 'min' else lt(a, b)
    return ite(c, b, a)


def call(ex, nm, rd, args, n):
    """free function outside the dumped namespace"""
    t = clean(tyof(n))
    if nm in ('move', 'forward', 'as_const', 'addressof') and len(args) == 1:
        l = ex.lv(args[0], tmp=True)
        return Ptr(l, None) if nm == 'addressof' else l
    if nm in ('get',) and len(args) == 1:
        l = ex.lv(args[0], tmp=True)
        v = ex.rd(l)
        m = re.search(r'\b(\d+)', '')
        raise Unsupported('std::get')
    if nm in ('begin', 'cbegin', 'end', 'cend', 'size', 'data', 'empty') and len(args) == 1:
        l = ex.lv(args[0], tmp=True)
        return method(ex, l, nm, [], n)
    if nm in ('min', 'max', 'lowest', 'epsilon') and not args:      # std::numeric_limits<T>
        t = norm_t(tyof(n))
        if t in INTS and nm != 'epsilon':
            return int_range(t)[1 if nm == 'max' else 0]
        if t == 'double':
            import sys
            fi = sys.float_info
            return Fraction({'max': fi.max, 'lowest': -fi.max, 'min': fi.min, 'epsilon': fi.epsilon}[nm])
        raise Unsupported('numeric limit ' + t)
    if nm in ('min', 'max'):
        if len(args) == 1:
            v = ex.ev(args[0])
            v = v.f['v'] if isinstance(v, Obj) else v
            r = v.e[0]
            for x in v.e[1:]:
                r = minmax(ex, nm, r, x)
            return r
        a, b = ex.ev(args[0]), ex.ev(args[1])
        return minmax(ex, nm, a, b)
    if nm == 'real' and len(args) == 1:
        v = ex.ev(args[0])
        if isscalar(v):
            return ex.to_real(v)
        raise Unsupported('std::real')
    if nm in ('abs', 'fabs', 'labs'):
        a = ex.ev(args[0])
        return ite(lt(a, 0), neg(a), a)
    if nm in ('ceil', 'floor', 'round', 'trunc'):
        a = ex.ev(args[0])
        a = ex.to_real(a) if not isreal(a) else a
        ex.assumed.add('IEEE double arithmetic treated as exact real arithmetic')
        if nm == 'ceil':
            r = ex.ceil_(a)
        elif nm == 'floor':
            r = ex.floor_(a)
        elif nm == 'trunc':
            r = ite(lt(a, 0), ex.ceil_(a), ex.floor_(a))
        else:
            r = ite(lt(a, 0), ex.ceil_(sub(a, Fraction(1, 2))), ex.floor_(add(a, Fraction(1, 2))))
        return ex.to_real(r)
    if nm == 'pow':
        a, b = ex.ev(args[0]), ex.ev(args[1])
        if isc(b) and Fraction(b).denominator == 1:
            b = int(b)
            r = Fraction(1)
            for _ in range(abs(b)):
                r = mul(r, a)
            return r if b >= 0 else rdiv(Fraction(1), r)
        if isc(a) and a == 2:
            r = ex.ratio(b)
            if r is not None and r[1] == 1:
                return ex.to_real(ex.pow2(r[0]))
        if isc(a) and a in (1, -1):
            r = ex.ratio(b)
            if r is not None and r[1] == 1:
                return Fraction(1) if a == 1 else ite(eq(tmod(r[0], 2), 0), Fraction(1), Fraction(-1))
        raise Unsupported('pow')
    if nm == 'sqrt':
        raise Unsupported('sqrt')
    if nm.startswith('__builtin_ctz'):
        a = ex.ev(args[0])
        if isc(a):
            if a == 0:
                raise Unsupported('ctz(0)')
            return (a & -a).bit_length() - 1
        ex.oblige('ctz argument non-zero', not_(eq(a, 0)), 'safety')
        lo, hi = ex.itv(a)
        top = 63 if hi is None else max(hi.bit_length() - 1, 0)
        r = top
        for k in range(top - 1, -1, -1):
            r = z3.If(zt(a) % (1 << (k + 1)) != 0, z3.IntVal(k), zt(r))
        return r
    if nm.startswith('__builtin_clz'):
        raise Unsupported('clz')
    if nm in ('distance',):
        p, q = ex.ev(args[0]), ex.ev(args[1])
        return sub(q.idx, p.idx)
    if nm == 'advance':
        lv = ex.lv(args[0])
        p = ex.rd(lv)
        ex.wr(lv, Ptr(p.lv, add(p.idx, ex.ev(args[1]))))
        return None
    if nm in ('next', 'prev'):
        p = ex.ev(args[0])
        k = 1 if len(args) < 2 or args[1].get('kind') == 'CXXDefaultArgExpr' else ex.ev(args[1])
        return Ptr(p.lv, add(p.idx, k) if nm == 'next' else sub(p.idx, k))
    if nm == 'accumulate':
        return accumulate(ex, args, n)
    if nm == 'reduce' and len(args) >= 3:
        return accumulate(ex, args, n)
    if nm == 'inner_product':
        return inner_product(ex, args, n)
    if nm == 'transform':
        return transform(ex, args)
    if nm in ('fill', 'fill_n'):
        p, q = ex.ev(args[0]), ex.ev(args[1])
        x = ex.ev(args[2])
        if nm == 'fill_n':
            q = Ptr(p.lv, add(p.idx, q))
        k = simp(sub(q.idx, p.idx))
        vals = Vec([x] * int(k)) if isc(k) and k <= 4096 else SVec(k, lambda i: x)
        seq_write(ex, p, vals)
        return q
    if nm == 'iota':
        p, q = ex.ev(args[0]), ex.ev(args[1])
        x = ex.ev(args[2])
        k = simp(sub(q.idx, p.idx))
        vals = Vec([add(x, i) for i in range(int(k))]) if isc(k) and k <= 4096 else SVec(k, lambda i: add(x, i))
        return seq_write(ex, p, vals)
    if nm in ('copy', 'copy_n', 'move_backward'):
        p, q = ex.ev(args[0]), ex.ev(args[1])
        if nm == 'copy_n':
            q = Ptr(p.lv, add(p.idx, q))
        o = ex.ev(args[2])
        return seq_write(ex, o, seq_copy(ex, p, q))
    if nm in ('memcpy', 'memmove'):
        raise Unsupported(nm)
    if nm == 'memset':
        p = ex.ev(args[0])
        x = ex.ev(args[1])
        nb = ex.ev(args[2])
        s = ex.rd(p.lv)
        et = clean(s.ty) if s.ty else 'char'
        sz = ex.sizeof(et)
        if not (isc(x) and x == 0):
            raise Unsupported('memset non-zero')
        ex.oblige('memset length is a whole number of elements', eq(tmod(nb, sz), 0), 'bounds')
        k = simp(tdiv(nb, sz)) if isc(nb) else simp(zt(nb) / sz)
        z = ex.default(et, True)
        i0 = p.idx if p.idx is not None else 0
        seq_write(ex, Ptr(p.lv, i0), SVec(k, lambda i: z) if not isc(k) or k > 4096 else Vec([z] * int(k)))
        return p
    if nm == 'find':
        return find(ex, args)
    if nm in ('find_if', 'any_of', 'all_of', 'none_of', 'count_if', 'count'):
        return find_if(ex, nm, args)
    if nm in ('lower_bound', 'upper_bound'):
        return lower_bound(ex, nm, args)
    if nm in ('min_element', 'max_element'):
        return minmax_element(ex, nm, args)
    if nm in ('sort', 'stable_sort'):
        p, q = ex.ev(args[0]), ex.ev(args[1])
        f = ex.ev(args[2]) if len(args) > 2 else None
        s = seq_copy(ex, p, q)
        if not isinstance(s, Vec) or len(s.e) > 12:
            raise Unsupported(nm + ' over symbolic or long range')
        e = list(s.e)
        for i in range(len(e)):
            for j in range(len(e) - 1 - i):
                a, b = e[j], e[j + 1]
                c = vlt(ex, b, a) if f is None else tobool(ex.apply(f, [b, a]))
                if c is True:
                    e[j], e[j + 1] = b, a
                elif c is not False:
                    e[j], e[j + 1] = merge(c, b, a), merge(c, a, b)
        seq_write(ex, p, Vec(e, s.ty))
        return None
    if nm == 'minmax_element':
        return Obj('pair', {'first': minmax_element(ex, 'min_element', args), 'second': minmax_element(ex, 'max_element', args)})
    if nm == 'adjacent_find':
        p, q = ex.ev(args[0]), ex.ev(args[1])
        f = ex.ev(args[2]) if len(args) > 2 else None
        s = seq_copy(ex, p, q)
        if not isinstance(s, Vec):
            raise Unsupported(nm + ' over symbolic range')
        r = len(s.e)
        for i in reversed(range(len(s.e) - 1)):
            a, b = s.e[i], s.e[i + 1]
            r = ite(veq(ex, a, b) if f is None else tobool(ex.apply(f, [a, b])), i, r)
        return Ptr(p.lv, add(p.idx, r))
    if nm in ('generate',):
        return generate(ex, args)
    if nm == 'for_each':
        p, q, f = ex.ev(args[0]), ex.ev(args[1]), ex.ev(args[2])
        k = simp(sub(q.idx, p.idx))
        if not isc(k):
            raise Unsupported('for_each over symbolic range')
        for i in range(int(k)):
            ex.apply(f, [p.lv.i(add(p.idx, i))])
        return f
    if nm in ('equal',):
        p, q, o = ex.ev(args[0]), ex.ev(args[1]), ex.ev(args[2])
        a = seq_copy(ex, p, q)
        if isinstance(a, Vec):
            b = seq_copy(ex, o, Ptr(o.lv, add(o.idx, len(a.e))))
            return veq(ex, a, b)
    if nm in ('swap', 'iter_swap'):
        if nm == 'swap':
            a, b = ex.lv(args[0]), ex.lv(args[1])
        else:
            a, b = ex.deref(ex.ev(args[0])), ex.deref(ex.ev(args[1]))
        x, y = ex.rd(a), ex.rd(b)
        ex.wr(a, y)
        ex.wr(b, x)
        return None
    if nm in ('reverse',):
        p, q = ex.ev(args[0]), ex.ev(args[1])
        s = seq_copy(ex, p, q)
        if isinstance(s, Vec):
            seq_write(ex, p, Vec(tuple(reversed(s.e)), s.ty))
            return None
    if nm in ('partial_sum', 'exclusive_scan', 'inclusive_scan'):
        p, q, o = ex.ev(args[0]), ex.ev(args[1]), ex.ev(args[2])
        s = seq_copy(ex, p, q)
        if isinstance(s, Vec):
            acc = ex.ev(args[3]) if nm == 'exclusive_scan' else 0
            out = []
            for x in s.e:
                if nm == 'exclusive_scan':
                    out.append(acc)
                    acc = add(acc, x)
                else:
                    acc = add(acc, x)
                    out.append(acc)
            return seq_write(ex, o, Vec(out))
    if nm == 'back_inserter':
        return Obj('back_inserter', {'lv': Ptr(ex.lv(args[0]), None)})
    if nm == 'make_pair':
        return Obj('pair', {'first': ex.ev(args[0]), 'second': ex.ev(args[1])})
    if nm in ('make_tuple', 'tie'):
        return Obj('tuple', {'_%d' % i: ex.ev(a) for i, a in enumerate(args)})
    if nm in ('to_string',):
        ex.ev(args[0])
        return Opq('string')
    if nm == 'max' or nm == 'lowest' or nm == 'min' or nm == 'epsilon':
        pass
    if nm in ('__assert_fail',):
        raise Unsupported('assert')
    if nm in ('omp_get_max_threads', 'omp_get_num_threads'):
        return ex.fresh('nthreads', 'int', 1, 1024)
    if nm == 'omp_get_thread_num':
        return 0
    if nm in ('isfinite', 'isnan'):
        ex.ev(args[0])
        return nm == 'isfinite'
    return extern_named(ex, nm, args, n)


def extern_named(ex, nm, args, n):
    t = clean(tyof(n))
    if nm in ('printf', 'fprintf', 'usleep', 'sleep', 'MPI_Barrier', 'MPI_Type_commit', 'MPI_Type_free', 'MPI_Waitall', 'MPI_Wait'):
        for a in args:
            try:
                ex.ev(a)
            except Unsupported:
                pass
        ex.assumed.add('external %s has no effect on verified state' % nm)
        return 0 if t != 'void' else None
    raise Unsupported('external function ' + str(nm))


def extern(ex, q, decl, this, args):
    raise Unsupported('function without body: ' + str(q))


def rtype(n):
    t = n.get('type', {})
    return clean(t.get('desugaredQualType') or t.get('qualType', ''))


def accumulate(ex, args, n):
    p, q = ex.ev(args[0]), ex.ev(args[1])
    acc = ex.ev(args[2])
    ty = rtype(n)
    f = ex.ev(args[3]) if len(args) > 3 else None
    s = seq_copy(ex, p, q)
    if isinstance(s, SVec):
        if f is None:
            return sum_fn(ex, s, acc, ty)
        raise Unsupported('accumulate over symbolic range')
    for x in s.e:
        if f is None:
            et = ty if ty in FLOATS or ty in INTS else 'long'
            acc = conv(ex, ex.arith('+', acc, x, 'double' if isreal(acc) or isreal(x) else ('long' if ty in INTS and INTS[ty][1] < 64 else ty)), ty)
        else:
            acc = conv(ex, ex.apply(f, [acc, x]), ty)
        if ty in INTS and isscalar(acc):
            acc = ex.norm(acc, ty)
    return acc


def sum_fn(ex, s, init, ty):
    """sum over a symbolic sequence as a fresh recursively-axiomatised function"""
    S = ex.freshfun('SUM', 'real' if ty in FLOATS else 'int')
    k = z3.Int('k')
    ex.axioms.append(S(0) == 0)
    ex.axioms.append(z3.ForAll([k], z3.Implies(k >= 0, S(k + 1) == S(k) + zt(s.fn(k))), patterns=[S(k + 1)]))
    if getattr(ex, 'sums', None) is not None:
        ex.sums.append((s, init, S))
    return add(init, S(zt(s.n)))


def inner_product(ex, args, n):
    p, q, r = ex.ev(args[0]), ex.ev(args[1]), ex.ev(args[2])
    acc = ex.ev(args[3])
    ty = rtype(n)
    s = seq_copy(ex, p, q)
    if isinstance(s, SVec):
        raise Unsupported('inner_product over symbolic range')
    o = seq_copy(ex, r, Ptr(r.lv, add(r.idx, len(s.e))))
    wide = 'double' if ty in FLOATS else 'long'
    for x, y in zip(s.e, o.e):
        et = 'int' if not isreal(x) and not isreal(y) else 'double'
        ex.pending = None
        m = ex.arith('*', x, y, et)
        acc = ex.norm(ex.arith('+', acc, m, wide), ty)
    return acc


def transform(ex, args):
    p, q = ex.ev(args[0]), ex.ev(args[1])
    s = seq_copy(ex, p, q)
    if len(args) == 4:
        o, f = ex.ev(args[2]), ex.ev(args[3])
        ins = [s]
    else:
        r, o, f = ex.ev(args[2]), ex.ev(args[3]), ex.ev(args[4])
        ins = [s, seq_copy(ex, r, Ptr(r.lv, add(r.idx, s.n)))]
    if all(isinstance(x, Vec) for x in ins):
        out = [ex.apply(f, list(t)) for t in zip(*[x.e for x in ins])]
        out = [ex.rd(x) if isinstance(x, LV) else x for x in out]
        return seq_write(ex, o, Vec(out))
    # symbolic range: apply the function to an arbitrary position; only without side effects and case distinctions
    if any(isinstance(x, Vec) for x in ins):
        ins = [SVec(x.n, (lambda v: lambda j: elem(v, j))(x), x.ty) if isinstance(x, Vec) else x for x in ins]
    if not isscalar(ins[0].fn(z3.Int('j?'))):
        raise Unsupported('transform over symbolic range')
    at = z3.Int('at!%d' % ex.ctr)
    ex.ctr += 1
    npc, mem = len(ex.st.pc), dict(ex.st.mem)
    r = ex.apply(f, [x.fn(at) for x in ins])
    r = ex.rd(r) if isinstance(r, LV) else r
    if len(ex.st.pc) != npc or not isscalar(r) or any(ex.st.mem.get(k) is not v for k, v in mem.items()):
        raise Unsupported('transform over symbolic range')
    return seq_write(ex, o, SVec(s.n, (lambda r: lambda j: z3.substitute(zt(r), (at, zt(j))) if isterm(r) else r)(r), s.ty))


def find(ex, args):
    p, q = ex.ev(args[0]), ex.ev(args[1])
    x = ex.ev(args[2])
    s = seq_copy(ex, p, q)
    if isinstance(s, Vec):
        for i, y in enumerate(s.e):
            if ex.branch(veq(ex, y, x)):
                return Ptr(p.lv, add(p.idx, i))
        return q
    # symbolic range: first position with the value, or end
    if not isscalar(x):
        raise Unsupported('find of a composite value in a symbolic range')
    k = ex.fresh('find', 'int')
    j = z3.Int('j')
    i0 = p.idx
    ex.assume(and_(le(0, k), le(k, s.n)))
    ex.assume(implies(lt(k, s.n), eq(s.fn(k), x)))
    ex.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < zt(k)), zt(s.fn(j)) != zt(x))))
    return Ptr(p.lv, add(i0, k))


def find_if(ex, nm, args):
    p, q = ex.ev(args[0]), ex.ev(args[1])
    f = ex.ev(args[2])
    s = seq_copy(ex, p, q)
    if not isinstance(s, Vec):
        raise Unsupported(nm + ' over symbolic range')
    if nm in ('any_of', 'all_of', 'none_of'):
        r = [tobool(ex.apply(f, [y])) for y in s.e]
        return or_(*r) if nm == 'any_of' else and_(*r) if nm == 'all_of' else not_(or_(*r))
    if nm in ('count_if', 'count'):
        c = 0
        for y in s.e:
            c = add(c, ite(tobool(ex.apply(f, [y])) if nm == 'count_if' else veq(ex, y, f), 1, 0))
        return c
    for i, y in enumerate(s.e):
        if ex.branch(tobool(ex.apply(f, [y]))):
            return Ptr(p.lv, add(p.idx, i))
    return q


def lower_bound(ex, nm, args):
    p, q = ex.ev(args[0]), ex.ev(args[1])
    x = ex.ev(args[2])
    s = seq_copy(ex, p, q)
    cmpf = ex.ev(args[3]) if len(args) > 3 else None
    less = (lambda a, b: vlt(ex, a, b)) if cmpf is None else (lambda a, b: tobool(ex.apply(cmpf, [a, b])))
    if isinstance(s, Vec):
        # partitioned ranges (precondition of lower_bound): first element that fails the predicate
        k = 0
        pos = len(s.e)
        r = len(s.e)
        for i in range(len(s.e) - 1, -1, -1):
            y = s.e[i]
            c = less(y, x) if nm == 'lower_bound' else not_(less(x, y))
            r = ite(c, r, i)
        # sortedness obligation
        for a, b in zip(s.e, s.e[1:]):
            ex.oblige('%s: range is sorted' % nm, not_(less(b, a)), 'pre')
        return Ptr(p.lv, add(p.idx, r))
    k = ex.fresh('lb', 'int')
    ex.assume(and_(le(0, k), le(k, s.n)))
    if nm == 'lower_bound':
        ex.assume(implies(lt(k, s.n), not_(less(s.fn(k), x))))
        ex.assume(implies(lt(0, k), less(s.fn(sub(k, 1)), x)))
    else:
        ex.assume(implies(lt(k, s.n), less(x, s.fn(k))))
        ex.assume(implies(lt(0, k), not_(less(x, s.fn(sub(k, 1))))))
    a = z3.Int('sa')
    b = z3.Int('sb')
    ex.oblige('%s: range is sorted' % nm,
              z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a <= b, b < zt(s.n)), z3.Not(zt(less(s.fn(b), s.fn(a)))))), 'pre')
    return Ptr(p.lv, add(p.idx, k))


def minmax_element(ex, nm, args):
    p, q = ex.ev(args[0]), ex.ev(args[1])
    cmpf = ex.ev(args[2]) if len(args) > 2 else None
    less = (lambda a, b: vlt(ex, a, b)) if cmpf is None else (lambda a, b: tobool(ex.apply(cmpf, [a, b])))
    s = seq_copy(ex, p, q)
    if not isinstance(s, Vec):
        b = ex.fresh('ext', 'int', 0, None)
        ex.assume(ite(eq(s.n, 0), eq(b, 0), lt(b, s.n)))
        a = z3.Int('xa')
        y = s.fn(b)
        c = less(s.fn(a), y) if nm == 'min_element' else less(y, s.fn(a))
        ex.fact(z3.ForAll([a], z3.Implies(z3.And(0 <= a, a < zt(s.n)), z3.Not(zt(c)))))
        return Ptr(p.lv, add(p.idx, b))
    if not s.e:
        return q
    bi, bv = 0, s.e[0]
    for i in range(1, len(s.e)):
        y = s.e[i]
        c = less(y, bv) if nm != 'max_element' else less(bv, y)
        if not isscalar(y):      # elements of maps: one path per choice
            if ex.branch(c):
                bi, bv = i, y
            continue
        bi = ite(c, i, bi)
        bv = ite(c, y, bv)
    return Ptr(p.lv, add(p.idx, bi))


def generate(ex, args):
    p, q, f = ex.ev(args[0]), ex.ev(args[1]), ex.ev(args[2])
    k = simp(sub(q.idx, p.idx))
    if not isc(k):
        return generate_sym(ex, p, k, f)
    out = [ex.apply(f, []) for _ in range(int(k))]
    seq_write(ex, p, Vec(out))
    return None


def generate_sym(ex, p, n, f):
    """generate over a symbolic range: affine summary of the captured integers, proved inductive"""
    if p.idx != 0:
        raise Unsupported('generate not from the beginning')
    tgt = ex.rd(p.lv)
    base = dict(ex.st.mem)
    # trial iteration: which locations change and by how much
    snap = ex.st.copy()
    ex.st = snap.copy()
    ex.apply(f, [])
    changed = {r: (base[r], ex.st.mem[r]) for r in base if ex.st.mem.get(r) is not base[r]}
    ex.st = snap
    step = {}
    for r, (a, b) in changed.items():
        if same(a, b) is True:
            continue
        if not (isc(a) or isterm(a)):
            raise Unsupported('generate changes a non-scalar')
        step[r] = simp(sub(b, a))
    # inductive step at symbolic iteration i
    i = ex.fresh('it', 'int', 0, 2**31 - 1)
    st = ex.st.copy()
    ex.fact(zt(lt(i, n)))
    for r, d in step.items():
        ex.st.mem[r] = add(base[r], mul(i, d))
    val = ex.apply(f, [])
    for r in base:
        if r in step:
            ex.oblige('generate: affine summary is inductive', eq(ex.st.mem[r], add(base[r], mul(add(i, 1), step[r]))), 'invariant')
        elif ex.st.mem.get(r) is not base[r] and same(ex.st.mem[r], base[r]) is not True:
            raise Unsupported('generate: location changes irregularly')
    zv = zt(val)
    ex.st = st
    for r, d in step.items():
        ex.st.mem[r] = add(base[r], mul(n, d))
    iz = i
    ex.wr(p.lv, SVec(tgt.n, lambda j: z3.substitute(zv, (iz, zt(j))), tgt.ty))
    return None
