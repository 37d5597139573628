"""Loops over a symbolic number of iterations.

The effect of the loop on every modified location is inferred from one symbolic iteration and is then the loop's
invariant:  scalar/pointer  x(k) = x0 + k*d ;  vector grown by push_back ;  array stores a[idx(k)] = val(k) whose reads do
not depend on earlier iterations (proved) and whose targets are pairwise distinct (proved).  Anything else needs an
invariant supplied by the property (ex.loopspecs) which is checked initially and for preservation."""
import z3
from .values import *
from .execu import strip_mod


NOELEM = Obj('no element', {})    # content of an empty sequence: never read inside its length


class Entry:
    """store performed for all (p1..pm) with 0 <= p_i < n_i (n_i may mention p_j, j<i) when cond holds"""
    def __init__(self, params, cond, idx, val):
        self.params, self.cond, self.idx, self.val = params, cond, idx, val

    def subst(self, m):
        return Entry([(p, zsub(n, m)) for p, n in self.params], zsub(self.cond, m), zsub(self.idx, m), zsub(self.val, m))

    def rename(self, ex):
        """fresh copies of the parameters"""
        m, ps = [], []
        for p, n in self.params:
            q = ex.fresh('q', 'int')
            ps.append((q, zsub(n, m)))
            m.append((p, q))
        return Entry(ps, zsub(self.cond, m), zsub(self.idx, m), zsub(self.val, m))

    def inrange(self):
        return and_(*[and_(le(0, p), lt(p, n)) for p, n in self.params])

    def at(self, ks):
        """(condition, index, value) for concrete parameter terms"""
        m = [(p, zt(k)) for (p, n), k in zip(self.params, ks)]
        return zsub(self.cond, m), zsub(self.idx, m), zsub(self.val, m)


def zsub(x, m):
    if not m:
        return x
    if isterm(x):
        return lit(z3.substitute(x, *[(a, zt(b)) for a, b in m]))
    if isinstance(x, Vec):
        return Vec([zsub(e, m) for e in x.e], x.ty)
    if isinstance(x, Obj):
        return Obj(x.cls, {k: zsub(v, m) for k, v in x.f.items()})
    if isinstance(x, Ptr):
        return Ptr(x.lv, zsub(x.idx, m)) if x.idx is not None else x
    if isinstance(x, SVec):
        return SVec(zsub(x.n, m), NSub(x.fn, m), x.ty)
    return x


class NSub(Node):
    def __init__(self, p, m):
        self.p, self.m = p, m

    def __call__(self, i):
        # rename the index apart is not needed: m only maps loop counters / havoc symbols
        return zsub(self.p(i), self.m)


class NMap(Node):
    def __init__(self, ex, base, entries):
        self.ex, self.base, self.entries = ex, base, entries
        self.skol = None

    def hit(self, e, i):
        """condition that entry e writes cell i, and the parameters doing so"""
        if len(e.params) == 1:
            p, n = e.params[0]
            aff = affine(e.idx, p)
            if aff is not None:
                c0, c1 = aff
                if isc(c1) and c1 != 0:
                    d = sub(i, c0)
                    if c1 < 0:
                        d, c1 = neg(d), -c1
                    if c1 == 1:
                        j = d
                        ok = True
                    else:
                        j = lit(zt(d) / c1) if isterm(d) else d // c1
                        ok = eq(lit(zt(d) % c1) if isterm(d) else d % c1, 0)
                    j = simp(j)
                    return and_(ok, le(0, j), lt(j, n), zsub(e.cond, [(p, zt(j))])), [j]
        if not e.params:
            return and_(e.cond, eq(e.idx, i)), []
        # skolem inverse of the (injective) index map
        if self.skol is None:
            self.skol = {}
        key = id(e)
        if key not in self.skol:
            fs = []
            for p, n in e.params:
                self.ex.uniq += 1
                fs.append(z3.Function('inv.%d' % self.ex.uniq, z3.IntSort(), z3.IntSort()))
            idxfun = first_app(e.idx, [p for p, n in e.params])
            body = z3.Implies(zt(and_(e.inrange(), e.cond)), z3.And(*[f(zt(e.idx)) == p for f, (p, n) in zip(fs, e.params)]))
            pats = [idxfun] if idxfun is not None else None
            ps = [p for p, n in e.params]
            self.skol[key] = (fs, z3.ForAll(ps, body, patterns=pats) if pats else z3.ForAll(ps, body))
        fs, ax = self.skol[key]
        if not any(ax.eq(q) for q in self.ex.st.pc):
            self.ex.fact(ax)
        ks = [f(zt(i)) for f in fs]
        m = [(p, k) for (p, n), k in zip(e.params, ks)]
        return and_(zsub(e.inrange(), m), zsub(e.cond, m), eq(zsub(e.idx, m), i)), ks

    def __call__(self, i):
        r = self.base(i)
        for e in self.entries:
            c, ks = self.hit(e, i)
            if c is False:
                continue
            v = zsub(e.val, [(p, zt(k)) for (p, n), k in zip(e.params, ks)])
            r = v if r is NOELEM or (r is NULL and isinstance(v, Ptr) and self.ex.provable(c)) else ite(c, v, r)
        return r


def first_app(t, ps):
    """a smallest uninterpreted application in t that mentions all of ps"""
    if not isterm(t):
        return None
    best = None
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() > 0 and all(mentions(x, [p]) for p in ps):
                best = x
            todo.extend(x.children())
    return best


def affine(t, k):
    """t = c0 + c1*k with c1 concrete"""
    if not isterm(t):
        return (t, 0)
    t0 = simp(lit(z3.substitute(t, (k, z3.IntVal(0)))))
    t1 = simp(lit(z3.substitute(t, (k, z3.IntVal(1)))))
    d = sub(t1, t0)
    d = simp(d) if isterm(d) else d
    if mentions(d, [k]):
        return None
    r = simp(zt(t) - (zt(t0) + zt(d) * k))
    if isc(r) and r == 0:
        return (t0, d)
    return None


def mentions(t, syms):
    ids = {s.get_id() for s in syms}
    if isinstance(t, (Vec,)):
        return any(mentions(x, syms) for x in t.e)
    if isinstance(t, Obj):
        return any(mentions(x, syms) for x in t.f.values())
    if isinstance(t, Ptr):
        return mentions(t.idx, syms)
    if not isterm(t):
        return False
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.get_id() in ids:
            return True
        if z3.is_app(x):
            if x.num_args() > 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                pass
            todo.extend(x.children())
        elif z3.is_quantifier(x):
            todo.append(x.body())
    return False


def names_in(t):
    out = set()
    if isinstance(t, Vec):
        for x in t.e:
            out |= names_in(x)
        return out
    if isinstance(t, Obj):
        for x in t.f.values():
            out |= names_in(x)
        return out
    if isinstance(t, Ptr):
        return names_in(t.idx)
    if not isterm(t):
        return out
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name())
            todo.extend(x.children())
        elif z3.is_quantifier(x):
            todo.append(x.body())
    return out


def apps_of(t, f, out=None):
    """all applications f(p) in t"""
    if out is None:
        out = []
    if isinstance(t, Vec):
        for x in t.e:
            apps_of(x, f, out)
        return out
    if isinstance(t, Obj):
        for x in t.f.values():
            apps_of(x, f, out)
        return out
    if isinstance(t, Ptr):
        t = t.idx
    if not isterm(t):
        return out
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.num_args() == 1 and x.decl().eq(f):
                if not any(x.eq(y) for y in out):
                    out.append(x)
            todo.extend(x.children())
    return out


def diff(v, w, path, out):
    """paths of changed leaves"""
    if same(v, w):
        return
    if isinstance(v, Obj) and isinstance(w, Obj) and v.cls == w.cls and v.f.keys() == w.f.keys():
        for k in v.f:
            diff(v.f[k], w.f[k], path + (k,), out)
        return
    if isinstance(v, Vec) and isinstance(w, Vec) and len(v.e) == len(w.e) and len(v.e) > 0:
        for k in range(len(v.e)):
            diff(v.e[k], w.e[k], path + (('i', k),), out)
        return
    out.append(path)


class Skip(Exception):
    pass


class Unmerged(Exception):
    def __init__(self, pre, afters, msg):
        Exception.__init__(self, msg)
        self.pre, self.afters = pre, afters


def elem_template(v, w):
    """shape of the elements of a sequence leaf: 'int' | 'real' | 'bool' | ('vec', n, shape)"""
    def shape(x):
        if isinstance(x, bool) or (isterm(x) and z3.is_bool(x)):
            return 'bool'
        if isscalar(x):
            return 'real' if isreal(x) else 'int'
        if isinstance(x, Vec):
            if not x.e:
                raise Skip('empty element')
            ss = [shape(y) for y in x.e]
            return ('vec', x.n, ss, x.ty)
        if isinstance(x, Obj):
            return ('obj', x.cls, {k: shape(y) for k, y in x.f.items()})
        if isinstance(x, Ptr) and x.idx is not None:
            return ('ptr', x.lv)
        raise Skip('element %r' % (x,))
    for s in (w, v):
        if isinstance(s, Vec) and s.e:
            return shape(s.e[-1])
        if isinstance(s, SVec):
            if isinstance(s.fn, NMap) and s.fn.entries:
                return shape(s.fn.entries[-1].val)
            if isinstance(s.fn, NStore) and isinstance(s.fn.v, Ptr):
                return shape(s.fn.v)
            try:
                return shape(s.fn(z3.Int('probe')))
            except (Unsupported, MergeFail):
                continue
    raise Skip('unknown element shape')


def fresh_content(ex, shape, funs):
    if shape in ('int', 'real', 'bool'):
        f = ex.freshfun('arr', shape)
        funs.append(f)
        return lambda i: f(zt(i))
    if shape[0] == 'vec':
        fs = [fresh_content(ex, s, funs) for s in shape[2]]
        return lambda i: Vec([g(i) for g in fs], shape[3])
    if shape[0] == 'obj':
        fs = {k: fresh_content(ex, s, funs) for k, s in shape[2].items()}
        return lambda i: Obj(shape[1], {k: g(i) for k, g in fs.items()})
    if shape[0] == 'ptr':
        f = ex.freshfun('arr', 'int')
        funs.append(f)
        return lambda i: Ptr(shape[1], f(zt(i)))
    raise Skip('shape')


def scalar_funs(node_fn, i):
    """flat list of scalar terms of the element at i"""
    return flat(node_fn(i))


def flat(x):
    if isinstance(x, Vec):
        return [z for y in x.e for z in flat(y)]
    if isinstance(x, Obj):
        return [z for k in x.f for z in flat(x.f[k])]
    if isinstance(x, Ptr) and x.idx is not None:
        return [x.idx]
    return [x]


def parse_stores(node, base):
    """node as base plus entries; None if it is not"""
    if node is base:
        return []
    if isinstance(node, NStore):
        r = parse_stores(node.p, base)
        if r and not r[-1].params and r[-1].cond is True and eq(r[-1].idx, node.i) is True:
            r = r[:-1]           # overwritten at once
        return None if r is None else r + [Entry([], True, node.i, node.v)]
    if isinstance(node, NMap):
        r = parse_stores(node.base, base)
        return None if r is None else r + list(node.entries)
    if isinstance(node, NIte):
        a, b = parse_stores(node.a, base), parse_stores(node.b, base)
        if a is None or b is None:
            return None
        k = 0
        while k < len(a) and k < len(b) and a[k] is b[k]:
            k += 1
        c = node.c
        return a[:k] + [Entry(e.params, and_(c, e.cond), e.idx, e.val) for e in a[k:]] + [Entry(e.params, and_(not_(c), e.cond), e.idx, e.val) for e in b[k:]]
    if isinstance(node, NSub):
        r = parse_stores(node.p, base)
        return None if r is None else [e.subst(node.m) for e in r]
    return None


def entries_of(v):
    """stores that produced an initially empty sequence"""
    if not isinstance(v, SVec):
        return None
    n = v.fn
    while isinstance(n, NMap) and isinstance(n.base, NMap) and not n.entries:
        n = n.base
    return n.entries if isinstance(n, NMap) else None


class Ctx:
    """handed to user-supplied loop invariants"""
    def __init__(self, ex, n, base, env, fn):
        self.ex, self.n, self.base, self.env, self.fn = ex, n, base, env, fn

    def lv(self, name):
        for i, l in self.env.items():
            if self.ex.names.get(i) == name:
                return l
        raise Skip('no variable ' + name)


def getpath(v, path):
    for p in path:
        v = v.e[p[1]] if isinstance(p, tuple) else v.f[p]
    return v


def solve_count(ex, c, k):
    """number of iterations for condition c(k) that is linear in the counter; None if not of that form"""
    if not isterm(c):
        return None
    ne = False
    t = z3.simplify(c)
    negd = False
    if z3.is_not(t):
        negd = True
        t = t.children()[0]
    kind = t.decl().kind()
    ch = t.children()
    if kind in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT):
        a, b = ch
        if kind in (z3.Z3_OP_GE, z3.Z3_OP_GT):
            a, b = b, a
        strict = kind in (z3.Z3_OP_LT, z3.Z3_OP_GT)
        if negd:
            a, b = b, a
            strict = not strict
        # condition: a < b or a <= b
        d = b - a
        if not strict:
            d = d + 1
        if z3.is_real(d):
            return None
        af = affine(simp(d), k)
        if af is None or not isc(af[1]) or af[1] >= 0:
            return None
        d0, s = af[0], -af[1]
        if s == 1:
            return simp(ite(le(d0, 0), 0, d0)) if not ex.provable(le(0, d0)) else d0
        q = lit((zt(d0) + (s - 1)) / s) if isterm(d0) else (d0 + s - 1) // s
        return ite(le(d0, 0), 0, q)
    if (kind == z3.Z3_OP_EQ and negd) or kind == z3.Z3_OP_DISTINCT:
        a, b = ch
        if not z3.is_int(a):
            return None
        af = affine(simp(b - a), k)
        if af is None or not isc(af[1]) or af[1] == 0:
            return None
        d0, s = af[0], -af[1]
        if s < 0:
            d0, s = neg(d0), -s
        if s == 1:
            ex.oblige('loop with != terminates', le(0, d0), 'term')
            return d0
        ex.oblige('loop with != terminates', and_(le(0, d0), eq(tmod(d0, s), 0)), 'term')
        return tdiv(d0, s)
    return None


def try_loop(ex, n, cond, inc, body_, condf, incf, bodyf):
    if getattr(ex, 'nosum', False):
        return None
    st0, env0, obs0, cache0, ctr0 = ex.st, ex.env, ex.obs, ex.obcache, ex.ctr
    ks0, disc0 = list(ex.kstack), ex.discovery
    try:
        r = summarise(ex, n, condf, incf, bodyf)
        ex.kstack, ex.discovery = ks0, disc0
        return r
    except (Skip, MergeFail, Unmerged) as e:
        ex.st, ex.env, ex.obs, ex.obcache = st0, env0, obs0, cache0
        ex.loopnotes.append('%s: %s' % (ex.where, e))
        ex.kstack, ex.discovery = ks0, disc0
        if getattr(ex, 'loopdebug', False):
            print('LOOP NOT SUMMARISED', ex.curfn, ex.where, e)
        return None


def summarise(ex, n, condf, incf, bodyf):
    base = ex.st
    nb = len(base.pc)
    env0 = ex.env
    obs0, cache0 = ex.obs, ex.obcache

    from .execu import Cont, Infeasible

    def thunk():
        ex.assume(tobool(condf()))
        try:
            bodyf()
        except Cont:
            pass
        incf()

    def iterate(values, extra=()):
        """one iteration from the state with the given leaf values; returns (merged after-state or None, early exits)"""
        st = base.copy()
        ex.st = st
        ex.env = dict(env0)
        for f in extra:
            if not isinstance(f, bool):
                ex.fact(zt(f))
        for (root, path), v in values.items():
            st.mem[root] = ex._upd(st.mem[root], path, v)
        pre = ex.st
        outs = ex.explore(thunk)
        norm = [(s, 'norm', None) for s, kk, v in outs if kk == 'norm']
        early = [(s, kk, v) for s, kk, v in outs if kk != 'norm']
        after = None
        if norm:
            try:
                after, _ = ex.merge_outs(pre, norm)
            except MergeFail as e:
                raise Unmerged(pre, [o[0] for o in norm], str(e))
        return pre, after, early

    ex.obs, ex.obcache = [], {}      # discovery runs leave no obligations
    ex.discovery += 1
    H = {}
    funs = {}        # leaf -> list of content functions
    shapes = {}

    def havoc(key, v, w=None):
        if isinstance(v, bool) or (isterm(v) and z3.is_bool(v)):
            return ex.fresh('hv', 'bool')
        if isscalar(v):
            if isscalar(w) and isreal(w) != isreal(v):
                return ex.fresh('hv', 'real')
            return ex.fresh('hv', 'real' if isreal(v) else 'int')
        if isinstance(v, Ptr) and v.idx is not None:
            return Ptr(v.lv, ex.fresh('hp', 'int'))
        if isinstance(v, (Vec, SVec)):
            fl = []
            shp = elem_template(v, w)
            fn = fresh_content(ex, shp, fl)
            funs[key] = fl
            shapes[key] = shp
            nn = ex.fresh('hn', 'int', 0, (1 << 62)) if (w is None or not same(v.n, w.n)) else v.n
            return SVec(nn, fn, v.ty)
        raise Skip('modified location of unsupported kind %r' % (v,))

    syms = []
    for rnd in range(8):
        new = []
        afters = None
        try:
            pre, after, early = iterate(H)
        except Unmerged as u:
            pre, afters = u.pre, u.afters
            after = afters[0]
            for a in afters:
                for root in base.mem:
                    if root in a.mem and a.mem[root] is not pre.mem[root]:
                        ps = []
                        diff(pre.mem[root], a.mem[root], (), ps)
                        for p in ps:
                            if (root, p) not in H and (root, p) not in new and not any(r == root and p[:len(q)] == q for r, q in H):
                                new.append((root, p))
            if not new:
                raise Skip('paths of the body cannot be merged: %s' % u)
        if after is None:
            raise Skip('body never completes an iteration')
        for root in base.mem if afters is None else ():
            if root in after.mem and after.mem[root] is not pre.mem[root]:
                ps = []
                diff(pre.mem[root], after.mem[root], (), ps)
                for p in ps:
                    if (root, p) not in H:
                        if any(r == root and (p[:len(q)] == q) for r, q in H):
                            continue
                        new.append((root, p))
        if after.ghost != pre.ghost:
            for g in set(after.ghost) | set(pre.ghost):
                if after.ghost.get(g) is not pre.ghost.get(g):
                    raise Skip('ghost state modified in the loop')
        if not new:
            break
        for key in new:
            root, p = key
            w = getpath(after.mem[root], p)
            for a in afters or ():
                w2 = getpath(a.mem[root], p)
                if not same(w2, pre.mem[root] if not p else getpath(pre.mem[root], p)):
                    w = w2
            # a location below an already havocked vector element etc.
            H[key] = havoc(key, getpath(base.mem[root], p), w)
            for k2 in list(H):
                if k2 != key and k2[0] == root and k2[1][:len(p)] == p:
                    del H[k2]
    else:
        raise Skip('no stable set of modified locations')

    ex.st = base.copy()
    k = ex.fresh('it', 'int', 0, None)
    kge = k >= 0
    kname = k.decl().name()
    first_sym = ex.ctr
    outer = list(ex.kstack)
    ex.kstack = outer + [k]

    def havsyms():
        out = []
        for key, v in H.items():
            if key in aff:
                continue
            if isscalar(v):
                out.append(v)
            elif isinstance(v, Ptr):
                out.append(v.idx)
            elif isinstance(v, SVec):
                if isterm(v.n):
                    out.append(v.n)
        return out

    bv = {key: getpath(base.mem[key[0]], key[1]) for key in H}
    aff = {}
    affmod = []
    # scalars advancing by a loop-invariant amount
    changed = True
    names_havoc = lambda: {s.decl().name() for s in havsyms()} | {f.name() for fl in funs.values() for f in fl}
    pre, after, early = iterate(H)
    for key, v in H.items():
        w = getpath(after.mem[key[0]], key[1])
        if isscalar(v) and not (isterm(v) and z3.is_bool(v)) and isscalar(w):
            d = simp(sub(w, v))
        elif isinstance(v, Ptr) and isinstance(w, Ptr) and w.lv.same(v.lv):
            d = simp(sub(w.idx, v.idx))
        else:
            continue
        bad = {s.decl().name() for kk, x in H.items() for s in ([x] if isscalar(x) and isterm(x) else [x.idx] if isinstance(x, Ptr) else [x.n] if isinstance(x, SVec) and isterm(x.n) else [])}
        bad |= {f.name() for fl in funs.values() for f in fl}
        nm = names_in(d)
        if nm & bad:
            d2 = simp(strip_mod(d, 32))
            nm2 = names_in(d2)
            if not (nm2 & bad):
                d, nm = d2, nm2
                affmod.append(key)      # confirmed below: no wrap-around while the loop runs
        if nm & bad or any(created_after(x, first_sym) for x in nm):
            continue
        aff[key] = d

    def affval(key, kk):
        v0 = bv[key]
        d = aff[key]
        if isinstance(v0, Ptr):
            return Ptr(v0.lv, add(v0.idx, mul(d, kk)))
        return add(v0, mul(d, kk))

    cur = dict(H)
    for key in aff:
        cur[key] = affval(key, k)
    # sequences growing by one each iteration
    pre, after, early = iterate(cur, [kge])
    app = {}
    for key, v in H.items():
        if not isinstance(v, SVec) or not isterm(v.n) or not v.n.decl().name().startswith('hn!'):
            continue
        w = getpath(after.mem[key[0]], key[1])
        if not isinstance(w, SVec):
            raise Skip('sequence changes its kind')
        d = growth(w.n, v.n)
        if isc(d) and d == 1:
            app[key] = True
        elif not (names_in(d) & (names_havoc() | {kname})) and not any(created_after(x, first_sym) for x in names_in(d)) and growth_cond(w.n, v.n) is None:
            app[key] = ('block', d)
        else:
            cc = growth_cond(w.n, v.n)
            if cc is None:
                if names_in(d) & names_havoc():
                    raise Skip('sequence length changes irregularly: %s mentions %s' % (d, names_in(d) & names_havoc()))
                cc = 'sum'
            app[key] = cc      # conditional growth
    counts = {}
    for key, c in app.items():
        v = H[key]
        v0 = bv[key]
        if isinstance(c, bool) and c is True:
            nk = add(v0.n, k)
            cur[key] = SVec(nk, v.fn, v.ty)
        elif isinstance(c, tuple):
            cur[key] = SVec(add(v0.n, mul(c[1], k)), v.fn, v.ty)
        else:
            twin = [k2 for k2 in counts if isterm(c) and isterm(app[k2]) and app[k2].eq(c)]
            if twin:
                C = counts[twin[0]]     # grows under the same condition
            else:
                ex.uniq += 1
                CF = z3.Function('cnt.%d' % ex.uniq, *([z3.IntSort()] * (len(outer) + 2)))
                C = (lambda CF: lambda j: CF(*(outer + [zt(j)])))(CF)
            counts[key] = C
            cur[key] = SVec(add(v0.n, C(k)), v.fn, v.ty)
    rest = [key for key, v in H.items() if key not in aff and not isinstance(v, SVec)]
    spec = None
    if rest:
        spec = user_spec(ex, n, base, env0, rest, H)
        if spec is None:
            spec = last_written(ex, rest, cur, H, bv, k, iterate, kge, funs, aff, first_sym)
            if [r for r in rest if r not in spec['values']] and not ex.havoc_rest:
                spec = None
        if spec is None:
            raise Skip('non-affine scalars %s' % [describe(ex, env0, r) for r in rest])
        for key in rest:
            if key in spec['values']:
                cur[key] = spec['values'][key](k)
    # ---- generic iteration
    invk = [tobool(f) for f in (spec['inv'](k, lambda key: cur[key]) if spec and spec.get('inv') else ())]
    dmark = len(ex.loopdefs)
    pre, after, early = iterate(cur, [kge] + [zt(f) for f in invk])
    innerdefs = ex.loopdefs[dmark:]
    for key in affmod:
        if key in aff:
            st1, ex.st = ex.st, after
            w, x = getpath(after.mem[key[0]], key[1]), affval(key, add(k, 1))
            ok = ex.provable(eq(w.idx, x.idx) if isinstance(w, Ptr) else eq(w, x), tmo=5000)
            ex.st = st1
            if not ok:
                raise Skip('counter may wrap around')
    for key, c in app.items():
        if isinstance(c, str):
            app[key] = ('sum', growth(getpath(after.mem[key[0]], key[1]).n, cur[key].n))
    ex.st = pre.copy()
    ck = tobool(simp(tobool(condf())))
    allfuns = {f.name(): (key, f) for key, fl in funs.items() for f in fl}
    maps = {}
    allex = []
    for key, v in cur.items():
        if not isinstance(v, SVec):
            continue
        w = getpath(after.mem[key[0]], key[1])
        es = parse_stores(w.fn, v.fn)
        if es is None:
            raise Skip('array content not a sequence of stores')
        maps[key] = es
    N = None
    # iteration count
    N = solve_count(ex, ck, k) if not isc(ck) else None
    extraN = []
    if N is None:
        N = ex.fresh('N', 'int', 0, None)
        base_pc_N = True
        extraN = [('fresh', N)]
    # reads of modified arrays: must not see earlier iterations' stores
    subs = []
    pcs_iter = list(after.pc)

    def all_terms():
        for es in maps.values():
            for e in es:
                yield e.cond
                yield e.idx
                yield e.val
                for p, nn in e.params:
                    yield nn
        yield ck
        for s, kk, v in early:
            yield early_cond(s, len(pre.pc))
    saved = ex.st
    for key, fl in funs.items():
        v0 = bv[key]
        for pos, f in enumerate(fl):
            apps = []
            for t in all_terms():
                apps_of(t, f, apps)
            for a in apps:
                p = a.children()[0]
                # p may itself mention parameters of entries (inner loops)
                j = ex.fresh('j', 'int')
                ex.st = pre.copy()
                ex.st.pc = pcs_iter + [j >= 0, j < k]
                ok = True
                for e in maps[key]:
                    e2 = e.subst([(k, j)]).rename(ex)
                    for a2 in apps_of(e2.idx, f) + apps_of(e2.cond, f):
                        raise Skip('index depends on the modified array')
                    prm = []
                    for es in maps.values():
                        for e3 in es:
                            prm.append(e3.inrange() if e3.params else True)
                    g = not_(and_(e2.inrange(), e2.cond, eq(e2.idx, p)))
                    if not ex.provable(implies(and_(*prm), g), tmo=5000):
                        ok = False
                        break
                if not ok:
                    raise Skip('iteration reads what an earlier one wrote')
                # element of the original content
                orig = v0.fn(p) if isinstance(v0, SVec) else safe_elem(v0, p)
                if orig is NOELEM:
                    raise Skip('reads beyond the initial length')
                orig = flat(orig)
                subs.append((a, orig[pos]))
    ex.st = saved
    if subs:
        for key in maps:
            maps[key] = [esub(e, subs) for e in maps[key]]
        ck = zsub(ck, subs)
    # nothing may depend on unknown values any more
    bad = {f.name() for fl in funs.values() for f in fl}
    for key in rest:
        if spec and key in spec['values']:
            continue
        v = H[key]
        bad.add(v.decl().name() if isscalar(v) else v.idx.decl().name())
    for es in maps.values():
        for e in es:
            for t in (e.cond, e.idx, e.val):
                if names_in(t) & bad:
                    raise Skip('stored value depends on a loop-carried unknown')
                if any(created_after(x, first_sym) for x in names_in(t) if not x.startswith(('q!', 'cnt!', 'inv!', 'it!'))):
                    # symbols created inside the body would differ per iteration
                    raise Skip('stored value uses a value chosen inside the body')
    # distinct targets
    for key, es in maps.items():
        if isinstance(app.get(key), tuple):
            # appended blocks: every store of an iteration lies in its own block
            nk = cur[key].n
            ex.st = pre.copy()
            ex.st.pc = list(pcs_iter)
            if app[key][0] == 'sum' and not ex.provable(le(0, app[key][1]), tmo=5000):
                raise Skip('sequence may shrink')
            for a in es:
                g = implies(and_(a.inrange(), a.cond), and_(le(nk, a.idx), lt(a.idx, add(nk, app[key][1]))))
                if not ex.provable(g, tmo=5000):
                    raise Skip('store outside the appended block')
            continue
        j = ex.fresh('j', 'int')
        for e in es:
            for e1 in es:
                a = e
                b = e1.subst([(k, j)]).rename(ex)
                ex.st = pre.copy()
                ex.st.pc = pcs_iter + [j >= 0, j < k]
                g = implies(and_(a.inrange(), a.cond, b.inrange(), b.cond), not_(eq(a.idx, b.idx)))
                if key in counts:
                    continue      # positions n0 + cnt(k): strictly increasing by construction
                if not ex.provable(g, tmo=5000):
                    raise Skip('two iterations store to the same element')
    ex.st = saved
    # ---- obligations of the generic iteration are now recorded for real
    ex.obs, ex.obcache = obs0, cache0
    ex.discovery -= 1

    def final(kk):
        """leaf values when kk iterations have been completed"""
        out = {}
        for key, v in cur.items():
            if key in aff:
                out[key] = affval(key, kk)
            elif isinstance(v, SVec):
                v0 = bv[key]
                m = [(k, zt(kk))]
                nn = v0.n
                if key in counts:
                    nn = add(v0.n, counts[key](zt(kk)))
                elif app.get(key) is True:
                    nn = add(v0.n, kk)
                elif isinstance(app.get(key), tuple) and app[key][0] == 'block':
                    nn = add(v0.n, mul(app[key][1], kk))
                b = v0.fn if isinstance(v0, SVec) else NBase((lambda vv: lambda i: safe_elem(vv, i))(v0))
                es = []
                for e in maps[key]:
                    ex.uniq += 1
                    p = z3.Int('p.%d' % ex.uniq)
                    es.append(Entry([(p, kk)] + [(q, zsub(x, [(k, p)])) for q, x in e.params], zsub(e.cond, [(k, p)]), zsub(e.idx, [(k, p)]), zsub(e.val, [(k, p)])))
                out[key] = SVec(nn, NMap(ex, b, es), v.ty)
            elif spec and key in spec['values']:
                out[key] = zsub(spec['values'][key](kk), [])
            else:
                out[key] = ex.fresh('lx', 'real' if isreal(H[key]) else ('bool' if isterm(H[key]) and z3.is_bool(H[key]) else 'int')) if isscalar(H[key]) else Ptr(H[key].lv, ex.fresh('lx', 'int'))
        return out
    defs = []
    for key, C in counts.items():
        c = app[key]
        j, j2 = z3.Int('cj'), z3.Int('cj2')
        oq = outer
        nonneg = [o >= 0 for o in oq]
        qa = lambda vs, b, pats: z3.ForAll(oq + vs, b, patterns=pats) if oq + vs else b
        if isinstance(c, tuple):
            c = zsub(c[1], subs) if subs else c[1]
            stepf = lambda t: z3.If(zt(zsub(c, [(k, t)])) > 0, zt(zsub(c, [(k, t)])), z3.IntVal(0))
            upper = lambda t: z3.BoolVal(True)
        else:
            c = zsub(c, subs) if subs else c
            stepf = lambda t: z3.If(zt(zsub(c, [(k, t)])), z3.IntVal(1), z3.IntVal(0))
            upper = lambda t: C(t) <= t
            ex.countfuns.append((C, k, c))
        if names_in(c) & bad:
            raise Skip('growth condition depends on a loop-carried unknown')
        if any(created_after(x, first_sym) for x in names_in(c)):
            raise Skip('growth depends on a value chosen inside the body')
        defs.append(qa([], C(z3.IntVal(0)) == 0, [C(z3.IntVal(0))]))
        defs.append(qa([j], z3.Implies(j >= 0, C(j + 1) == C(j) + stepf(j)), [C(j + 1)]))
        defs.append(qa([j], z3.Implies(j >= 0, z3.And(C(j) >= 0, upper(j))), [C(j)]))
        defs.append(qa([j, j2], z3.Implies(z3.And(j >= 0, j < j2), C(j) + stepf(j) <= C(j2)), [z3.MultiPattern(C(j), C(j2))]))
    for f in innerdefs:
        if names_in(f) & (bad | {x.decl().name() for x in havsyms()}):
            raise Skip('inner loop depends on a loop-carried unknown')
        defs.append(f)
    ex.loopdefs.extend(defs)
    # safety and callee preconditions of an arbitrary iteration
    vals = final(k)
    for key in rest:
        vals[key] = cur[key]
    invs = defs + [kge, zt(lt(k, N))] + [zt(f) for f in invk]
    for f in extraN:
        pass
    ex.st = base
    if spec and spec.get('inv'):
        zero = {key: bv[key] for key in H}
        ex.st = base.copy()
        for nm, f in spec['named'](0, lambda key: zero[key]):
            ex.oblige('loop invariant holds initially: ' + nm, f, 'inv')
    for key in rest:
        if spec and key in spec['values']:
            ex.st = base.copy()
            ex.oblige('loop invariant (closed form) holds initially', eq_val(spec['values'][key](0), bv[key]), 'inv')
    pre2, after2, early2 = iterate(vals, invs)
    if after2 is not None and spec:
        ex.st = after2.copy()
        getn = lambda key: getpath(after2.mem[key[0]], key[1])
        for key in rest:
            if key in spec['values']:
                ex.oblige('loop invariant (closed form) preserved', eq_val(getn(key), spec['values'][key](add(k, 1))), 'inv')
        if spec.get('inv'):
            for nm, f in spec['named'](add(k, 1), getn):
                ex.oblige('loop invariant preserved: ' + nm, f, 'inv')
    # ---- exits
    outs = []
    nq = [early_cond(s, len(pre2.pc)) for s, kk, v in early2]
    jq = z3.Int('eq')
    quant = []
    for q in nq:
        if q is None or any(created_after(x, first_sym) and not x.startswith(('it!', 'cnt!')) for x in names_in(q)):
            quant.append(None)
        else:
            quant.append(q)
    for (s, kk, v), q in zip(early2, quant):
        s2 = s
        for q2 in quant:
            if q2 is not None:
                s2.pc.append(z3.ForAll([jq], z3.Implies(z3.And(jq >= 0, jq < k), z3.Not(z3.substitute(zt(q2), (k, jq))))))
        # drop locations created in the body
        outs.append((s2, 'norm' if kk == 'brk' else kk, None if kk == 'brk' else v))
    st = base.copy()
    ex.st = st
    ex.env = env0
    fin = final(N)
    for key in rest:
        if spec and key in spec['values']:
            fin[key] = spec['values'][key](N)
    for (root, path), v in fin.items():
        st.mem[root] = ex._upd(st.mem[root], path, v)
    for f in defs:
        ex.fact(f)
    if extraN:
        ex.fact(N >= 0)
        cN = zsub(ck, [(k, N)])
        if names_in(cN) & bad:
            # condition over a loop-carried value: evaluate it in the exit state
            ex.st = st
            cN = tobool(condf())
        if not isc(not_(cN)):
            ex.fact(zt(not_(cN)))
        if not (names_in(ck) & bad):
            ex.fact(z3.ForAll([jq], z3.Implies(z3.And(jq >= 0, jq < N), zt(zsub(ck, [(k, jq)])))))
            ex.fact(z3.Or(N == 0, zt(zsub(ck, [(k, N - 1)]))))
        ex.assumed.add('termination of a loop without recognised counter')
    if spec and spec.get('inv'):
        for f in spec['inv'](N, lambda key: fin[key]):
            ex.assume(f)
    for q2 in quant:
        if q2 is not None:
            st.pc.append(z3.ForAll([jq], z3.Implies(z3.And(jq >= 0, jq < zt(N)), z3.Not(z3.substitute(zt(q2), (k, jq))))))
    ex.loops.append(ex.where)
    if not outs:
        ex.st = st
        return True
    outs.append((st, 'norm', None))
    kk, v = ex.join(base, outs)
    ex.raise_kind(kk, v)
    return True


def last_written(ex, rest, cur, H, bv, k, iterate, kge, funs, aff, first_sym):
    """scalars that every iteration overwrites with a value independent of earlier iterations: x(k) = w(k-1)"""
    vals = {}
    for rnd in range(3):
        c2 = dict(cur)
        for key, f in vals.items():
            c2[key] = f(k)
        pre, after, early = iterate(c2, [kge])
        bad = {f.name() for fl in funs.values() for f in fl}
        for key, v in H.items():
            if key in aff or key in vals:
                continue
            if isscalar(v):
                bad.add(v.decl().name())
            elif isinstance(v, Ptr):
                bad.add(v.idx.decl().name())
            elif isinstance(v, SVec) and isterm(v.n):
                bad.add(v.n.decl().name())
        new = False
        for key in rest:
            if key in vals:
                continue
            w = getpath(after.mem[key[0]], key[1])
            v0 = bv[key]
            if isscalar(w) and isterm(w):
                w = original_reads(ex, w, funs, cur, bv, after, pre, k)
            if not isscalar(w) or not isscalar(v0) or names_in(w) & bad or any(created_after(x, first_sym) for x in names_in(w)):
                continue
            vals[key] = (lambda w, v0: lambda kk: v0 if (isc(kk) and kk == 0) else ite(eq(kk, 0), v0, zsub(w, [(k, zt(sub(kk, 1)))])))(w, v0)
            new = True
        if not new:
            break
    return dict(values=vals)


def original_reads(ex, w, funs, cur, bv, after, pre, k):
    """replace reads of modified arrays at positions no earlier iteration stores to by the original content
    (only a proposal: the closed form is an obligation of its own afterwards)"""
    subs = []
    saved = ex.st
    for key, fl in funs.items():
        if not isinstance(cur.get(key), SVec):
            continue
        es = None
        for pos, f in enumerate(fl):
            for a in apps_of(w, f):
                if es is None:
                    es = parse_stores(getpath(after.mem[key[0]], key[1]).fn, cur[key].fn)
                    if es is None:
                        return w
                p = a.children()[0]
                j = ex.fresh('j', 'int')
                ex.st = pre.copy()
                ex.st.pc = list(after.pc) + [j >= 0, j < k]
                ok = True
                for e in es:
                    e2 = e.subst([(k, j)]).rename(ex)
                    if apps_of(e2.idx, f) or apps_of(e2.cond, f) or not ex.provable(not_(and_(e2.inrange(), e2.cond, eq(e2.idx, p))), tmo=5000):
                        ok = False
                        break
                ex.st = saved
                if not ok:
                    return w
                v0 = bv[key]
                orig = v0.fn(p) if isinstance(v0, SVec) else safe_elem(v0, p)
                if orig is NOELEM:
                    return w
                subs.append((a, flat(orig)[pos]))
    return zsub(w, subs) if subs else w


def eq_val(a, b):
    if isinstance(a, Ptr) or isinstance(b, Ptr):
        return eq(a.idx, b.idx) if a.lv.same(b.lv) else False
    return eq(a, b)


def early_cond(s, n0):
    return and_(*[p for i, p in enumerate(s.pc) if i >= n0 and i not in s.fi])


def esub(e, subs):
    return Entry([(p, zsub(n, subs)) for p, n in e.params], zsub(e.cond, subs), zsub(e.idx, subs), zsub(e.val, subs))


def safe_elem(v, i):
    if isinstance(v, Vec) and not v.e:
        return NOELEM
    if isinstance(v, Vec) and isc(i) and not 0 <= i < len(v.e):
        return v.e[0]
    return elem(v, i)


def growth(w, v):
    """w - v for a length w built from v by conditional additions"""
    d = simp(sub(w, v))
    if isc(d):
        return d
    if isterm(w) and isterm(v):
        a = v
        if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ADD and v.num_args() == 2:
            a = v.children()[1]
        d0 = lit(z3.simplify(z3.substitute(w, (a, z3.IntVal(0))) - z3.substitute(v, (a, z3.IntVal(0)))))
        s = z3.Solver()
        s.set('timeout', 2000)
        s.add(zt(w) - zt(v) != zt(d0))
        if s.check() == z3.unsat:
            return d0
    return d


def growth_cond(w, v):
    """condition under which length w is v+1 (it is v otherwise); None if neither"""
    if isterm(w) and z3.is_app(w) and w.decl().kind() == z3.Z3_OP_ITE:
        c, a, b = w.children()
        x, y = growth_cond(lit(a), v), growth_cond(lit(b), v)
        if x is None or y is None:
            return None
        return or_(and_(c, x), and_(not_(c), y))
    d = simp(sub(w, v))
    if isc(d):
        return True if d == 1 else False if d == 0 else None
    return None


def created_after(name, ctr):
    i = name.find('!')
    if i < 0:
        return False
    s = name[i + 1:].split('[')[0]
    try:
        return int(s) > ctr
    except ValueError:
        return False


def describe(ex, env, key):
    for i, l in env.items():
        if l.root == key[0]:
            return '%s%s' % (ex.names.get(i, i), ''.join('.%s' % (p,) for p in key[1]))
    return key


def user_spec(ex, n, base, env, rest, H):
    for f in ex.loopspecs:
        c = Ctx(ex, n, base, env, ex.curfn)
        c.rest, c.H = rest, H
        c.bv = {key: getpath(base.mem[key[0]], key[1]) for key in H}
        s = f(ex, c)
        if s is not None:
            s.setdefault('values', {})
            if s.get('named') and not s.get('inv'):
                nm = s['named']
                s['inv'] = lambda k, get, nm=nm: [f for _, f in nm(k, get)]
            return s
    return None
