"""Deductive symbolic executor over the clang AST.

One run of a function body from a symbolic pre-state generates the function's verification conditions:
postconditions, callee preconditions, loop-summary/invariant side conditions, index bounds, signed-overflow and
division obligations; each is discharged by z3 / cvc5.  Callees with a registered contract are replaced by that
contract; callees without one are expanded (their bodies are in /repo); std:: and MPI functions use the assumed
contracts of stdmodel.py.
"""
import z3, time, os, re
from fractions import Fraction
from .values import *
from . import frontend as F
from .frontend import tyof, clean, INTS, FLOATS, int_range
from . import solve


class Infeasible(Exception):
    pass


class Throw(Exception):
    def __init__(self, what):
        self.what = what


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class State:
    __slots__ = ('mem', 'pc', 'ghost', 'fi')

    def __init__(self, mem=None, pc=None, ghost=None, fi=None):
        self.mem = mem if mem is not None else {}
        self.pc = pc if pc is not None else []
        self.fi = fi if fi is not None else set()      # positions in pc that are facts, not branch decisions
        self.ghost = ghost if ghost is not None else {}

    def copy(self):
        return State(dict(self.mem), list(self.pc), dict(self.ghost), set(self.fi))


class Dec:
    def __init__(self, pre):
        self.pre = pre
        self.made = []
        self.n = []


class Obligation:
    __slots__ = ('name', 'status', 'backend', 'model', 'kind', 'detail', 'where')

    def __init__(self, name, status, backend, kind, model=None, detail='', where=''):
        self.name, self.status, self.backend, self.kind, self.model, self.detail, self.where = name, status, backend, kind, model, detail, where


BOUNDS = {}   # name -> (lo,hi)


def strip_mod(v, w):
    """v modulo 2^w is unchanged when inner reductions modulo 2^m, m >= w, are dropped from sums and constant multiples"""
    if not isterm(v) or not z3.is_int(v) or not z3.is_app(v):
        return v
    k = v.decl().kind()
    ch = v.children()
    if k == z3.Z3_OP_MOD and z3.is_int_value(ch[1]):
        m = ch[1].as_long()
        if m >= (1 << w) and m & (m - 1) == 0:
            return strip_mod(ch[0], w)
        return v
    if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS) or (k == z3.Z3_OP_MUL and len(ch) == 2 and z3.is_int_value(ch[0])):
        n = [strip_mod(c, w) for c in ch]
        if all(a is b for a, b in zip(n, ch)):
            return v
        return lit(v.decl()(*n)) if k != z3.Z3_OP_ADD or len(n) == 2 else lit(z3.Sum(n))
    return v


def big_ite(v):
    todo, n, ite_ = [v], 0, False
    while todo:
        x = todo.pop()
        n += 1
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
            ite_ = True
        if n > 400:
            return ite_
        todo.extend(x.children())
    return ite_ and n > 6


class Ex:
    def __init__(self, P, contracts=None, name='', tmo=8000, unroll=40, safety=True):
        self.P = P
        self.contracts = contracts or {}
        self.name = name
        self.tmo = tmo
        self.unroll = unroll
        self.sumfirst = None
        self.bytecast = 0          # group opts in: objects of this size accessed bytewise are byte sequences
        self.rtl = False           # evaluate arguments of calls from right to left
        self.strings = False       # group opts in: strings are sequences of characters
        self.loophook = None
        self.cut = None            # group opts in: candidate invariants for loops driven by the environment
        self.loopdepth = 0
        self.safety = safety
        self.havoc_rest = False    # group opts in: scalars without a closed form become unknown after a loop
        self.kstack = []
        self.feas_quant = False     # path feasibility then ignores quantified facts (explores more paths)
        self.name_terms = False    # group opts in
        self.discovery = 0
        self.loopdefs = []
        self.assume_fits = False   # group opts in: values converted to signed types fit (stated as an assumption of the group)
        self.st = State()
        self.env = {}
        self.this = None
        self.ctr = 0
        self.decs = []
        self.obs = []
        self.obcache = {}
        self.feascache = {}
        self.used_contracts = set()
        self.inlined = set()
        self.assumed = set()
        self.where = ''
        self.curfn = ''
        self.loops = []          # loop summaries taken
        self.nosum = False       # execute loops instead of summarising them
        self.hooks = {}          # qualified name -> python model
        self.invariants = {}     # (function name, ordinal) -> fn(ex, ctx) list
        self.track = None
        self.uniq = 0
        self.names = {}          # declaration id -> source name
        self.loopspecs = []      # user-supplied loop invariants
        self.loopnotes = []
        self.countfuns = []
        self.depth = 0
        self.axioms = []
        self.deadline = None
        from . import stdmodel
        self.std = stdmodel

    # ------------------------------------------------------------------ symbols
    def fresh(self, base, sort='int', lo=None, hi=None):
        self.ctr += 1
        nm = '%s!%d' % (base, self.ctr)
        if lo is not None or hi is not None:
            nm += '[%s,%s]' % (lo, hi)
        if sort == 'int':
            v = z3.Int(nm)
            if lo is not None:
                self.fact(v >= lo)
            if hi is not None:
                self.fact(v <= hi)
            BOUNDS[nm] = (lo, hi)
            return v
        if sort == 'real':
            return z3.Real(nm)
        if sort == 'bool':
            return z3.Bool(nm)
        raise Unsupported('sort ' + sort)

    def freshfun(self, base, sort='int', arity=1):
        self.ctr += 1
        nm = '%s!%d' % (base, self.ctr)
        R = {'int': z3.IntSort(), 'real': z3.RealSort(), 'bool': z3.BoolSort()}[sort]
        return z3.Function(nm, *([z3.IntSort()] * arity + [R]))

    def alloc(self, v, tag='t'):
        self.ctr += 1
        r = '%s#%d' % (tag, self.ctr)
        self.st.mem[r] = v
        return LV(r)

    def havoc(self, ty, base='h'):
        ty = clean(ty)
        if ty == 'bool':
            return self.fresh(base, 'bool')
        if ty in INTS:
            lo, hi = int_range(ty)
            return self.fresh(base, 'int', lo, hi)
        if ty in FLOATS:
            return self.fresh(base, 'real')
        return None

    # ------------------------------------------------------------------ intervals
    def itv(self, t, d=0):
        """cheap syntactic interval; (None,None) = unknown"""
        if isinstance(t, bool):
            return (int(t), int(t))
        if isinstance(t, int):
            return (t, t)
        if not isterm(t) or not z3.is_int(t) or d > 40:
            return (None, None)
        if z3.is_int_value(t):
            v = t.as_long()
            return (v, v)
        k = t.decl().kind()
        if k == z3.Z3_OP_UNINTERPRETED:
            if t.num_args() == 0:
                return BOUNDS.get(t.decl().name(), (None, None))
            return BOUNDS.get(t.decl().name() + '()', (None, None))
        ch = t.children()
        if k == z3.Z3_OP_ADD:
            lo, hi = 0, 0
            for c in ch:
                a, b = self.itv(c, d + 1)
                lo = None if lo is None or a is None else lo + a
                hi = None if hi is None or b is None else hi + b
            return (lo, hi)
        if k == z3.Z3_OP_SUB:
            lo, hi = self.itv(ch[0], d + 1)
            for c in ch[1:]:
                a, b = self.itv(c, d + 1)
                lo = None if lo is None or b is None else lo - b
                hi = None if hi is None or a is None else hi - a
            return (lo, hi)
        if k == z3.Z3_OP_UMINUS:
            a, b = self.itv(ch[0], d + 1)
            return (None if b is None else -b, None if a is None else -a)
        if k == z3.Z3_OP_MUL:
            lo, hi = self.itv(ch[0], d + 1)
            for c in ch[1:]:
                a, b = self.itv(c, d + 1)
                if None in (lo, hi, a, b):
                    if lo is not None and lo >= 0 and a is not None and a >= 0:
                        lo, hi = lo * a, None
                        continue
                    return (None, None)
                xs = [lo * a, lo * b, hi * a, hi * b]
                lo, hi = min(xs), max(xs)
            return (lo, hi)
        if k == z3.Z3_OP_ITE:
            a, b = self.itv(ch[1], d + 1)
            a2, b2 = self.itv(ch[2], d + 1)
            return (None if a is None or a2 is None else min(a, a2), None if b is None or b2 is None else max(b, b2))
        if k == z3.Z3_OP_IDIV:
            a, b = self.itv(ch[0], d + 1)
            e, f = self.itv(ch[1], d + 1)
            if a is not None and a >= 0 and e is not None and e >= 1:
                return (0, b // e if b is not None else None)
            return (None, None)
        if k == z3.Z3_OP_MOD:
            e, f = self.itv(ch[1], d + 1)
            if e is not None and e >= 1:
                a, b = self.itv(ch[0], d + 1)
                hi = f - 1 if f is not None else None
                if a is not None and a >= 0 and b is not None:
                    hi = b if hi is None else min(hi, b)
                return (0, hi)
            return (None, None)
        return (None, None)

    # ------------------------------------------------------------------ path condition / obligations
    def assume(self, f):
        f = tobool(f)
        if f is True:
            return
        if f is False:
            raise Infeasible()
        self.fact(f)

    def decide(self, f):
        """branch decision"""
        f = tobool(f)
        if f is True:
            return
        if f is False:
            raise Infeasible()
        self.st.pc.append(f)

    def fact(self, f):
        """path condition that is not a branch decision (definitions, contracts' postconditions)"""
        self.st.fi.add(len(self.st.pc))
        self.st.pc.append(f)

    def pcs(self):
        return self.axioms + self.st.pc

    def feasible(self, c):
        c = tobool(c)
        if c is True:
            return True
        if c is False:
            return False
        key = (tuple(p.get_id() for p in self.st.pc), c.get_id())
        r = self.feascache.get(key)
        if r is not None:
            return r[0]
        self._tick()
        qf, qs = solve.split(self.pcs())
        s, m, b = solve.check(qf + [c], min(self.tmo, 3000), second=False)
        if s != 'unsat' and qs and self.feas_quant:
            s, m, b = solve.staged(self.pcs(), c, 500, second=False, narrow=True)
        res = s != 'unsat'
        self.feascache[key] = (res, c, list(self.st.pc))   # keep asts alive so ids stay unique
        return res

    def _tick(self):
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time budget of the obligation group exhausted')

    def provable(self, g, tmo=None):
        g = tobool(g)
        if g is True:
            return True
        if g is False:
            return not self.feasible(True) if not self.st.pc else solve.check(self.pcs(), 2000, False)[0] == 'unsat'
        key = ('p',) + (tuple(p.get_id() for p in self.st.pc), g.get_id())
        r = self.feascache.get(key)
        if r is not None:
            return r[0]
        self._tick()
        s, m, b = solve.staged(self.pcs(), z3.Not(g), tmo or 3000, second=False)
        res = s == 'unsat'
        self.feascache[key] = (res, g, list(self.st.pc))
        return res

    def oblige(self, name, g, kind='post', tmo=None):
        g = tobool(g)
        nm = name
        if g is True:
            self._ob(Obligation(nm, 'discharged', 'syntactic', kind, where=self.where))
            return True
        gz = zt(g)
        key = (nm, tuple(p.get_id() for p in self.st.pc), gz.get_id())
        if key in self.obcache:
            return self.obcache[key][0]
        self._tick()
        if self.discovery:
            self.fact(gz)
            return True          # discovery of loop effects only; every obligation is generated again for the final effect
        s, m, b = solve.staged(self.pcs(), z3.Not(gz), tmo or self.tmo)
        st = {'unsat': 'discharged', 'sat': 'refuted', 'unknown': 'unknown'}[s]
        detail = ''
        if st == 'refuted':
            from .loopsum import names_in
            if any(x.startswith(('lx!', 'hv!', 'unk!')) for t in [gz] + list(self.st.pc) for x in names_in(t)):
                st = 'unknown'      # a value after a loop is not determined by the loop rule: no verdict
        if st != 'discharged' and kind == 'inv':
            raise Unsupported('supplied loop invariant not established: ' + nm)    # the invariant, not the property, failed: no verdict
        if st != 'discharged':
            detail = str(z3.simplify(gz))[:400]
        self._ob(Obligation(nm, st, b, kind, m if s == 'sat' else None, detail, self.where))
        self.obcache[key] = (st == 'discharged', gz, list(self.st.pc))
        return st == 'discharged'

    def _ob(self, o):
        self.obs.append(o)

    def choose(self, n):
        if n == 1:
            return 0
        d = self.decs[-1]
        k = len(d.made)
        c = d.pre[k] if k < len(d.pre) else 0
        d.made.append(c)
        d.n.append(n)
        return c

    def branch(self, c):
        c = tobool(simp(tobool(c)))
        if isinstance(c, bool):
            return c
        ft = self.feasible(c)
        ff = self.feasible(z3.Not(c))
        if not ft and not ff:
            raise Infeasible()
        if not ff:
            return True
        if not ft:
            return False
        k = self.choose(2)
        self.st.pc.append(c if k == 0 else z3.Not(c))
        return k == 0

    # ------------------------------------------------------------------ exploration
    def explore(self, thunk):
        base, ctr0, env0, this0 = self.st, self.ctr, self.env, self.this
        outs, stack, maxctr = [], [()], self.ctr
        nruns = 0
        while stack:
            pre = stack.pop()
            nruns += 1
            if nruns > 4000:
                raise Unsupported('path explosion')
            self.st = base.copy()
            self.ctr = ctr0
            self.env = dict(env0)
            self.this = this0
            d = Dec(pre)
            self.decs.append(d)
            o = None
            try:
                try:
                    v = thunk()
                    o = ('norm', v)
                except Ret as r:
                    o = ('ret', r.v)
                except Brk:
                    o = ('brk', None)
                except Cont:
                    o = ('cont', None)
                except Throw as t:
                    o = ('throw', t.what)
                except Infeasible:
                    o = None
            finally:
                self.decs.pop()
            for k in range(len(pre), len(d.made)):
                for alt in range(1, d.n[k]):
                    stack.append(tuple(d.made[:k]) + (alt,))
            if o:
                outs.append((self.st,) + o)
            maxctr = max(maxctr, self.ctr)
        self.st, self.ctr, self.env, self.this = base, maxctr, env0, this0
        return outs

    @staticmethod
    def vmerge(c, a, b):
        if a is None and b is None:
            return None
        if isinstance(a, LV) or isinstance(b, LV):
            if isinstance(a, LV) and isinstance(b, LV) and a.same(b):
                return a
            raise MergeFail('lv')
        if a is None or b is None:
            raise MergeFail('none')
        return merge(c, a, b)

    def merge_outs(self, base, outs):
        """merge outcomes of the same kind; returns (state, value); raises MergeFail"""
        if len(outs) == 1:
            return outs[0][0], outs[0][2]
        nb = len(base.pc)
        usefacts = True
        dec = lambda o: [p for i, p in enumerate(o[0].pc) if i >= nb and i not in o[0].fi]
        deltas = [and_(*dec(o)) for o in outs]
        if sum(1 for d in deltas if d is True) > 1:
            deltas = [and_(*o[0].pc[nb:]) for o in outs]
            usefacts = False
        st = State(dict(outs[-1][0].mem), None, dict(outs[-1][0].ghost))
        val = outs[-1][2]
        for o, d in zip(reversed(outs[:-1]), reversed(deltas[:-1])):
            for r, v in o[0].mem.items():
                if r in st.mem:
                    w = st.mem[r]
                    if w is not v:
                        if r in base.mem:
                            st.mem[r] = self.vmerge(d, v, w)
                        else:
                            try:
                                st.mem[r] = self.vmerge(d, v, w)
                            except MergeFail:
                                if str(r).startswith('static:'):
                                    raise
                                st.mem[r] = Opq('value differing between paths')    # normally out of scope here
                else:
                    st.mem[r] = v
            for g in set(o[0].ghost) | set(st.ghost):
                a, b = o[0].ghost.get(g), st.ghost.get(g)
                if a is not b:
                    st.ghost[g] = self.vmerge(d, a, b)
            val = self.vmerge(d, o[2], val)
        st.pc, st.fi = list(base.pc), set(base.fi)
        dj = or_(*deltas)
        if dj is not True:
            if dj is False:
                raise Infeasible()
            st.pc.append(dj)
        facts = [[p for i, p in enumerate(o[0].pc) if i >= nb and i in o[0].fi] if usefacts else [] for o in outs]
        if any(facts):
            common = set.intersection(*[{p.get_id() for p in fs} for fs in facts])
            done = set()
            for fs, d in zip(facts, deltas):
                for p in fs:
                    if p.get_id() in done:
                        continue
                    if p.get_id() in common:
                        done.add(p.get_id())
                        st.fi.add(len(st.pc))
                        st.pc.append(p)
                    elif d is not False:
                        q = implies(d, p)
                        if not isinstance(q, bool):
                            st.fi.add(len(st.pc))
                            st.pc.append(q)
        return st, val

    def join(self, base, outs):
        """outs: list of (state, kind, val). Sets self.st to one merged/forked outcome, returns (kind,val)."""
        if not outs:
            raise Infeasible()
        groups = {}
        for o in outs:
            groups.setdefault(o[1], []).append(o)
        alts = []
        for k, os_ in groups.items():
            if k == 'throw':
                for o in os_:
                    alts.append(o)
                continue
            try:
                s, v = self.merge_outs(base, os_)
                alts.append((s, k, v))
            except MergeFail:
                alts.extend(os_)
        i = self.choose(len(alts))
        self.st = alts[i][0]
        return alts[i][1], alts[i][2]

    def raise_kind(self, k, v):
        if k == 'ret':
            raise Ret(v)
        if k == 'brk':
            raise Brk()
        if k == 'cont':
            raise Cont()
        if k == 'throw':
            raise Throw(v)
        return v

    # ------------------------------------------------------------------ memory
    def rd(self, lv):
        try:
            v = self.st.mem[lv.root]
        except KeyError:
            raise Unsupported('read of unknown location %s' % lv.root)
        for p in lv.path:
            v = self.field(v, p)
        return v

    def val(self, x):
        """value of an invoke() result (reference results are locations)"""
        return self.rd(x) if isinstance(x, LV) else x

    def field(self, v, p):
        if isinstance(p, tuple):
            return elem(v, p[1])
        if isinstance(v, Obj):
            if p not in v.f:
                raise Unsupported('no field %s in %s' % (p, v.cls))
            return v.f[p]
        raise Unsupported('field %s of %r' % (p, v))

    def named(self, v):
        """replace a large conditional integer term by a new symbol with a defining fact (outside loop bodies only)"""
        if not self.name_terms or self.discovery or self.kstack or not isterm(v) or not z3.is_int(v):
            return v
        v = lit(z3.simplify(v))
        if not isterm(v) or not big_ite(v):
            return v
        lo, hi = self.itv(v)
        x = self.fresh('def', 'int', lo, hi)
        self.fact(x == v)
        return x

    def wr(self, lv, x):
        if self.name_terms:
            x = self.named(x)
        self.st.mem[lv.root] = self._upd(self.st.mem.get(lv.root), lv.path, x)

    def _upd(self, v, path, x):
        if not path:
            return x
        p = path[0]
        if isinstance(p, tuple):
            return setelem(v, p[1], x if len(path) == 1 else self._upd(elem(v, p[1]), path[1:], x))
        if isinstance(v, Obj):
            return v.set(p, x if len(path) == 1 else self._upd(v.f[p], path[1:], x))
        raise Unsupported('write field %s of %r' % (p, v))

    def inbounds(self, v, i, what='index'):
        if not self.safety:
            return
        n = v.n
        g = and_(le(0, i), lt(i, n))
        if g is True:
            return
        lo, hi = self.itv(i)
        if isc(n) and lo is not None and hi is not None and lo >= 0 and hi < n:
            return
        if not self.oblige('in-bounds access', g, 'bounds'):
            self.fact(zt(g)) if not isc(g) else None
            if g is False:
                raise Unsupported('definite out-of-bounds access %s of length %s' % (i, n))

    # ------------------------------------------------------------------ machine integers
    def inrange(self, v, ty):
        lo, hi = int_range(ty)
        a, b = self.itv(v)
        if a is not None and b is not None and a >= lo and b <= hi:
            return True
        return and_(le(lo, v), le(v, hi))

    def norm(self, v, ty, what='arith'):
        """value of an arithmetic operation of integer type ty"""
        if ty not in INTS:
            return v
        s, w = INTS[ty]
        if isinstance(v, bool) or (isterm(v) and z3.is_bool(v)):
            return v
        if isc(v):
            lo, hi = int_range(ty)
            if lo <= v <= hi:
                return v
            if s:
                if self.safety:
                    self.oblige('no signed overflow', False, 'overflow')
                raise Unsupported('definite signed overflow')
            return v % (1 << w)
        g = self.inrange(v, ty)
        if g is True:
            return v
        if s:
            if self.safety:
                if not self.oblige('no signed overflow', g, 'overflow'):
                    self.fact(zt(g))
            return v
        u = strip_mod(v, w)
        if u is not v:
            v = u
            g = self.inrange(v, ty)
            if g is True:
                return v
        if self.provable(g):
            return v
        return zt(v) % (1 << w)

    def cast_int(self, v, ty):
        if ty == 'bool':
            return tobool(v)
        if isinstance(v, bool):
            return int(v)
        if isterm(v) and z3.is_bool(v):
            return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        s, w = INTS[ty]
        lo, hi = int_range(ty)
        if isc(v):
            v = int(v)
            if lo <= v <= hi:
                return v
            m = v % (1 << w)
            return m - (1 << w) if s and m > hi else m
        g = self.inrange(v, ty)
        if g is True or self.provable(g):
            return v
        if s and self.assume_fits:
            return v
        u = strip_mod(v, w)
        if u is not v:
            v = u
            g = self.inrange(v, ty)
            if g is True or self.provable(g):
                return v
        m = zt(v) % (1 << w)
        if s:
            return z3.If(m > hi, m - (1 << w), m)
        return m

    # ------------------------------------------------------------------ types
    def ty(self, n):
        return clean(tyof(n))

    def record(self, name):
        name = clean(name)
        R = self.P.records
        for k in (name, 'combigrid::' + name):
            if k in R:
                return k, R[k]
        # tolerate namespace-less / spacing differences
        nn = name.replace(' ', '')
        for k in R:
            kk = k.replace(' ', '')
            if kk == nn or kk.endswith('::' + nn) or kk.replace('combigrid::', '') == nn.replace('combigrid::', ''):
                return k, R[k]
        return None, None

    def bases(self, rec):
        out = []
        for b in rec.get('bases', ()):
            t = b.get('type', {})
            k, r = self.record(t.get('desugaredQualType') or t.get('qualType'))
            if r:
                out.append((k, r))
        return out

    def fields(self, rec):
        fs = []
        for k, r in self.bases(rec):
            fs += self.fields(r)
        fs += [c for c in rec.get('inner', ()) if c.get('kind') == 'FieldDecl']
        return fs

    def default(self, t, zero=False):
        """default-initialised value (indeterminate scalars unless zero)"""
        t0 = t
        t = clean(t)
        if t in INTS:
            if zero:
                return False if t == 'bool' else 0
            return self.havoc(t, 'uninit')
        if t in FLOATS:
            return Fraction(0) if zero else self.fresh('uninit', 'real')
        if t.endswith('*'):
            return NULL if zero else Opq('wild')
        m = self.std.default_std(self, t)
        if m is not None:
            return m
        k, r = self.record(t)
        if r is not None:
            f = {}
            for fd in self.fields(r):
                f[fd['name']] = self.field_default(fd, zero)
            return Obj(k, f)
        return Opq('obj:' + t)

    def field_default(self, fd, zero=False):
        if fd.get('hasInClassInitializer'):
            for c in fd.get('inner', ()):
                if 'kind' in c and c['kind'].endswith('Expr') or c.get('kind', '').endswith('Literal'):
                    try:
                        return self.ev(c)
                    except Unsupported:
                        return Opq('init:' + fd['name'])
        return self.default(tyof(fd), zero)

    # ------------------------------------------------------------------ functions
    def args_for(self, decl, argnodes):
        ps = F.params(decl)
        out = [None] * len(ps)
        for i, p in (reversed(list(enumerate(ps))) if self.rtl else enumerate(ps)):     # the order is unspecified in C++
            a = argnodes[i] if i < len(argnodes) else None
            out[i] = self.bind_arg(p, a, decl, i)
        return out

    def bind_arg(self, p, a, decl, i):
        t = tyof(p)
        isref = t.rstrip().endswith('&') or p.get('type', {}).get('qualType', '').rstrip().endswith('&')
        if a is None or a.get('kind') == 'CXXDefaultArgExpr':
            d = self.default_arg(decl, i)
            if d is None:
                raise Unsupported('default argument %d of %s' % (i, decl.get('name')))
            v = self.ev(d)
            return self.alloc(v, 'arg')
        if isref:
            return self.lv_or_tmp(a)
        v = self.ev(a)
        return self.alloc(v, 'arg')

    def default_arg(self, decl, i):
        cands = [decl]
        q = self.P.qual.get(decl['id'])
        cands += [d for k, d in self.P.decl.items() if d.get('name') == decl.get('name') and d['kind'] in F.FUNS]
        for d in cands:
            ps = F.params(d)
            if i < len(ps):
                for c in ps[i].get('inner', ()):
                    if 'kind' in c and (c['kind'].endswith(('Expr', 'Literal')) or c['kind'] == 'ExprWithCleanups'):
                        return c
        return None

    def lv_or_tmp(self, n):
        x = self.lv(n, tmp=True)
        if isinstance(x, LV):
            return x
        return self.alloc(x, 'tmp')

    def invoke(self, decl, this, args, outer_env=None):
        """expand a function body. args: list of LV (one per parameter)."""
        q = self.P.qual.get(decl['id'], decl.get('name'))
        self.inlined.add(q)
        bd = F.body(decl)
        if bd is None:
            raise Unsupported('no body for ' + str(q))
        if self.depth > 60:
            raise Unsupported('recursion depth')
        env = dict(outer_env) if outer_env else {}
        for p, a in zip(F.params(decl), args):
            env[p['id']] = a
        save = (self.env, self.this, self.curfn)
        self.depth += 1

        def thunk():
            self.env = env
            self.env = dict(env)
            self.this = this
            self.curfn = q
            if decl['kind'] == 'CXXConstructorDecl':
                self.ctor_inits(decl, this)
            self.stmt(bd)
            return None
        try:
            base = self.st
            outs = self.explore(thunk)
            outs = [(s, 'ret' if k == 'norm' else k, v) for s, k, v in outs]
            k, v = self.join(base, outs)
        finally:
            self.env, self.this, self.curfn = save
            self.depth -= 1
        if k == 'throw':
            raise Throw(v)
        return v

    def ctor_inits(self, decl, this):
        rt = None
        for c in decl.get('inner', ()):
            if c.get('kind') != 'CXXCtorInitializer':
                continue
            ai = c.get('anyInit')
            inner = [x for x in c.get('inner', ())]
            if ai:
                fd = self.P.decl.get(ai['id'])
                if not inner:
                    continue
                e = inner[0]
                if e.get('kind') == 'CXXDefaultInitExpr':
                    fdn = fd or self.find_field(this, ai['name'])
                    v = self.field_default(fdn, True) if fdn else Opq('dflt')
                else:
                    v = self.ev_init(e, tyof(fd) if fd else clean(ai['type'].get('desugaredQualType') or ai['type']['qualType']))
                self.wr(this.f(ai['name']), v)
            elif inner:
                e = inner[0]
                while e.get('kind') in ('ExprWithCleanups', 'CXXBindTemporaryExpr'):
                    e = e['inner'][0]
                if e.get('kind') in ('CXXConstructExpr', 'CXXInheritedCtorInitExpr'):
                    self.construct_into(this, e)

    def find_field(self, this, name):
        v = self.rd(this)
        k, r = self.record(v.cls)
        for fd in self.fields(r):
            if fd.get('name') == name:
                return fd
        return None

    def find_ctor(self, rec, ctype, nargs):
        best = None
        for c in rec.get('inner', ()):
            cs = [c]
            if c.get('kind') == 'FunctionTemplateDecl':
                cs = [x for x in c.get('inner', ()) if x.get('kind') == 'CXXConstructorDecl']
            for d in cs:
                if d.get('kind') == 'CXXConstructorDecl' and d.get('type', {}).get('qualType', '').replace(' noexcept', '') == ctype.replace(' noexcept', ''):
                    best = d
        if best is None:
            for c in rec.get('inner', ()):
                if c.get('kind') == 'CXXConstructorDecl' and len(F.params(c)) == nargs:
                    best = best or c
        return best

    def construct_into(self, lv, n):
        """CXXConstructExpr for a record of /repo into existing object lv"""
        t = self.ty(n)
        k, r = self.record(t)
        if r is None:
            raise Unsupported('construct of unknown record ' + t)
        ct = n.get('ctorType', {}).get('qualType', '')
        d = self.find_ctor(r, ct, len(n.get('inner', ())))
        if d is None:
            return
        dd = self.P.definition(d['id'])
        if dd is None or F.body(dd) is None:
            return
        args = self.args_for(dd, n.get('inner', ()))
        self.invoke(dd, lv, args)

    def call_decl(self, decl, this, argnodes=None, args=None):
        q = self.P.qual.get(decl['id'], decl.get('name'))
        h = self.hooks.get(q) or self.hooks.get(decl.get('name'))
        if h is not None:
            if args is None:
                args = self.args_for(decl, argnodes)
            return h(self, this, args)
        dd = self.P.definition(decl['id']) or decl
        if args is None:
            args = self.args_for(dd, argnodes)
        key = (q, dd.get('type', {}).get('qualType'))
        c = self.contracts.get(key) or self.contracts.get(q)
        if c is not None and not (getattr(c, 'target', None) is self.verifying):
            self.used_contracts.add(q)
            return c.apply(self, this, args)
        if F.body(dd) is None:
            m = self.std.extern(self, q, dd, this, args)
            return m
        return self.invoke(dd, this, args)

    verifying = object()

    # ------------------------------------------------------------------ statements
    def stmt(self, n):
        if 'kind' not in n:
            return
        m = getattr(self, 's_' + n['kind'], None)
        loc = n.get('range', {}).get('begin', {})
        ln = loc.get('line') or loc.get('expansionLoc', {}).get('line')
        if ln:
            self.where = '%s:%s' % (self.curfn, ln)
        if m:
            return m(n)
        if n['kind'].endswith('Expr') or n['kind'].endswith('Operator') or n['kind'].endswith('Literal') or n['kind'] in ('ExprWithCleanups',):
            self.ev_discard(n)
            return
        if n['kind'].startswith('OMP'):
            return self.omp(n)
        raise Unsupported('statement ' + n['kind'])

    def ev_discard(self, n):
        t = tyof(n)
        if t == 'void' or n['kind'] in ('BinaryOperator', 'CompoundAssignOperator', 'UnaryOperator'):
            self.ev(n)
        else:
            self.lv(n, tmp=True)

    def s_CompoundStmt(self, n):
        for c in n.get('inner', ()):
            self.stmt(c)

    def s_NullStmt(self, n):
        pass

    def s_AttributedStmt(self, n):
        for c in n.get('inner', ()):
            if not c.get('kind', '').endswith('Attr'):
                self.stmt(c)

    def s_DeclStmt(self, n):
        for c in n.get('inner', ()):
            k = c.get('kind')
            if k == 'VarDecl':
                self.vardecl(c)
            elif k == 'DecompositionDecl':
                self.decompdecl(c)
            elif k in ('TypedefDecl', 'TypeAliasDecl', 'StaticAssertDecl', 'UsingDirectiveDecl', 'UsingDecl', 'CXXRecordDecl', 'EmptyDecl'):
                if k == 'CXXRecordDecl':
                    self.P.walk(c, [self.curfn or 'local'], None, set())
            else:
                raise Unsupported('decl ' + str(k))

    def init_of(self, c):
        for x in c.get('inner', ()):
            k = x.get('kind', '')
            if k.endswith('Expr') or k.endswith('Literal') or k.endswith('Operator') or k == 'ExprWithCleanups':
                return x
        return None

    def vardecl(self, c):
        self.names[c['id']] = c.get('name', '')
        t = tyof(c)
        ini = self.init_of(c)
        if c.get('storageClass') == 'static' or c.get('tls'):
            root = 'static:' + c['id']
            if root not in self.st.mem:
                self.st.mem[root] = self.static_initial(c, t, ini)
            self.env[c['id']] = LV(root)
            return
        if t.rstrip().endswith('&'):
            self.env[c['id']] = self.lv_or_tmp(ini)
            return
        vla = re.match(r'(\w+)\s*\[([A-Za-z_]\w*)\]$', t) if ini is None else None
        if vla and clean(vla.group(1)) in INTS:
            ids = [i for i in self.env if self.names.get(i) == vla.group(2)]
            if not ids:
                raise Unsupported('array of variable length ' + t)
            et = clean(vla.group(1))
            v = self.rd(self.env[ids[-1]])
            if isinstance(v, int):
                v = Vec([self.havoc(et, 'vla') for _ in range(v)], et)
            else:
                f = self.freshfun('vla')
                v = SVec(v, lambda i: f(zt(i)), et)
        elif ini is None:
            v = self.default(t)
        else:
            v = self.ev_init(ini, t)
        if self.name_terms:
            v = self.named(v)
        self.env[c['id']] = self.alloc(v, c.get('name', 'v'))

    def static_initial(self, c, t, ini):
        """a function-local static may hold anything a previous call left in it"""
        ct = clean(t)
        et = self.std.vec_elem(ct)
        if et is not None:
            n = self.fresh('staticlen', 'int', 0, (1 << 31) - 1)
            if clean(et) in INTS or clean(et) in FLOATS:
                f = self.freshfun('static', 'real' if clean(et) in FLOATS else 'int')
                return SVec(n, lambda i: f(zt(i)), et)
            et2 = self.std.vec_elem(clean(et))
            if et2 is not None and (clean(et2) in INTS or clean(et2) in FLOATS):
                # vector of vectors: eight inner vectors of arbitrary length and content
                inner = []
                for k in range(8):
                    f = self.freshfun('static', 'real' if clean(et2) in FLOATS else 'int')
                    inner.append(SVec(self.fresh('staticlen', 'int', 0, (1 << 31) - 1), (lambda g: lambda i: g(zt(i)))(f), et2))
                return Vec(inner, et)
        if ct.startswith('std::set<') and clean(ct[9:-1]) in INTS:
            return Bag('set', (1000003, 1000033))       # a sample of what may be left over
        if et is not None and clean(et).startswith('std::set<') and clean(clean(et)[9:-1]) in INTS:
            return Vec((Bag('set', (1000003,)), Bag('set', (1000003, 1000033))), et)
        if ct in INTS or ct in FLOATS:
            if 'const' in t and ini is not None:
                return self.ev(ini)
            return self.havoc(ct, 'static')
        if 'const' in t and ini is not None:
            return self.ev_init(ini, t)
        raise Unsupported('static local of type ' + ct)

    def decompdecl(self, c):
        ini = self.init_of(c)
        lv = self.lv_or_tmp(ini)
        t = tyof(c)
        if not t.rstrip().endswith('&'):
            lv = self.alloc(self.rd(lv), 'decomp')
        v = self.rd(lv)
        binds = [x for x in c.get('inner', ()) if x.get('kind') == 'BindingDecl']
        names = list(v.f.keys()) if isinstance(v, Obj) else None
        if names is None:
            raise Unsupported('structured binding of %r' % (v,))
        for b, nm in zip(binds, names):
            self.env[b['id']] = lv.f(nm)

    def s_ReturnStmt(self, n):
        inner = n.get('inner', ())
        if not inner:
            raise Ret(None)
        e = inner[0]
        fn_t = self.ret_is_ref
        if e.get('valueCategory') in ('lvalue', 'xvalue'):
            x = self.lv(e, tmp=True)
            raise Ret(x)
        v = self.ev(e)
        raise Ret(v)
    ret_is_ref = False

    def s_IfStmt(self, n):
        inner = list(n.get('inner', ()))
        if n.get('hasInit'):
            self.stmt(inner.pop(0))
        if n.get('hasVar'):
            self.stmt(inner.pop(0))
        cond, then = inner[0], inner[1]
        els = inner[2] if n.get('hasElse') and len(inner) > 2 else None
        if n.get('isConstexpr'):
            c = self.const_cond(cond)
            if c is True:
                return self.stmt(then)
            if c is False:
                return self.stmt(els) if els else None
        c = tobool(simp(tobool(self.ev(cond))))
        if not isinstance(c, bool):
            ft, ff = self.feasible(c), self.feasible(z3.Not(c))
            if not ft and not ff:
                raise Infeasible()
            if not ff:
                c = True
            elif not ft:
                c = False
        if c is True:
            return self.stmt(then)
        if c is False:
            return self.stmt(els) if els else None
        base = self.st

        def t1():
            self.decide(c)
            self.stmt(then)

        def t2():
            self.decide(z3.Not(c))
            if els:
                self.stmt(els)
        outs = self.explore(t1) + self.explore(t2)
        k, v = self.join(base, outs)
        self.raise_kind(k, v)

    def const_cond(self, e):
        if 'value' in e:
            v = e['value']
            return v in ('true', '1', True)
        if e.get('kind') == 'ConstantExpr' and 'value' in e:
            return e['value'] in ('true', '1')
        try:
            c = tobool(self.ev(e))
        except Unsupported:
            return None
        return c if isinstance(c, bool) else None

    def s_BreakStmt(self, n):
        raise Brk()

    def s_ContinueStmt(self, n):
        raise Cont()

    def s_CXXTryStmt(self, n):
        base = self.st
        outs = self.explore(lambda: self.stmt(n['inner'][0]))
        norm = [o for o in outs if o[1] != 'throw']
        thr = [o for o in outs if o[1] == 'throw']
        res = list(norm)
        for o in thr:
            h = n['inner'][1]
            self.st = o[0]
            hb = [x for x in h.get('inner', ()) if x.get('kind') == 'CompoundStmt'][0]
            hv = [x for x in h.get('inner', ()) if x.get('kind') == 'VarDecl']
            if hv:
                self.env[hv[0]['id']] = self.alloc(Opq('exc:' + str(o[2])), 'exc')
            o2 = self.explore(lambda: self.stmt(hb))
            res += o2
        self.st = base
        k, v = self.join(base, res)
        self.raise_kind(k, v)

    def s_ForStmt(self, n):
        init, condvar, cond, inc, body_ = (list(n['inner']) + [{}] * 5)[:5]
        env0 = dict(self.env)
        if init.get('kind'):
            self.stmt(init)
        self.loop(cond if cond.get('kind') else None, inc if inc.get('kind') else None, body_, False, n)

    def s_WhileStmt(self, n):
        inner = list(n['inner'])
        if n.get('hasVar'):
            raise Unsupported('while with declaration')
        self.loop(inner[0], None, inner[1], False, n)

    def s_DoStmt(self, n):
        self.loop(n['inner'][1], None, n['inner'][0], True, n)

    def loop(self, cond, inc, body_, dofirst, n):
        base0 = self.st
        exits = []
        it = 0
        first = dofirst
        from . import loopsum
        bodyf = lambda: self.stmt(body_)
        incf = (lambda: self.ev_discard(inc)) if inc else (lambda: None)
        condf = (lambda: self.ev(cond)) if cond else (lambda: True)
        cut = self.cut(self, n) if self.cut else None
        if cut is not None:
            from . import houdini
            r = houdini.run(self, n, condf, incf, bodyf, dofirst, cut)
            if r is not None:
                k, v = self.join(base0, r)
                self.raise_kind(k, v)
                return
        while True:
            self._tick()
            if first:
                first = False
            else:
                # evaluating the condition may have effects / forks
                c = tobool(simp(tobool(condf())))
                if it == 0 and n.get('kind') == 'WhileStmt' and not isinstance(c, bool) and not self.feasible(c) and self.feasible(z3.Not(c)):
                    c = False                        # never entered
                if not isinstance(c, bool) or (c and self.sumfirst and it == 0 and self.sumfirst(self, n)):
                    if (it == 0 or (it == 1 and dofirst)) and not self.nosum:
                        r = loopsum.try_loop(self, n, cond, inc, body_, condf, incf, bodyf)
                        if r is not None:
                            if not exits:
                                return
                            exits.append((self.st, 'norm', None))
                            break
                if not isinstance(c, bool):
                    ft, ff = self.feasible(c), self.feasible(z3.Not(c))
                    if not ft and not ff:
                        if not exits:
                            raise Infeasible()
                        break
                    if not ft:
                        c = False
                    elif not ff:
                        c = True
                    else:
                        if it >= self.unroll:
                            raise Unsupported('loop not summarised and not bounded by %d iterations' % self.unroll)
                        ex = self.st.copy()
                        ex.pc.append(z3.Not(c))
                        exits.append((ex, 'norm', None))
                        self.st.pc.append(c)
                        c = True
                if c is False:
                    exits.append((self.st, 'norm', None))
                    break
            it += 1
            if it > 5000:
                raise Unsupported('loop exceeds 5000 iterations')
            if self.loophook:
                self.loophook(self, n, self.loopdepth, it, 'pre')
            b = self.st
            self.loopdepth += 1
            try:
                outs = self.explore(bodyf)
            finally:
                self.loopdepth -= 1
            cont = [(s, 'norm', None) for s, k, v in outs if k in ('norm', 'cont')]
            for s, k, v in outs:
                if k == 'brk':
                    exits.append((s, 'norm', None))
                elif k in ('ret', 'throw'):
                    exits.append((s, k, v))
            if not cont:
                break
            try:
                self.st, _ = self.merge_outs(b, cont)
                if self.loophook:
                    self.loophook(self, n, self.loopdepth, it, 'post')
            except MergeFail:
                i = self.choose(len(cont) + (1 if exits else 0))
                if i == len(cont):
                    break
                if exits and i > 0:
                    exits = []
                self.st = cont[i][0]
            incf()
        k, v = self.join(base0, exits)
        self.raise_kind(k, v)

    def s_CXXForRangeStmt(self, n):
        inner = [x for x in n['inner']]
        # [init?] range begin end cond inc loopvar body
        parts = [x for x in inner if x.get('kind')]
        body_ = parts[-1]
        lvdecl = parts[-2]['inner'][0]
        rng = None
        for x in parts:
            if x['kind'] == 'DeclStmt' and x['inner'][0].get('name', '').startswith('__range'):
                rng = x['inner'][0]
        ri = self.init_of(rng)
        seq = self.lv_or_tmp(ri)
        v = self.rd(seq)
        if isinstance(v, Bag):
            return self.range_bag(v, seq, lvdecl, body_)
        if isinstance(v, Obj) and v.cls == 'initlist':
            v = v.f['v']
            seq = seq.f('v')
        if not isinstance(v, (Vec, SVec)):
            raise Unsupported('range-for over %r' % (v,))
        isref = tyof(lvdecl).rstrip().endswith('&')
        ilv = self.alloc(0, 'rangeidx')
        n_ = v.n

        def bodyf():
            i = self.rd(ilv)
            if lvdecl.get('kind') == 'DecompositionDecl':
                e = seq.i(i)
                val = self.rd(e)
                for b, nm in zip([x for x in lvdecl.get('inner', ()) if x.get('kind') == 'BindingDecl'], list(val.f.keys())):
                    self.env[b['id']] = e.f(nm)
            elif isref:
                self.env[lvdecl['id']] = seq.i(i)
            else:
                self.env[lvdecl['id']] = self.alloc(self.rd(seq.i(i)), lvdecl.get('name', 'v'))
            self.stmt(body_)

        def incf():
            self.wr(ilv, add(self.rd(ilv), 1))

        def condf():
            return lt(self.rd(ilv), n_)
        self.genloop(condf, incf, bodyf, n, ilv)

    def genloop(self, condf, incf, bodyf, n, ilv):
        from . import loopsum
        base0 = self.st
        exits = []
        it = 0
        while True:
            self._tick()
            c = tobool(simp(tobool(condf())))
            if not isinstance(c, bool):
                if it == 0:
                    r = loopsum.try_loop(self, n, None, None, None, condf, incf, bodyf)
                    if r is not None:
                        return
                ft, ff = self.feasible(c), self.feasible(z3.Not(c))
                if ft and ff:
                    if it >= self.unroll:
                        raise Unsupported('loop not summarised and not bounded')
                    ex = self.st.copy()
                    ex.pc.append(z3.Not(c))
                    exits.append((ex, 'norm', None))
                    self.st.pc.append(c)
                    c = True
                elif ft:
                    c = True
                else:
                    c = False
            if c is False:
                exits.append((self.st, 'norm', None))
                break
            it += 1
            b = self.st
            outs = self.explore(bodyf)
            cont = [(s, 'norm', None) for s, k, v in outs if k in ('norm', 'cont')]
            for s, k, v in outs:
                if k == 'brk':
                    exits.append((s, 'norm', None))
                elif k in ('ret', 'throw'):
                    exits.append((s, k, v))
            if not cont:
                break
            try:
                self.st, _ = self.merge_outs(b, cont)
            except MergeFail:
                i = self.choose(len(cont) + (1 if exits else 0))
                if i == len(cont):
                    break
                if exits and i > 0:
                    exits = []
                self.st = cont[i][0]
            incf()
        k, v = self.join(base0, exits)
        self.raise_kind(k, v)

    def range_bag(self, v, seq, lvdecl, body_):
        exits = []
        base0 = self.st
        for item in v.items:
            val = Obj('pair', {'first': item[0], 'second': item[1]}) if isinstance(item, tuple) else item
            lvx = self.alloc(val, 'bagitem')
            if lvdecl.get('kind') == 'DecompositionDecl':
                for b, nm in zip([x for x in lvdecl.get('inner', ()) if x.get('kind') == 'BindingDecl'], list(val.f.keys())):
                    self.env[b['id']] = lvx.f(nm)
            else:
                self.env[lvdecl['id']] = lvx
            b = self.st
            outs = self.explore(lambda: self.stmt(body_))
            cont = [(s, 'norm', None) for s, k, vv in outs if k in ('norm', 'cont')]
            for s, k, vv in outs:
                if k == 'brk':
                    exits.append((s, 'norm', None))
                elif k in ('ret', 'throw'):
                    exits.append((s, k, vv))
            if not cont:
                k, v2 = self.join(base0, exits)
                return self.raise_kind(k, v2)
            try:
                self.st, _ = self.merge_outs(b, cont)
            except MergeFail:
                i = self.choose(len(cont) + (1 if exits else 0))
                if i == len(cont):
                    k, v2 = self.join(base0, exits)
                    return self.raise_kind(k, v2)
                if exits and i > 0:
                    exits = []
                self.st = cont[i][0]
        exits.append((self.st, 'norm', None))
        k, v2 = self.join(base0, exits)
        self.raise_kind(k, v2)

    def s_SwitchStmt(self, n):
        v = self.ev(n['inner'][0])
        v = simp(v)
        body_ = n['inner'][-1]
        if not isc(v):
            # fork over the case labels
            labels = []
            for s in body_.get('inner', ()):
                x = s
                while x.get('kind') in ('CaseStmt', 'DefaultStmt'):
                    if x['kind'] == 'CaseStmt':
                        labels.append(int(self.ev(x['inner'][0])))
                    x = x['inner'][-1]
            for l in labels:
                if self.branch(eq(v, l)):
                    v = l
                    break
            else:
                v = 'default'
        active = False
        stmts = body_.get('inner', ())
        # does a case match?
        def has(x):
            while x.get('kind') in ('CaseStmt', 'DefaultStmt'):
                if x['kind'] == 'CaseStmt' and v != 'default' and int(self.ev(x['inner'][0])) == int(v):
                    return True
                x = x['inner'][-1]
            return False
        matched = any(has(s) for s in stmts)
        try:
            for s in stmts:
                x = s
                while x.get('kind') in ('CaseStmt', 'DefaultStmt'):
                    if x['kind'] == 'CaseStmt':
                        if v != 'default' and int(self.ev(x['inner'][0])) == int(v):
                            active = True
                    elif not matched:
                        active = True
                    x = x['inner'][-1]
                if active:
                    self.stmt(x)
        except Brk:
            pass

    def omp(self, n):
        self.assumed.add('OpenMP directives are executed sequentially (no data races between iterations)')
        if n['kind'] in ('OMPBarrierDirective', 'OMPFlushDirective', 'OMPTaskwaitDirective'):
            return
        st = list(n.get('inner', ()))
        while st:
            x = st.pop(0)
            k = x.get('kind', '')
            if k == 'CapturedStmt' or k == 'CapturedDecl':
                st = list(x.get('inner', ())) + st
                continue
            if k in ('ForStmt', 'CompoundStmt', 'CXXForRangeStmt') or k.startswith('OMP') and 'Directive' in k:
                return self.stmt(x)
            if k.endswith('Expr') or k.endswith('Operator'):
                return self.stmt(x)

    # ------------------------------------------------------------------ expressions
    def ev_init(self, n, t):
        """evaluate an initialiser of an object of type t"""
        return self.ev(n)

    def ev(self, n):
        m = getattr(self, 'e_' + n['kind'], None)
        if m is None:
            raise Unsupported('expression ' + n['kind'])
        r = m(n)
        if isinstance(r, LV):
            r = self.rd(r)
        return r

    def lv(self, n, tmp=False):
        """lvalue of expression (LV), or (tmp=True) a value if it is a prvalue"""
        m = getattr(self, 'e_' + n['kind'], None)
        if m is None:
            raise Unsupported('expression ' + n['kind'])
        r = m(n)
        if isinstance(r, LV):
            return r
        if tmp:
            return self.alloc(r, 'tmp') if r is not None else None
        raise Unsupported('lvalue of ' + n['kind'])

    def pass1(self, n):
        m = getattr(self, 'e_' + n['inner'][0]['kind'], None)
        if m is None:
            raise Unsupported('expression ' + n['inner'][0]['kind'])
        return m(n['inner'][0])

    e_ParenExpr = e_ExprWithCleanups = e_CXXBindTemporaryExpr = pass1
    def e_SubstNonTypeTemplateParmExpr(self, n):
        return self.pass1(dict(inner=[[c for c in n['inner'] if c.get('kind') != 'NonTypeTemplateParmDecl'][-1]]))

    def e_ConstantExpr(self, n):
        if 'value' in n and n['value'] not in (None, ''):
            t = self.ty(n)
            try:
                if t in INTS and t != 'bool':
                    return int(n['value'])
            except ValueError:
                pass
        return self.pass1(n)

    def e_MaterializeTemporaryExpr(self, n):
        r = self.pass1(n)
        if isinstance(r, LV):
            return r
        return self.alloc(r, 'tmp')

    def e_IntegerLiteral(self, n):
        return int(n['value'])

    def e_CharacterLiteral(self, n):
        return int(n['value'])

    def e_FloatingLiteral(self, n):
        return Fraction(n['value']) if 'e' not in n['value'].lower() else Fraction(float(n['value']))

    def e_CXXBoolLiteralExpr(self, n):
        return bool(n['value'])

    def e_StringLiteral(self, n):
        return Str(n.get('value', '').strip('"'))

    def e_CXXNullPtrLiteralExpr(self, n):
        return NULL

    def e_GNUNullExpr(self, n):
        return NULL

    def e_CXXThisExpr(self, n):
        return Ptr(self.this, None)

    def e_ImplicitValueInitExpr(self, n):
        return self.default(tyof(n), True)

    def e_CXXScalarValueInitExpr(self, n):
        return self.default(tyof(n), True)

    def e_CXXDefaultArgExpr(self, n):
        if n.get('inner'):
            return self.pass1(n)
        raise Unsupported('default arg')

    def e_CXXDefaultInitExpr(self, n):
        if n.get('inner'):
            return self.pass1(n)
        raise Unsupported('default init')

    def e_UnaryExprOrTypeTraitExpr(self, n):
        t = n.get('argType', {})
        t = clean(t.get('desugaredQualType') or t.get('qualType') or (self.ty(n['inner'][0]) if n.get('inner') else ''))
        if n.get('name') == 'sizeof':
            return self.sizeof(t)
        raise Unsupported('trait')

    def sizeof(self, t):
        t = clean(t)
        if t in INTS:
            return 1 if t == 'bool' else INTS[t][1] // 8
        if t in FLOATS:
            return 4 if t == 'float' else 16 if t == 'long double' else 8
        if t.endswith('*'):
            return 8
        if t.startswith('std::complex<double>'):
            return 16
        if t.startswith('std::complex<float>'):
            return 8
        raise Unsupported('sizeof ' + t)

    def e_DeclRefExpr(self, n):
        rd = n['referencedDecl']
        i = rd['id']
        if i in self.env:
            return self.env[i]
        k = rd.get('kind')
        if k == 'EnumConstantDecl' and 'enum:' + str(rd.get('name')) in self.hooks:
            return self.alloc(self.hooks['enum:' + rd['name']](self))
        if k == 'EnumConstantDecl':
            d = self.P.decl.get(i)
            if d is not None and '_value' in d:
                return d['_value']
            return self.std.enumconst(self, rd.get('name'))
        if k in ('FunctionDecl', 'CXXMethodDecl'):
            return Fun(None, rd)
        if k in ('VarDecl',):
            root = 'global:' + i
            if root in self.st.mem:
                return LV(root)
            d = self.P.decl.get(i)
            nm = rd.get('name')
            h = self.hooks.get('var:' + str(nm))
            if h is not None:
                hv = h(self)
                if isinstance(hv, LV):
                    return hv
                self.st.mem[root] = hv
                return LV(root)
            if d is not None:
                t = tyof(d)
                ini = self.init_of(d)
                if ('const' in t or d.get('constexpr')) and ini is not None:
                    self.st.mem[root] = self.ev_init(ini, t)
                    return LV(root)
                if clean(t) in INTS or clean(t) in FLOATS:
                    self.st.mem[root] = self.havoc(clean(t), nm)
                    return LV(root)
            v = self.std.globalvar(self, rd)
            if v is not None:
                self.st.mem[root] = v
                return LV(root)
            raise Unsupported('global variable ' + str(nm))
        if k == 'ParmVarDecl' or k == 'BindingDecl':
            raise Unsupported('unbound variable ' + str(rd.get('name')))
        raise Unsupported('declref ' + str(k))

    def e_MemberExpr(self, n):
        base = n['inner'][0]
        nm = n.get('name')
        md = n.get('referencedMemberDecl')
        d = self.P.decl.get(md)
        if d is not None and d.get('kind') == 'VarDecl':       # static data member
            root = 'global:' + md
            if root not in self.st.mem:
                h = self.hooks.get('var:' + nm)
                if h is None:
                    raise Unsupported('static member ' + nm)
                hv = h(self)
                if isinstance(hv, LV):
                    return hv
                self.st.mem[root] = hv
            return LV(root)
        if n.get('isArrow'):
            p = self.ev(base)
            lv = self.deref(p)
        else:
            lv = self.lv(base, tmp=True)
        if nm is None:
            return lv
        r = lv.f(nm)
        try:
            x = self.rd(r)
        except Unsupported:
            return r
        return x if isinstance(x, LV) else r        # reference members denote the location they are bound to

    def deref(self, p):
        if isinstance(p, Ptr):
            if p.idx is None:
                return p.lv
            v = self.rd(p.lv)
            if isinstance(v, (Vec, SVec)):
                self.inbounds(v, p.idx)
            return p.lv.i(p.idx)
        if isinstance(p, Obj) and 'ptr' in p.f:     # smart pointers
            return self.deref(p.f['ptr'])
        if isinstance(p, Opq):
            return self.alloc(Opq('*' + str(p.tag)), 'opq')
        if isinstance(p, Null):
            self.oblige('no null dereference', False, 'safety')
            raise Unsupported('null dereference')
        raise Unsupported('deref of %r' % (p,))

    def e_ArraySubscriptExpr(self, n):
        a, b = n['inner'][0], n['inner'][1]
        p = self.ev(a)
        i = self.ev(b)
        if isinstance(p, Ptr):
            q = Ptr(p.lv, add(p.idx if p.idx is not None else 0, i))
            v = self.rd(p.lv)
            if isinstance(v, (Vec, SVec)):
                self.inbounds(v, q.idx)
            return p.lv.i(q.idx)
        raise Unsupported('subscript of %r' % (p,))

    def e_UnaryOperator(self, n):
        op = n['opcode']
        x = n['inner'][0]
        if op == '&':
            lv = self.lv(x)
            if lv.path and isinstance(lv.path[-1], tuple):
                return Ptr(LV(lv.root, lv.path[:-1]), lv.path[-1][1])
            return Ptr(lv, None)
        if op == '*':
            return self.deref(self.ev(x))
        if op in ('++', '--'):
            lv = self.lv(x)
            old = self.rd(lv)
            d = 1 if op == '++' else -1
            if isinstance(old, Ptr):
                new = Ptr(old.lv, add(old.idx, d))
            elif isreal(old):
                new = add(old, d)
            else:
                new = self.norm(simp(add(old, d)), self.ty(x))
            self.wr(lv, new)
            return old if n.get('isPostfix') else lv
        v = self.ev(x)
        if op == '-':
            if isreal(v):
                return neg(v)
            return self.norm(neg(v), self.ty(n))
        if op == '+':
            return v
        if op == '!':
            if isinstance(v, Null):
                return True
            if isinstance(v, Ptr):
                return False
            return not_(tobool(v))
        if op == '~':
            s, w = INTS[self.ty(n)]
            return self.norm(sub(-1, v), self.ty(n)) if s else sub((1 << w) - 1, v)
        raise Unsupported('unary ' + op)

    def ptrcmp(self, op, a, b):
        if isinstance(a, Null) or isinstance(b, Null):
            e = isinstance(a, Null) and isinstance(b, Null)
            if isinstance(a, Opq) or isinstance(b, Opq):
                e = self.fresh('ptreq', 'bool')
                return e if op == '==' else not_(e)
            return e if op == '==' else not e
        if isinstance(a, Opq) and isinstance(b, Opq):
            if a.tag == b.tag:
                return op == '=='
            e = self.fresh('opqeq', 'bool')
            return e if op == '==' else not_(e)
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if not a.lv.same(b.lv):
                if op in ('==', '!='):
                    return op == '!='
                raise Unsupported('comparison of unrelated pointers')
            x, y = (a.idx if a.idx is not None else 0), (b.idx if b.idx is not None else 0)
            return self.cmp(op, x, y)
        raise Unsupported('pointer comparison %r %r' % (a, b))

    @staticmethod
    def cmp(op, a, b):
        if op == '==':
            return eq(a, b)
        if op == '!=':
            return not_(eq(a, b))
        if op == '<':
            return lt(a, b)
        if op == '<=':
            return le(a, b)
        if op == '>':
            return lt(b, a)
        if op == '>=':
            return le(b, a)

    def arith(self, op, a, b, ty):
        if isinstance(a, Ptr) and op in '+-':
            if isinstance(b, Ptr):
                if not a.lv.same(b.lv):
                    raise Unsupported('difference of unrelated pointers')
                return sub(a.idx if a.idx is not None else 0, b.idx if b.idx is not None else 0)
            i0 = a.idx if a.idx is not None else 0
            return Ptr(a.lv, add(i0, b) if op == '+' else sub(i0, b))
        if isinstance(b, Ptr) and op == '+':
            return Ptr(b.lv, add(b.idx, a))
        if not (isscalar(a) and isscalar(b)):
            raise Unsupported('arithmetic on %r %s %r' % (a, op, b))
        if ty == 'float':
            return self.round_fp(self.arith(op, a, b, 'double'), 'float')
        if ty in FLOATS or isreal(a) or isreal(b):
            if op == '+':
                return add(a, b)
            if op == '-':
                return sub(a, b)
            if op == '*':
                return mul(a, b)
            if op == '/':
                if isc(b) and b == 0:
                    raise Unsupported('division by zero real')
                if self.safety and not isc(b):
                    self.oblige('floating-point divisor non-zero', not_(eq(b, 0)), 'div')
                return rdiv(a, b)
        if op == '+':
            return self.norm(simp(add(a, b)) if not (isterm(a) and isterm(b)) else add(a, b), ty)
        if op == '-':
            return self.norm(sub(a, b), ty)
        if op == '*':
            return self.norm(mul(a, b), ty)
        if op in ('/', '%'):
            g = not_(eq(b, 0))
            if g is not True:
                lo, hi = self.itv(b)
                if not ((lo is not None and lo > 0) or (hi is not None and hi < 0)):
                    if not self.oblige('integer divisor non-zero', g, 'div'):
                        if g is False:
                            raise Unsupported('division by zero')
                        self.fact(zt(g))
            lo, _ = self.itv(a)
            blo, _ = self.itv(b)
            nonneg = (lo is not None and lo >= 0) or (isterm(a) and self.provable(le(0, a)))
            if nonneg and not isc(a) or nonneg and not isc(b):
                if (blo is not None and blo > 0) or self.provable(lt(0, b)):
                    return simp(zt(a) / zt(b)) if op == '/' else simp(zt(a) % zt(b))
            return tdiv(a, b) if op == '/' else tmod(a, b)
        if op == '<<':
            return self.norm(self.shl(a, b), ty)
        if op == '>>':
            return self.shr(a, b)
        if op in ('&', '|', '^'):
            return self.bitop(op, a, b, ty)
        raise Unsupported('operator ' + op)

    def pow2(self, b):
        if isc(b):
            if b < 0:
                if self.safety:
                    self.oblige('shift amount not negative', False)
                return self.fresh('unspecified', 'int', -2**31, 2**31 - 1)
            return 1 << b
        lo, hi = self.itv(b)
        if lo is None or hi is None or hi > 63 or lo < 0:
            lo2, hi2 = 0, 62
            if not self.oblige('shift amount in range', and_(le(0, b), le(b, 62)), 'shift'):
                self.fact(zt(and_(le(0, b), le(b, 62))))
            lo, hi = (max(lo, 0) if lo is not None else 0), (min(hi, 62) if hi is not None else 62)
        r = 1 << hi
        for k in range(hi - 1, lo - 1, -1):
            r = z3.If(zt(b) == k, z3.IntVal(1 << k), zt(r))
        return r

    def shl(self, a, b):
        p = self.pow2(b)
        return mul(a, p) if not (isc(a) and a == 1) else p

    def shr(self, a, b):
        p = self.pow2(b)
        if isc(a) and isc(p):
            return a >> b
        return simp(zt(a) / zt(p))

    def bitop(self, op, a, b, ty):
        if (isinstance(a, bool) or isterm(a) and z3.is_bool(a)) and (isinstance(b, bool) or isterm(b) and z3.is_bool(b)):
            return and_(a, b) if op == '&' else or_(a, b) if op == '|' else not_(eq(a, b))
        if isc(a) and isc(b):
            return {'&': a & b, '|': a | b, '^': a ^ b}[op]
        if op == '&':
            for x, y in ((a, b), (b, a)):
                if isc(x) and x >= 0 and (x & (x + 1)) == 0:
                    return zt(y) % (x + 1)
        w = INTS.get(ty, (True, 64))[1]
        x = z3.Int2BV(zt(a), w)
        y = z3.Int2BV(zt(b), w)
        r = x & y if op == '&' else x | y if op == '|' else x ^ y
        return z3.BV2Int(r, INTS.get(ty, (True, 64))[0])

    def e_BinaryOperator(self, n):
        op = n['opcode']
        a, b = n['inner']
        if op == '=':
            rv = self.ev(b)
            lv = self.lv(a)
            self.wr(lv, rv)
            return lv
        if op == ',':
            self.ev_discard(a)
            return getattr(self, 'e_' + b['kind'])(b)
        if op in ('&&', '||'):
            x = tobool(simp(tobool(self.ev(a))))
            if isinstance(x, bool):
                if (op == '&&' and not x) or (op == '||' and x):
                    return x
                return tobool(self.ev(b))
            # evaluate rhs under the guard
            base = self.st
            g = x if op == '&&' else not_(x)
            if not self.feasible(g):
                return op == '||'

            def rhs():
                self.decide(g)
                return tobool(self.ev(b))

            def skip():
                self.decide(not_(g))
                return op == '||'
            outs = self.explore(rhs) + (self.explore(skip))
            k, v = self.join(base, outs)
            if k == 'norm':
                return v
            return self.raise_kind(k, v)
        x = self.ev(a)
        y = self.ev(b)
        if op in ('==', '!=', '<', '<=', '>', '>='):
            if isscalar(x) and isscalar(y):
                return self.cmp(op, x, y)
            if isinstance(x, Str) and isinstance(y, Str):
                return (x.s == y.s) == (op == '==')
            return self.ptrcmp(op, x, y)
        return self.arith(op, x, y, self.ty(n))

    def e_CompoundAssignOperator(self, n):
        op = n['opcode'][:-1]
        a, b = n['inner']
        rv = self.ev(b)
        lv = self.lv(a)
        x = self.rd(lv)
        ct = n.get('computeResultType', {})
        cty = clean(ct.get('desugaredQualType') or ct.get('qualType') or tyof(n))
        clt = n.get('computeLHSType', {})
        clty = clean(clt.get('desugaredQualType') or clt.get('qualType') or tyof(n))
        if clty in FLOATS and not isreal(x) and isscalar(x):
            x = self.to_real(x)
        r = self.arith(op, x, rv, cty)
        t = self.ty(n)
        if t in INTS and isscalar(r):
            if isreal(r):
                r = self.real_to_int(r, t)
            elif cty != t:
                r = self.cast_int(r, t)
        elif t in FLOATS and isscalar(r) and not isreal(r):
            r = self.to_real(r)
        self.wr(lv, r)
        return lv

    def e_ConditionalOperator(self, n):
        c = tobool(simp(tobool(self.ev(n['inner'][0]))))
        if isinstance(c, bool):
            x = n['inner'][1 if c else 2]
            return getattr(self, 'e_' + x['kind'])(x)
        ft, ff = self.feasible(c), self.feasible(z3.Not(c))
        if not ft and not ff:
            raise Infeasible()
        if not ff or not ft:
            x = n['inner'][1 if ft else 2]
            return getattr(self, 'e_' + x['kind'])(x)
        base = self.st

        def t(i, g):
            def f():
                self.decide(g)
                x = n['inner'][i]
                return getattr(self, 'e_' + x['kind'])(x)
            return f
        outs = self.explore(t(1, c)) + self.explore(t(2, z3.Not(c)))
        if any(isinstance(o[2], LV) for o in outs):
            lvs = [o[2] for o in outs]
            if not all(isinstance(l, LV) and l.same(lvs[0]) for l in lvs):
                if n.get('valueCategory') != 'lvalue' or True:
                    o2 = []
                    for s, k, v in outs:
                        if isinstance(v, LV):
                            sv = self.st
                            self.st = s
                            v = self.rd(v)
                            self.st = sv
                        o2.append((s, k, v))
                    outs = o2
        k, v = self.join(base, outs)
        return self.raise_kind(k, v)

    # casts
    def castexpr(self, n):
        ck = n.get('castKind')
        x = n['inner'][0]
        t = self.ty(n)
        if ck == 'LValueToRValue':
            return self.ev(x)
        if ck in ('NoOp', 'UncheckedDerivedToBase', 'DerivedToBase', 'ConstructorConversion', 'UserDefinedConversion', 'BaseToDerived', 'Dynamic'):
            return getattr(self, 'e_' + x['kind'], self._uns(x))(x)
        if ck in ('IntegralCast', 'IntegralToBoolean'):
            v = self.ev(x)
            if isinstance(v, Opq):
                return v
            if t not in INTS:
                return v       # enums
            return self.cast_int(v, t)
        if ck in ('IntegralToFloating',):
            return self.round_fp(self.to_real(self.ev(x)), t)
        if ck in ('FloatingToIntegral',):
            return self.real_to_int(self.ev(x), t)
        if ck == 'FloatingCast':
            return self.round_fp(self.ev(x), t) if t == 'float' else self.ev(x)
        if ck == 'FloatingToBoolean':
            return not_(eq(self.ev(x), 0))
        if ck == 'ArrayToPointerDecay':
            r = getattr(self, 'e_' + x['kind'])(x)
            if isinstance(r, LV):
                return Ptr(r, 0)
            return r
        if ck == 'FunctionToPointerDecay':
            return getattr(self, 'e_' + x['kind'])(x)
        if ck == 'NullToPointer':
            return NULL
        if ck == 'PointerToBoolean':
            v = self.ev(x)
            return not isinstance(v, Null)
        if ck in ('BitCast', 'ToVoid', 'PointerToIntegral', 'IntegralToPointer', 'AtomicToNonAtomic'):
            if ck == 'ToVoid':
                self.ev_discard(x)
                return None
            v = self.ev(x)
            if self.bytecast and isinstance(v, Ptr) and v.idx is None and clean(t).replace(' ', '') in ('char*', 'unsignedchar*') and isscalar(self.rd(v.lv)):
                self.wr(v.lv, Vec([self.fresh('byte', 'int', -128, 127) for _ in range(self.bytecast)], 'char'))    # uninitialised object seen as bytes
            return v
        raise Unsupported('cast ' + str(ck))

    def _uns(self, x):
        def f(n):
            raise Unsupported('expression ' + x['kind'])
        return f

    e_ImplicitCastExpr = e_CStyleCastExpr = e_CXXStaticCastExpr = e_CXXReinterpretCastExpr = e_CXXConstCastExpr = castexpr
    e_CXXFunctionalCastExpr = e_CXXDynamicCastExpr = castexpr

    def to_real(self, v):
        if isinstance(v, bool):
            v = int(v)
        if isterm(v) and z3.is_bool(v):
            v = z3.If(v, z3.IntVal(1), z3.IntVal(0))
        if isc(v):
            return Fraction(v)
        return v if z3.is_real(v) else z3.ToReal(v)

    def round_fp(self, v, t):
        """integers beyond 2^53 (2^24 for float) and every float result are rounded: arbitrary value within half an ulp"""
        if not isscalar(v):
            return v
        p = 24 if t == 'float' else 53
        if isc(v):
            if t != 'float' or Fraction(v).denominator == 1 and abs(v) <= 1 << 24 or float(v) == v and Fraction(np_float(float(v))) == v:
                return v
            return Fraction(np_float(float(v)))
        if v.decl().kind() == z3.Z3_OP_TO_REAL:
            i = v.children()[0]
            lo, hi = self.itv(i)
            if lo is not None and hi is not None and -(1 << p) <= lo and hi <= 1 << p:
                return v
            if self.provable(and_(le(-(1 << p), i), le(i, 1 << p))):
                return v
        elif t != 'float':
            return v
        r = self.fresh('fp', 'real')
        e = Fraction(1, 1 << p)
        a = z3.If(v >= 0, v, -v)
        self.fact(z3.And(r - v <= a * zt(e), v - r <= a * zt(e)))
        return r

    def ratio(self, t):
        """t as (num,den) with integer terms, or None"""
        if isinstance(t, Fraction):
            return (t.numerator, t.denominator)
        if isinstance(t, int):
            return (t, 1)
        if not isterm(t):
            return None
        if z3.is_int(t):
            return (t, 1)
        if z3.is_rational_value(t):
            return (t.numerator_as_long(), t.denominator_as_long())
        k = t.decl().kind()
        ch = t.children()
        if k == z3.Z3_OP_TO_REAL:
            return (lit(ch[0]), 1)
        if k == z3.Z3_OP_DIV:
            a, b = self.ratio(ch[0]), self.ratio(ch[1])
            if a and b and isc(b[1]) and isc(a[1]):
                return (mul(a[0], b[1]), mul(a[1], b[0]))
            return None
        if k == z3.Z3_OP_MUL:
            n, d = 1, 1
            for c in ch:
                a = self.ratio(c)
                if a is None:
                    return None
                n, d = mul(n, a[0]), mul(d, a[1])
            return (n, d)
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB):
            n, d = None, 1
            for i, c in enumerate(ch):
                a = self.ratio(c)
                if a is None:
                    return None
                if n is None:
                    n, d = a
                    continue
                x = mul(a[0], d)
                n = add(mul(n, a[1]), x) if k == z3.Z3_OP_ADD else sub(mul(n, a[1]), x)
                d = mul(d, a[1])
            return (n, d)
        if k == z3.Z3_OP_UMINUS:
            a = self.ratio(ch[0])
            return (neg(a[0]), a[1]) if a else None
        return None

    def floor_(self, v):
        if isc(v):
            return Fraction(v).__floor__()
        r = self.ratio(v)
        if r is not None and (isc(r[1]) and r[1] > 0 or self.provable(lt(0, r[1]))):
            if isc(r[1]) and r[1] == 1:
                return r[0]
            return simp(zt(r[0]) / zt(r[1])) if isc(r[1]) else zt(r[0]) / zt(r[1])
        return z3.ToInt(v)

    def ceil_(self, v):
        if isc(v):
            return Fraction(v).__ceil__()
        return neg(self.floor_(neg_real(v)))

    def real_to_int(self, v, t):
        if isc(v):
            f = Fraction(v)
            r = f.__floor__() if f >= 0 else f.__ceil__()
        else:
            if z3.is_to_real(v) if hasattr(z3, 'is_to_real') else False:
                r = v.children()[0]
            elif v.decl().kind() == z3.Z3_OP_TO_REAL:
                r = v.children()[0]
            elif self.provable(le(0, v)):
                r = self.floor_(v)
            else:
                r = z3.If(v >= 0, zt(self.floor_(v)), zt(self.ceil_(v)))
        if self.safety and t in INTS:
            g = self.inrange(r, t)
            if g is not True:
                if not self.oblige('float-to-integer conversion in range', g, 'conv'):
                    if g is False:
                        raise Unsupported('float to int out of range')
                    self.fact(zt(g))
        return r

    # calls
    def callee(self, n):
        """strip a callee expression to DeclRefExpr/MemberExpr"""
        c = n['inner'][0]
        while c.get('kind') in ('ImplicitCastExpr', 'ParenExpr', 'CXXBindTemporaryExpr', 'ExprWithCleanups', 'ConstantExpr'):
            c = c['inner'][0]
        return c

    def e_CallExpr(self, n):
        c = self.callee(n)
        args = n['inner'][1:]
        if c['kind'] == 'DeclRefExpr':
            rd = c['referencedDecl']
            d = self.P.decl.get(rd['id'])
            if rd['kind'] in ('VarDecl', 'ParmVarDecl'):
                f = self.ev(c)
                return self.call_value(f, args, n)
            nm = rd.get('name')
            if d is not None and d.get('kind') in F.FUNS:
                return self.call_decl(d, None, args)
            h = self.hooks.get(nm)
            if h is not None:
                return h(self, None, [self.lv_or_tmp(a) for a in args if a.get('kind') != 'CXXDefaultArgExpr'])
            return self.std.call(self, nm, rd, args, n)
        if c['kind'] == 'MemberExpr':
            return self.e_CXXMemberCallExpr(n)
        f = self.ev(c)
        return self.call_value(f, args, n)

    def call_value(self, f, args, n):
        if isinstance(f, Clo):
            return self.call_closure(f, [self.lv_or_tmp(a) for a in args])
        if isinstance(f, Fun):
            if f.f is None:
                d = self.P.decl.get(f.name['id'])
                if d is not None:
                    return self.call_decl(d, None, args)
                return self.std.call(self, f.name.get('name'), f.name, args, n)
            return f.f(self, [self.ev(a) for a in args])
        raise Unsupported('call of %r' % (f,))

    def apply(self, f, vals):
        """call a functor/closure on values"""
        if isinstance(f, LV):
            f = self.rd(f)
        if isinstance(f, Clo):
            return self.call_closure(f, [v if isinstance(v, LV) else self.alloc(v, 'arg') for v in vals])
        if isinstance(f, Fun):
            if f.f is not None:
                return f.f(self, [self.rd(v) if isinstance(v, LV) else v for v in vals])
            d = self.P.decl.get(f.name['id'])
            if d is not None:
                return self.call_decl(d, None, args=[v if isinstance(v, LV) else self.alloc(v, 'arg') for v in vals])
        if isinstance(f, Ptr) and f.idx is None:
            return self.apply(self.rd(f.lv), vals)
        raise Unsupported('apply %r' % (f,))

    def call_closure(self, f, args):
        rec = f.node['inner'][0]
        op = None
        for c in rec.get('inner', ()):
            if c.get('kind') == 'CXXMethodDecl' and c.get('name') == 'operator()' and F.body(c):
                op = c
            if c.get('kind') == 'FunctionTemplateDecl' and c.get('name') == 'operator()':
                for x in c.get('inner', ()):
                    if x.get('kind') == 'CXXMethodDecl' and F.body(x):
                        op = x
        if op is None:
            raise Unsupported('lambda without body')
        # by-value parameters are copies
        bound = []
        for p, a in zip(F.params(op), args):
            if tyof(p).rstrip().endswith('&'):
                bound.append(a)
            else:
                bound.append(self.alloc(self.rd(a), 'arg'))
        self.P.qual.setdefault(op['id'], 'lambda in ' + self.curfn)
        return self.invoke(op, f.this, bound, f.env)

    def e_LambdaExpr(self, n):
        return Clo(n, self.env, self.this)

    def e_CXXMemberCallExpr(self, n):
        m = self.callee(n)
        args = n['inner'][1:]
        if m['kind'] != 'MemberExpr':
            raise Unsupported('member call via ' + m['kind'])
        d = self.P.decl.get(m.get('referencedMemberDecl'))
        base = m['inner'][0]
        if m.get('isArrow'):
            p = self.ev(base)
            if isinstance(p, Opq):
                obj = self.alloc(Opq('*' + str(p.tag)), 'opq')
            else:
                obj = self.deref(p)
        else:
            obj = self.lv(base, tmp=True)
        if d is not None and d.get('kind') in F.FUNS:
            v = self.rd(obj)
            if d.get('virtual') and isinstance(v, Obj):
                d = self.virtual_target(v.cls, d) or d
            return self.call_decl(d, obj, args)
        return self.std.method(self, obj, m.get('name'), args, n)

    def virtual_target(self, cls, d):
        k, r = self.record(cls)
        seen = set()
        todo = [r] if r else []
        while todo:
            r = todo.pop(0)
            for c in r.get('inner', ()):
                if c.get('kind') == 'CXXMethodDecl' and c.get('name') == d.get('name') and c['type']['qualType'] == d['type']['qualType']:
                    return c
            todo += [x[1] for x in self.bases(r)]
        return None

    def e_CXXOperatorCallExpr(self, n):
        c = self.callee(n)
        args = n['inner'][1:]
        if c['kind'] != 'DeclRefExpr':
            raise Unsupported('operator call')
        rd = c['referencedDecl']
        nm = rd['name']
        d = self.P.decl.get(rd['id'])
        if d is not None and d.get('kind') in F.FUNS and not (d.get('isImplicit') and nm == 'operator='):
            if d['kind'] == 'CXXMethodDecl':
                if nm == 'operator=' and (d.get('explicitlyDefaulted') or d.get('isImplicit')):
                    lv = self.lv(args[0])
                    self.wr(lv, self.ev(args[1]))
                    return lv
                if nm == 'operator()' and (d.get('parentDeclContextId') is None or True):
                    f0 = None
                    try:
                        f0 = self.ev(args[0])
                    except Unsupported:
                        f0 = None
                    if isinstance(f0, (Clo, Fun)):
                        return self.call_value(f0, args[1:], n)
                obj = self.lv(args[0], tmp=True)
                return self.call_decl(d, obj, args[1:])
            return self.call_decl(d, None, args)
        return self.std.operator(self, nm, args, n)

    def e_CXXConstructExpr(self, n):
        t = self.ty(n)
        args = n.get('inner', ())
        v = self.std.construct(self, t, args, n)
        if v is not None:
            return v
        k, r = self.record(t)
        if r is None:
            if len(args) == 1 and n.get('elidable'):
                return self.ev(args[0])
            return self.std.construct_unknown(self, t, args, n)
        ct = n.get('ctorType', {}).get('qualType', '')
        if len(args) == 1:
            at = self.ty(args[0])
            k2, r2 = self.record(at)
            if k2 is not None and (k2 == k or self.derives(r2, k)):
                return self.ev(args[0])
        h = self.hooks.get('ctor:' + k)
        if h is not None:
            return h(self, None, [self.lv_or_tmp(a) for a in args])
        obj = self.alloc(self.default(t, zero=bool(n.get('zeroing')) or not args), 'obj')
        self.construct_into(obj, n)
        return self.rd(obj)

    def derives(self, r, k):
        for kb, rb in self.bases(r):
            if kb == k or self.derives(rb, k):
                return True
        return False

    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def e_InitListExpr(self, n):
        t = self.ty(n)
        args = [a for a in n.get('inner', ())]
        if not args and 'array_filler' in n:
            args = [a for a in n['array_filler'] if a.get('kind') != 'ImplicitValueInitExpr']
        elif 'array_filler' in n:
            args = [a for a in n['array_filler'] if a.get('kind') != 'ImplicitValueInitExpr']
        if t in INTS or t in FLOATS or t.endswith('*'):
            return self.ev(args[0]) if args else self.default(t, True)
        if t.endswith(']'):
            import re
            m = re.match(r'(.*)\[(\d+)\]$', t)
            et, cnt = m.group(1).strip(), int(m.group(2))
            e = [self.ev(a) for a in args]
            while len(e) < cnt:
                e.append(self.default(et, True))
            return Vec(e, et)
        v = self.std.initlist(self, t, args, n)
        if v is not None:
            return v
        k, r = self.record(t)
        if r is not None:
            f = {}
            fds = self.fields(r)
            for i, fd in enumerate(fds):
                if i < len(args) and args[i].get('kind') not in ('CXXDefaultInitExpr',):
                    f[fd['name']] = self.ev(args[i])
                else:
                    f[fd['name']] = self.field_default(fd, True)
            return Obj(k, f)
        raise Unsupported('init list of ' + t)

    def e_CXXStdInitializerListExpr(self, n):
        return self.pass1(n)

    def e_CXXThrowExpr(self, n):
        t = 'exception'
        if n.get('inner'):
            t = self.ty(n['inner'][0])
        raise Throw(t)

    def e_CXXNewExpr(self, n):
        if n.get('isArray') and n.get('inner'):
            t = clean(self.ty(n)).rstrip('* ')
            if t in INTS or t in FLOATS:
                k = self.ev(n['inner'][0])
                g = self.freshfun('new', 'int' if t in INTS else 'real')
                return Ptr(self.alloc(SVec(k, lambda i: g(zt(i)), t), 'new'), 0)
        return Opq('new')

    def e_CXXDeleteExpr(self, n):
        return None

    def e_PredefinedExpr(self, n):
        return Str('')

    def e_OpaqueValueExpr(self, n):
        if n.get('inner'):
            return self.pass1(n)
        raise Unsupported('OpaqueValueExpr')


def np_float(x):
    import struct
    return struct.unpack('f', struct.pack('f', x))[0]


def neg_real(v):
    if isc(v):
        return -Fraction(v)
    return -v
