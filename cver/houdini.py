"""Loops without a closed form: invariant inference over candidate invariants (Houdini).

The property supplies candidates (never the invariant of a named variable): for every location the loop modifies, relations
to the ghost progress of the environment (bytes received / sent).  Candidates that do not hold on entry or are not preserved
by the body are dropped until the rest is inductive; the loop is then replaced by its invariant, and every obligation of the
body is generated for an arbitrary iteration."""
import z3
from .values import *
from .execu import Cont, Infeasible, BOUNDS
from .frontend import clean
from .loopsum import safe_elem


class Cut:
    """ghosts: {root: [pred(x, p)]} progress variables, first one is p; scalars(x, v0, p, p0) -> [(functional value or None, predicate)]
    arrays(root, v0, p, p0) -> [value]"""
    def __init__(self, main, p0, bounds, scalars, arrays, residues=1):
        self.main, self.p0, self.bounds, self.scalars, self.arrays, self.residues = main, p0, bounds, scalars, arrays, residues


def content_eq(ex, a, b):
    from .stdmodel import strval
    if isinstance(a, Str):
        a = strval(a)
    if isinstance(a, (Vec, SVec)) and isinstance(b, (Vec, SVec)):
        if not ex.provable(eq(a.n, b.n)):
            return False
        if isinstance(a, Vec) and not a.e or isinstance(b, Vec) and not b.e:
            return True
        if isinstance(a, Vec) and isinstance(b, Vec):
            return all(ex.provable(eq(x, y)) for x, y in zip(a.e, b.e))
        j = ex.fresh('j', 'int', 0)
        return ex.provable(implies(lt(j, b.n), eq(safe_elem(a, j), safe_elem(b, j))))
    return False


def nested(v):
    return v.e if isinstance(v, Vec) and v.e and all(isinstance(x, (Vec, SVec)) for x in v.e) else None


def elemreal(v):
    return isreal(safe_elem(v, z3.Int('j?'))) if not isinstance(v, Vec) or v.e else clean(v.ty or '') in ('double', 'float')


def run(ex, n, condf, incf, bodyf, dofirst, cut):
    base = ex.st
    ctr0 = ex.ctr
    p0 = cut.p0
    key = (n['id'], ctr0, ex.discovery, tuple(c.get_id() for c in base.pc))
    memo = ex.__dict__.setdefault('cutmemo', {})
    if key in memo:             # the same loop entered again on another path: same state, same outcome
        exits, ctr, _ = memo[key]
        ex.ctr = max(ex.ctr, ctr)
        exits = [(s.copy(), k, v) for s, k, v in exits]
        return [exits[ex.choose(len(exits))]] if cut.residues > 1 else exits
    inv = {}        # root -> list of alive candidates
    mod = set()

    def cands(root):
        v0 = base.mem[root]
        if root == cut.main:
            return [('pred', f) for f in cut.bounds]
        if isinstance(v0, Ptr) and v0.idx is not None and isscalar(v0.idx):
            return list(cut.scalars(v0.idx, p0))
        if isscalar(v0):
            return list(cut.scalars(v0, p0))
        if isinstance(v0, (Vec, SVec)):
            return [f if isinstance(f, tuple) else ('val', f) for f in cut.arrays(root, v0)] + [('len', None)]
        if isinstance(v0, (Str, Opq)):
            return [('val', f) for f in cut.arrays(root, v0)]
        return []

    def holds(root, c, v, p):
        v0 = base.mem[root]
        if isinstance(v0, Ptr):
            if not (isinstance(v, Ptr) and v.lv.same(v0.lv)):
                return False
            v = v.idx
        kind, f = c
        if kind == 'fun':
            return isscalar(v) and ex.provable(eq(v, f(p)))
        if kind == 'pred':
            return isscalar(v) and ex.provable(f(v, p))
        if kind == 'val':
            return content_eq(ex, v, f(p))
        if kind == 'lenpred':       # every (inner) length
            vs = nested(v) or [v]
            return all(isinstance(x, (Vec, SVec)) and ex.provable(f(x.n, p)) for x in vs)
        return isinstance(v, (Vec, SVec)) and ex.provable(eq(v.n, v0.n))

    def head(res=0):
        ex.st = base.copy()
        p = ex.fresh('hv', 'int')      # refutations after an inferred invariant give no verdict: the invariant may be too weak
        st = ex.st
        if cut.residues > 1:        # case split over the progress modulo the element size
            p = simp(add(add(p0, mul(cut.residues, p)), res))
            ex.fact(zt(le(p0, p)))
        st.mem[cut.main] = p
        for k, f in inv[cut.main]:
            ex.assume(f(p, p))
        for root in mod:
            if root == cut.main:
                continue
            v0 = base.mem[root]
            cs = inv[root]
            s0 = v0.idx if isinstance(v0, Ptr) else v0
            if isscalar(s0):
                x = next((f(p) for k, f in cs if k == 'fun'), None)
                if x is None:
                    x = ex.fresh('hv', 'bool' if isinstance(s0, bool) or (isterm(s0) and z3.is_bool(s0)) else 'real' if isreal(s0) else 'int')
                    BND = [f for k, f in cs if k == 'fun']
                for k, f in cs:
                    ex.assume(eq(x, f(p)) if k == 'fun' else f(x, p))
                st.mem[root] = Ptr(v0.lv, x) if isinstance(v0, Ptr) else x
            elif isinstance(v0, (Vec, SVec, Str, Opq)):
                w = next((f(p) for k, f in cs if k == 'val'), None)
                lp = [f for k, f in cs if k == 'lenpred']

                def length():
                    x = ex.fresh('hv', 'int', 0)
                    for f in lp:
                        ex.assume(f(x, p))
                    return x
                if w is None and nested(v0) and any(k == 'len' for k, f in cs):
                    w = Vec([SVec(length(), (lambda g: lambda i: g(zt(i)))(ex.freshfun('hv', 'real' if elemreal(y) else 'int')), y.ty) for y in v0.e], v0.ty)
                if w is None and isinstance(v0, (Vec, SVec)):
                    sample = safe_elem(v0, z3.Int('j?')) if not isinstance(v0, Vec) or v0.e else 0
                    g = ex.freshfun('hv', 'real' if isreal(sample) else 'int')
                    if clean(v0.ty or '') == 'char':
                        BOUNDS[g.name() + '()'] = (-128, 127)
                    ln = v0.n if any(k == 'len' for k, f in cs) else length()
                    w = SVec(ln, (lambda g: lambda i: g(zt(i)))(g), v0.ty)
                st.mem[root] = w if w is not None else Opq('unk')
            else:
                raise Unsupported('loop modifies %r' % (v0,))
        return p, st

    def thunk():
        if not dofirst and not ex.branch(tobool(condf())):
            return 'exit'
        try:
            bodyf()
        except Cont:
            pass
        incf()
        if dofirst and not ex.branch(tobool(condf())):
            return 'exit'
        return 'next'

    def explore():
        ex.loopdepth += 1
        try:
            outs = []
            for res in range(cut.residues):
                try:
                    p, h = head(res)
                except Infeasible:
                    continue
                outs += [(h, s, k, v) for s, k, v in ex.explore(thunk)]
            return outs
        finally:
            ex.loopdepth -= 1

    if cut.main not in mod:
        mod.add(cut.main)
        inv[cut.main] = [c for c in cands(cut.main) if holds(cut.main, c, base.mem[cut.main], p0)]
    ex.discovery += 1
    touched = False
    try:
        for rnd in range(60):
            outs = explore()
            changed = False
            for h, s, k, v in outs:
                for root in base.mem:
                    if not same(s.mem.get(root), h.mem.get(root)):
                        if root == cut.main:
                            touched = True
                        if root not in mod and not (k == 'norm' and v == 'exit') and k in ('norm', 'cont'):
                            mod.add(root)
                            ex.st = base.copy()
                            inv[root] = [c for c in cands(root) if holds(root, c, base.mem[root], p0)]
                            changed = True
            if not touched:
                ex.st = base
                return None
            if changed:
                continue
            for h, s, k, v in outs:
                if not (k == 'norm' and v == 'next'):
                    continue
                for root in list(mod):
                    keep = []
                    for c in inv[root]:
                        ex.st = s.copy()
                        if holds(root, c, s.mem[root], s.mem[cut.main]):
                            keep.append(c)
                    if getattr(ex, 'loopdebug', False) and __import__('os').environ.get('CUT'):
                        lost = [c for c in inv[root] if c not in keep]
                        if lost:
                            print('round', rnd, root, base.mem[root], 'lost', [(c[0], str(c[1](h.mem[cut.main]))[:60] if c[0] in ('fun', 'val') else '') for c in lost], 'now', str(s.mem[root])[:200])
                    if len(keep) != len(inv[root]):
                        inv[root] = keep
                        changed = True
            if not changed:
                break
        else:
            raise Unsupported('no inductive loop invariant')
    finally:
        ex.discovery -= 1
    outs = explore()
    exits = []
    for h, s, k, v in outs:
        if k == 'norm' and v == 'next':
            for root in mod:
                for c in inv[root]:
                    ex.st = s.copy()
                    if not holds(root, c, s.mem[root], s.mem[cut.main]):
                        raise Unsupported('loop invariant not preserved')
        elif k in ('ret', 'throw'):
            exits.append((s, k, v))
        else:
            exits.append((s, 'norm', None))
    ex.st = base
    memo[key] = ([(s.copy(), k, v) for s, k, v in exits], ex.ctr, base)
    if cut.residues > 1:
        exits = [exits[ex.choose(len(exits))]]
    ex.loopnotes.append('invariant over %d locations' % len(mod))
    if getattr(ex, 'debug_cut', False):
        for r in mod:
            print('  inv', r, base.mem[r], [c[0] for c in inv[r]])
    return exits
