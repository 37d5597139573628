"""Solver access: z3 (in process) with cvc5 (in process binary) as second opinion."""
import z3, time, subprocess, tempfile, os
from .values import zt, isc

STATS = {'z3_queries': 0, 'z3_time': 0.0, 'cvc5_queries': 0, 'cvc5_time': 0.0}


def _mk(tmo):
    s = z3.Solver()
    s.set('timeout', int(tmo))
    s.set('random_seed', 1)
    return s


_Q = {}


def has_quant(t):
    if not isinstance(t, z3.AstRef):
        return False
    r = _Q.get(t.get_id())
    if r is not None and r[1].eq(t):
        return r[0]
    res, todo, seen = False, [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            res = True
            break
        todo.extend(x.children())
    if len(_Q) > 200000:
        _Q.clear()
    _Q[t.get_id()] = (res, t)
    return res


def funs(t, out):
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
        elif z3.is_app(x):
            if x.num_args() > 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name())
            todo.extend(x.children())
    return out


def split(assertions):
    qf, qs = [], []
    for a in assertions:
        (qs if has_quant(a) else qf).append(a)
    return qf, qs


def staged(assertions, goal, tmo, second=True, narrow=False):
    """quantifier-free part first; quantified facts only when they share function symbols with the rest"""
    qf, qs = split(assertions)
    if has_quant(goal) or not qs:
        return check(assertions + [goal], tmo, second)
    r = check(qf + [goal], tmo if not qs else min(tmo, 3000), second=False)
    if r[0] == 'unsat':
        return r
    have = funs(goal, set())
    for a in qf if not narrow else ():
        if isinstance(a, z3.AstRef):
            funs(a, have)
    use, rest, ch = [], [(q, funs(q, set())) for q in qs], True
    while ch:
        ch = False
        for it in list(rest):
            if not it[1] or it[1] & have:
                use.append(it[0])
                have |= it[1]
                rest.remove(it)
                ch = True
    if not use:
        return r if r[0] == 'sat' else check(qf + [goal], tmo, second)
    return check(qf + use + [goal], tmo, second)


def check(assertions, tmo=10000, second=True):
    """returns ('unsat', None, backend) | ('sat', model, backend) | ('unknown', reason, backend)"""
    s = _mk(tmo)
    for a in assertions:
        s.add(zt(a))
    t = time.time()
    r = s.check()
    STATS['z3_queries'] += 1
    STATS['z3_time'] += time.time() - t
    if r == z3.unsat:
        return 'unsat', None, 'z3'
    if r == z3.sat:
        return 'sat', s.model(), 'z3'
    reason = s.reason_unknown()
    if second:
        r2 = cvc5(s, max(2000, tmo))
        if r2 == 'unsat':
            return 'unsat', None, 'cvc5'
        if r2 == 'sat':
            return 'sat', None, 'cvc5'
        s2 = z3.Tactic('qfnra-nlsat').solver() if False else None
    return 'unknown', reason, 'z3+cvc5' if second else 'z3'


def cvc5(solver, tmo):
    txt = '(set-logic ALL)\n' + solver.to_smt2()
    f = tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False)
    f.write(txt)
    f.close()
    t = time.time()
    try:
        p = subprocess.run(['cvc5', '--tlimit=%d' % tmo, f.name], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                           timeout=tmo / 1000 + 5)
        out = p.stdout.decode().strip().splitlines()
        return out[0] if out else 'unknown'
    except subprocess.TimeoutExpired:
        return 'unknown'
    finally:
        STATS['cvc5_queries'] += 1
        STATS['cvc5_time'] += time.time() - t
        os.unlink(f.name)
