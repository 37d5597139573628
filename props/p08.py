"""P08: process roles and communicators."""
import os
from .dfgcommon import *
from cver import frontend as F
from cver.runner import Group, Harness

LEVEL = 'proof'
ASSUMPTIONS = ['the number of processes fits int (ngroup * nprocs < 2^31)', 'fault tolerance switched off (ENABLE_FT false)',
               'the functions that build the communicators are proved for any number of groups, of processes per group and any rank, except where the group says otherwise']
TRUSTED = ['MPI_Comm_split: a communicator of the processes with the same color, ordered by key and rank', 'MPI_Group_incl and MPI_Comm_create: a communicator of the listed ranks in the given order, MPI_COMM_NULL elsewhere',
           'MPI_Comm_rank, MPI_Comm_size']
M = 'combigrid::MPISystem'
D = 'mpisystem.cpp'
I31 = (1 << 31) - 1
PN, UNDEF = -2, -32766      # MPI_PROC_NULL, MPI_UNDEFINED


class World:
    """a layout and one of its processes"""
    def __init__(s, ex, P, with_, G=None, N=None, rank=None, tag=''):
        s.ex, s.P, s.with_ = ex, P, with_
        s.G = ex.fresh('G' + tag, 'int', 1, I31) if G is None else G
        s.N = ex.fresh('N' + tag, 'int', 1, I31) if N is None else N
        s.GN = mul(s.G, s.N)
        s.W = add(s.GN, 1 if with_ else 0)
        if isterm(s.GN):
            gn = ex.fresh('GN', 'int', 1, I31)
            ex.fact(zt(eq(gn, s.GN)))
            ex.fact(zt(and_(le(s.G, gn), le(s.N, gn))))
            s.GN, s.W = gn, add(gn, 1 if with_ else 0)
        ex.assume(le(s.W, I31))
        s.null = ex.alloc(Opq('commnull'))
        ex.hooks['var:ompi_mpi_comm_null'] = lambda ex: s.null
        s.NULL = Ptr(s.null, None)
        s.world = s.comm('world')
        s.comms = {}
        s.r = rank
        ex.hooks['MPI_Comm_rank'] = s.comm_rank
        ex.hooks['MPI_Comm_size'] = s.comm_size
        ex.hooks['setAttribute'] = ex.hooks['combigrid::Stats::setAttribute'] = lambda ex, this, a: None
        for x in ('MPI_Group_free', 'MPI_Barrier', 'MPI_Comm_free'):
            ex.hooks[x] = lambda ex, this, a: 0
        s.rank, s.size = {}, {}
        s.setc(s.world, None, s.W)

    def comm(s, tag):
        return Ptr(s.ex.alloc(Opq('comm ' + tag)), None)

    def setc(s, c, rank, size):
        s.rank[c.lv.root], s.size[c.lv.root] = rank, size

    def iscomm(s, c):
        return isinstance(c, Ptr) and c.lv.root in s.size

    def out(s, a, v):
        p = s.ex.val(a)
        s.ex.wr(p.lv if p.idx is None else p.lv.i(p.idx), v)
        return 0

    def comm_rank(s, ex, this, a):
        c = ex.val(a[0])
        if not s.iscomm(c):
            ex.oblige('rank in a valid communicator', False)
            raise Unsupported('communicator')
        return s.out(a[1], s.r if c.lv.same(s.world.lv) else s.rank[c.lv.root])

    def comm_size(s, ex, this, a):
        c = ex.val(a[0])
        if not s.iscomm(c):
            ex.oblige('size of a valid communicator', False)
            raise Unsupported('communicator')
        return s.out(a[1], s.size[c.lv.root])

    def newrank(s, tag=''):
        """a rank, given by group and rank in the group (completeness: every rank is the manager or of this form)"""
        ex = s.ex
        g, l = ex.fresh('g' + tag, 'int', 0, I31), ex.fresh('l' + tag, 'int', 0, I31)
        ex.assume(and_(lt(g, s.G), lt(l, s.N)))
        r = ex.fresh('r' + tag, 'int', 0, I31)
        ex.fact(zt(eq(r, add(mul(g, s.N), l))))
        ex.fact(zt(lt(r, s.GN)))
        return r, g, l

    def obj(s, **f):
        d = dict(initialized_=False, worldComm_=s.world, globalComm_=s.NULL, localComm_=s.NULL, globalReduceComm_=s.NULL, outputGroupComm_=s.NULL, outputComm_=s.NULL,
                 worldCommFT_=NULL, globalCommFT_=NULL, spareCommFT_=NULL, localCommFT_=NULL, globalReduceCommFT_=NULL, thirdLevelComms_=Vec([], 'MPI_Comm'),
                 worldRank_=s.r, ngroup_=s.G, nprocs_=s.N, managerRankWorld_=s.GN if s.with_ else PN, reusableRanks_=Vec([], 'int'))
        for x in ('globalRank_', 'localRank_', 'globalReduceRank_', 'managerRank_', 'managerRankFT_', 'masterRank_', 'thirdLevelRank_', 'thirdLevelManagerRank_', 'outputGroupRank_', 'filePartNumber_'):
            d[x] = s.ex.fresh('stale', 'int', -40000, I31)
        d.update(f)
        return s.ex.alloc(Obj(M, d))

    def splits(s, fn, o, args=()):
        """runs fn and returns the (communicator, color, key) of its MPI_Comm_split calls"""
        got = []
        nc = s.comm('split')

        def split(ex, this, a):
            got.append((ex.val(a[0]), ex.val(a[1]), ex.val(a[2])))
            s.setc(nc, ex.fresh('newrank', 'int', 0, I31), ex.fresh('newsize', 'int', 1, I31))
            und = ex.branch(eq(ex.val(a[1]), UNDEF))
            return s.out(a[3], s.NULL if und else nc)
        s.ex.hooks['MPI_Comm_split'] = split
        s.ex.invoke(s.P.find(M + '::' + fn), o, [s.ex.alloc(x) for x in args])
        return got, nc


def g_constants(ex, P, with_, manager):
    """the manager is the last rank; layouts that do not match the number of processes are rejected"""
    w = World(ex, P, with_)
    size = ex.fresh('size', 'int', 1, I31)
    w.setc(w.world, None, size)
    w.r = ex.fresh('r', 'int', 0, I31)
    ex.assume(lt(w.r, size))
    o = w.obj(managerRankWorld_=ex.fresh('stale', 'int'), outputGroupComm_=w.comm('old'), outputComm_=w.comm('old'))
    from cver.execu import Throw
    try:
        ex.invoke(P.find(M + '::initSystemConstants'), o, [ex.alloc(x) for x in (w.G, w.N, w.world, with_, True)])
    except Throw:
        ex.oblige('only wrong numbers of processes are rejected', not_(eq(size, w.W)))
        return
    f = ex.rd(o).f
    ex.oblige('wrong numbers of processes are rejected', eq(size, w.W))
    ex.oblige('layout stored', and_(eq(f['ngroup_'], w.G), eq(f['nprocs_'], w.N)))
    ex.oblige('rank of the process', eq(f['worldRank_'], w.r))
    ex.oblige('the manager is the last process, if there is one', eq(f['managerRankWorld_'], w.GN if with_ else PN))
    ex.oblige('no output group yet', isnull(w, f['outputGroupComm_']) and isnull(w, f['outputComm_']))


def isnull(w, c):
    return isinstance(c, Ptr) and c.lv.same(w.null)


def g_split(ex, P, fn, with_, who):
    """any two processes end up in the same communicator exactly if they belong there, in the documented order"""
    w = World(ex, P, with_)
    res = []
    for t in '12':
        if t == '2' and who == 'manager':
            w.r, g, l = w.GN, None, None
        else:
            w.r, g, l = w.newrank(t)
        o = w.obj()
        got, nc = w.splits(fn, o)
        ex.oblige('one split of all processes', len(got) == 1 and got[0][0].lv.same(w.world.lv))
        res.append((got[0][1], got[0][2], g, l))
        f = ex.rd(o).f
        c, k = ('localComm_', 'localRank_') if fn == 'initLocalComm' else ('globalReduceComm_', 'globalReduceRank_')
        if g is None:
            ex.oblige('the manager is in no such communicator', isnull(w, f[c]))
            ex.oblige('the manager has no rank there', eq(f[k], PN))
        else:
            ex.oblige('communicator stored', isinstance(f[c], Ptr) and f[c].lv.same(nc.lv))
            ex.oblige('rank stored', eq(f[k], w.rank[nc.lv.root]))
            if fn == 'initLocalComm':
                ex.oblige('the first process of the group is its master', eq(f['masterRank_'], 0))
            ex.oblige('valid color', le(0, got[0][1]))
    (c1, k1, g1, l1), (c2, k2, g2, l2) = res
    if g2 is None:
        ex.oblige('the manager is not together with a worker', not_(eq(c1, c2)))
        return
    if fn == 'initLocalComm':
        ex.oblige('together exactly with the processes of the group', eq(tobool(eq(c1, c2)), eq(g1, g2)))
        ex.oblige('in the order of the ranks', implies(eq(g1, g2), eq(tobool(lt(k1, k2)), lt(l1, l2))))
    else:
        ex.oblige('together exactly with the processes of equal rank in the other groups', eq(tobool(eq(c1, c2)), eq(l1, l2)))
        ex.oblige('in the order of the groups', implies(eq(l1, l2), eq(tobool(lt(k1, k2)), lt(g1, g2))))


def g_given(ex, P, with_, manager):
    """communicator given by the application"""
    w = World(ex, P, with_)
    w.r = w.GN if manager else w.newrank()[0]
    lc = w.comm('given')
    lr = ex.fresh('lr', 'int', 0, I31)
    w.setc(lc, lr, w.N)
    o = w.obj(localComm_=w.NULL)
    ex.invoke(P.find(M + '::storeLocalComm'), o, [ex.alloc(w.NULL if manager else lc)])
    f = ex.rd(o).f
    if manager:
        ex.oblige('no group for the manager', isnull(w, f['localComm_']))
        ex.oblige('no rank for the manager', eq(f['localRank_'], PN))
    else:
        ex.oblige('given communicator stored', f['localComm_'].lv.same(lc.lv))
        ex.oblige('rank stored', eq(f['localRank_'], lr))
        ex.oblige('master', eq(f['masterRank_'], 0))


def create(w, want_len, want):
    """contract of MPI_Group_incl + MPI_Comm_create with the list of ranks expected; membership of the process is given by branch"""
    ex = w.ex
    made = []
    wg = Ptr(ex.alloc(Opq('group')), None)
    ex.hooks['MPI_Comm_group'] = lambda ex, this, a: (ex.oblige('group of all processes', ex.val(a[0]).lv.same(w.world.lv)), w.out(a[1], wg))[1]
    ex.hooks['MPI_Group_rank'] = lambda ex, this, a: w.out(a[1], w.r)
    ex.hooks['MPI_Group_size'] = lambda ex, this, a: w.out(a[1], w.W)

    def incl(ex, this, a):
        n, p = ex.val(a[1]), ex.val(a[2])
        k = len(made)
        L = want_len(k)
        ex.oblige('number of members', eq(n, L))
        v = ex.rd(p.lv)
        i = ex.fresh('i', 'int', 0, I31)
        ex.assume(lt(i, L))
        ex.oblige('list is long enough', and_(eq(p.idx, 0), le(L, seqlen(v))))
        if isinstance(v, Vec):
            for j, x in enumerate(v.e):
                ex.oblige('member %d' % j, eq(x, want(k, j)))
        else:
            ex.oblige('members in the documented order', eq(elem(v, i), want(k, i)))
        made.append(v)
        return w.out(a[3], Ptr(ex.alloc(Opq('sub%d' % k)), None))
    ex.hooks['MPI_Group_incl'] = incl
    return made


def g_global(ex, P, with_, who):
    """masters of all groups, followed by the manager"""
    w = World(ex, P, with_)
    if who == 'manager':
        w.r, idx = w.GN, w.G
    else:
        w.r, g, l = w.newrank()
        ex.assume(eq(l, 0) if who == 'master' else lt(0, l))
        idx = g
    gi = create(w, lambda k: add(w.G, 1 if with_ else 0), lambda k, i: ite(lt(i, w.G), mul(i, w.N), w.GN))
    gc = w.comm('global')
    w.setc(gc, idx, add(w.G, 1 if with_ else 0))
    ex.hooks['MPI_Comm_create'] = lambda ex, this, a: w.out(a[2], gc if who != 'worker' else w.NULL)
    o = w.obj()
    ex.invoke(P.find(M + '::initGlobalComm'), o, [ex.alloc(with_)])
    f = ex.rd(o).f
    ex.oblige('one communicator is created', len(gi) == 1)
    if who == 'worker':
        ex.oblige('no global communicator', isnull(w, f['globalComm_']))
        ex.oblige('no rank', eq(f['globalRank_'], PN))
    else:
        ex.oblige('communicator stored', f['globalComm_'].lv.same(gc.lv))
        ex.oblige('rank is the number of the group', eq(f['globalRank_'], idx))
        ex.oblige('rank of the manager', eq(f['managerRank_'], w.G if with_ else PN))


def g_third(ex, P, G, who):
    """one communicator per group with its processes followed by the manager"""
    w = World(ex, P, True, G=G)
    if who == G:
        w.r = w.GN
    else:
        l = ex.fresh('l', 'int', 0, I31)
        ex.assume(lt(l, w.N))
        w.r = add(mul(who, w.N), l)
    made = create(w, lambda k: add(w.N, 1), lambda k, i: ite(lt(i, w.N), add(mul(k, w.N), i), w.GN))
    cs = [w.comm('third%d' % k) for k in range(G)]
    for c in cs:
        w.setc(c, w.N if who == G else l, add(w.N, 1))
    made2 = []

    def crt(ex, this, a):
        k = len(made2)
        made2.append(k)
        return w.out(a[2], cs[k] if who in (k, G) else w.NULL)
    ex.hooks['MPI_Comm_create'] = crt
    o = w.obj(thirdLevelComms_=Vec([w.comm('old')], 'MPI_Comm'))
    ex.invoke(P.find(M + '::initThirdLevelComms'), o, [])
    f = ex.rd(o).f
    ex.oblige('one communicator per group', and_(len(made) == G, len(made2) == G))
    mine = cs if who == G else [cs[who]]
    t = f['thirdLevelComms_']
    ex.oblige('the manager knows all of them in the order of the groups, a worker its own', isinstance(t, Vec) and len(t.e) == len(mine) and all(x.lv.same(y.lv) for x, y in zip(t.e, mine)))
    ex.oblige('the manager is the last rank', eq(f['thirdLevelManagerRank_'], w.N))
    ex.oblige('own rank', eq(f['thirdLevelRank_'], w.N if who == G else l))


def g_diagonal(ex, P, G, N):
    """output group: one process for every rank of a group, from group (rank mod number of groups)"""
    r = ex.val(ex.invoke(P.find('combigrid::getDiagonalRanks'), None, [ex.alloc(N), ex.alloc(G)]))
    ex.oblige('one process per rank in a group', eq(seqlen(r), N))
    for c in range(min(N, len(r.e))):
        ex.oblige('process for rank %d' % c, eq(r.e[c], (c % G) * N + c))


def g_output(ex, P, parts, member):
    w = World(ex, P, True)
    Pn = ex.fresh('parts', 'int', 2, 65535) if parts == 'many' else 1
    w.r, g, l = w.newrank()
    ranks = ex.alloc(SVec(w.N, lambda i: ex.freshfun('diag', 'int')(zt(i)), 'int'))
    ex.hooks['getDiagonalRanks'] = ex.hooks['combigrid::getDiagonalRanks'] = lambda ex, this, a: (ex.oblige('diagonal of this layout', and_(eq(ex.val(a[0]), w.N), eq(ex.val(a[1]), w.G))), ranks)[1]
    wg = Ptr(ex.alloc(Opq('group')), None)
    ex.hooks['MPI_Comm_group'] = lambda ex, this, a: w.out(a[1], wg)
    lst = []

    def incl(ex, this, a):
        p = ex.val(a[2])
        ex.oblige('all processes of the diagonal', and_(eq(ex.val(a[1]), w.N), eq(p.idx, 0), p.lv.same(ranks)))
        lst.append(1)
        return w.out(a[3], Ptr(ex.alloc(Opq('sub')), None))
    ex.hooks['MPI_Group_incl'] = incl
    oc = w.comm('output')
    w.setc(oc, l, w.N)
    ex.hooks['MPI_Comm_create'] = lambda ex, this, a: w.out(a[2], oc if member else w.NULL)
    res = []
    for t in '12':
        if t == '2':
            l2 = ex.fresh('l2', 'int', 0, I31)
            ex.assume(lt(l2, w.N))
            w.setc(oc, l2, w.N)
        o = w.obj()
        got, nc = w.splits('initOutputGroupComm', o, [Pn])
        f = ex.rd(o).f
        if not member:
            ex.oblige('no output communicators', isnull(w, f['outputGroupComm_']) and isnull(w, f['outputComm_']) and not got)
            return
        ex.oblige('output group stored', f['outputGroupComm_'].lv.same(oc.lv))
        ex.oblige('rank in the output group', eq(f['outputGroupRank_'], w.rank[oc.lv.root]))
        if parts == 'one':
            ex.oblige('not partitioned', f['outputComm_'].lv.same(oc.lv) and not got)
            h = ex.hooks
            part = filepart(ex, P, w, o)
            ex.oblige('part zero', eq(part, 0))
            return
        ex.oblige('one split of the output group', len(got) == 1 and got[0][0].lv.same(oc.lv))
        ex.oblige('part stored', f['outputComm_'].lv.same(nc.lv))
        w.setc(nc, ex.fresh('prank', 'int', 0, I31), ex.fresh('psize', 'int', 1, I31))
        part = filepart(ex, P, w, o)
        ex.oblige('valid part number', and_(le(0, part), lt(part, Pn)))
        ex.oblige('valid color', le(0, got[0][1]))
        res.append((got[0][1], got[0][2], part, w.rank[oc.lv.root]))
    (c1, k1, p1, r1), (c2, k2, p2, r2) = res
    ex.oblige('the part number names the part', eq(tobool(eq(c1, c2)), eq(p1, p2)))
    ex.oblige('parts are contiguous', implies(le(r1, r2), le(p1, p2)))
    ex.oblige('members of a part keep their order', implies(eq(c1, c2), eq(tobool(lt(k1, k2)), lt(r1, r2))))


def filepart(ex, P, w, o):
    ex.hooks['theMPISystem'] = ex.hooks['combigrid::theMPISystem'] = lambda ex, this, a: Obj('smartptr', {'ptr': Ptr(o, None)})
    return ex.val(ex.invoke(P.find(M + '::getFilePartNumber'), o, []))


def g_roles(ex, P, with_, who):
    """every process has exactly one role"""
    w = World(ex, P, with_)
    if who == 'manager':
        w.r = w.GN
        lr, mr, tr, g, l = PN, ex.fresh('stale', 'int'), w.N, None, None
        ex.assume(not_(eq(mr, PN)))
    else:
        w.r, g, l = w.newrank()
        lr, mr, tr = l, 0, l
    o = w.obj(localRank_=lr, masterRank_=mr, thirdLevelRank_=tr if with_ else UNDEF, thirdLevelManagerRank_=w.N if with_ else UNDEF)
    q = lambda fn: ex.val(ex.invoke(P.find(M + '::' + fn), o, []))
    ex.oblige('manager', eq(tobool(q('isWorldManager')), who == 'manager'))
    ex.oblige('third level manager', eq(tobool(q('isThirdLevelManager')), who == 'manager'))
    ex.oblige('group number', eq(q('getProcessGroupNumber'), -1 if who == 'manager' else g))
    ex.oblige('master of a group', eq(tobool(q('isProcessGroupMaster')), False if who == 'manager' else eq(l, 0)))
    if who != 'manager':
        m = q('getOutputRankInGlobalReduceComm')
        k = ex.fresh('k', 'int', 0, I31)
        ex.fact(zt(implies(eq(m, sub(l, mul(k, w.G))), True)))
        ex.oblige('output process among the processes of equal rank', eq(m, ex.arith('%', l, w.G, 'long')))


def g_init(ex, P, sig, with_):
    """initialisation performs every step once, the layout and the process's own group first"""
    w = World(ex, P, with_)
    w.r = w.newrank()[0]
    lc = w.comm('given')
    log = []
    o = w.obj(thirdLevelComms_=Vec([w.comm('old')], 'MPI_Comm'))

    def consts(ex, this, a):
        a = [ex.val(x) for x in a]
        log.append('const')
        ex.oblige('layout passed on', and_(eq(a[0], w.G), eq(a[1], w.N), eq(tobool(a[3]), with_)))
        return None

    def step(name):
        def h(ex, this, a):
            log.append(name)
            if name == 'initGlobalComm':
                ex.oblige('manager in the global communicator if there is one', eq(tobool(ex.val(a[0])) if a else True, with_))
            if name == 'storeLocalComm':
                ex.oblige('communicator passed on', ex.val(a[0]).lv.same(lc.lv))
            return None
        return h
    ex.hooks[M + '::initSystemConstants'] = consts
    names = ('initLocalComm', 'initGlobalComm', 'initGlobalReduceCommm', 'initOutputGroupComm', 'initThirdLevelComms', 'storeLocalComm')
    for x in names:
        ex.hooks[M + '::' + x] = step(x)
    ex.hooks['setMaximumActiveLevels'] = ex.hooks['combigrid::OpenMPUtils::setMaximumActiveLevels'] = lambda ex, this, a: True
    ex.hooks['getNumThreads'] = ex.hooks['combigrid::OpenMPUtils::getNumThreads'] = lambda ex, this, a: 1
    args = {'init': [w.G, w.N, with_], 'initlocal': [w.G, w.N, lc, with_], 'initWorldReusable': [w.world, w.G, w.N, with_, False]}[sig]
    f = P.find(M + '::' + ('init' if sig != 'initWorldReusable' else sig), {'init': r'size_t, bool|unsigned long, bool', 'initlocal': r'CommunicatorType, bool|MPI_Comm, bool', 'initWorldReusable': r''}[sig])
    ex.invoke(f, o, [ex.alloc(x) for x in args])
    local = 'storeLocalComm' if sig == 'initlocal' else 'initLocalComm'
    want = ['const', local, 'initGlobalComm', 'initGlobalReduceCommm', 'initOutputGroupComm'] + (['initThirdLevelComms'] if with_ else [])
    ex.oblige('every step once', sorted(log) == sorted(want))
    ex.oblige('layout first', log[:1] == ['const'])
    d = ex.rd(o).f
    ex.oblige('initialised', tobool(d['initialized_']))
    if not with_:
        ex.oblige('no third level communicators', eq(seqlen(d['thirdLevelComms_']), 0))
        ex.oblige('no third level ranks', and_(eq(d['thirdLevelRank_'], UNDEF), eq(d['thirdLevelManagerRank_'], UNDEF)))


def groups(tier):
    gs = []
    for sig in ('init', 'initlocal', 'initWorldReusable'):
        for wi in (True, False):
            gs.append(Group('%s %s manager' % (sig, 'with' if wi else 'without'), g_init, D, dict(sig=sig, with_=wi), [M + '::' + ('init' if sig != 'initWorldReusable' else sig)]))
    for wi in (True, False):
        t = 'with manager' if wi else 'without manager'
        gs.append(Group('layout %s' % t, g_constants, D, dict(with_=wi, manager=None), [M + '::initSystemConstants']))
        for who in ('worker', 'manager')[:2 if wi else 1]:
            for fn in ('initLocalComm', 'initGlobalReduceCommm'):
                gs.append(Group('%s: worker and %s %s' % (fn, who, t), g_split, D, dict(fn=fn, with_=wi, who=who), [M + '::' + fn] + ([M + '::storeLocalComm'] if fn == 'initLocalComm' else [])))
            gs.append(Group('given communicator: %s %s' % (who, t), g_given, D, dict(with_=wi, manager=who == 'manager'), [M + '::storeLocalComm']))
            gs.append(Group('roles: %s %s' % (who, t), g_roles, D, dict(with_=wi, who=who), [M + '::' + x for x in ('isWorldManager', 'isThirdLevelManager', 'getProcessGroupNumber', 'isProcessGroupMaster', 'getOutputRankInGlobalReduceComm')]))
        for who in ('master', 'worker', 'manager')[:3 if wi else 2]:
            gs.append(Group('global communicator: %s %s' % (who, t), g_global, D, dict(with_=wi, who=who), [M + '::initGlobalComm']))
    for G in (1, 2, 3, 5):
        for who in range(G + 1):
            gs.append(Group('third level communicators: %d groups, %s' % (G, 'manager' if who == G else 'worker of group %d' % who), g_third, D, dict(G=G, who=who), [M + '::initThirdLevelComms'], level='bounded', bound='number of groups; any group size'))
    for G in (1, 2, 3, 4, 7, 12):
        for N in (1, 2, 3, 4, 5, 7, 8, 16) if tier == 'quick' else range(1, 20):
            gs.append(Group('diagonal: %d groups of %d' % (G, N), g_diagonal, D, dict(G=G, N=N), ['combigrid::getDiagonalRanks'], level='bounded', bound='numbers of groups and processes'))
    for p, m in (('one', True), ('one', False), ('many', True), ('many', False)):
        gs.append(Group('output group: %s part(s), %s' % (p, 'member' if m else 'no member'), g_output, D, dict(parts=p, member=m), [M + '::initOutputGroupComm', M + '::getFilePartNumber', M + '::getOutputComm']))
    return gs


FT = ['src/mpi_fault_simulator/' + x for x in sorted(os.listdir(os.path.join(F.REPO, 'src/mpi_fault_simulator'))) if x.endswith('.cpp')]


def harnesses(tier):
    return [Harness('h_p08.cpp', sources=['src/mpi/MPISystem.cpp', 'src/mpi/OpenMPUtils.cpp', 'src/utils/Stats.cpp'] + FT, np=0, timeout=300, flags=['-DOMPI_SKIP_MPICXX'],
                    bound='every rank of all layouts of up to 6 groups of 6 processes and random layouts of up to 120 processes, with and without manager, any number of file parts, on a simulated MPI',
                    standin=[M + '::init, initWorldReusable (order of the steps)', M + '::initOutputGroupComm (any number of parts)'])]
