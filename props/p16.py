"""P16: systems connected by the third level manager end up with the same combined data."""
import glob
import os
from .dfgcommon import *
from cver import frontend as F
from cver.runner import Group, Harness
from cver.execu import Throw
from cver.houdini import Cut
from .p15 import same, same2, PGM, PM, SYS

LEVEL = 'proof'
NS = 'combigrid::'
I31 = (1 << 31) - 1
TLM, TLU, CS = NS + 'ThirdLevelManager', NS + 'ThirdLevelUtils', NS + 'ClientSocket::'
ASSUMPTIONS = ['two systems (the third level manager supports no other number), connections do not fail', 'both systems issue the same operations in the same order and have the same sparse grid sizes after unifying them',
               'one grid per task; fewer than 2^31-1 values per worker in the contracts of an exchange (messages of more values: separate contracts, bounded)']
TRUSTED = ['ClientSocket and NetworkUtils::forward by their contracts (P11)', 'std::stoul and operator>> invert std::to_string', 'MPI_Gather, MPI_Gatherv, MPI_Scatterv, MPI_Send, MPI_Recv deliver as specified']
NOTE = 'proved: combination of any number of blocks through the third level manager, exchange of any number of workers (loops cut with inferred invariants), random points, file based exchange, statistics; bounded (contents and lengths symbolic): sequences of at most 3 operations, subspace sizes of up to 3 workers, messages of fewer than 3(2^31-1) values'


# ---------------------------------------------------------------- what is said on a connection
# an item: ('msg', text) or ('num', n) or ('data', n, f, bytes), n elements and one byte for the byte order. A conversation: list of (direction, item), direction '>'
# from the system to the manager. An item sent by one side is available to the other as soon as everything before it in the
# conversation has been said: this orders both sides, and is checked for the side that runs.
def block(d, n, f, es=8):
    return ([(d, ('msg', 'sending_data'))] if d == '>' else []) + [(d, ('num', add(mul(es, n), 1))), (d, ('data', n, f, add(mul(es, n), 1)))]


def talk(op, first, blocks):
    """conversation of the system that reports first (or second); blocks: [(n, own, other)] own: data of this system, other: data of the other one"""
    ready = {'combine': 'ready_to_combine', 'file': 'ready_to_combine_file', 'sizes': 'ready_to_unify_subspace_sizes', 'any': 'ready_to_exchange_data', 'coords': 'ready_to_exchange_data'}[op]
    c = [('>', ('msg', ready)), ('<', ('msg', 'write_ok' if op == 'file' else 'send_first' if first else 'recv_first'))]
    es = 4 if op == 'sizes' else 8
    for n, own, other in blocks:
        if op == 'coords':                    # one direction only
            c += block('>', n, own, es) if first else block('<', n, other, es)
        else:
            c += block('>', n, own, es) + block('<', n, other, es) if first else block('<', n, other, es) + block('>', n, own, es)
    return c + [('>', ('msg', 'ready'))]


def item(ex, it):
    if it[0] == 'msg':
        return Str(it[1])
    if it[0] == 'num':
        return Obj('number', {'v': it[1]})
    return Obj('block', {'n': it[1], 'f': Fun(it[2], 'data'), 'bytes': it[3]})


def agree(ex, what, a, it):
    if it[0] == 'msg':
        ex.oblige(what + ': ' + it[1], isinstance(a, Str) and a.s == it[1])
    elif it[0] == 'num':
        ex.oblige(what + ': length of the data', isinstance(a, Obj) and a.cls == 'number' and eq(a.f['v'], it[1]))
    else:
        ok = isinstance(a, Obj) and a.cls == 'block'
        ex.oblige(what + ': data', ok)
        if ok:
            ex.oblige(what + ': number of values', eq(a.f['n'], it[1]))
            j = ex.fresh('j', 'int', 0)
            ex.oblige(what + ': values', implies(lt(j, it[1]), eq(a.f['f'].f(j), it[2](j))))


class Talk:
    """one end of a connection: a conversation and how far it is"""
    def __init__(self, ex, conv, me, name):
        self.conv, self.me, self.name = conv, me, name
        self.pos = ex.alloc(0, 'gpos')

    def turn(self, ex):
        k = ex.rd(self.pos)
        return self.conv[k] if k < len(self.conv) else None

    def readable(self, ex):
        t = self.turn(ex)
        return t is not None and t[0] != self.me

    def say(self, ex, v):
        t = self.turn(ex)
        ex.oblige('%s: message expected by the other side' % self.name, t is not None and t[0] == self.me)
        if t is None or t[0] != self.me:
            raise Unsupported('conversation')
        agree(ex, self.name, v, t[1])
        ex.wr(self.pos, ex.rd(self.pos) + 1)

    def hear(self, ex, kinds):
        t = self.turn(ex)
        ex.oblige('%s: does not wait for a message that is not sent' % self.name, t is not None and t[0] != self.me)
        if t is None or t[0] == self.me:
            raise Unsupported('conversation')
        ex.oblige('%s: received as what was sent' % self.name, t[1][0] in kinds)
        if t[1][0] not in kinds:
            raise Unsupported('conversation')
        ex.wr(self.pos, ex.rd(self.pos) + 1)
        return item(ex, t[1])

    def done(self, ex):
        ex.oblige('%s: conversation is complete' % self.name, ex.rd(self.pos) == len(self.conv))


def strings(ex):
    ex.strings = True
    H = ex.hooks

    def num(ex, v):
        if isinstance(v, Obj) and v.cls == 'number':
            return v.f['v']
        ex.oblige('a number is read from a number', False)
        raise Unsupported('number')
    H['to_string'] = lambda ex, this, a: Obj('number', {'v': ex.rd(a[0])})
    for f in ('stoul', 'stoull'):
        H[f] = lambda ex, this, a: num(ex, ex.rd(a[0]))
    for t in ('std::stringstream', 'std::basic_stringstream<char>', 'std::__cxx11::basic_stringstream<char>', 'std::istringstream', 'std::basic_istringstream<char>'):
        H['ctor:' + t] = lambda ex, this, a: Obj('stream', {'text': ex.rd(a[0])})

    def rd(ex, this, a):
        v = ex.rd(a[0])
        if not (isinstance(v, Obj) and v.cls == 'stream'):
            raise Unsupported('>>')
        ex.wr(a[1], num(ex, v.f['text']))
        return a[0]
    H['operator>>'] = rd


# ---------------------------------------------------------------- the third level manager
def broker(ex, P, convs):
    strings(ex)
    T = [Talk(ex, c, '<', 'system %d' % k) for k, c in enumerate(convs)]
    S = [ex.alloc(Opq('socket%d' % k), 'sock') for k in range(2)]
    sysv = ex.alloc(Vec([Obj(NS + 'System', {'connection_': Obj('smartptr', {'ptr': Ptr(S[k], None)}), 'id_': k + 1}) for k in range(2)], NS + 'System'), 'systems')
    who = lambda ex, lv: T[int(ex.rd(lv).tag[6:])]
    H = ex.hooks
    H[CS + 'sendallPrefixed'] = lambda ex, this, a: who(ex, this).say(ex, ex.rd(a[0])) or True

    def hear(ex, this, a):
        ex.wr(a[0], who(ex, this).hear(ex, ('msg', 'num')))
        return True
    H[CS + 'recvallPrefixed'] = hear
    chunk = ex.fresh('chunk', 'int', 1, 1 << 40)

    def forward(ex, this, a):
        s, r = who(ex, a[0]), who(ex, a[1])
        ex.oblige('chunks are not empty', le(1, ex.rd(a[2])))
        b = s.hear(ex, ('data',))
        ex.oblige('as many bytes are forwarded as announced', eq(ex.rd(a[3]), b.f['bytes']))
        r.say(ex, b)
        return True
    H[NS + 'NetworkUtils::forward'] = forward

    def readable(ex, this, a):
        t = who(ex, this)
        ex.oblige('some system has something to say', any(x.readable(ex) for x in T))
        if not any(x.readable(ex) for x in T):
            raise Unsupported('stuck')
        return t.readable(ex)
    H[CS + 'isReadable'] = readable
    H['startWallclock'] = H['stopWallclock'] = lambda ex, this, a: None
    H['method:startWallclock'] = H['method:stopWallclock'] = lambda ex, this, a: None
    cnt = [ex.alloc(0, 'gcount') for k in range(3)]
    inc = lambda k: lambda ex, this, a: ex.wr(cnt[k], add(ex.rd(cnt[k]), ex.rd(a[0]) if a else 1))
    for k, f in enumerate(('increaseNumCombinations', 'addToBytesTransferredInCombination', 'addToBytesTransferredInSizeExchange')):
        H['method:' + f] = inc(k)
    H['method:getChunksize'] = H['getChunksize'] = lambda ex, this, a: chunk
    m = ex.alloc(Obj(TLM, {'params_': Opq('params'), 'systems_': ex.rd(sysv), 'port_': 9999, 'timeout_': 1, 'server_': Opq('server'), 'stats_': Opq('stats')}), 'tlm')
    return m, T, cnt


def data(ex, K, tag):
    """K blocks: sizes, and the data of two systems"""
    r = []
    for k in range(K):
        n = ex.fresh('n%s%d' % (tag, k), 'int', 0, 1 << 50)
        a, b = [ex.freshfun('%s%s%d' % (x, tag, k), 'real') for x in 'ab']
        r.append((n, (lambda a: lambda j: a(zt(j)))(a), (lambda b: lambda j: b(zt(j)))(b)))
    return r


def g_broker(ex, P, ops, first):
    """a run of the third level manager: operations one after the other, then both systems log off. The first system to report in
    an operation is `first`; data of the second system, as it comes back, is an arbitrary function (its sum, see g_exchange)"""
    conv = [[], []]
    want = 0
    total = [0, 0]
    for i, (op, K) in enumerate(ops):
        B = data(ex, K, 'x%d' % i)
        f = first[i]
        conv[f] += talk(op, True, B)
        conv[1 - f] += talk(op, False, [(n, b, a) for n, a, b in B])
        if op in ('combine', 'file'):
            want += 1
        for n, a, b in B:
            if op in ('combine', 'sizes'):
                total[op == 'sizes'] = add(total[op == 'sizes'], mul(2, add(mul(4 if op == 'sizes' else 8, n), 1)))
    for c in conv:
        c.append(('>', ('msg', 'finished_computation')))
    m, T, cnt = broker(ex, P, conv)
    # the system that reports first is heard first: the other one is readable only afterwards
    base = ex.hooks[CS + 'isReadable']
    starts = [k for k, (d, it) in enumerate(conv[0]) if it[0] == 'msg' and it[1].startswith('ready_to')]
    starts1 = [k for k, (d, it) in enumerate(conv[1]) if it[0] == 'msg' and it[1].startswith('ready_to')]

    def readable(ex, this, a):
        k = int(ex.rd(this).tag[6:])
        r = base(ex, this, a)
        p = ex.rd(T[k].pos)
        if p >= len(conv[k]):
            ex.oblige('a system that has logged off is not asked again', False)
            raise Unsupported('closed connection')
        st = (starts, starts1)[k]
        if r and p in st and first[st.index(p)] != k:
            o = (starts, starts1)[1 - k]
            if ex.rd(T[1 - k].pos) <= o[st.index(p)]:
                return False                  # has not reported yet
        return r
    ex.hooks[CS + 'isReadable'] = readable
    ex.invoke(P.find(TLM + '::runtimeLoop'), m, [])
    for t in T:
        t.done(ex)
    o = ex.rd(m)
    ex.oblige('all systems have logged off', ex.rd(m.f('systems_')).n == 0)
    for k, (what, v) in enumerate((('combinations are counted', want), ('bytes of the combinations are counted', total[0]), ('bytes of the size exchange are counted', total[1]))):
        ex.oblige(what, eq(ex.rd(cnt[k]), v))


class Blocks(Talk):
    """a conversation with any number N of blocks: what is said before, the items of block p, what is said afterwards.
    pos: 0..len(before)-1 before, then the items of the current block (the first one may also be the first of after), then after"""
    def __init__(self, ex, before, blk, after, me, name, N, count, step=None):
        self.before, self.blk, self.after, self.me, self.name, self.N, self.count, self.step = before, blk, after, me, name, N, count, step
        self.L = len(blk(0))
        self.pos = ex.alloc(0, 'gpos')

    def next(self, ex, direction, kinds=None, v=None):
        """the item at the current position, if said in this direction"""
        k, B = ex.rd(self.pos), len(self.before)
        if not isinstance(k, int):
            raise Unsupported('position in the conversation')
        if k < B:
            return self.before[k]
        if k < B + self.L:
            p = ex.rd(self.count)
            x, y = self.blk(p)[k - B], self.after[0]
            if k > B:
                return x
            if x[0] == y[0]:                 # said by the same side: sent by the other side, or known from what is said
                if direction != self.me:
                    more = ex.branch(lt(p, self.N))
                else:
                    more = not (isinstance(v, Str) and v.s == y[1][1])
            else:
                more = x[0] == direction
            if more:
                ex.oblige('%s: not more blocks than there are' % self.name, lt(p, self.N))
                return x
            ex.oblige('%s: all blocks before the end' % self.name, eq(p, self.N))
            ex.wr(self.pos, B + self.L)
            return y
        k -= B + self.L
        return self.after[k] if k < len(self.after) else None

    def advance(self, ex):
        k = ex.rd(self.pos) + 1
        if k == len(self.before) + self.L and ex.rd(self.pos) < len(self.before) + self.L:
            p = ex.rd(self.count)
            if self.step:
                self.step(ex, p)
            ex.wr(self.count, add(p, 1))
            k = len(self.before)
        ex.wr(self.pos, k)

    def say(self, ex, v):
        t = self.next(ex, self.me, v=v)
        ok = t is not None and t[0] == self.me
        ex.oblige('%s: message expected by the other side' % self.name, ok)
        if not ok:
            raise Unsupported('conversation')
        agree(ex, self.name, v, t[1])
        self.advance(ex)

    def hear(self, ex, kinds):
        t = self.next(ex, '<' if self.me == '>' else '>')
        ok = t is not None and t[0] != self.me
        ex.oblige('%s: does not wait for a message that is not sent' % self.name, ok)
        if not ok:
            raise Unsupported('conversation')
        ex.oblige('%s: received as what was sent' % self.name, t[1][0] in kinds)
        if t[1][0] not in kinds:
            raise Unsupported('conversation')
        self.advance(ex)
        return item(ex, t[1])

    def done(self, ex):
        ex.oblige('%s: conversation is complete' % self.name, ex.rd(self.pos) == len(self.before) + self.L + len(self.after))


def anyblocks(ex, sums=()):
    """N blocks: lengths and the data of both systems; loops are cut with invariants over the number p of blocks done"""
    N = ex.fresh('N', 'int', 0, I31)
    zn = z3.Function('blocklen', z3.IntSort(), z3.IntSort())
    n = lambda p: zn(zt(p))
    d = [z3.Function(x, z3.IntSort(), z3.IntSort(), z3.RealSort()) for x in ('own', 'other')]
    D = [(lambda f: lambda p: lambda j: f(zt(p), zt(j)))(f) for f in d]
    return N, n, D


def g_broker_any(ex, P, init):
    """a combination of any number of blocks through the third level manager"""
    N, n, D = anyblocks(ex)
    total = z3.Function('bytesofblocks', z3.IntSort(), z3.IntSort())
    ex.assume(total(0) == 0)
    p, q = ex.alloc(0, 'gblocks'), ex.alloc(0, 'gblocks')
    m, T, cnt = broker(ex, P, [[], []])

    def step(ex, k):
        ex.assume(eq(total(zt(add(k, 1))), add(total(zt(k)), mul(2, add(mul(8, n(k)), 1)))))     # definition
        ex.assume(and_(le(1, n(k)), le(n(k), 1 << 50), le(0, total(zt(k))), le(total(zt(k)), 1 << 60)))
    a = lambda k: block('>', n(k), D[0](k)) + block('<', n(k), D[1](k))
    b = lambda k: block('<', n(k), D[0](k)) + block('>', n(k), D[1](k))
    # the first message of the initiator has been received
    say = lambda t: [('<', ('msg', t))]
    T[init] = Blocks(ex, say('send_first'), a, [('>', ('msg', 'ready'))], '<', 'system %d' % init, N, p, step)
    T[1 - init] = Blocks(ex, [('>', ('msg', 'ready_to_combine'))] + say('recv_first'), b, [('>', ('msg', 'ready'))], '<', 'system %d' % (1 - init), N, q)

    def scal(v0, p0):
        if isinstance(v0, bool) or (isterm(v0) and z3.is_bool(v0)):
            return [('fun', lambda p: v0)]
        return [('fun', lambda p: v0), ('fun', lambda p: p), ('fun', lambda p: total(zt(p))), ('fun', lambda p: add(v0, p)), ('pred', lambda x, p: le(0, x)), ('pred', lambda x, p: le(x, 1 << 62))]
    ex.cut = lambda ex, nd: Cut(p.root, ex.rd(p), [lambda x, k: le(0, x), lambda x, k: le(x, N)], scal, lambda root, v0: []) if ex.loopdepth == 0 else None
    ex.invoke(P.find(TLM + '::processCombination'), m, [ex.alloc(init, 'index')])
    for t in T:
        t.done(ex)
    ex.oblige('all blocks are exchanged', and_(eq(ex.rd(p), N), eq(ex.rd(q), N)))
    ex.oblige('combinations are counted', eq(ex.rd(cnt[0]), 1))
    ex.oblige('bytes of the combinations are counted', eq(ex.rd(cnt[1]), total(zt(N))))


def g_statistics(ex, P):
    """statistics after any run, also one without combination"""
    strings(ex)
    ex.hooks['to_string'] = lambda ex, this, a: Str('0')
    H = ex.hooks
    v = {}
    for f in ('getWallTime', 'getNumCombinations', 'getTotalBytesTransferredInCombination', 'getTotalBytesTransferredInSizeExchange'):
        H['method:' + f] = (lambda x: lambda ex, this, a: x)(ex.fresh(f, 'int', 0, (1 << 64) - 1))
    m = ex.alloc(Obj(TLM, {'params_': Opq('params'), 'systems_': Vec((), NS + 'System'), 'port_': 9999, 'timeout_': 1, 'server_': Opq('server'), 'stats_': Opq('stats')}), 'tlm')
    ex.invoke(P.find(TLM + '::writeStatistics'), m, [ex.alloc(Str(''), 'filename')])
    ex.oblige('statistics are written', True)


# ---------------------------------------------------------------- the manager of a system
class Side:
    """manager of a system with 2 process groups (the second one exchanges data), W workers in a group"""
    def __init__(self, ex, P, conv, W, counts=None):
        strings(ex)
        self.P, self.W = P, W
        self.t = Talk(ex, conv, '>', 'connection')
        H = ex.hooks
        sock = ex.alloc(Opq('socket'), 'sock')
        self.third = ex.alloc(Obj(PGM, {'pgroupRootID_': 1, 'tasks_': Vec((), 'combigrid::Task<double> *'), 'status_': 0, 'statusRequest_': Opq('request'), 'statusRequestFT_': Opq('request'),
                                        'formerDsguDataSizePerWorker_': Vec((), 'unsigned long'), 'dsguDataSizePerWorker_': Vec((), 'unsigned long')}), 'third')
        self.other = ex.alloc(Opq('pg0'), 'pg')
        pgs = ex.alloc(Vec([Obj('smartptr', {'ptr': Ptr(x, None)}) for x in (self.other, self.third)], None), 'pgroups')
        tlu = Obj(TLU, {'host_': Str('host'), 'port_': 9999, 'connection_': Obj('smartptr', {'ptr': Ptr(sock, None)}), 'isConnected_': True})
        self.m = ex.alloc(Obj(PM, {'pgroups_': pgs, 'tasks_': ex.alloc(Vec((), None), 'tasks'), 'params_': Opq('parameters'), 'loadModel_': Opq('loadModel'), 'rescheduler_': Opq('rescheduler'),
                                   'levelVectorToLastTaskDuration_': Opq('durations'), 'thirdLevel_': tlu, 'thirdLevelPGroup_': pgs.i(1)}), 'manager')
        t = self.t
        H[CS + 'sendallPrefixed'] = lambda ex, this, a: t.say(ex, ex.rd(a[0])) or True

        def hear(ex, this, a):
            ex.wr(a[0], t.hear(ex, ('msg', 'num')))
            return True
        H[CS + 'recvallPrefixed'] = hear

        def get(ex, p, n):
            s, o = ex.rd(p.lv), p.idx if p.idx is not None else 0
            ex.oblige('inside the buffer', or_(le(n, 0), and_(le(0, o), le(add(o, n), s.n))), 'bounds')
            return lambda j: elem(s, add(o, j))

        def put(ex, p, n, f):
            s, o = ex.rd(p.lv), p.idx if p.idx is not None else 0
            ex.oblige('inside the buffer', or_(le(n, 0), and_(le(0, o), le(add(o, n), s.n))), 'bounds')
            if isinstance(s, Vec):
                ex.wr(p.lv, Vec([ite(and_(le(o, j), lt(j, add(o, n))), f(sub(j, o)), x) for j, x in enumerate(s.e)], s.ty))
            else:
                ex.wr(p.lv, SVec(s.n, lambda j: ite(and_(le(o, j), lt(j, add(o, n))), f(sub(j, o)), elem(s, j)), s.ty))
        self.get, self.put = get, put

        def sendbin(ex, this, a):
            n = ex.rd(a[1])
            t.say(ex, Obj('block', {'n': n, 'f': Fun(get(ex, ex.rd(a[0]), n), 'data')}))
            return True
        H[CS + 'sendallBinary'] = sendbin

        def recvbin(reduce):
            def h(ex, this, a):
                b, n, p = t.hear(ex, ('data',)), ex.rd(a[1]), ex.rd(a[0])
                ex.oblige('as many values are received as were sent', eq(n, b.f['n']))
                f = b.f['f'].f
                if reduce:
                    own, op = get(ex, p, n), a[2]
                    x, y = ex.fresh('hx', 'real'), ex.fresh('hy', 'real')
                    r = ex.val(ex.apply(ex.rd(op), [x, y]))
                    ex.oblige('values of both systems are added', eq(r, add(x, y)))
                    put(ex, p, n, lambda j: add(own(j), f(j)))
                else:
                    put(ex, p, n, f)
                return True
            return h
        H[CS + 'recvallBinaryAndCorrectInPlace'] = recvbin(False)
        H[CS + 'recvallBinaryAndReduceInPlace'] = recvbin(True)
        self.log = ex.alloc(Vec((), None), 'glog')
        rec = lambda f: lambda ex, this, a: self.add(ex, f, ex.rd(this), [ex.rd(x) for x in a])
        for f in ('combineSystemWide', 'waitForThirdLevelCombiResult', 'waitForThirdLevelSizeUpdate', 'sendSignalAndReceive', 'interpolateValues'):
            H[PGM + '::' + f] = rec(f)
        for f in ('waitStatus', 'getStatus'):
            H[PGM + '::' + f] = lambda ex, this, a: 0
        H['startEvent'] = H['stopEvent'] = H['setAttribute'] = lambda ex, this, a: None
        sysobj = ex.alloc(Opq('MPISystem'), 'sys')
        H['theMPISystem'] = lambda ex, this, a: Ptr(sysobj, None)
        self.comms = ex.alloc(Vec([Opq('third0'), Opq('third1')], None), 'comms')
        H[SYS + 'getThirdLevelComms'] = lambda ex, this, a: self.comms
        H[SYS + 'getNumProcs'] = lambda ex, this, a: W
        H[SYS + 'getNumGroups'] = lambda ex, this, a: 2
        H[SYS + 'getThirdLevelManagerRank'] = lambda ex, this, a: W
        CP = NS + 'CombiParameters::'
        H[CP + 'getThirdLevelPG'] = H['method:getThirdLevelPG'] = lambda ex, this, a: 1
        H[CP + 'getNumGrids'] = H['method:getNumGrids'] = lambda ex, this, a: 1
        H['getMPIDatatype'] = H['getabstractionDataType'] = lambda ex, this, a: Opq('element')
        for ty in ('char', 'int', 'double', 'float', 'long', 'unsigned_long', 'unsigned', 'byte'):
            H['var:ompi_mpi_' + ty] = (lambda l: lambda ex: l)(ex.alloc(Opq(ty), 'type'))

    def add(self, ex, f, this, a):
        ex.wr(self.log, Vec(tuple(ex.rd(self.log).e) + (Obj('call', {'f': f, 'this': this.tag if isinstance(this, Opq) else 'third', 'a': Vec(a, None)}),), None))
        return True

    def run(self, ex, f, args):
        return ex.val(ex.invoke(self.P.find(PM + '::' + f, nparams=len(args)), self.m, args))

    def signals(self, ex, sig):
        c = [x for x in ex.rd(self.log).e if x.f['f'] == 'sendSignalAndReceive']
        ex.oblige('the group that exchanges data is told so, once', len(c) == 1 and c[0].f['this'] == 'third')


def ctag(ex, lv):
    v = ex.rd(lv)
    return v.tag if isinstance(v, Opq) else None


def g_exchange(ex, P, first, W):
    """combination with the other system: every worker gets the sum of its data and the data of the same worker of the other system, and so does the other system"""
    n = [ex.fresh('n%d' % p, 'int', 1, I31 - 1) for p in range(W)]
    own = [ex.freshfun('own%d' % p, 'real') for p in range(W)]
    oth = [ex.freshfun('other%d' % p, 'real') for p in range(W)]
    O = lambda p: lambda j: own[p](zt(j))
    R = lambda p: lambda j: oth[p](zt(j))
    S = lambda p: lambda j: add(own[p](zt(j)), oth[p](zt(j)))
    if first:       # sends its own data, gets the sum
        conv = talk('combine', True, [(n[p], O(p), S(p)) for p in range(W)])
    else:           # gets the data of the other system, sends the sum
        conv = talk('combine', False, [(n[p], S(p), R(p)) for p in range(W)])
    s = Side(ex, P, conv, W)
    workers(ex, s, n, own, S)
    s.run(ex, 'combineThirdLevel', [])
    s.t.done(ex)
    alldone(ex, s)


def workers(ex, s, n, own, result):
    """workers of the group: worker p sends n[p] values own[p], and expects result(p)"""
    H, W = ex.hooks, s.W
    ex.wr(s.third.f('dsguDataSizePerWorker_'), Vec(n, 'unsigned long'))
    s.got, s.sent = got, sent = ex.alloc(Vec([0] * W, None), 'ggot'), ex.alloc(Vec([0] * W, None), 'gsent')

    def worker(ex, a, state):
        p = ex.rd(a[3])
        ex.oblige('partner is a worker of the group', isinstance(p, int) and 0 <= p < W)
        ex.oblige('message on the communicator of the group', ctag(ex, a[5]) == 'third1')
        if not (isinstance(p, int) and 0 <= p < W):
            raise Unsupported('rank')
        ex.oblige('one message with the data of the worker', and_((le if state is got else eq)(n[p], ex.rd(a[1])), eq(ex.rd(state).e[p], 0)))
        ex.wr(state, Vec([1 if k == p else x for k, x in enumerate(ex.rd(state).e)], None))
        return p

    def recv(ex, this, a):
        p = worker(ex, a, got)
        s.put(ex, ex.rd(a[0]), n[p], lambda j: own[p](zt(j)))
        return 0

    def send(ex, this, a):
        p = worker(ex, a, sent)
        ex.oblige('a worker gets data after it has sent its own', eq(ex.rd(got).e[p], 1))
        f, j = s.get(ex, ex.rd(a[0]), n[p]), ex.fresh('j', 'int', 0)
        ex.oblige('the worker gets the combined values', implies(lt(j, n[p]), eq(f(j), result(p)(j))))
        return 0
    H['MPI_Recv'], H['MPI_Send'] = recv, send


def alldone(ex, s):
    ex.oblige('all workers have sent and got their data', and_(*[eq(x, 1) for x in tuple(ex.rd(s.got).e) + tuple(ex.rd(s.sent).e)]))
    s.signals(ex, None)


def undecided_loop(ex, n):
    """the condition of this loop is neither true nor false for all values"""
    kids = n.get('inner', [])
    c = kids[2] if n.get('kind') == 'ForStmt' and len(kids) > 3 else kids[-2] if n.get('kind') == 'WhileStmt' and len(kids) > 1 else None
    if not c or not c.get('kind'):
        return False
    st = ex.st
    ex.st = st.copy()
    try:
        v = tobool(simp(tobool(ex.ev(c))))
        return not isinstance(v, bool) and ex.feasible(v)
    finally:
        ex.st = st


def cutblocks(ex, p, N, more=()):
    def scal(v0, p0):
        if isinstance(v0, bool) or (isterm(v0) and z3.is_bool(v0)):
            return [('fun', lambda p: v0)]
        return [('fun', lambda p: v0), ('fun', lambda p: p)] + [('fun', f) for f in more] + [('pred', lambda x, p: le(0, x)), ('pred', lambda x, p: le(x, 1 << 62))]
    ex.cut = lambda ex, nd: Cut(p.root, ex.rd(p), [lambda x, k: le(0, x), lambda x, k: le(x, N)], scal, lambda root, v0: []) if undecided_loop(ex, nd) else None


def g_exchange_any(ex, P, first, what='combine'):
    """combination with the other system for any number of workers"""
    W, n, D = anyblocks(ex)
    ex.assume(le(1, W))
    own, oth = D
    S = lambda p: lambda j: add(own(p)(j), oth(p)(j))
    p = ex.alloc(0, 'gblocks')
    zn = n
    n = lambda k: ite(and_(le(1, zn(k)), le(zn(k), I31 - 1)), zn(k), 1)         # any number of values in this range
    s = Side(ex, P, [], W)
    if what == 'combine':
        blk = (lambda k: block('>', n(k), own(k)) + block('<', n(k), S(k))) if first else (lambda k: block('<', n(k), oth(k)) + block('>', n(k), S(k)))
        before = [('>', ('msg', 'ready_to_combine')), ('<', ('msg', 'send_first' if first else 'recv_first'))]
        t = Blocks(ex, before, blk, [('>', ('msg', 'ready'))], '>', 'connection', W, p)
        s.t.__class__, s.t.__dict__ = Blocks, t.__dict__
    ex.wr(s.third.f('dsguDataSizePerWorker_'), SVec(W, n, 'unsigned long'))
    got, sent = ex.alloc(0, 'ggot'), ex.alloc(0, 'gsent')
    H = ex.hooks

    def worker(ex, a, state):
        r = ex.rd(a[3])
        ex.oblige('one worker after the other', and_(eq(r, ex.rd(state)), le(0, r), lt(r, W)))
        ex.oblige('message on the communicator of the group', ctag(ex, a[5]) == 'third1')
        ex.oblige('one message with the data of the worker', (le if state is got else eq)(n(r), ex.rd(a[1])))
        ex.wr(state, add(ex.rd(state), 1))
        return r

    def recv(ex, this, a):
        r = worker(ex, a, got)
        s.put(ex, ex.rd(a[0]), n(r), own(r))
        return 0

    def send(ex, this, a):
        r = worker(ex, a, sent)
        ex.oblige('a worker gets data after it has sent its own', lt(r, ex.rd(got)))
        f, j = s.get(ex, ex.rd(a[0]), n(r)), ex.fresh('j', 'int', 0)
        ex.oblige('the worker gets the combined values', implies(lt(j, n(r)), eq(f(j), (S if what == 'combine' else own)(r)(j))))
        if what != 'combine':
            ex.wr(p, add(ex.rd(p), 1))
        return 0
    H['MPI_Recv'], H['MPI_Send'] = recv, send
    cutblocks(ex, p, W)
    s.run(ex, 'combineThirdLevel' if what == 'combine' else 'pretendCombineThirdLevelForWorkers', [])
    if what == 'combine':
        s.t.done(ex)
    ex.oblige('all workers have sent and got their data', and_(eq(ex.rd(got), W), eq(ex.rd(sent), W)))
    s.signals(ex, None)


def g_sizes(ex, P, how, counts):
    """unifying the sizes of the subspaces: maximum (minimum with an extra sparse grid) of both systems, to every worker; sums exact"""
    W, N = len(counts), sum(counts)
    op, first, extra = (how.split() + [None, None])[:3]
    a, b = [[ex.fresh('%s%d' % (x, i), 'int', 0, (1 << 32) - 1) for i in range(N)] for x in 'ab']
    for i in range(N):
        ex.assume(or_(eq(a[i], b[i]), eq(a[i], 0), eq(b[i], 0)))
    A, B = Vec(a, 'unsigned int'), Vec(b, 'unsigned int')
    own, oth = [(lambda v: lambda j: elem(v, j))(v) for v in (A, B)]
    conv = talk('sizes', first == 'first', [(N, own, oth)]) if op == 'unify' else []
    s = Side(ex, P, conv, W)
    H = ex.hooks
    if op != 'unify':
        want = a
    elif extra:
        want = [ite(lt(x, y), x, y) for x, y in zip(a, b)]
    else:
        want = [ite(lt(x, y), y, x) for x, y in zip(a, b)]
    off = [sum(counts[:w]) for w in range(W)]
    step = ex.alloc(0, 'gstep')

    def at(k, root, comm):
        ex.oblige('collective operations in the order of the workers', ex.rd(step) == k)
        ex.wr(step, ex.rd(step) + 1)
        ex.oblige('root is the manager', eq(ex.rd(root), W))
        ex.oblige('on the communicator of the group', ctag(ex, comm) == 'third1')

    def gather(ex, this, x):
        at(0, x[6], x[7])
        ex.oblige('one number per process', and_(eq(ex.rd(x[1]), 1), eq(ex.rd(x[4]), 1)))
        mine = s.get(ex, ex.rd(x[0]), 1)(0) if not isscalar(ex.rd(ex.rd(x[0]).lv)) else ex.rd(ex.rd(x[0]).lv)
        s.put(ex, ex.rd(x[3]), W + 1, lambda j: elem(Vec(list(counts) + [mine], 'int'), j))
        return 0

    def layout(ex, cnt, dis):
        c, d = s.get(ex, ex.rd(cnt), W + 1), s.get(ex, ex.rd(dis), W + 1)
        ex.oblige('as many sizes as the worker has', and_(*[eq(c(w), counts[w]) for w in range(W)], eq(c(W), 0)))
        return d

    def gatherv(ex, this, x):
        at(1, x[7], x[8])
        ex.oblige('the manager has no subspaces of its own', eq(ex.rd(x[1]), 0))
        d = layout(ex, x[4], x[5])
        p = ex.rd(x[3])
        for w in range(W):
            s.put(ex, Ptr(p.lv, add(p.idx if p.idx is not None else 0, d(w))), counts[w], (lambda w: lambda j: elem(A, add(off[w], j)))(w))
        return 0

    def scatterv(ex, this, x):
        at(2, x[7], x[8])
        d = layout(ex, x[1], x[2])
        p = ex.rd(x[0])
        for w in range(W):
            f = s.get(ex, Ptr(p.lv, add(p.idx if p.idx is not None else 0, d(w))), counts[w])
            for j in range(counts[w]):
                ex.oblige('worker gets the unified size of every subspace', eq(f(j), want[off[w] + j]))
        return 0
    H['MPI_Gather'], H['MPI_Gatherv'], H['MPI_Scatterv'] = gather, gatherv, scatterv
    try:
        v = s.run(ex, 'unifySubspaceSizesThirdLevel', [ex.alloc(bool(extra), 'extra')]) if op == 'unify' else s.run(ex, 'pretendUnifySubspaceSizesThirdLevel', [])
    except Throw:
        ex.oblige('sizes that fit raise no error', False)
        return
    s.t.done(ex)
    ex.oblige('workers get the sizes', ex.rd(step) == 3)
    s.signals(ex, None)
    tot = lambda q, w: sum_(q[off[w]:off[w] + counts[w]])
    for fld, q in (('dsguDataSizePerWorker_', want), ('formerDsguDataSizePerWorker_', a)):
        z = ex.rd(s.third.f(fld))
        ex.oblige(fld + ': one per worker', z.n == W)
        for w in range(W):
            ex.oblige(fld + ': number of values of the worker', eq(elem(z, w), tot(q, w)))
    ex.oblige('number of values of the sparse grid', eq(v, sum_(want)))
    c = [x for x in ex.rd(s.log).e if x.f['f'] == 'waitForThirdLevelSizeUpdate']
    ex.oblige('the other groups wait for the new sizes', len(c) == (0 if extra else 1) and all(x.f['this'] == 'pg0' for x in c))


def sum_(q):
    r = 0
    for x in q:
        r = add(r, x)
    return r


def g_values(ex, P, first1, first2):
    """Monte Carlo points: both systems evaluate at the points of the system that reports first, and both get the sum"""
    d = 2
    n = ex.fresh('n', 'int', 1, I31 // 2)
    xs = ex.freshfun('x', 'real')
    ys = ex.freshfun('y', 'real')
    own, oth = ex.freshfun('own', 'real'), ex.freshfun('oth', 'real')
    cx = lambda f: (lambda j: f(zt(j)))
    conv = talk('coords', first1, [(mul(n, d), cx(xs), cx(ys))]) + talk('any', first2, [(n, cx(own), cx(oth))])
    s = Side(ex, P, conv, 1)
    H = ex.hooks
    H['method:getDim'] = H[NS + 'CombiParameters::getDim'] = lambda ex, this, a: d
    pts = lambda f: SVec(n, lambda i: SVec(d, lambda k: f(zt(add(mul(i, d), k))), 'double'), 'std::vector<double>')
    H[NS + 'montecarlo::getRandomCoordinates'] = lambda ex, this, a: pts(xs)
    H[NS + 'serializeInterpolationCoords'] = lambda ex, this, a: SVec(mul(n, d), lambda j: xs(zt(j)), 'double')          # contracts: P15
    def deser(ex, this, a):
        v, j = ex.rd(a[0]), ex.fresh('j', 'int', 0)
        ex.oblige('points of the other system are used', and_(eq(v.n, mul(n, d)), implies(lt(j, mul(n, d)), eq(elem(v, j), ys(zt(j))))))
        return pts(ys)
    H[NS + 'deserializeInterpolationCoords'] = deser
    use = xs if first1 else ys

    def interp(ex, this, a):
        v = ex.rd(a[0])
        i, k = ex.fresh('i', 'int', 0), ex.fresh('k', 'int', 0, d - 1)
        ex.oblige('evaluated at the points both systems use', implies(lt(i, n), eq(elem(elem(v, i), k), use(zt(add(mul(i, d), k))))))
        return SVec(n, lambda j: own(zt(j)), 'double')
    H[PM + '::interpolateValues'] = interp
    co, va = ex.alloc(Vec((), 'std::vector<double>'), 'coordinates'), ex.alloc(Vec((), 'double'), 'values')
    s.run(ex, 'monteCarloThirdLevel', [ex.alloc(n, 'n'), co, va])
    s.t.done(ex)
    v, c = ex.rd(va), ex.rd(co)
    j, k = ex.fresh('j', 'int', 0), ex.fresh('k', 'int', 0, d - 1)
    ex.oblige('one value per point', and_(eq(v.n, n), eq(c.n, n)))
    ex.oblige('values are the sums over both systems', implies(lt(j, n), eq(elem(v, j), add(own(zt(j)), oth(zt(j))))))
    ex.oblige('points returned are the ones used', implies(lt(j, n), eq(elem(elem(c, j), k), use(zt(add(mul(j, d), k))))))


def g_file(ex, P):
    conv = talk('file', True, [])
    s = Side(ex, P, conv, 1)
    ex.hooks[PGM + '::combineThirdLevelFileBased'] = lambda ex, this, a: s.add(ex, 'files', ex.rd(this), [ex.rd(x) for x in a])
    f = [Opq('string%d' % k) for k in range(4)]
    s.run(ex, 'combineThirdLevelFileBased', [ex.alloc(x, 'f') for x in f])
    s.t.done(ex)
    c = [x for x in ex.rd(s.log).e if x.f['f'] == 'files']
    ex.oblige('files are exchanged once, by the group that does so', len(c) == 1 and c[0].f['this'] == 'third' and all(same2(ex, u, v) is True for u, v in zip(c[0].f['a'].e, f)))


def g_pretend(ex, P, first, K):
    """exchange without workers: numbers of values as requested, what comes back is compared with what was sent"""
    n = [ex.fresh('n%d' % k, 'int', 1, I31 - 1) for k in range(K)]
    own = [ex.freshfun('own%d' % k, 'real') for k in range(K)]
    oth = [ex.freshfun('oth%d' % k, 'real') for k in range(K)]
    O = lambda k: lambda j: own[k](zt(j))
    R = lambda k: lambda j: oth[k](zt(j))
    if first:
        conv = talk('combine', True, [(n[k], O(k), O(k)) for k in range(K)])       # the other system adds zeros
    else:
        conv = talk('combine', False, [(n[k], R(k), R(k)) for k in range(K)])
    s = Side(ex, P, conv, 1)
    cnt = ex.alloc(0, 'gcnt')

    def rnd(ex, this, a):
        k = ex.rd(cnt)
        ex.wr(cnt, k + 1)
        return Vec([SVec(n[k], O(k), 'double')], 'std::vector<double>')
    ex.hooks[NS + 'montecarlo::getRandomCoordinates'] = rnd
    v = s.run(ex, 'pretendCombineThirdLevelForBroker', [ex.alloc(Vec(n, 'long long'), 'n'), ex.alloc(True, 'check')])
    s.t.done(ex)
    ex.oblige('no wrong values', eq(v, 0))


def g_back(ex, P, W):
    """exchange with the workers only: every worker gets its own data back"""
    n = [ex.fresh('n%d' % p, 'int', 1, I31 - 1) for p in range(W)]
    own = [ex.freshfun('own%d' % p, 'real') for p in range(W)]
    s = Side(ex, P, [], W)
    workers(ex, s, n, own, lambda p: lambda j: own[p](zt(j)))
    s.run(ex, 'pretendCombineThirdLevelForWorkers', [])
    alldone(ex, s)


# ---------------------------------------------------------------- the workers of a group that exchanges data
PGW = NS + 'ProcessGroupWorker<double>'


def g_messages(ex, P, down, full):
    """data of a sparse grid between worker and manager: sent and received in the same messages"""
    n = ex.fresh('n', 'int', max(1, full * I31), (full + 1) * I31 - 1)
    ex.nosum = True
    f = ex.freshfun('f', 'real')
    D = SVec(n, lambda j: f(zt(j)), 'double')
    H = ex.hooks
    H['getMPIDatatype'] = H['getabstractionDataType'] = lambda ex, this, a: Opq('element')
    src, dst = ex.alloc(D, 'src'), ex.alloc(SVec(n, lambda j: 0, 'double'), 'dst')
    dsg = ex.alloc(Opq('dsg'), 'dsg')
    H['method:getRawDataSize'] = H['getRawDataSize'] = lambda ex, this, a: n
    which = dst if down else src                  # the buffer of the worker
    H['method:getRawData'] = H['getRawData'] = lambda ex, this, a: Ptr(which, 0)
    msgs, nxt = ex.alloc(Vec((), None), 'gm'), ex.alloc(0, 'gn')
    r = ex.fresh('rank', 'int', 0, I31)

    def send(ex, this, a):
        k, p = ex.rd(a[1]), ex.rd(a[0])
        o = p.idx if p.idx is not None else 0
        ex.oblige('inside the data', and_(le(0, k), le(0, o), le(add(o, k), n)), 'bounds')
        ex.oblige('to the partner', and_(eq(ex.rd(a[3]), r), ctag(ex, a[5]) == 'comm'))
        if not isinstance(ex.rd(msgs), Vec):
            raise Unsupported('messages of a loop')
        ex.wr(msgs, Vec(tuple(ex.rd(msgs).e) + (Obj('m', {'n': k, 'o': o, 'tag': ex.rd(a[4])}),), None))
        return 0

    def recv(ex, this, a):
        i, k, p = ex.rd(nxt), ex.rd(a[1]), ex.rd(a[0])
        m = ex.rd(msgs).e
        ex.oblige('a message was sent for every receive', i < len(m))
        if i >= len(m):
            raise Unsupported('message')
        o = p.idx if p.idx is not None else 0
        ex.oblige('inside the buffer', and_(le(0, o), le(add(o, m[i].f['n']), n)), 'bounds')
        ex.oblige('room for the message', le(m[i].f['n'], k))
        ex.oblige('values stay in their place', or_(eq(o, m[i].f['o']), eq(m[i].f['n'], 0)))
        ex.oblige('same tag', eq(ex.rd(a[4]), m[i].f['tag']))
        ex.oblige('from the partner', and_(eq(ex.rd(a[3]), r), ctag(ex, a[5]) == 'comm'))
        ex.wr(nxt, i + 1)
        return 0
    H['MPI_Send'], H['MPI_Recv'] = send, recv
    C = lambda: ex.alloc(Opq('comm'), 'comm')
    cc = NS + 'CombiCom::'
    if down:
        ex.invoke(P.find(NS + 'sendDsguToWorker'), None, [src, ex.alloc(r, 'r'), C()])
        ex.invoke(P.find(cc + 'recvDsgData'), None, [dsg, ex.alloc(r, 'r'), C()])
    else:
        ex.invoke(P.find(cc + 'sendDsgData'), None, [dsg, ex.alloc(r, 'r'), C()])
        ex.invoke(P.find(NS + 'recvDsguFromWorker'), None, [dst, ex.alloc(r, 'r'), C()])
    m = ex.rd(msgs).e
    ex.oblige('every message is received', ex.rd(nxt) == len(m))
    # the messages cover the data
    ex.oblige('all values are sent', eq(sum_([x.f['n'] for x in m]), n))
    pos = 0
    for x in m:
        ex.oblige('messages follow each other', or_(eq(x.f['o'], pos), eq(x.f['n'], 0)))
        pos = add(pos, x.f['n'])


def g_worker(ex, P, extra, op):
    """a worker of the group that exchanges data: what it sends is the combined data of the system, what it gets goes to the sparse grid, to the
    other groups and to the tasks; sizes likewise"""
    H = ex.hooks
    val = {k: ex.alloc(Str(k), 'g' + k) for k in ('uni', 'extra')}
    obj = {k: ex.alloc(Opq(k), k) for k in ('uni', 'extra')}
    box = lambda k: Obj('smartptr', {'ptr': Ptr(obj[k], None)})
    uni, ext = ex.alloc(Vec([box('uni')], None), 'univ'), ex.alloc(Vec([box('extra')] if extra else [], None), 'extv')
    log = ex.alloc(Vec((), None), 'glog')
    add_ = lambda ex, *x: ex.wr(log, Vec(tuple(ex.rd(log).e) + (Obj('e', {'k': Vec([Str(y) for y in x], None)}),), None))
    sg, tw = ex.alloc(Opq('sgWorker'), 'sg'), ex.alloc(Opq('taskWorker'), 'tw')
    H['getSparseGridWorker'] = lambda ex, this, a: sg
    H['getTaskWorker'] = lambda ex, this, a: tw
    for f, v in (('getNumberOfGrids', lambda ex, this, a: 1), ('getCombinedUniDSGVector', lambda ex, this, a: uni), ('getExtraUniDSGVector', lambda ex, this, a: ext)):
        H[f] = H['method:' + f] = v
    name = lambda ex, lv: ex.rd(lv).tag
    get = lambda ex, k: ex.rd(val[k]).s
    raw = ex.fresh('raw', 'int', 0, I31 - 1)
    H['getRawDataSize'] = H['method:getRawDataSize'] = lambda ex, this, a: raw

    def copy(ex, this, a):      # contract (P06): values of common subspaces
        t, f = name(ex, this), name(ex, a[0])
        ex.wr(val[t], Str(get(ex, f)))
        add_(ex, 'copy', f, t)
    H['copyDataFrom'] = H['method:copyDataFrom'] = copy
    sysobj = ex.alloc(Opq('MPISystem'), 'sys')
    H['theMPISystem'] = lambda ex, this, a: Ptr(sysobj, None)
    comms = ex.alloc(Vec([Opq('third')], None), 'comms')
    H[SYS + 'getThirdLevelComms'] = lambda ex, this, a: comms
    mr, gr, tpg = ex.fresh('managerRank', 'int', 0, I31), ex.fresh('reduceRank', 'int', 0, I31), ex.fresh('thirdLevelPG', 'int', 0, I31)
    H[SYS + 'getThirdLevelManagerRank'] = lambda ex, this, a: mr
    H[SYS + 'getGlobalReduceRank'] = lambda ex, this, a: gr
    H[SYS + 'getGlobalReduceComm'] = lambda ex, this, a: Opq('reduce')
    cc = NS + 'CombiCom::'

    def peer(ex, rank, comm, r, c):
        ex.oblige('partner and communicator', and_(eq(ex.rd(rank), r), ctag(ex, comm) == c))

    def send(ex, this, a):
        peer(ex, a[1], a[2], mr, 'third')
        ex.oblige('sends the combined data of the system', get(ex, name(ex, a[0])) == 'uni')
        ex.oblige('sends the sparse grid whose sizes were unified', name(ex, a[0]) == ('extra' if extra else 'uni'))
        add_(ex, 'send')

    def recv(ex, this, a):
        peer(ex, a[1], a[2], mr, 'third')
        ex.oblige('receives into the sparse grid whose sizes were unified', name(ex, a[0]) == ('extra' if extra else 'uni'))
        ex.wr(val[name(ex, a[0])], Str('combined'))
        add_(ex, 'recv')
    H[cc + 'sendDsgData'], H[cc + 'recvDsgData'] = send, recv

    orank = ex.fresh('outputRank', 'int', 0, I31)
    H[SYS + 'getOutputRankInGlobalReduceComm'] = lambda ex, this, a: orank

    def bcast(ex, this, a):
        if op.startswith('result'):
            ex.oblige('the group that exchanged data is the source', eq(ex.rd(a[1]), orank if 'output' in op else tpg))
            add_(ex, 'bcast')
            return
        ex.oblige('this group is the source', eq(ex.rd(a[1]), gr))
        ex.oblige('other groups get the combined data', get(ex, 'uni') == 'combined')
        add_(ex, 'bcast')
    H['startSingleBroadcastDSGs'] = H['method:startSingleBroadcastDSGs'] = bcast

    def update(ex, this, a):
        ex.oblige('tasks get the combined data', get(ex, 'uni') == 'combined')
        add_(ex, 'update')
    H[PGW + '::updateFullFromCombinedSparseGrids'] = update
    null = ex.alloc(Opq('null request'), 'null')
    H['var:ompi_request_null'] = lambda ex: null

    def wait(ex, this, a):
        if op.endswith('nothing'):
            q = ex.rd(a[0])
            v = ex.rd(q.lv) if isinstance(q, Ptr) else q
            ex.oblige('nothing was started: no request is waited for', isinstance(v, Ptr) and v.lv.same(null))
        if op.startswith('result') and any(x.f['k'].e[0].s == 'bcast' for x in ex.rd(log).e):
            ex.wr(val['uni'], Str('combined'))        # or what this group has, if there is nothing in common
        add_(ex, 'wait')
        return 0
    H['MPI_Wait'] = wait
    H['startEvent'] = H['stopEvent'] = lambda ex, this, a: None
    H['getCombinationVariant'] = H['method:getCombinationVariant'] = lambda ex, this, a: Opq('variant')
    H['getThirdLevelPG'] = H['method:getThirdLevelPG'] = lambda ex, this, a: tpg

    # sizes
    def ssend(ex, this, a):
        peer(ex, a[2], a[1], mr, 'third')
        ex.oblige('sends the sizes of the combined sparse grid', name(ex, a[0]) == 'uni')
        add_(ex, 'send')

    def srecv(ex, this, a):
        peer(ex, a[2], a[1], mr, 'third')
        ex.oblige('unified sizes go to the sparse grid used for the exchange', name(ex, a[0]) == ('extra' if extra else 'uni'))
        add_(ex, 'recv')

    def sbcast(ex, this, a):
        peer(ex, a[2], a[1], gr if op == 'sizes' else tpg, 'reduce')
        ex.oblige('sizes of the combined sparse grid', name(ex, a[0]) == 'uni')
        add_(ex, 'bcast')
    H[cc + 'sendSubspaceSizesWithGather'], H[cc + 'receiveSubspaceSizesWithScatter'], H[cc + 'broadcastSubspaceSizes'] = ssend, srecv, sbcast
    H['getSparseGridToUseForThirdLevel'] = H['method:getSparseGridToUseForThirdLevel'] = lambda ex, this, a: (ext.i(0) if extra else uni.i(0))
    H['zeroDsgsData'] = H['method:zeroDsgsData'] = lambda ex, this, a: add_(ex, 'zero')
    w = ex.alloc(Obj(PGW, {'status_': 0, 'combiParameters_': Opq('parameters'), 'combiParametersSet_': True, 'currentCombi_': 0, 'taskWorker_': Opq('taskWorker'), 'sgWorker_': Opq('sgWorker')}), 'worker')
    if op == 'combine':
        ex.invoke(P.find(PGW + '::combineThirdLevel', nparams=0), w, [])
        want = ['send', 'recv', 'bcast', 'update', 'wait']
    elif op == 'sizes':
        ex.invoke(P.find(PGW + '::reduceSubspaceSizesThirdLevel'), w, [ex.alloc(extra, 'extra')])
        want = ['send', 'recv'] + ([] if extra else ['bcast']) + ['zero']
    elif op.startswith('result'):
        ex.invoke(P.find(PGW + '::waitForThirdLevelCombiResult'), w, [ex.alloc('output' in op, 'fromOutputGroup')])
        want = ['bcast', 'wait', 'update']
    else:
        ex.invoke(P.find(PGW + '::waitForThirdLevelSizeUpdate'), w, [])
        want = ['bcast', 'zero']
    did = [x.f['k'].e[0].s for x in ex.rd(log).e]
    for k in ('send', 'recv', 'bcast', 'update', 'wait', 'zero'):
        ex.oblige('once as expected: ' + k, did.count(k) == want.count(k))
    if 'send' in did and 'recv' in did:
        ex.oblige('sends before it waits for the answer', did.index('send') < did.index('recv'))
    if op == 'combine' or op.startswith('result'):
        ex.oblige('the sparse grid holds the combined data', get(ex, 'uni') == 'combined')
    elif 'zero' in did:
        ex.oblige('data is allocated after all sizes are known', did.index('zero') == len(did) - 1)


def groups(tier):
    G = []
    U = [TLM + '::' + f for f in ('runtimeLoop', 'processMessage', 'forwardData', 'processFinished')] + [NS + 'System::' + f for f in ('sendMessage', 'receiveMessage', 'receivePosNumber', 'hasMessage')]
    one = lambda op: {'combine': 'processCombination', 'file': 'processCombinationFile', 'sizes': 'processUnifySubspaceSizes', 'any': 'processAnyData', 'coords': 'processAnyData'}[op]
    runs = [[('combine', K)] for K in (0, 1, 2, 3)] + [[('file', 0)], [('sizes', 1)], [('any', 1)], [('coords', 1)], [],
            [('sizes', 1), ('combine', 2), ('combine', 1)], [('coords', 1), ('any', 1), ('file', 0)]]
    for ops in runs:
        firsts = [()] if not ops else [(0,) * len(ops), (1,) * len(ops)] + ([(0, 1, 0)] if len(ops) == 3 else [])
        for f in firsts:
            nm = ', '.join('%s%s' % (o, ' %d' % K if K != 1 else '') for o, K in ops) or 'nothing'
            G.append(Group('third level manager: %s; first: %s' % (nm, ' '.join(map(str, f))), g_broker, 'tlm.cpp', dict(ops=ops, first=f), U + sorted({TLM + '::' + one(o) for o, K in ops}),
                           level='bounded', bound='at most 3 blocks and 3 operations'))
    for k in (0, 1):
        G.append(Group('third level manager: combination of any number of blocks, first: %d' % k, g_broker_any, 'tlm.cpp', dict(init=k), [TLM + '::processCombination', TLM + '::forwardData'], budget=60))
    G.append(Group('statistics of the third level manager', g_statistics, 'tlm.cpp', {}, [TLM + '::writeStatistics']))
    E = [PM + '::combineThirdLevel', PGM + '::combineThirdLevel', PGM + '::exchangeDsgus', NS + 'recvDsguFromWorker', NS + 'sendDsguToWorker', TLU + '::sendData', TLU + '::recvData', TLU + '::recvAndAddToData']
    for first in (True, False):
        for W in (1, 2, 3):
            G.append(Group('system: combination, %s, %d workers' % ('sends first' if first else 'receives first', W), g_exchange, 'procmanager.cpp', dict(first=first, W=W), E, level='bounded', bound='up to 3 workers'))
    for first in (True, False):
        G.append(Group('system: combination, %s, any number of workers' % ('sends first' if first else 'receives first'), g_exchange_any, 'procmanager.cpp', dict(first=first), E, budget=60))
    G.append(Group('system: exchange with any number of workers only', g_exchange_any, 'procmanager.cpp', dict(first=True, what='back'), [PM + '::pretendCombineThirdLevelForWorkers', PGM + '::pretendCombineThirdLevelForWorkers'], budget=60))
    Z = [PM + '::unifySubspaceSizesThirdLevel', PGM + '::reduceLocalAndRemoteSubspaceSizes', PGM + '::collectSubspaceSizes', PGM + '::distributeSubspaceSizes', TLU + '::sendData', TLU + '::recvData']
    for counts in ((1,), (2, 1), (1, 2, 2)) if tier == 'quick' else ((1,), (3,), (2, 1), (1, 2, 2), (3, 3), (2, 3, 1, 2)):
        for how in ('unify first', 'unify second', 'unify first extra', 'unify second extra', 'pretend'):
            G.append(Group('system: sizes, %s, subspaces %s' % (how, counts), g_sizes, 'procmanager.cpp', dict(how=how, counts=counts),
                           Z if how != 'pretend' else [PM + '::pretendUnifySubspaceSizesThirdLevel', PGM + '::pretendReduceLocalAndRemoteSubspaceSizes'], level='bounded', bound='up to 3 workers with 3 subspaces'))
    for f1 in (True, False):
        for f2 in (True, False):
            G.append(Group('system: points, %s, %s' % (f1, f2), g_values, 'procmanager.cpp', dict(first1=f1, first2=f2), [PM + '::monteCarloThirdLevel']))
    G.append(Group('system: files', g_file, 'procmanager.cpp', {}, [PM + '::combineThirdLevelFileBased']))
    for first in (True, False):
        for K in (1, 2):
            G.append(Group('system: exchange without workers, %s, %d' % (first, K), g_pretend, 'procmanager.cpp', dict(first=first, K=K), [PM + '::pretendCombineThirdLevelForBroker'], level='bounded', bound='up to 2 blocks'))
    for W in (1, 2, 3):
        G.append(Group('system: exchange with the workers only, %d workers' % W, g_back, 'procmanager.cpp', dict(W=W), [PM + '::pretendCombineThirdLevelForWorkers', PGM + '::pretendCombineThirdLevelForWorkers'], level='bounded', bound='up to 3 workers'))
    cc = NS + 'CombiCom::'
    for down in (False, True):
        fs = [NS + 'sendDsguToWorker', cc + 'recvDsgData'] if down else [cc + 'sendDsgData', NS + 'recvDsguFromWorker']
        for full in (0, 1, 2):
            G.append(Group('messages %s a worker, %d full' % ('to' if down else 'from', full), g_messages, 'manager.cpp', dict(down=down, full=full), fs,
                           level='bounded', bound='fewer than 3(2^31-1) values'))
    for extra in (False, True):
        for op in ('combine', 'sizes'):
            G.append(Group('worker: %s%s' % (op, ', extra sparse grid' if extra else ''), g_worker, 'manager.cpp', dict(extra=extra, op=op), [PGW + '::combineThirdLevel' if op == 'combine' else PGW + '::reduceSubspaceSizesThirdLevel'], level='bounded', bound='one sparse grid'))
    G.append(Group('worker: sizes from another group', g_worker, 'manager.cpp', dict(extra=False, op='other'), [PGW + '::waitForThirdLevelSizeUpdate'], level='bounded', bound='one sparse grid'))
    for op in ('result', 'result, output', 'result, nothing', 'result, output, nothing'):
        G.append(Group('worker: %s from another group' % op, g_worker, 'manager.cpp', dict(extra=False, op=op), [PGW + '::waitForThirdLevelCombiResult'], level='bounded', bound='one sparse grid'))
    return G


def harnesses(tier):
    src = sorted(os.path.relpath(x, F.REPO) for x in glob.glob(os.path.join(F.REPO, 'src/*/*.cpp'))) + ['third_level_manager/%s.cpp' % x for x in ('Params', 'Stats', 'System')]
    src.append(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'harness', 'h_p16_broker.cpp'))
    return [Harness('h_p16.cpp', sources=src, np=7, timeout=400, flags=['-DOMPI_SKIP_MPICXX', '-ftrivial-auto-var-init=pattern'], libs=['-lglpk'],
                    bound='the third level manager and two systems of a manager and two workers over loopback: 60 (thorough 600) operations without workers with up to 40 blocks of up to 200000 values, two chunk sizes, random delays; '
                          '4 (thorough 7) runs with unified sizes, 3 combinations, random points; dimension 2..3 (4)',
                    standin=[TLM + '::init, main program', 'ClientSocket, ServerSocket (connections)', NS + 'ProcessGroupWorker (third level)'])]
