"""P15: parameters, tasks, coordinates and containers reach every receiver unchanged."""
import glob
import os
from .dfgcommon import *
from cver import frontend as F
from cver.runner import Group, Harness
from cver.execu import Throw, BOUNDS, clean, INTS, FLOATS

LEVEL = 'proof'
ASSUMPTIONS = ['floating point values are finite (text archives cannot hold others)', 'fewer than 2^31 characters or values per message',
               'derived tasks, fault criteria and basis functions of users serialize their own members; looking up the number of a task by its level is not covered',
               'the process group is idle and the task exists when the manager names it (otherwise the library asserts)',
               'three tasks per group in the requests of the manager (each request names one)']
TRUSTED = ['Boost.Serialization: & writes and reads values in order, an object read from exactly the text written equals it, pointers restore the registered class',
           'MPI: a message is delivered as sent to the receive with its source, tag and communicator, messages with one tag in order; a broadcast delivers the buffer of the root to all',
           'abstraction::getMPIDatatype names the type of its argument (its table is checked on real MPI by the harness only)', 'std::string, std::vector, std::map, std::copy']
NOTE = 'requests of the manager to all groups bounded (3 process groups, 4 tasks); members, messages, broadcasts, coordinates and the requests of the manager to its groups proved for arbitrary values, sizes and ranks (both orders of evaluation of arguments); coefficients for 3 tasks and the whole path on real MPI bounded'
NS = 'combigrid::'
OUT, IN = 'boost::archive::text_oarchive', 'boost::archive::text_iarchive'
CP, TASK, DI = NS + 'CombiParameters', NS + 'Task<double>', NS + 'DurationInformation'
FI, SF, WF = NS + 'FaultsInfo', NS + 'StaticFaults', NS + 'WeibullFaults'


# ---------------------------------------------------------------- values of any type
def anyval(ex, t, tag):
    """an arbitrary value of type t"""
    t = ex.std.norm_t(clean(t))
    if t == 'bool' or t in INTS or t in FLOATS:
        return ex.havoc(t, tag)
    if t.startswith('std::vector<'):
        et = ex.std.norm_t(clean(ex.std.vec_elem(t)))
        n = ex.fresh(tag + '_n', 'int', 0, I31)
        if et.startswith('std::vector<'):
            inner = ex.std.norm_t(clean(ex.std.vec_elem(et)))
            f, l = ex.freshfun(tag, 'real' if inner in FLOATS else 'int', 2), ex.freshfun(tag + '_l', 'int')
            return SVec(n, lambda j: SVec(l(zt(j)), lambda k: f(zt(j), zt(k)), inner), et)
        if et in FLOATS or et in INTS or et == 'bool':
            f = ex.freshfun(tag, 'real' if et in FLOATS else ('bool' if et == 'bool' else 'int'))
            return SVec(n, lambda j: f(zt(j)), et)
    k, r = ex.record(t)
    if r is not None and not t.endswith('*') and t.startswith(NS):
        return anyobj(ex, t, tag)
    return Opq(tag)


def anyobj(ex, t, tag):
    k, r = ex.record(t)
    if r is None:
        raise Unsupported('class ' + t)
    f = {}
    for b, rb in ex.bases(r):
        f.update({x['name']: anyval(ex, tyname(x), tag + '.' + x['name']) for x in ex.fields(rb)})
    for x in ex.fields(r):
        f[x['name']] = anyval(ex, tyname(x), tag + '.' + x['name'])
    return Obj(k, f)


def tyname(x):
    return x['type'].get('desugaredQualType') or x['type']['qualType']


def same(ex, a, b, d=0):
    """a == b, at an arbitrary position of every sequence"""
    if isscalar(a) and isscalar(b):
        return eq(a, b)
    if isinstance(a, (Vec, SVec)) and isinstance(b, (Vec, SVec)):
        k = ex.fresh('at%d' % d, 'int', 0)
        return and_(eq(a.n, b.n), or_(le(a.n, k), same(ex, elem(a, k), elem(b, k), d + 1)))
    if isinstance(a, Opq) and isinstance(b, Opq):
        return a.tag == b.tag
    if isinstance(a, Obj) and isinstance(b, Obj):
        return and_(*[same(ex, a.f[x], b.f[x], d) for x in a.f]) if a.f else True
    raise Unsupported('comparison of %s and %s' % (type(a).__name__, type(b).__name__))


# ---------------------------------------------------------------- member lists
class Archive:
    """an archive is a sequence of values: what is written with & is read with & in the same order (Boost.Serialization);
    classes of the library are written by their own serialize"""
    def __init__(self, ex, P):
        self.P = P
        self.seq = ex.alloc(Vec((), None), 'garchive')
        self.pos = ex.alloc(0, 'gpos')
        self.loading = ex.alloc(False, 'gloading')
        ex.hooks['operator&'] = ex.hooks['operator<<'] = ex.hooks['operator>>'] = self.amp
        ex.hooks['boost::serialization::base_object'] = ex.hooks['base_object'] = lambda ex, this, a: ex.alloc(Opq('base'), 'base')

    def amp(self, ex, this, a):
        x = a[1]
        v = ex.rd(x)
        if isinstance(v, Obj) and v.cls.startswith(NS):
            self.run(ex, v.cls, x)
        elif not ex.rd(self.loading):
            s = ex.rd(self.seq)
            ex.wr(self.seq, Vec(tuple(s.e) + (v,), None))
        else:
            s, k = ex.rd(self.seq), ex.rd(self.pos)
            ex.oblige('no more values are read than were written', k < len(s.e))
            if k >= len(s.e):
                raise Unsupported('read behind the end of the archive')
            w = s.e[k]
            ex.oblige('value is read with the type it was written with', kind(w) == kind(v))
            ex.wr(x, w)
            ex.wr(self.pos, k + 1)
        return a[0]

    def run(self, ex, cls, lv):
        f = self.P.find(cls + '::serialize', targs=[IN if ex.rd(self.loading) else OUT])
        ex.invoke(f, lv, [ex.alloc(Opq('archive'), 'ar'), ex.alloc(0, 'version')])


def kind(v):
    if isscalar(v):
        return 'bool' if isinstance(v, bool) or (isterm(v) and z3.is_bool(v)) else 'real' if isreal(v) else 'int'
    if isinstance(v, (Vec, SVec)):
        return 'vector'
    return type(v).__name__


def g_members(ex, P, cls, getter, args=()):
    A, B = ex.alloc(anyobj(ex, cls, 'sent'), 'A'), ex.alloc(anyobj(ex, cls, 'recv'), 'B')
    old = ex.rd(A)
    ar = Archive(ex, P)
    ar.run(ex, cls, A)
    ex.wr(ar.loading, True)
    ar.run(ex, cls, B)
    ex.oblige('everything that was written is read', ex.rd(ar.pos) == len(ex.rd(ar.seq).e))
    for x in old.f:
        ex.oblige('sending changes nothing', same(ex, old.f[x], ex.rd(A).f[x]))
    if getter.startswith('.'):
        if getter[1:] not in old.f:
            raise Unsupported('no member ' + getter)
        a, b = ex.rd(A).f[getter[1:]], ex.rd(B).f[getter[1:]]
    else:
        f = P.find(cls + '::' + getter, nparams=0)
        if getter == 'getChunkSizeInMebibybtePerThread':
            ex.assume(lt(0, ex.rd(A).f['sizeForChunkedCommunicationInMebibyte_']))
        a, b = ex.val(ex.invoke(f, A, [])), ex.val(ex.invoke(f, B, []))
    ex.oblige('received object equals the sent one: ' + getter, same(ex, a, b))


def g_coeffs(ex, P, n):
    """the coefficients of n tasks with arbitrary numbers"""
    A, B = anyobj(ex, CP, 'sent'), anyobj(ex, CP, 'recv')
    if 'coeffs_' not in A.f:
        raise Unsupported('no member coeffs_')
    ks = [ex.fresh('id%d' % i, 'int', 0, 2**64 - 1) for i in range(n)]
    for a, b in zip(ks, ks[1:]):
        ex.assume(lt(a, b))
    cs = [ex.fresh('c%d' % i, 'real') for i in range(n)]
    A = ex.alloc(Obj(A.cls, dict(A.f, coeffs_=Bag('map', list(zip(ks, cs))))), 'A')
    B = ex.alloc(Obj(B.cls, dict(B.f, coeffs_=Bag('map', [(ex.fresh('idb', 'int', 0, 2**64 - 1), ex.fresh('cb', 'real'))]))), 'B')
    ar = Archive(ex, P)
    ar.run(ex, CP, A)
    ex.wr(ar.loading, True)
    ar.run(ex, CP, B)
    f = P.find(CP + '::getCoeff', nparams=1)
    q = ex.fresh('task', 'int', 0, 2**64 - 1)
    a, b = (ex.val(ex.invoke(f, x, [ex.alloc(q, 'q')])) for x in (A, B))
    ex.oblige('coefficient of a task is the one sent', eq(a, b))
    want = 0
    for k, c in zip(ks, cs):
        want = ite(eq(q, k), c, want)
    ex.oblige('coefficient of a task is its own', eq(b, want))


# ---------------------------------------------------------------- messages
class Wire:
    """ghost state of a transfer. Text archives: << writes a text E of N characters that only depends on the object, >> on
    exactly this text restores the object (members: g_members). MPI: a message is received as it was sent by the matching call"""
    def __init__(self, ex, root=0):
        self.N = ex.fresh('textlen', 'int', 1, I31)
        self.E = ex.freshfun('text', 'int')
        self.comm = Opq('comm')
        self.role = ex.alloc('send', 'grole')
        self.msgs = ex.alloc(Vec((), None), 'gmsgs')      # messages of the sender: Obj(count, type, data, ...)
        self.next = ex.alloc(0, 'gnext')
        self.rank = ex.alloc(0, 'grank')
        self.wrote = ex.alloc(False, 'gwrote')
        ex.strings = True
        H = ex.hooks
        for t in ('std::stringstream', 'std::basic_stringstream<char>', 'std::__cxx11::basic_stringstream<char>', 'std::ostringstream', 'std::istringstream',
                  'std::basic_ostringstream<char>', 'std::basic_istringstream<char>'):
            H['ctor:' + t] = self.stream
        for t in (OUT, IN):
            H['ctor:' + t] = lambda ex, this, a: Obj('archive', {'stream': Ptr(a[0], None)})
        H['operator<<'], H['operator>>'] = self.save, self.load
        H['operator&'] = lambda ex, this, a: (self.save if ex.rd(self.role) == 'send' else self.load)(ex, this, a)
        H['method:str'] = self.str
        H['MPI_Send'], H['MPI_Recv'], H['MPI_Probe'], H['MPI_Get_count'], H['MPI_Bcast'], H['MPI_Comm_rank'] = self.send, self.recv, self.probe, self.count, self.bcast, self.comm_rank
        for t in ('char', 'int', 'double', 'float', 'long', 'unsigned', 'byte'):
            H['var:ompi_mpi_' + t] = (lambda l: lambda ex: l)(ex.alloc(Opq(t), 'type'))
        H['getMPIDatatype'] = H['getabstractionDataType'] = lambda ex, this, a: Opq(self.et)
        self.et = 'char'

    def text(self):
        return SVec(self.N, lambda j: self.E(zt(j)), 'char')

    def stream(self, ex, this, a):
        if not a:
            return Obj('stream', {'text': Str('')})
        return Obj('stream', {'text': ex.rd(a[0])})

    def save(self, ex, this, a):
        ar = ex.rd(a[0])
        lv = ar.f['stream'].lv
        ex.oblige('object is written into an empty stream', isinstance(ex.rd(lv).f['text'], Str) and ex.rd(lv).f['text'].s == '')
        ex.oblige('object written is the one to be sent', same(ex, self.deref(ex, a[1]), ex.rd(self.obj)))
        ex.wr(lv, Obj('stream', {'text': self.text()}))
        ex.wr(self.wrote, True)
        return a[0]

    def deref(self, ex, lv):
        v = ex.rd(lv)
        while isinstance(v, Ptr):
            v = ex.rd(v.lv)
        return v

    def load(self, ex, this, a):
        ar = ex.rd(a[0])
        t = ex.rd(ar.f['stream'].lv).f['text']
        ex.oblige('object is read from the text that was sent', same(ex, t, self.text()))
        lv = a[1]
        while isinstance(ex.rd(lv), Ptr) and ex.rd(lv).lv is not None:
            lv = ex.rd(lv).lv
        ex.wr(lv, ex.rd(self.obj))
        return a[0]

    def str(self, ex, this, a):
        return ex.rd(this).f['text']

    # -------------------------------------------------------------- MPI
    def tag(self, ex, x):
        v = self.deref(ex, x)
        return v.tag if isinstance(v, Opq) else v

    def buf(self, ex, p, n):
        """the n values at p"""
        if isinstance(p, Ptr) and p.idx is None and isscalar(ex.rd(p.lv)):
            ex.oblige('message inside the buffer', le(n, 1), 'bounds')
            v = ex.rd(p.lv)
            return SVec(n, lambda j: v, None)
        if isinstance(p, Ptr):
            s, o = ex.rd(p.lv), p.idx if p.idx is not None else 0
            ex.oblige('message inside the buffer', or_(le(n, 0), and_(le(0, o), le(add(o, n), s.n))), 'bounds')
            return SVec(n, lambda j: elem(s, add(o, j)), None)
        if isinstance(p, (Str, Vec, SVec)):
            return SVec(n, lambda j: elem(p, j), None)
        raise Unsupported('buffer %r' % (p,))

    def put(self, ex, p, n, src):
        if isinstance(p, Ptr) and p.idx is None and isscalar(ex.rd(p.lv)):
            ex.oblige('message inside the buffer', le(n, 1), 'bounds')
            ex.wr(p.lv, ite(lt(0, n), elem(src, 0), ex.rd(p.lv)))
            return
        s, o = ex.rd(p.lv), p.idx if p.idx is not None else 0
        ex.oblige('message inside the buffer', or_(le(n, 0), and_(le(0, o), le(add(o, n), s.n))), 'bounds')
        if isinstance(s, Vec):
            ex.wr(p.lv, Vec([ite(and_(le(o, j), lt(j, add(o, n))), elem(src, sub(j, o)), x) for j, x in enumerate(s.e)], s.ty))
            return
        ex.wr(p.lv, SVec(s.n, lambda j: ite(and_(le(o, j), lt(j, add(o, n))), elem(src, sub(j, o)), elem(s, j)), s.ty))

    def push(self, ex, n, ty, data, **kw):
        m = ex.rd(self.msgs)
        ex.wr(self.msgs, Vec(tuple(m.e) + (Obj('msg', dict(kw, n=n, ty=ty, data=data)),), None))

    def pull(self, ex):
        m, k = ex.rd(self.msgs), ex.rd(self.next)
        ex.oblige('a message was sent for every receive', k < len(m.e))
        if k >= len(m.e):
            raise Unsupported('no message')
        return m.e[k]

    def send(self, ex, this, a):
        n = ex.rd(a[1])
        ex.oblige('message size is not negative', le(0, n))
        self.push(ex, n, self.tag(ex, a[2]), self.buf(ex, ex.rd(a[0]), n), peer=ex.rd(a[3]), tag=self.tag(ex, a[4]), comm=self.tag(ex, a[5]))
        return 0

    def match(self, ex, m, src, tag, comm):
        ex.oblige('receives from the sender', eq(ex.rd(src), self.src))
        ex.oblige('sent and received with the same tag', eq(m.f['tag'], ex.rd(tag)))
        ex.oblige('sent and received on the communicator', m.f['comm'] == self.tag(ex, comm))

    def probe(self, ex, this, a):
        self.match(ex, self.pull(ex), a[0], a[1], a[2])
        return 0

    def count(self, ex, this, a):
        m = self.pull(ex)
        ex.oblige('counts elements of the type sent', m.f['ty'] == self.tag(ex, a[1]))
        ex.wr(ex.rd(a[2]).lv, m.f['n'])
        return 0

    def recv(self, ex, this, a):
        m, n = self.pull(ex), ex.rd(a[1])
        self.match(ex, m, a[3], a[4], a[5])
        ex.oblige('received with the type sent', m.f['ty'] == self.tag(ex, a[2]))
        ex.oblige('buffer holds the message', le(m.f['n'], n))
        self.put(ex, ex.rd(a[0]), m.f['n'], m.f['data'])
        ex.wr(self.next, ex.rd(self.next) + 1)
        return 0

    def bcast(self, ex, this, a):
        n, ty = ex.rd(a[1]), self.tag(ex, a[2])
        ex.oblige('broadcast from the root', eq(ex.rd(a[3]), self.root))
        ex.oblige('broadcast on the communicator', self.tag(ex, a[4]) == self.comm.tag)
        ex.oblige('message size is not negative', le(0, n))
        if ex.rd(self.role) == 'send':
            self.push(ex, n, ty, self.buf(ex, ex.rd(a[0]), n))
        else:
            m = self.pull(ex)
            ex.oblige('root and receiver broadcast the same type', m.f['ty'] == ty)
            ex.oblige('root and receiver broadcast the same number', eq(m.f['n'], n))
            self.put(ex, ex.rd(a[0]), n, m.f['data'])
            ex.wr(self.next, ex.rd(self.next) + 1)
        return 0

    def comm_rank(self, ex, this, a):
        ex.wr(ex.rd(a[1]).lv, ex.rd(self.rank))
        return 0

    def done(self, ex):
        ex.oblige('every message is received', ex.rd(self.next) == len(ex.rd(self.msgs).e))


def g_p2p(ex, P, snd, rcv, ptr, tagged):
    w = Wire(ex)
    w.src = ex.fresh('src', 'int', 0, I31)
    dst = ex.fresh('dst', 'int', 0, I31)
    w.obj = ex.alloc(Opq('object'), 'object')
    comm = ex.alloc(w.comm, 'comm')
    t = [ex.alloc(ex.fresh('tag', 'int', 0, 32767), 'tag')] if tagged else []
    ex.invoke(P.find(*snd[0:1], **snd[1]), None, [ex.alloc(Ptr(w.obj, None), 'p'), ex.alloc(dst, 'd'), comm] + t)
    ex.oblige('object is sent', and_(ex.rd(w.wrote), len(ex.rd(w.msgs).e) > 0))
    for m in ex.rd(w.msgs).e:
        ex.oblige('sent to the destination', eq(m.f['peer'], dst))
    ex.oblige('sent object unchanged', same(ex, ex.rd(w.obj), Opq('object')))
    ex.wr(w.role, 'recv')
    other = ex.alloc(Opq('other'), 'other')
    p = ex.alloc(Ptr(other, None), 'q')
    if ptr:
        p = ex.alloc(Ptr(p, None), 'qq')
    ex.invoke(P.find(*rcv[0:1], **rcv[1]), None, [p, ex.alloc(w.src, 's'), comm] + t)
    w.done(ex)
    ex.oblige('received object equals the sent one', same(ex, ex.rd(other), Opq('object')))


def g_bcast(ex, P, fn, ptr):
    w = Wire(ex)
    w.root = ex.fresh('root', 'int', 0, I31)
    w.obj = ex.alloc(Opq('object'), 'object')
    comm = ex.alloc(w.comm, 'comm')
    f = P.find(*fn[0:1], **fn[1])
    wrap = (lambda lv: ex.alloc(Ptr(ex.alloc(Ptr(lv, None), 'p'), None), 'pp')) if ptr else (lambda lv: ex.alloc(Ptr(lv, None), 'p'))
    ex.wr(w.rank, w.root)
    ex.invoke(f, None, [wrap(w.obj), ex.alloc(w.root, 'r'), comm])
    ex.oblige('sent object unchanged', same(ex, ex.rd(w.obj), Opq('object')))
    ex.wr(w.role, 'recv')
    me = ex.fresh('me', 'int', 0, I31)
    ex.assume(not_(eq(me, w.root)))
    ex.wr(w.rank, me)
    other = ex.alloc(Opq('other'), 'other')
    ex.invoke(f, None, [wrap(other), ex.alloc(w.root, 'r'), comm])
    w.done(ex)
    ex.oblige('received object equals the sent one', same(ex, ex.rd(other), Opq('object')))


def g_container(ex, P, T, et):
    w = Wire(ex)
    w.et = et
    w.root = ex.fresh('root', 'int', 0, I31)
    comm = ex.alloc(w.comm, 'comm')
    f = P.find(NS + 'MPIUtils::broadcastContainer', targs=[T])
    a, b = anyval(ex, 'std::vector<%s>' % et, 'sent'), anyval(ex, 'std::vector<%s>' % et, 'recv')
    A, B = ex.alloc(a, 'A'), ex.alloc(b, 'B')
    ex.invoke(f, None, [A, ex.alloc(w.root, 'r'), comm])
    ex.oblige('sent container unchanged', same(ex, ex.rd(A), a))
    ex.wr(w.role, 'recv')
    ex.invoke(f, None, [B, ex.alloc(w.root, 'r'), comm])
    w.done(ex)
    ex.oblige('received container equals the sent one', same(ex, ex.rd(B), a))


def g_serialize(ex, P, d, n=None):
    """any number of points of d coordinates"""
    f = ex.freshfun('x', 'real', 2)
    if n is None:
        n = ex.fresh('points', 'int', 1, I31 // d)
        pts = SVec(n, lambda i: Vec([f(zt(i), k) for k in range(d)], 'double'), 'std::vector<double>')
    else:
        pts = Vec([Vec([f(i, k) for k in range(d)], 'double') for i in range(n)], 'std::vector<double>')
    r = ex.val(ex.invoke(P.find(NS + 'serializeInterpolationCoords'), None, [ex.alloc(pts, 'pts')]))
    ex.oblige('number of coordinates', eq(r.n, mul(n, d)))
    i = ex.fresh('i', 'int', 0)
    ex.assume(lt(i, n))
    for k in range(d):
        ex.oblige('coordinate of a point at its position', eq(elem(r, add(mul(i, d), k)), f(zt(i), k)))


def g_deserialize(ex, P, d, n=None):
    f = ex.freshfun('x', 'real')
    n = ex.fresh('points', 'int', 1, I31 // d) if n is None else n
    r = ex.val(ex.invoke(P.find(NS + 'deserializeInterpolationCoords'), None, [ex.alloc(SVec(mul(n, d), lambda j: f(zt(j)), 'double'), 's'), ex.alloc(d, 'd')]))
    ex.oblige('number of points', eq(r.n, n))
    i = ex.fresh('i', 'int', 0)
    ex.assume(lt(i, n))
    p = elem(r, i)
    ex.oblige('number of coordinates of a point', eq(p.n, d))
    for k in range(d):
        ex.oblige('coordinate of a point', eq(elem(p, k), f(zt(add(mul(i, d), k)))))


# ---------------------------------------------------------------- manager -> process group
PGM, PGW = NS + 'ProcessGroupManager<double>', NS + 'ProcessGroupWorker<double>'
SYS = NS + 'MPISystem::'


class Proto:
    """ghost state of the manager, the master of a process group and another process of it. Messages with one tag arrive in
    the order they are sent; sendClass/receiveClass/broadcastClass and Task::send/receive/broadcast by their contracts (above)"""
    def __init__(self, ex, P, rtl):
        ex.rtl = rtl
        self.P = P
        self.role = ex.alloc('manager', 'grole')
        self.to, self.back, self.b, self.posted, self.calls = [ex.alloc(Vec((), None), n) for n in ('gto', 'gback', 'gb', 'gposted', 'gcalls')]
        self.mgr, self.grp, self.root = [ex.fresh(x, 'int', 0, I31) for x in ('managerRank', 'groupRank', 'masterRank')]
        self.ran = ex.alloc(False, 'gran')
        self.worker = ex.alloc(Obj(PGW, {'status_': 0, 'combiParameters_': Opq('parameters'), 'combiParametersSet_': True, 'currentCombi_': 0,
                                         'taskWorker_': Opq('taskWorker'), 'sgWorker_': Opq('sgWorker')}), 'worker')
        self.tasks = [ex.alloc(Opq('task%d' % k), 'task') for k in range(3)]
        self.manager = ex.alloc(Obj(PGM, {'pgroupRootID_': self.grp, 'tasks_': Vec([Ptr(t, None) for t in self.tasks], 'combigrid::Task<double> *'), 'status_': 0,
                                          'statusRequest_': Opq('request'), 'statusRequestFT_': Opq('request'), 'formerDsguDataSizePerWorker_': Vec((), 'unsigned long'),
                                          'dsguDataSizePerWorker_': Vec((), 'unsigned long')}), 'manager')
        self.ids = [ex.fresh('id%d' % k, 'int', 0, 2**64 - 1) for k in range(3)]
        for i in range(3):
            for j in range(i):
                ex.assume(not_(eq(self.ids[i], self.ids[j])))
        H = ex.hooks
        sysobj = ex.alloc(Opq('MPISystem'), 'sys')
        H['theMPISystem'] = lambda ex, this, a: Ptr(sysobj, None)
        H[SYS + 'getGlobalComm'] = lambda ex, this, a: Opq('global')
        H[SYS + 'getLocalComm'] = lambda ex, this, a: Opq('local')
        H[SYS + 'getManagerRank'] = lambda ex, this, a: self.mgr
        H[SYS + 'getMasterRank'] = lambda ex, this, a: self.root
        H[SYS + 'isProcessGroupMaster'] = lambda ex, this, a: ex.rd(self.role) == 'master'
        for t in ('char', 'int', 'double', 'float', 'long', 'unsigned_long', 'unsigned', 'byte'):
            H['var:ompi_mpi_' + t] = (lambda l: lambda ex: l)(ex.alloc(Opq(t), 'type'))
        H['getMPIDatatype'] = H['getabstractionDataType'] = lambda ex, this, a: Opq('element')
        U = NS + 'MPIUtils::'
        H[U + 'sendClass'] = lambda ex, this, a: self.push(ex, a[1], a[2], ex.rd(a[3]), 'class', 1, self.deref(ex, a[0]))
        H[U + 'receiveClass'] = lambda ex, this, a: ex.wr(ex.rd(a[0]).lv, self.pull(ex, a[1], a[2], ex.rd(a[3]), 'class').f['data'])
        H[U + 'broadcastClass'] = self.bclass
        H[TASK + '::send'] = lambda ex, this, a: self.push(ex, a[1], a[2], 'task', 'task', 1, self.deref(ex, a[0]))
        H[TASK + '::receive'] = lambda ex, this, a: ex.wr(ex.rd(a[0]).lv, Ptr(ex.alloc(self.pull(ex, a[1], a[2], 'task', 'task').f['data'], 'newtask'), None))
        H[TASK + '::broadcast'] = self.btask
        H['MPI_Send'] = lambda ex, this, a: self.push(ex, a[3], a[5], ex.rd(a[4]), self.tag(ex, a[2]), ex.rd(a[1]), buf(ex, ex.rd(a[0]), ex.rd(a[1])))
        H['MPI_Isend'] = H['MPI_Send']
        H['MPI_Wait'] = H['MPI_Request_free'] = lambda ex, this, a: 0
        H['MPI_Recv'], H['MPI_Probe'], H['MPI_Get_count'], H['MPI_Irecv'], H['MPI_Bcast'] = self.recv, self.probe, self.count, self.irecv, self.bcast
        H[PGM + '::waitStatus'] = lambda ex, this, a: 0
        H['getID'] = lambda ex, this, a: self.ids[int(ex.rd(this).tag[4:])]
        H['getLevelVector'] = lambda ex, this, a: ex.alloc(Vec([int(ex.rd(this).tag[4:]), 1], 'int'), 'level')
        H['now'] = lambda ex, this, a: Opq('time')
        for t in ('ompi_status_public_t', 'MPI_Status'):
            H['ctor:' + t] = lambda ex, this, a: Obj('status', {'MPI_ERROR': 0})
        H['startEvent'] = H['stopEvent'] = lambda ex, this, a: None
        for m in ('setZero', 'setFinished', 'run', 'fillDFGFromDSGU', 'getHierarchizationDims', 'getHierarchicalBases', 'getLMin', 'createKahanBuffer'):
            H[m] = H['method:' + m] = lambda ex, this, a: Opq('none')
        H['getTaskWorker'] = lambda ex, this, a: ex.alloc(Opq('taskWorker'), 'tw')
        H['getSparseGridWorker'] = lambda ex, this, a: ex.alloc(Opq('sgWorker'), 'sg')
        H['getCombinedUniDSGVector'] = lambda ex, this, a: ex.alloc(Vec((), None), 'dsgs')
        H['getLastTask'] = lambda ex, this, a: ex.alloc(Obj('smartptr', {'ptr': Ptr(self.tasks[0], None)}), 'last')
        mytasks = ex.alloc(Vec([Obj('smartptr', {'ptr': Ptr(t, None)}) for t in self.tasks], None), 'mytasks')
        H['getTasks'] = lambda ex, this, a: mytasks

    def tag(self, ex, x):
        v = self.deref(ex, x)
        return v.tag if isinstance(v, Opq) else v

    def deref(self, ex, lv):
        v = ex.rd(lv)
        while isinstance(v, Ptr):
            v = ex.rd(v.lv)
        return v

    def box(self, ex):
        return self.to if ex.rd(self.role) == 'manager' else self.back

    def add(self, ex, box, x):
        ex.wr(box, Vec(tuple(ex.rd(box).e) + (x,), None))

    def push(self, ex, dst, comm, tag, ty, n, data):
        m = ex.rd(self.role) == 'manager'
        ex.oblige('only manager and master exchange messages', ex.rd(self.role) != 'other')
        ex.oblige('message is addressed to the other side', eq(ex.rd(dst), self.grp if m else self.mgr))
        ex.oblige('messages between manager and groups use their communicator', self.tag(ex, comm) == 'global')
        self.add(ex, self.box(ex), Obj('msg', {'tag': tag, 'ty': ty, 'n': n, 'data': data}))
        return 0

    def find(self, ex, tag):
        m = ex.rd(self.role) == 'manager'
        if m:
            self.group(ex)
        q = self.back if m else self.to
        k = [i for i, x in enumerate(ex.rd(q).e) if x.f['tag'] == tag]
        ex.oblige('a message of the expected kind was sent', len(k) > 0)
        if not k:
            raise Unsupported('no message')
        return q, k[0]

    def check(self, ex, src, comm):
        ex.oblige('only manager and master exchange messages', ex.rd(self.role) != 'other')
        ex.oblige('receives from the other side', eq(ex.rd(src), self.grp if ex.rd(self.role) == 'manager' else self.mgr))
        ex.oblige('messages between manager and groups use their communicator', self.tag(ex, comm) == 'global')

    def pull(self, ex, src, comm, tag, ty):
        self.check(ex, src, comm)
        q, k = self.find(ex, tag)
        m = ex.rd(q).e[k]
        ex.oblige('received with the type sent', m.f['ty'] == ty)
        e = list(ex.rd(q).e)
        del e[k]
        ex.wr(q, Vec(tuple(e), None))
        return m

    def recv(self, ex, this, a):
        m = self.pull(ex, a[3], a[5], ex.rd(a[4]), self.tag(ex, a[2]))
        ex.oblige('buffer holds the message', le(m.f['n'], ex.rd(a[1])))
        put(ex, ex.rd(a[0]), m.f['n'], m.f['data'])
        return 0

    def probe(self, ex, this, a):
        self.check(ex, a[0], a[2])
        q, k = self.find(ex, ex.rd(a[1]))
        ex.wr(ex.rd(a[3]).lv, Obj('status', {'MPI_ERROR': 0, 'msg': ex.rd(q).e[k]}))
        return 0

    def count(self, ex, this, a):
        m = ex.rd(ex.rd(a[0]).lv).f['msg']
        ex.oblige('counts elements of the type sent', m.f['ty'] == self.tag(ex, a[1]))
        ex.wr(ex.rd(a[2]).lv, m.f['n'])
        return 0

    def irecv(self, ex, this, a):
        ex.oblige('receives from the other side', eq(ex.rd(a[3]), self.grp))
        ex.oblige('messages between manager and groups use their communicator', self.tag(ex, a[5]) == 'global')
        self.add(ex, self.posted, Obj('post', {'p': ex.rd(a[0]), 'n': ex.rd(a[1]), 'ty': self.tag(ex, a[2]), 'tag': ex.rd(a[4])}))
        return 0

    # within the group
    def bcheck(self, ex, root, comm):
        ex.oblige('the manager takes no part in broadcasts of the group', ex.rd(self.role) != 'manager')
        ex.oblige('broadcast from the master', eq(ex.rd(root), self.root))
        ex.oblige('broadcast in the group', self.tag(ex, comm) == 'local')

    def bpull(self, ex, ty):
        e = ex.rd(self.b).e
        ex.oblige('the master broadcasts as well', len(e) > 0)
        if not e:
            raise Unsupported('no broadcast')
        ex.wr(self.b, Vec(tuple(e[1:]), None))
        ex.oblige('master and others broadcast the same kind of data', e[0].f['ty'] == ty)
        return e[0]

    def bclass(self, ex, this, a):
        self.bcheck(ex, a[1], a[2])
        if ex.rd(self.role) == 'master':
            self.add(ex, self.b, Obj('msg', {'ty': 'class', 'n': 1, 'data': self.deref(ex, a[0])}))
        else:
            ex.wr(ex.rd(a[0]).lv, self.bpull(ex, 'class').f['data'])

    def btask(self, ex, this, a):
        self.bcheck(ex, a[1], a[2])
        if ex.rd(self.role) == 'master':
            self.add(ex, self.b, Obj('msg', {'ty': 'task', 'n': 1, 'data': self.deref(ex, a[0])}))
        else:
            ex.wr(ex.rd(a[0]).lv, Ptr(ex.alloc(self.bpull(ex, 'task').f['data'], 'newtask'), None))

    def bcast(self, ex, this, a):
        self.bcheck(ex, a[3], a[4])
        n, ty = ex.rd(a[1]), self.tag(ex, a[2])
        if ex.rd(self.role) == 'master':
            self.add(ex, self.b, Obj('msg', {'ty': ty, 'n': n, 'data': buf(ex, ex.rd(a[0]), n)}))
        else:
            m = self.bpull(ex, ty)
            ex.oblige('master and others broadcast the same number', eq(m.f['n'], n))
            put(ex, ex.rd(a[0]), n, m.f['data'])
        return 0

    def sink(self, ex, q, ret=None):
        """a function that uses what arrives: record its arguments"""
        def h(ex, this, a):
            vs = [ex.rd(x) for x in a]
            for i, v in enumerate(vs):
                if isinstance(v, Obj) and v.cls == 'smartptr':
                    vs[i] = v.f['ptr']
                if isinstance(vs[i], Ptr):
                    vs[i] = ex.rd(vs[i].lv)
            self.add(ex, self.calls, Obj('call', dict({'name': q, 'role': ex.rd(self.role)}, **{'a%d' % i: v for i, v in enumerate(vs)})))
            return ret(ex) if ret else None
        ex.hooks[q] = h

    def group(self, ex):
        """the process group serves the request that was sent"""
        if ex.rd(self.ran):
            return
        ex.wr(self.ran, True)
        before = ex.rd(self.role)
        for r in ('master', 'other'):
            ex.wr(self.role, r)
            ex.invoke(self.P.find(PGW + '::wait'), self.worker, [])
            if r == 'master':
                for m in ex.rd(self.to).e:
                    ex.oblige('the master receives everything that is sent to it', False)
        ex.wr(self.role, before)
        for m in ex.rd(self.b).e:
            ex.oblige('the others take part in all broadcasts', False)

    def finish(self, ex):
        self.group(ex)
        for p in ex.rd(self.posted).e:
            ms = ex.rd(self.back).e
            k = [i for i, x in enumerate(ms) if x.f['tag'] == p.f['tag']]
            ex.oblige('the group answers', len(k) > 0)
            if k:
                m = ms[k[0]]
                ex.oblige('answer has the expected type', m.f['ty'] == p.f['ty'])
                ex.oblige('answer fits', le(m.f['n'], p.f['n']))
                put(ex, p.f['p'], m.f['n'], m.f['data'])
                ex.wr(self.back, Vec(tuple(ms[:k[0]] + ms[k[0] + 1:]), None))
        for m in ex.rd(self.back).e:
            ex.oblige('the manager receives everything that is sent to it', False)


def buf(ex, p, n):
    return Wire.buf(None, ex, p, n)


def put(ex, p, n, src):
    Wire.put(None, ex, p, n, src)


def g_proto(ex, P, op, rtl):
    W = Proto(ex, P, rtl)
    s = [ex.alloc(Opq('string%d' % i), 's%d' % i) for i in range(4)]
    S = [Opq('string%d' % i) for i in range(4)]
    one = lambda x: Vec([x], 'std::basic_string<char>')
    d, w = 3, PGW + '::'
    want, sink = None, None

    def coords():
        n = ex.fresh('points', 'int', 1, I31 // d)
        f = ex.freshfun('x', 'real')
        ex.hooks['getDim'] = lambda ex, this, a: d
        return n, ex.alloc(SVec(mul(n, d), lambda j: f(zt(j)), 'double'), 'serial'), SVec(n, lambda i: Vec([f(zt(add(mul(i, d), k))) for k in range(d)], 'double'), 'std::vector<double>')
    run = lambda name, args, np=None: ex.val(ex.invoke(P.find(PGM + '::' + name, nparams=np if np is not None else len(args)), W.manager, args))
    after = None
    if op == 'updateCombiParameters':
        sink, want = 'setCombiParameters', [Opq('new')]
        args = [ex.alloc(Opq('new'), 'new')]
    elif op in ('addTask', 'refreshTask', 'recompute', 'rescheduleAddTask'):
        sink, want = 'initializeTask', [Opq('task1')]
        args = [ex.alloc(Ptr(W.tasks[1], None), 'p')]
    elif op == 'runfirst':
        sink, want = 'initializeTask', [Opq('task1')]
        args = [ex.alloc(Ptr(W.tasks[1], None), 'p')]
    elif op == 'parallelEval':
        lv = [ex.fresh('l%d' % k, 'int', 1, 30) for k in range(d)]
        ex.hooks['getDim'] = lambda ex, this, a: d
        sink, want = 'parallelEvalUniform', [S[0], Vec(lv, 'int')]
        args = [ex.alloc(Vec(lv, 'int'), 'leval'), s[0]]
    elif op == 'writeSparseGridMinMaxCoefficients':
        sink, want, w = 'writeMinMaxCoefficients', [S[0]], NS + 'SparseGridWorker<double>::'
        args = [s[0]]
    elif op == 'combineThirdLevelFileBased':
        sink, want, args = op, [S[0], S[1], one(S[2]), one(S[3])], s
    elif op == 'combineThirdLevelFileBasedWrite':
        sink, want, args = op, [S[0], S[1]], s[:2]
    elif op == 'combineThirdLevelFileBasedReadReduce':
        sink, want, args = op, [one(S[0]), one(S[1]), False, False], s[:2]
    elif op in ('writeDSGsToDisk', 'readDSGsFromDisk'):
        sink, want, args = op, [S[0]] + ([Str('')] if op[0] == 'w' else [False]), s[:1]
    elif op == 'writeInterpolatedValuesPerGrid':
        n, c, pts = coords()
        sink, want, args = op, [pts, S[0]], [c, s[0]]
    elif op.startswith('interpolateValues'):
        n, c, pts = coords()
        r = ex.freshfun('r', 'real')
        q = op.split()[-1]
        vals = ex.alloc(SVec(n if q == 'values' else 0, lambda j: ex.freshfun('old', 'real')(zt(j)), 'double'), 'values')
        if q != 'values':
            ex.wr(vals, Vec((), 'double'))
        args = [c, vals, ex.alloc(Ptr(ex.alloc(Opq('request'), 'rq'), None) if q == 'values' else NULL, 'request'), ex.alloc(Str('prefix' if q == 'file' else ''), 'prefix')]
        sink, want = ('writeInterpolatedValuesSingleFile', [pts, Str('prefix')]) if q == 'file' else ('interpolateValues', [pts])
        W.sink(ex, w + 'interpolateValues', lambda ex: SVec(n, lambda j: r(zt(j)), 'double'))
        if q == 'values':
            after = lambda: same(ex, ex.rd(vals), SVec(n, lambda j: r(zt(j)), 'double'))
    elif op == 'doDiagnostics':
        sink, want, args = 'doDiagnostics()', [W.ids[1]], [ex.alloc(W.ids[1], 'id')]
    elif op == 'rescheduleRemoveTask':
        sink, want, w = 'removeTask', [1], NS + 'TaskWorker<double>::'
        args = [ex.alloc(Vec([1, 1], 'int'), 'level')]
    elif op.startswith('getLpNorms'):
        nv = [ex.fresh('norm%d' % k, 'real') for k in range(3)]
        sink, want = 'getLpNorms', [int(op[-1])]
        m = ex.alloc(Bag('map', []), 'norms')
        args = [ex.alloc(int(op[-1]), 'p'), m]
        W.sink(ex, w + 'getLpNorms', lambda ex: Vec(nv, 'double'))

        def after():
            it = ex.rd(m).items
            return and_(len(it) == 3, *[or_(*[and_(eq(k, i), eq(v, x)) for k, v in it]) for i, x in zip(W.ids, nv)])
        op = 'getLpNorms'
    if sink == 'doDiagnostics()':
        ex.hooks['method:doDiagnostics'] = lambda ex, this, a: W.add(ex, W.calls, Obj('call', {'name': w + sink, 'role': ex.rd(W.role), 'a0': W.ids[int(ex.rd(this).tag[4:])]}))
        ex.hooks[TASK + '::doDiagnostics'] = ex.hooks['method:doDiagnostics']
    elif op not in ('getLpNorms',) and not (op.startswith('interpolateValues') and sink == 'interpolateValues'):
        W.sink(ex, w + sink)
        if w == NS + 'TaskWorker<double>::' or w == NS + 'SparseGridWorker<double>::':
            ex.hooks[sink] = ex.hooks['method:' + sink] = ex.hooks.pop(w + sink)
    ret = run(op.split()[0], args)
    W.finish(ex)
    calls = ex.rd(W.calls).e
    for who in ('master', 'other'):
        cs = [c for c in calls if c.f['role'] == who]
        ex.oblige('every process acts on the request once', len(cs) == 1 and cs[0].f['name'].split('::')[-1] == sink)
        if len(cs) == 1:
            for i, x in enumerate(want):
                ex.oblige('argument %d is the one given to the manager' % i, same2(ex, cs[0].f.get('a%d' % i), x))
    if op == 'rescheduleRemoveTask':
        ex.oblige('the task removed is returned to the manager', isinstance(ret, Ptr) and same(ex, ex.rd(ret.lv), Opq('task1')))
        left = ex.rd(W.manager).f['tasks_']
        ex.oblige('the manager keeps all other tasks', [ex.rd(x.lv).tag for x in left.e] == ['task0', 'task2'])
    if after:
        ex.oblige('values returned are those of the group', after())


def same2(ex, a, b):
    if isinstance(b, Str):
        return isinstance(a, Str) and a.s == b.s
    if isinstance(b, bool) and isinstance(a, bool):
        return a == b
    return same(ex, a, b)


OPS = ['updateCombiParameters', 'addTask', 'runfirst', 'refreshTask', 'recompute', 'rescheduleAddTask', 'parallelEval', 'writeSparseGridMinMaxCoefficients',
       'combineThirdLevelFileBased', 'combineThirdLevelFileBasedWrite', 'combineThirdLevelFileBasedReadReduce', 'writeDSGsToDisk', 'readDSGsFromDisk',
       'writeInterpolatedValuesPerGrid', 'interpolateValues only', 'interpolateValues values', 'interpolateValues file', 'doDiagnostics', 'rescheduleRemoveTask',
       'getLpNorms 0', 'getLpNorms 1', 'getLpNorms 2']


# ---------------------------------------------------------------- manager -> all process groups
PM = NS + 'ProcessManager<double>'


class Groups:
    """ghost state of the manager of three process groups; requests to a group by their contracts (above): recorded"""
    def __init__(self, ex, P, n=3):
        self.P, self.n = P, n
        self.log = ex.alloc(Vec((), None), 'glog')
        self.pg = [ex.alloc(Opq('pg%d' % i), 'pg') for i in range(n)]
        self.pgs = ex.alloc(Vec([Obj('smartptr', {'ptr': Ptr(x, None)}) for x in self.pg], None), 'pgroups')
        self.tasks = [ex.alloc(Opq('task%d' % k), 'task') for k in range(4)]
        self.tl = ex.alloc(Vec([Ptr(t, None) for t in self.tasks], 'combigrid::Task<double> *'), 'tasks')
        self.ids = [ex.fresh('id%d' % k, 'int', 0, 2**64 - 1) for k in range(4)]
        for i in range(4):
            for j in range(i):
                ex.assume(not_(eq(self.ids[i], self.ids[j])))
        self.third = 1
        self.m = ex.alloc(Obj(PM, {'pgroups_': self.pgs, 'tasks_': self.tl, 'params_': Opq('parameters'), 'loadModel_': Opq('loadModel'), 'rescheduler_': Opq('rescheduler'),
                                   'levelVectorToLastTaskDuration_': Opq('durations'), 'thirdLevel_': Opq('thirdLevel'),
                                   'thirdLevelPGroup_': self.pgs.i(self.third)}), 'manager')
        H = ex.hooks
        for f in ('updateCombiParameters', 'combine', 'combineSystemWide', 'runnext', 'initDsgus', 'exit', 'parallelEval', 'doDiagnostics', 'interpolateValues', 'writeInterpolatedValuesPerGrid',
                  'writeSparseGridMinMaxCoefficients', 'writeDSGsToDisk', 'readDSGsFromDisk', 'waitForThirdLevelCombiResult', 'waitForThirdLevelSizeUpdate', 'combineThirdLevel',
                  'combineThirdLevelFileBased', 'combineThirdLevelFileBasedWrite', 'combineThirdLevelFileBasedReadReduce', 'pretendCombineThirdLevelForWorkers', 'runfirst',
                  'rescheduleAddTask', 'reduceLocalAndRemoteSubspaceSizes', 'pretendReduceLocalAndRemoteSubspaceSizes'):
            H[PGM + '::' + f] = self.rec(f)
        for f in ('waitStatus', 'getStatus'):
            H[PGM + '::' + f] = (lambda f: lambda ex, this, a: self.rec(f)(ex, this, a) and 0)(f)
        H[PGM + '::hasTask'] = lambda ex, this, a: or_(*[eq(ex.rd(a[0]), i) for i, g in zip(self.ids, self.of) if g == self.who(ex, this)])
        H['getID'] = lambda ex, this, a: self.ids[int(ex.rd(this).tag[4:])]
        H['startEvent'] = H['stopEvent'] = H['setAttribute'] = lambda ex, this, a: None
        H['receiveDiagnostics'] = H['method:receiveDiagnostics'] = lambda ex, this, a: None
        T = NS + 'ThirdLevelUtils::'
        for f in ('signalReadyToCombine', 'signalReadyToCombineFile', 'signalReadyToUnifySubspaceSizes', 'signalReady'):
            H[T + f] = lambda ex, this, a: None
        H['MPI_Wait'] = lambda ex, this, a: 0
        H['quiet_NaN'] = lambda ex, this, a: ex.fresh('nan', 'real')
        self.of = [0, 1, 2, 1]                       # group of a task

    def who(self, ex, this):
        return int(ex.rd(this).tag[2:])

    def rec(self, f):
        def h(ex, this, a):
            vs = []
            for x in a:
                v = ex.rd(x)
                if isinstance(v, Ptr) and v.lv is not None:
                    v = Obj('at', {'v': ex.rd(v.lv)})
                vs.append(v)
            self.add(ex, Obj('call', dict({'name': f, 'g': self.who(ex, this), 'np': len(a)}, **{'a%d' % i: v for i, v in enumerate(vs)})))
            return True
        return h

    def add(self, ex, x):
        ex.wr(self.log, Vec(tuple(ex.rd(self.log).e) + (x,), None))

    def run(self, ex, f, args):
        return ex.val(ex.invoke(self.P.find(PM + '::' + f, nparams=len(args)), self.m, args))

    def check(self, ex, want, waited=()):
        """want: list of (name, group, arguments); waited: groups whose status is waited for after the last request to them"""
        log = list(ex.rd(self.log).e)
        calls = [c for c in log if c.f['name'] not in ('waitStatus', 'getStatus')]
        left = list(calls)
        for name, g, args in want:
            k = [c for c in left if c.f['name'] == name and c.f['g'] == g]
            ex.oblige('group %d gets the request %s' % (g, name), len(k) > 0)
            if k:
                left.remove(k[0])
                for i, x in enumerate(args):
                    if x is not None:
                        ex.oblige('%s: argument %d is the one given' % (name, i), same2(ex, k[0].f.get('a%d' % i), x))
        for c in left:
            ex.oblige('no other request is sent: %s to group %d' % (c.f['name'], c.f['g']), False)
        for g in waited:
            last = max([i for i, c in enumerate(log) if c.f['g'] == g and c.f['name'] not in ('waitStatus', 'getStatus')] + [-1])
            ex.oblige('group %d has finished on return' % g, any(c.f['g'] == g and c.f['name'] in ('waitStatus', 'getStatus') for c in log[last + 1:]))


def g_all(ex, P, op):
    G = Groups(ex, P)
    n, t = G.n, G.third
    s = [ex.alloc(Opq('string%d' % i), 's%d' % i) for i in range(4)]
    S = [Opq('string%d' % i) for i in range(4)]
    every, third = range(n), [g for g in range(n) if g == t]
    T = NS + 'ThirdLevelUtils::'
    others = [g for g in range(n) if g != t]
    if op in ('combine', 'runnext', 'initDsgus', 'combineSystemWide'):
        G.run(ex, op, [])
        G.check(ex, [(op, g, []) for g in every], every)
    elif op == 'exit':
        G.run(ex, op, [])
        G.check(ex, [(op, g, []) for g in every])
    elif op == 'updateCombiParameters':
        G.run(ex, op, [])
        G.check(ex, [(op, g, [Opq('parameters')]) for g in every], every)
    elif op == 'parallelEval':
        l = Vec([ex.fresh('l%d' % k, 'int', 1, 30) for k in range(2)], 'int')
        for g in every:
            ex.wr(G.log, Vec((), None))
            G.run(ex, op, [ex.alloc(l, 'l'), s[0], ex.alloc(g, 'g')])
            G.check(ex, [(op, g, [l, S[0]])], [g])
    elif op == 'doDiagnostics':
        for k in range(4):
            ex.wr(G.log, Vec((), None))
            G.run(ex, op, [ex.alloc(G.ids[k], 'id')])
            G.check(ex, [(op, G.of[k], [G.ids[k]])])
    elif op == 'writeSparseGridMinMaxCoefficients':
        G.run(ex, op, [s[0]])
        G.check(ex, [(op, n - 1, [S[0]])])
    elif op in ('writeDSGsToDisk', 'readDSGsFromDisk'):
        G.run(ex, op, [s[0]])
        G.check(ex, [(op, t, [S[0]])], [t])
    elif op in ('interpolateValues', 'writeInterpolatedValuesSingleFile', 'writeInterpolatedValuesPerGrid'):
        N = ex.fresh('points', 'int', 1, I31 // 3)
        x, r = ex.freshfun('x', 'real', 2), ex.freshfun('r', 'real')
        pts = ex.alloc(SVec(N, lambda i: SVec(3, lambda k: x(zt(i), zt(k)), 'double'), 'std::vector<double>'), 'points')
        ser = SVec(mul(N, 3), lambda j: x(zt(tdiv(j, 3)), zt(sub(j, mul(3, tdiv(j, 3))))), 'double')
        ex.hooks[NS + 'serializeInterpolationCoords'] = lambda ex, this, a: ser       # contract: coordinates to one vector
        empty = lambda v: isinstance(v, (Vec, SVec)) and ex.provable(eq(v.n, 0))
        if op == 'interpolateValues':
            base = G.rec('interpolateValues')

            def interp(ex, this, a):
                base(ex, this, a)
                v = ex.rd(a[1])
                q = ex.rd(a[2]) if len(a) > 2 else NULL
                if isinstance(q, Ptr) and q.lv is not None:
                    ex.oblige('room for all values', eq(v.n, N))
                    ex.oblige('the group that answers is the one that collects', G.who(ex, this) == n - 1)
                    ex.wr(a[1], SVec(N, lambda j: r(zt(j)), 'double'))
                else:
                    ex.oblige('the others return no values', eq(v.n, 0))
            ex.hooks[PGM + '::interpolateValues'] = interp
            v = G.run(ex, op, [pts])
            G.check(ex, [(op, g, [ser]) for g in every])
            ex.oblige('values returned are those of the group that collects', same(ex, v, SVec(N, lambda j: r(zt(j)), 'double')))
        elif op == 'writeInterpolatedValuesPerGrid':
            G.run(ex, op, [pts, s[0]])
            G.check(ex, [(op, g, [ser, S[0]]) for g in every])
        else:
            G.run(ex, op, [pts, s[0]])
            G.check(ex, [('interpolateValues', g, [ser]) for g in every])
            for c in ex.rd(G.log).e:
                v = c.f.get('a3')
                ex.oblige('one group, the one that collects, writes the file', same2(ex, v, S[0]) if c.f['g'] == n - 1 else (v is None or isinstance(v, Str) and v.s == ''))
    elif op.startswith('combineThirdLevel') or op == 'pretendCombineThirdLevelForWorkers':
        op, first = (op.split() + [None])[:2]
        ex.hooks[T + 'fetchInstruction'] = lambda ex, this, a: Str(first or 'write_ok')
        W = [('waitForThirdLevelCombiResult', g, []) for g in others]
        C = [('combineSystemWide', g, []) for g in every]
        if op == 'combineThirdLevel':
            G.run(ex, op, [])
            G.check(ex, C + W + [(op, t, [None, Opq('parameters'), first == 'send_first'])], every)
        elif op == 'pretendCombineThirdLevelForWorkers':
            G.run(ex, op, [])
            G.check(ex, C + W + [(op, t, [Opq('parameters')])], every)
        elif op == 'combineThirdLevelFileBased':
            G.run(ex, op, s)
            G.check(ex, C + W + [(op, t, S)], [t])
        elif op == 'combineThirdLevelFileBasedWrite':
            G.run(ex, op, s[:2])
            G.check(ex, C + [(op, t, S[:2])], [t])
        else:
            G.run(ex, op, s[:2])
            G.check(ex, W + [(op, t, S[:2])], every)
    elif op.startswith('unify') or op.startswith('pretendUnify'):
        op, first, extra = (op.split() + [None, None])[:3]
        ex.hooks[T + 'fetchInstruction'] = lambda ex, this, a: Str(first)
        a, b = [Vec([ex.fresh('%s%d' % (x, k), 'int', 1, 1 << 50) for k in range(3)], 'unsigned long') for x in ('former', 'now')]
        for i in range(3):
            ex.assume(le(b.e[i], a.e[i]) if extra == 'extra' else le(a.e[i], b.e[i]) if first else eq(a.e[i], b.e[i]))
        ex.hooks[PGM + '::getFormerDsguDataSizePerWorker'] = lambda ex, this, x: ex.alloc(a, 'former')
        ex.hooks[PGM + '::getDsguDataSizePerWorker'] = lambda ex, this, x: ex.alloc(b, 'now')
        W = [('waitForThirdLevelSizeUpdate', g, []) for g in others] if extra != 'extra' else []
        try:
            if first:
                v = G.run(ex, op, [ex.alloc(extra == 'extra', 'extra')])
            else:
                v = G.run(ex, op, [])
        except Throw:
            ex.oblige('sizes that fit raise no error', False)
            return
        if first:
            G.check(ex, W + [('reduceLocalAndRemoteSubspaceSizes', t, [None, first == 'send_first', extra == 'extra'])], every)
        else:
            G.check(ex, W + [('pretendReduceLocalAndRemoteSubspaceSizes', t, [])], every)
        ex.oblige('number of values reported is the sum over the workers', eq(v, add(*b.e) if False else add(add(b.e[0], b.e[1]), b.e[2])))
    elif op == 'getLpNorms':
        nv = [ex.fresh('norm%d' % k, 'real') for k in range(4)]
        p = ex.fresh('p', 'int', 0, 2)

        def norms(ex, this, a):
            ex.oblige('norm is the one asked for', eq(ex.rd(a[0]), p))
            g = G.who(ex, this)
            ex.wr(a[1], Bag('map', list(ex.rd(a[1]).items) + [(G.ids[k], nv[k]) for k in range(4) if G.of[k] == g]))
            G.rec(op)(ex, this, a)
        ex.hooks[PGM + '::getLpNorms'] = norms
        v = G.run(ex, op, [ex.alloc(p, 'p')])
        G.check(ex, [(op, g, []) for g in every])
        ex.oblige('norms of all tasks are returned', and_(len(v.items) == 4, *[or_(*[and_(eq(k, i), eq(y, x)) for k, y in v.items]) for i, x in zip(G.ids, nv)]))
    elif op == 'runfirst':
        ex.hooks[PM + '::sortTasks'] = lambda ex, this, a: None
        G.run(ex, op, [ex.alloc(True, 'init')])
        log = [c for c in ex.rd(G.log).e if c.f['name'] == 'runfirst']
        ex.oblige('every task is started once', sorted(c.f['a0'].f['v'].tag for c in log) == ['task%d' % k for k in range(4)])
        init = [c.f['g'] for c in ex.rd(G.log).e if c.f['name'] == 'initDsgus']
        ex.oblige('every group prepares its sparse grids once', sorted(init) == list(every))
    else:
        raise Unsupported(op)


ALL = ['updateCombiParameters', 'combine', 'combineSystemWide', 'runnext', 'initDsgus', 'exit', 'parallelEval', 'doDiagnostics', 'writeSparseGridMinMaxCoefficients', 'writeDSGsToDisk',
       'readDSGsFromDisk', 'interpolateValues', 'writeInterpolatedValuesSingleFile', 'writeInterpolatedValuesPerGrid', 'combineThirdLevel send_first', 'combineThirdLevel recv_first',
       'combineThirdLevelFileBased', 'combineThirdLevelFileBasedWrite', 'combineThirdLevelFileBasedReadReduce', 'pretendCombineThirdLevelForWorkers', 'unifySubspaceSizesThirdLevel send_first extra',
       'unifySubspaceSizesThirdLevel recv_first extra', 'unifySubspaceSizesThirdLevel send_first own', 'unifySubspaceSizesThirdLevel recv_first own', 'pretendUnifySubspaceSizesThirdLevel', 'getLpNorms', 'runfirst']


GETTERS = {CP: ['getLMin', 'getLMax', 'getLMaxReductionVector', 'getBoundary', 'getDim', 'getNumGrids', 'getHierarchizationDims', 'getHierarchicalBases',
                'getParallelization', 'getNumberOfCombinations', 'getCombinationVariant', 'getChunkSizeInMebibybtePerThread', 'getThirdLevelHost',
                'getThirdLevelPort', 'getThirdLevelPG', 'getDecomposition', 'getForwardDecomposition', 'getLevelsDict', '.coeffs_'],
           TASK: ['getDim', 'getLevelVector', 'getBoundary', 'getID', 'getCoefficient', 'isFinished', '.faultCriterion_'],
           DI: ['.task_id', '.duration', '.simtime_now', '.real_dt', '.pgroup_id', '.nProcesses'],
           FI: ['.numFaults_', '.iterationFaults_', '.globalRankFaults_'],
           SF: ['.faultsInfo_'], WF: ['.k_', '.lambda_', '.faultMaster_', '.numberOfCombis_']}


def groups(tier):
    G = []
    for cls in GETTERS:
        for g in GETTERS[cls]:
            G.append(Group('%s %s' % (cls[len(NS):], g.lstrip('.')), g_members, 'state.cpp', dict(cls=cls, getter=g), [cls + '::serialize', cls + '::' + g] if g[0] != '.' else [cls + '::serialize']))
    G.append(Group('CombiParameters coefficients', g_coeffs, 'state.cpp', dict(n=3), [CP + '::serialize', CP + '::getCoeff'], level='bounded', bound='3 tasks'))
    U = NS + 'MPIUtils::'
    ta = dict(targs=[CP])
    G.append(Group('sendClass, receiveClass', g_p2p, 'state.cpp', dict(snd=(U + 'sendClass', ta), rcv=(U + 'receiveClass', ta), ptr=False, tagged=True), [U + 'sendClass', U + 'receiveClass']))
    G.append(Group('Task send, receive', g_p2p, 'state.cpp', dict(snd=(TASK + '::send', {}), rcv=(TASK + '::receive', {}), ptr=True, tagged=False), [TASK + '::send', TASK + '::receive']))
    G.append(Group('broadcastClass', g_bcast, 'state.cpp', dict(fn=(U + 'broadcastClass', ta), ptr=False), [U + 'broadcastClass', U + 'broadcastContainer']))
    G.append(Group('Task broadcast', g_bcast, 'state.cpp', dict(fn=(TASK + '::broadcast', {}), ptr=True), [TASK + '::broadcast']))
    for T, et in (('std::basic_string<char>', 'char'), ('std::vector<int>', 'int'), ('std::vector<double>', 'double')):
        G.append(Group('broadcastContainer ' + T, g_container, 'state.cpp', dict(T=T, et=et), [U + 'broadcastContainer']))
    for d in range(1, 7):
        G.append(Group('coordinates to one vector, dim=%d' % d, g_serialize, 'state.cpp', dict(d=d), [NS + 'serializeInterpolationCoords']))
        G.append(Group('coordinates from one vector, dim=%d' % d, g_deserialize, 'state.cpp', dict(d=d), [NS + 'deserializeInterpolationCoords']))
    for op in OPS:
        for rtl in (False, True):
            G.append(Group('manager to group: %s%s' % (op, ', arguments right to left' if rtl else ''), g_proto, 'manager.cpp', dict(op=op, rtl=rtl),
                           [PGM + '::' + op.split()[0], PGW + '::wait']))
    for op in ALL:
        G.append(Group('manager to all groups: ' + op, g_all, 'procmanager.cpp', dict(op=op), [PM + '::' + op.split()[0]], level='bounded', bound='3 process groups'))
    return G


def harnesses(tier):
    src = sorted(os.path.relpath(x, F.REPO) for x in glob.glob(os.path.join(F.REPO, 'src/*/*.cpp')))
    return [Harness('h_p15.cpp', sources=src, np=3, timeout=300, flags=['-DOMPI_SKIP_MPICXX'], libs=['-lglpk'],
                    bound='3 processes: 60 (thorough 600) random parameter sets of up to 6 dimensions and 40 tasks, random tasks, containers of up to 70000 elements, coordinates of dimension 1..6; a manager and a group of two serving 14 requests',
                    standin=[CP + '::serialize, getCoeff (any number of tasks)', 'abstraction::getMPIDatatype', 'Boost archives of the classes sent'])]
