"""P11: socket transfers."""
from .dfgcommon import *
from cver.runner import Group, Harness
from cver.houdini import Cut
from cver.execu import BOUNDS

LEVEL = 'proof'
ASSUMPTIONS = ['recv(2) and send(2): any result from -1 to the requested length; a positive result k transfers exactly the next k bytes of the stream',
               'lengths and chunk sizes are positive (asserted by the code) and below 2^60; flags do not request peeking',
               'std::stoull inverts std::to_string (the decimal prefix of prefixed messages; bounded harness)',
               'byte order correction of data received into a file is not implemented by the library (documented there) and not claimed']
TRUSTED = ['operating system sockets', 'std::string, std::ofstream']
NOTE = 'send, receive, chunked/reducing receive and forwarding proved for every length, chunk size and split of the transfer; prefix parsing and byte order of complex values bounded'
NS = 'combigrid::'
CS = NS + 'ClientSocket::'
BIG = 1 << 60
OKFLAGS = (0, 0x100, 0x4000)      # none, MSG_WAITALL, MSG_NOSIGNAL


def char(ex, f):
    i = z3.Int('i')
    ex.fact(z3.ForAll([i], z3.And(f(i) >= -128, f(i) <= 127), patterns=[f(i)]))
    BOUNDS[f.name() + '()'] = (-128, 127)


class Net:
    """ghost state of the environment: bytes S(0..) arriving on the socket, consumed up to pos; bytes sent so far"""
    def __init__(self, ex, limit=None):
        self.S = ex.freshfun('S', 'int')
        self.pos = ex.alloc(0, 'gpos')
        self.opos = ex.alloc(0, 'gopos')
        self.o0 = ex.freshfun('O', 'int')
        self.out = ex.alloc(SVec(0, lambda j: self.o0(zt(j)), 'char'), 'gout')
        self.fpos = ex.alloc(0, 'gfpos')
        self.f0 = ex.freshfun('F', 'int')
        self.file = ex.alloc(SVec(0, lambda j: self.f0(zt(j)), 'char'), 'gfile')
        self.errno = ex.alloc(0, 'errno')
        self.fd = ex.fresh('fd', 'int', 1, (1 << 31) - 1)
        self.fd2 = ex.fresh('fd2', 'int', 1, (1 << 31) - 1)
        self.limit = limit
        for f in (self.S, self.o0, self.f0):
            char(ex, f)
        ex.hooks['recv'] = lambda ex, this, a: self.recv(ex, [ex.rd(x) for x in a])
        ex.hooks['send'] = lambda ex, this, a: self.send(ex, [ex.rd(x) for x in a])
        ex.hooks['perror'] = lambda ex, this, a: None
        ex.hooks['__errno_location'] = lambda ex, this, a: Ptr(self.errno, None)
        ex.hooks['method:write'] = lambda ex, this, a: self.fwrite(ex, [ex.rd(x) for x in a])
        ex.hooks['method:seekp'] = lambda ex, this, a: ex.wr(self.fpos, ex.rd(a[0]))
        ex.hooks['ctor:std::fpos<__mbstate_t>'] = lambda ex, this, a: ex.rd(a[0])
        ex.hooks['method:close'] = lambda ex, this, a: None

    def sock(self, ex, fd=None):
        return ex.alloc(Obj('ClientSocket', {'sockfd_': self.fd if fd is None else fd, 'initialized_': True, 'remotePort_': 1, 'remoteHost_': Opq('string')}), 'sock')

    def put(self, ex, p, n, src):
        """write n elements src(0..) to the memory at p"""
        v = ex.rd(p.lv)
        if isscalar(v) and p.idx is None:
            ex.wr(p.lv, ite(lt(0, n), src(0), v))
            return 1
        o = p.idx if p.idx is not None else 0
        if isinstance(v, Vec):
            v = SVec(v.n, (lambda v: lambda j: elem(v, j))(v), v.ty)
        ex.wr(p.lv, SVec(v.n, lambda j: ite(and_(le(o, j), lt(j, add(o, n))), src(sub(j, o)), v.fn(j)), v.ty))
        return sub(v.n, o)

    def recv(self, ex, a):
        fd, p, n, fl = a
        ex.oblige('receives from the own connection', eq(fd, self.fd))
        ex.oblige('receives without peeking', or_(*[eq(fl, x) for x in OKFLAGS]))
        pos = ex.rd(self.pos)
        if self.limit is not None:
            ex.oblige('does not receive data behind the message', le(add(pos, n), self.limit))
        r = ex.fresh('r', 'int', -1, BIG)
        ex.fact(zt(le(r, n)))
        k = r if ex.branch(lt(0, r)) else 0
        cap = self.put(ex, p, k, lambda j: self.S(zt(add(pos, j))))
        ex.oblige('receive buffer large enough', le(n, cap))
        ex.wr(self.pos, add(pos, k))
        return r

    def send(self, ex, a):
        fd, p, n, fl = a
        ex.oblige('sends on the own connection', eq(fd, self.fd2 if self.two else self.fd))
        r = ex.fresh('w', 'int', -1, BIG)
        ex.fact(zt(le(r, n)))
        k = ite(lt(0, r), r, 0)
        v = ex.rd(p.lv)
        o = p.idx if p.idx is not None else 0
        ex.oblige('sends only data of the message', le(add(o, n), 1 if isscalar(v) else v.n))
        self.append(ex, k, (lambda j: v) if isscalar(v) else (lambda j: elem(v, add(o, j))))
        return r
    two = False

    def append(self, ex, k, src):
        out, op = ex.rd(self.out), ex.rd(self.opos)
        ex.wr(self.out, SVec(add(op, k), lambda j: ite(lt(j, op), out.fn(j), src(sub(j, op))), 'char'))
        ex.wr(self.opos, add(op, k))

    def fwrite(self, ex, a):
        p, n = a[0], a[1]
        v, f, fp = ex.rd(p.lv), ex.rd(self.file), ex.rd(self.fpos)
        o = p.idx if p.idx is not None else 0
        ex.oblige('writes only received data', le(add(o, n), v.n))
        ex.oblige('no gap in the file', le(fp, f.n))
        e = add(fp, n)
        ex.wr(self.file, SVec(ite(lt(f.n, e), e, f.n), lambda j: ite(and_(le(fp, j), lt(j, e)), elem(v, add(o, sub(j, fp))), f.fn(j)), 'char'))
        ex.wr(self.fpos, e)


def mod_(t, W):
    return divmod_(t, W)[1]


def div_(t, W):
    return divmod_(t, W)[0]


def divmod_(t, W):
    """t div W, t mod W with multiples of W split off"""
    t = simp(t)
    if isc(t):
        return t // W, t % W
    q, rest = 0, 0
    for c in (t.children() if z3.is_add(t) else [t]):
        k, x = 1, c
        if z3.is_mul(c) and len(c.children()) == 2 and z3.is_int_value(c.children()[0]):
            k, x = c.children()[0].as_long(), c.children()[1]
        elif z3.is_int_value(c):
            k, x = c.as_long(), 1
        q = add(q, mul(k // W, x))
        rest = add(rest, mul(k % W, x))
    rest = simp(rest)
    if isc(rest):
        return simp(add(q, rest // W)), rest % W
    return simp(add(q, rest / W)), rest % W


def scal(W):
    def f(v0, p0):
        d = lambda p: sub(p, p0)
        if isinstance(v0, bool) or (isterm(v0) and z3.is_bool(v0)):
            return [('fun', lambda p: v0), ('pred', lambda x, p: or_(x, eq(p, p0))), ('pred', lambda x, p: or_(not_(x), eq(p, p0)))]
        c = [('fun', lambda p: add(v0, d(p))), ('fun', lambda p: sub(v0, d(p))), ('fun', lambda p: v0)]
        if W > 1:
            c += [('fun', lambda p: add(v0, div_(d(p), W))), ('fun', lambda p: add(v0, mod_(d(p), W))), ('fun', lambda p: sub(v0, div_(d(p), W))), ('fun', lambda p: add(v0, sub(d(p), mod_(d(p), W))))]
        return c + [('pred', lambda x, p: or_(lt(0, x), and_(eq(p, p0), eq(x, v0)))), ('pred', lambda x, p: or_(le(0, x), and_(eq(p, p0), eq(x, v0)))),
                    ('pred', lambda x, p: le(0, x)), ('pred', lambda x, p: le(x, BIG)), ('pred', lambda x, p: lt(x, W))]
    return f


def cutter(ex, main, total, arrays, W=1):
    """cut loops outside of other loops; progress = ghost counter main, at most total"""
    def cut(ex, n):
        if ex.loopdepth != 0:
            return None
        p0 = ex.rd(main)
        return Cut(main.root, p0, [lambda x, p: le(p0, x), lambda x, p: le(x, total), lambda x, p: lt(x, total)], scal(W), lambda root, v0: arrays(ex, root, v0, p0), W)
    ex.cut = cut


def length(ex, nm='len'):
    return ex.fresh(nm, 'int', 1, BIG)


def buffer(ex, n, ty='char', nm='b'):
    g = ex.freshfun(nm, 'int' if ty == 'char' else 'real')
    if ty == 'char':
        char(ex, g)
    return ex.alloc(SVec(n, lambda j: g(zt(j)), ty), 'buf'), g


def g_recvall(ex, P):
    n = length(ex)
    start = ex.fresh('start', 'int', 0, BIG)
    net = Net(ex, limit=add(start, n))
    ex.wr(net.pos, start)
    off = ex.fresh('off', 'int', 0, BIG)
    lv, g = buffer(ex, add(off, add(n, ex.fresh('rest', 'int', 0, BIG))))
    filled = lambda p: SVec(ex.rd(lv).n, lambda j: ite(and_(le(off, j), lt(j, add(off, sub(p, start)))), net.S(zt(add(start, sub(j, off)))), g(zt(j))), 'char')
    cutter(ex, net.pos, add(start, n), lambda ex, root, v0, p0: [filled] if root == lv.root else [])
    r = ex.invoke(P.find(CS + 'recvall', r'char \*'), net.sock(ex), [ex.alloc(Ptr(lv, off)), ex.alloc(n), ex.alloc(0)])
    r = ex.val(r)
    p = ex.rd(net.pos)
    j = ex.fresh('j', 'int', 0)
    ex.oblige('success only if the message is complete', implies(r, eq(p, add(start, n))))
    ex.oblige('a complete message is reported as success', implies(eq(p, add(start, n)), r))
    ex.oblige('every byte at its place', implies(and_(r, lt(j, n)), eq(elem(ex.rd(lv), add(off, j)), net.S(zt(add(start, j))))))
    ex.oblige('no byte outside of the buffer', implies(or_(lt(j, off), and_(le(add(off, n), j), lt(j, ex.rd(lv).n))), eq(elem(ex.rd(lv), j), g(zt(j)))))


def g_sendall(ex, P):
    n = length(ex)
    net = Net(ex)
    start = ex.fresh('start', 'int', 0, BIG)
    ex.wr(net.opos, start)
    ex.wr(net.out, SVec(start, lambda j: net.o0(zt(j)), 'char'))
    off = ex.fresh('off', 'int', 0, BIG)
    lv, g = buffer(ex, add(off, n))
    sent = lambda p: SVec(p, lambda j: ite(lt(j, start), net.o0(zt(j)), g(zt(add(off, sub(j, start))))), 'char')
    cutter(ex, net.opos, add(start, n), lambda ex, root, v0, p0: [sent] if root == net.out.root else [])
    r = ex.val(ex.invoke(P.find(CS + 'sendall', r'char \*'), net.sock(ex), [ex.alloc(Ptr(lv, off)), ex.alloc(n)]))
    p, out = ex.rd(net.opos), ex.rd(net.out)
    j = ex.fresh('j', 'int', 0)
    ex.oblige('success only if the message was sent completely', implies(r, eq(p, add(start, n))))
    ex.oblige('a completely sent message is reported as success', implies(eq(p, add(start, n)), r))
    ex.oblige('sent bytes are a prefix of the message, in order', implies(lt(j, sub(p, start)), eq(out.fn(add(start, j)), g(zt(add(off, j))))))
    ex.oblige('earlier data untouched', implies(lt(j, start), eq(out.fn(j), net.o0(zt(j)))))


class Contract:
    def __init__(self, f):
        self.f = f

    def apply(self, ex, this, args):
        return self.f(ex, this, [ex.rd(a) for a in args])


def use(ex, P, net):
    """callers see only the contracts of the byte-level transfers (proved above)"""
    def recvall(ex, this, a):
        p, n, fl = a
        ex.oblige('precondition of recvall: a positive length', lt(0, n))
        ex.oblige('receives from the own connection', eq(ex.rd(this.f('sockfd_')), net.fd))
        ex.oblige('receives without peeking', or_(*[eq(fl, x) for x in OKFLAGS]))
        pos = ex.rd(net.pos)
        if net.limit is not None:
            ex.oblige('does not receive data behind the message', le(add(pos, n), net.limit))
        k = ex.fresh('k', 'int', 0, BIG)
        ex.fact(zt(le(k, n)))
        ok = ex.branch(eq(k, n))
        if ok:
            k = n
        cap = net.put(ex, p, k, lambda j: net.S(zt(add(pos, j))))
        ex.oblige('receive buffer large enough', le(n, cap))
        ex.wr(net.pos, add(pos, k))
        return ok

    def sendall(ex, this, a):
        p, n = a
        ex.oblige('precondition of sendall: a positive length', lt(0, n))
        ex.oblige('sends on the own connection', eq(ex.rd(this.f('sockfd_')), net.fd2 if net.two else net.fd))
        v = ex.rd(p.lv)
        o = p.idx if p.idx is not None else 0
        if isreal(v if isscalar(v) else safe(v)):
            # raw bytes of the elements: W bytes each
            W = net.W
            ex.oblige('sends the whole buffer', and_(eq(o, 0), eq(n, mul(v.n, W))))
            src = lambda j: net.B(zt(elem(v, zt(j) / W)), zt(j) % W)
        else:
            ex.oblige('sends only data of the message', le(add(o, n), 1 if isscalar(v) else v.n))
            src = (lambda j: v) if isscalar(v) else (lambda j: elem(v, add(o, j)))
        k = ex.fresh('k', 'int', 0, BIG)
        ex.fact(zt(le(k, n)))
        net.append(ex, k, src)
        return eq(k, n)
    for q, sig, f in ((CS + 'recvall', r'char \*', recvall), (CS + 'sendall', r'char \*', sendall)):
        ex.contracts[(q, P.find(q, sig)['type']['qualType'])] = Contract(f)


def safe(v):
    return v.e[0] if isinstance(v, Vec) else v.fn(z3.Int('j?'))


def message(ex, nm='m'):
    n = length(ex, nm + 'len')
    lv, g = buffer(ex, n, nm=nm)
    return n, lv, g


def g_sendstring(ex, P):
    net = Net(ex)
    ex.strings = True
    use(ex, P, net)
    n, lv, g = message(ex)
    r = ex.val(ex.invoke(P.find(CS + 'sendall', r'string'), net.sock(ex), [lv]))
    sent(ex, net, r, n, lambda j: g(zt(j)))


def sent(ex, net, r, n, src):
    p, out = ex.rd(net.opos), ex.rd(net.out)
    j = ex.fresh('j', 'int', 0)
    ex.oblige('success exactly if the message was sent completely', eq(r, eq(p, n)))
    ex.oblige('sent bytes are a prefix of the message, in order', and_(le(p, n), implies(lt(j, p), eq(out.fn(j), src(j)))))


class Dec:
    """decimal representation of n: to_string and its inverse"""
    def __init__(self, ex, n):
        self.n = n
        self.len = ex.fresh('digits', 'int', 1, 20)
        self.d = ex.freshfun('digit', 'int')
        i = z3.Int('i')
        ex.fact(z3.ForAll([i], z3.And(self.d(i) >= 48, self.d(i) <= 57), patterns=[self.d(i)]))
        ex.hooks['to_string'] = lambda ex, this, a: self.str() if ex.provable(eq(ex.rd(a[0]), n)) else Opq('unk')
        for nm, hi in (('stoull', (1 << 64) - 1), ('stoul', (1 << 64) - 1), ('stoll', (1 << 63) - 1), ('stol', (1 << 63) - 1), ('stoi', (1 << 31) - 1), ('atoi', (1 << 31) - 1), ('atol', (1 << 63) - 1), ('atoll', (1 << 63) - 1)):
            ex.hooks[nm] = (lambda hi: lambda ex, this, a: self.parse(ex, ex.rd(a[0]), hi))(hi)

    def str(self):
        return SVec(self.len, lambda j: self.d(zt(j)), 'char')

    def parse(self, ex, v, hi):
        if isinstance(v, Ptr) and isc(v.idx) and v.idx == 0:
            v = ex.rd(v.lv)
        j = ex.fresh('j', 'int', 0)
        if isinstance(v, SVec) and ex.provable(eq(v.n, self.len)) and ex.provable(implies(lt(j, self.len), eq(v.fn(j), self.d(j)))):
            ex.oblige('length fits the type it is parsed as', le(self.n, hi))
            return self.n
        return ex.fresh('unk', 'int', 0, hi)


def g_sendprefixed(ex, P, how):
    net = Net(ex)
    ex.strings = True
    use(ex, P, net)
    n, lv, g = message(ex)
    dec = Dec(ex, n)
    if how == 'string':
        r = ex.invoke(P.find(CS + 'sendallPrefixed', r'string'), net.sock(ex), [lv])
    else:
        r = ex.invoke(P.find(CS + 'sendallPrefixed', r'char \*'), net.sock(ex), [ex.alloc(Ptr(lv, 0)), ex.alloc(n)])
    k = dec.len
    sent(ex, net, ex.val(r), add(add(k, 1), n), lambda j: ite(lt(j, k), dec.d(zt(j)), ite(eq(j, k), 35, g(zt(sub(j, add(k, 1)))))))


def incoming(ex, net, prefixed):
    """the stream carries a message of n bytes, prefixed with its length"""
    n = length(ex)
    start = ex.fresh('start', 'int', 0, BIG)
    ex.wr(net.pos, start)
    dec = Dec(ex, n)
    i = z3.Int('i')
    if prefixed:
        ex.fact(z3.ForAll([i], z3.Implies(z3.And(i >= start, i < start + dec.len), net.S(i) == dec.d(i - start)), patterns=[net.S(i)]))
        ex.fact(net.S(start + dec.len) == 35)
    return n, start, dec


def g_recvlength(ex, P):
    net = Net(ex)
    ex.strings = True
    n, start, dec = incoming(ex, net, True)
    net.limit = add(add(start, dec.len), 1)
    chars = lambda p: SVec(sub(p, start), lambda j: net.S(zt(add(start, j))), 'char')
    cutter(ex, net.pos, add(start, dec.len), lambda ex, root, v0, p0: [chars] if isinstance(v0, (Str, Vec, SVec)) else [])
    out = ex.alloc(ex.fresh('old', 'int', 0, BIG))
    r = ex.val(ex.invoke(P.find(CS + 'recvLength'), net.sock(ex), [out, ex.alloc(0)]))
    p = ex.rd(net.pos)
    ex.oblige('success only if the whole length was received', implies(r, eq(p, net.limit)))
    ex.oblige('a complete length is reported as success', implies(eq(p, net.limit), r))
    ex.oblige('the length sent is received', implies(r, eq(ex.rd(out), n)))


def uselength(ex, net, n, start, dec):
    def f(ex, this, a):
        ex.oblige('length received at the start of the message', eq(ex.rd(net.pos), start))
        k = ex.fresh('k', 'int', 0)
        ex.fact(zt(le(k, add(dec.len, 1))))
        ex.wr(net.pos, add(start, k))
        ok = eq(k, add(dec.len, 1))
        ex.wr(a[0], ite(ok, n, ex.rd(a[0])))
        return ok
    ex.hooks[CS + 'recvLength'] = f


def g_recvprefixed(ex, P, how):
    net = Net(ex)
    ex.strings = True
    use(ex, P, net)
    n, start, dec = incoming(ex, net, False)
    b = add(add(start, dec.len), 1)
    net.limit = add(b, n)
    uselength(ex, net, n, start, dec)
    sock = net.sock(ex)
    if how == 'string':
        lv = buffer(ex, ex.fresh('oldlen', 'int', 0, BIG), nm='old')[0]
        r = ex.val(ex.invoke(P.find(CS + 'recvallPrefixed', r'string'), sock, [lv, ex.alloc(0)]))
        got = ex.rd(lv)
    else:
        lv = ex.alloc(Obj('smartptr', {'ptr': NULL}))
        ln = ex.alloc(ex.fresh('old', 'int', 0, BIG))
        r = ex.val(ex.invoke(P.find(CS + 'recvallPrefixed', r'unique_ptr'), sock, [lv, ln, ex.alloc(0)]))
        ex.oblige('length of the message returned', implies(r, eq(ex.rd(ln), n)))
        q = ex.rd(lv).f['ptr']
        if isinstance(q, Ptr):
            v = ex.rd(q.lv)
            got = SVec(sub(v.n, q.idx), lambda j: elem(v, add(q.idx, j)), 'char')
        else:
            got = None
    received(ex, net, r, got, n, b)


def received(ex, net, r, got, n, b):
    p = ex.rd(net.pos)
    j = ex.fresh('j', 'int', 0)
    ex.oblige('success exactly if the message is complete', eq(r, eq(p, add(b, n))))
    if got is None:
        ex.oblige('success returns a message', not_(r))
        return
    if not isinstance(got, (Vec, SVec)):
        ex.oblige('success returns a message', implies(r, ex.fresh('unk', 'bool')))
        return
    ex.oblige('message has the length sent', implies(r, eq(got.n, n)))
    ex.oblige('message received in order', implies(and_(r, lt(j, n)), eq(elem_(got, j), net.S(zt(add(b, j))))))


def elem_(v, j):
    from cver.loopsum import safe_elem
    return safe_elem(v, j)


def g_recvstring(ex, P):
    net = Net(ex)
    ex.strings = True
    use(ex, P, net)
    n, start, dec = incoming(ex, net, False)
    net.limit = add(start, n)
    lv = buffer(ex, ex.fresh('oldlen', 'int', 0, BIG), nm='old')[0]
    r = ex.val(ex.invoke(P.find(CS + 'recvall', r'string'), net.sock(ex), [lv, ex.alloc(n), ex.alloc(0)]))
    received(ex, net, r, ex.rd(lv), n, start)


def g_forward(ex, P):
    net = Net(ex)
    net.two = True
    use(ex, P, net)
    n, start, dec = incoming(ex, net, False)
    net.limit = add(start, n)
    chunk = length(ex, 'chunk')
    out = lambda p: SVec(sub(p, start), lambda j: net.S(zt(add(start, j))), 'char')
    cutter(ex, net.pos, net.limit, lambda ex, root, v0, p0: [out] if root == net.out.root else [])
    a, b = net.sock(ex), net.sock(ex, net.fd2)
    r = ex.val(ex.invoke(P.find(NS + 'NetworkUtils::forward'), None, [a, b, ex.alloc(chunk), ex.alloc(n)]))
    p, op, o = ex.rd(net.pos), ex.rd(net.opos), ex.rd(net.out)
    j = ex.fresh('j', 'int', 0)
    ex.oblige('success exactly if everything was received and forwarded', eq(r, and_(eq(p, net.limit), eq(op, n))))
    ex.oblige('forwarded bytes are the received bytes, in order', implies(lt(j, op), and_(lt(j, n), eq(o.fn(j), net.S(zt(add(start, j)))))))


def g_file(ex, P):
    net = Net(ex)
    use(ex, P, net)
    n, start, dec = incoming(ex, net, False)
    net.limit = add(add(start, 1), n)
    chunk = length(ex, 'chunk')
    b = add(start, 1)
    out = lambda p: SVec(sub(p, b), lambda j: net.S(zt(add(b, j))), 'char')
    cutter(ex, net.pos, net.limit, lambda ex, root, v0, p0: [out] if root == net.file.root else [])
    r = ex.val(ex.invoke(P.find(CS + 'recvallBinaryToFile'), net.sock(ex), [ex.alloc(Opq('string')), ex.alloc(n), ex.alloc(chunk), ex.alloc(0)]))
    p, f = ex.rd(net.pos), ex.rd(net.file)
    j = ex.fresh('j', 'int', 0)
    ex.oblige('success exactly if everything was received', eq(r, eq(p, net.limit)))
    ex.oblige('file has the announced length', implies(r, eq(f.n, n)))
    ex.oblige('file holds the received bytes in order', implies(and_(r, lt(j, n)), eq(f.fn(j), net.S(zt(add(b, j))))))


SIZE = {'double': 8, 'float': 4}


def little(ex):
    """byte order of this machine: unknown"""
    le_ = ex.fresh('little', 'bool')
    ex.hooks[NS + 'NetworkUtils::isLittleEndian'] = lambda ex, this, a: le_
    return le_


def g_sendbinary(ex, P, ty):
    net = Net(ex)
    net.W = W = SIZE[ty]
    net.B = z3.Function('byte', z3.RealSort(), z3.IntSort(), z3.IntSort())
    use(ex, P, net)
    le_ = little(ex)
    n = ex.fresh('n', 'int', 1, BIG // 16)
    lv, g = buffer(ex, n, ty)
    r = ex.val(ex.invoke(P.find(CS + 'sendallBinary', targs=[ty]), net.sock(ex), [ex.alloc(Ptr(lv, 0)), ex.alloc(n), ex.alloc(0)]))
    sent(ex, net, r, add(1, mul(W, n)), lambda j: ite(eq(j, 0), ite(le_, 1, 0), net.B(g(zt(sub(j, 1)) / W), zt(sub(j, 1)) % W)))


def g_recvbinary(ex, P, ty, reduce):
    net = Net(ex)
    W = SIZE[ty]
    ex.safety = True
    use(ex, P, net)
    le_ = little(ex)
    VAL = z3.Function('value', *([z3.IntSort()] * W + [z3.RealSort()]))      # element with these bytes in memory

    def memcpy(ex, this, a):
        d, s, n = [ex.rd(x) for x in a]
        if not (isc(simp(n)) and simp(n) == W and isinstance(d, Ptr) and isinstance(s, Ptr)):
            raise Unsupported('memcpy')
        v = ex.rd(s.lv)
        o = s.idx if s.idx is not None else 0
        ex.oblige('copies only received bytes', and_(le(0, o), le(add(o, W), v.n)))
        x = VAL(*[zt(elem_(v, simp(add(o, k)))) for k in range(W)])
        ex.wr(d.lv if d.idx is None else d.lv.i(d.idx), x)
        return d

    def rev(ex, this, a):
        x = ex.val(a[0]) if not isterm(a[0]) else a[0]
        return revterm(VAL, W, x)
    ex.hooks['memcpy'] = ex.hooks['memmove'] = memcpy
    ex.hooks[NS + 'NetworkUtils::reverseEndianness'] = rev
    RED = z3.Function('reduced', z3.RealSort(), z3.RealSort(), z3.RealSort())
    n = ex.fresh('n', 'int', 1, BIG // 16)
    start = ex.fresh('start', 'int', 0, BIG)
    ex.wr(net.pos, start)
    b = add(start, 1)
    net.limit = add(b, mul(W, n))
    chunk = length(ex, 'chunk')
    lv, g = buffer(ex, n, ty)
    flag = not_(eq(net.S(zt(start)), 0))
    ex.fact(z3.Or(net.S(zt(start)) == 0, net.S(zt(start)) == 1))

    def new(k):
        bs = [net.S(zt(add(b, add(mul(W, k), i)))) for i in range(W)]
        x = ite(eq(flag, le_), VAL(*bs), VAL(*bs[::-1]))
        return RED(g(zt(k)), zt(x)) if reduce else x
    filled = lambda p: SVec(n, lambda k: ite(lt(k, div_(sub(p, b), W)), new(k), g(zt(k))), ty)
    rem = lambda p: SVec(mod_(sub(p, b), W), lambda j: net.S(zt(simp(add(sub(p, mod_(sub(p, b), W)), j)))), 'char')
    cutter(ex, net.pos, net.limit, lambda ex, root, v0, p0: [filled] if root == lv.root else [rem] if isinstance(v0, Vec) and not v0.e else [], W)
    args = [ex.alloc(Ptr(lv, 0)), ex.alloc(n)]
    if reduce:
        args.append(ex.alloc(Fun(lambda ex, a: RED(zt(ex.val(a[0])), zt(ex.val(a[1]))), 'reduceOp')))
    r = ex.val(ex.invoke(P.find(CS + ('recvallBinaryAndReduceInPlace' if reduce else 'recvallBinaryAndCorrectInPlace'), targs=[ty]), net.sock(ex), args + [ex.alloc(chunk), ex.alloc(0)]))
    p, f = ex.rd(net.pos), ex.rd(lv)
    k = ex.fresh('k', 'int', 0)
    ex.oblige('success exactly if everything was received', eq(r, eq(p, net.limit)))
    ex.oblige('every element %s exactly once, in order' % ('reduced' if reduce else 'received'), implies(and_(r, lt(k, n)), eq(f.fn(k), new(k))))


def revterm(VAL, W, x):
    if z3.is_app(x) and x.decl().eq(VAL):
        return VAL(*list(x.children())[::-1])
    if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
        c = x.children()
        return z3.If(c[0], revterm(VAL, W, c[1]), revterm(VAL, W, c[2]))
    raise Unsupported('byte order of %s' % str(x)[:80])


def g_reverse(ex, P, ty):
    W = SIZE[ty]
    ex.bytecast = W
    bs = [ex.fresh('b%d' % i, 'int', -128, 127) for i in range(W)]
    lv = ex.alloc(Vec(bs, 'char'))
    r = ex.val(ex.invoke(P.find(NS + 'NetworkUtils::reverseEndianness', targs=[ty]), None, [lv]))
    if not isinstance(r, Vec) or len(r.e) != W:
        raise Unsupported('bytes of the result')
    for i in range(W):
        ex.oblige('byte %d of the result' % i, eq(r.e[i], bs[W - 1 - i]))


def groups(tier):
    gs = [Group('recvall', g_recvall, 'socket.cpp', {}, [CS + 'recvall']),
          Group('sendall', g_sendall, 'socket.cpp', {}, [CS + 'sendall']),
          Group('sendall string', g_sendstring, 'socket.cpp', {}, [CS + 'sendall']),
          Group('recvall string', g_recvstring, 'socket.cpp', {}, [CS + 'recvall']),
          Group('recvLength', g_recvlength, 'socket.cpp', {}, [CS + 'recvLength']),
          Group('forward', g_forward, 'socket.cpp', {}, [NS + 'NetworkUtils::forward']),
          Group('recvallBinaryToFile', g_file, 'socket.cpp', {}, [CS + 'recvallBinaryToFile'])]
    for how in ('string', 'buffer'):
        gs.append(Group('sendallPrefixed ' + how, g_sendprefixed, 'socket.cpp', dict(how=how), [CS + 'sendallPrefixed']))
        gs.append(Group('recvallPrefixed ' + how, g_recvprefixed, 'socket.cpp', dict(how=how), [CS + 'recvallPrefixed']))
    for ty in ('float', 'double'):
        gs.append(Group('reverseEndianness ' + ty, g_reverse, 'socket.cpp', dict(ty=ty), [NS + 'NetworkUtils::reverseEndianness']))
        gs.append(Group('sendallBinary ' + ty, g_sendbinary, 'socket.cpp', dict(ty=ty), [CS + 'sendallBinary']))
        for red in (False, True):
            nm = 'recvallBinaryAndReduceInPlace' if red else 'recvallBinaryAndCorrectInPlace'
            gs.append(Group('%s %s' % (nm, ty), g_recvbinary, 'socket.cpp', dict(ty=ty, reduce=red), [CS + nm]))
    return gs


def harnesses(tier):
    return [Harness('h_p11.cpp', ['src/third_level/NetworkUtils.cpp'], np=0, timeout=300, flags=['-U_FORTIFY_SOURCE'],
                    bound='every way of cutting two 4-byte elements, a fifth of (thorough: every) way of cutting two 8-byte elements, random splits and failures of messages up to 200 bytes and 12 elements, real socket pairs')]
