"""Contracts of the stream blocks (C14 conservation, C15 arithmetic).

A block is verified against the contracts of the channel operations (proved in queue_spec): every channel end is a ghost
stream.  For an input: `rd` elements consumed so far in this step, `av` elements known to be available (the producer may
add more at any time); for an output: `wr` elements emitted, `sp` elements of known space.  Element j of a step is at byte
j*esz of the stream object.  The block's constructor is executed symbolically for an arbitrary buffer size, then every
field its procedure writes is replaced by an arbitrary value: the step is verified from any state the block can be in.
"""
import re
import z3
from terms import *
from symex import *
from symex import Multi
import symex as S
import queue_spec as Q

NM = re.compile(r'Lm0EE(?:(\d+)(\w+)|([CD]\d))')
CAP = 1 << 40


class Chan:
    pass


class M:
    pass


def method(name):
    r = NM.search(name)
    if not r:
        return None
    if r.group(3):
        return r.group(3)
    n = int(r.group(1))
    return r.group(2)[:n]


def nz(x):
    return nbool(x)


def kind_of(name):
    """element type of a channel method -> (kind, size)"""
    if 'ISt7complexIfE' in name:
        return 'c', 8
    if 'ISt7complexIdE' in name:
        return 'z', 16
    k = re.search(r'ChannelI(\w)L', name).group(1)
    return {'f': ('f', 4), 'i': ('i', 4), 'h': ('h', 1), 'd': ('d', 8)}[k]


def new_stream(ex, st, nm, esz, ro):
    cell = 8 if esz == 16 else min(esz, 4)
    return ex.new_obj(st, nm, (1 << 46), 'stream', cell, ro=ro)


def install(ex, m):
    m.chans = []

    def find(st, p):
        if isinstance(p, Ptr) and p.obj is not None:
            for c in m.chans:
                if c.obj is p.obj and isinstance(p.off, int) and p.off == c.off:
                    return c
        return None

    def tag(c):
        return c.key

    def g(st, c, f):
        return bv(st.ghost['%s_%s' % (f, c.key)], 64)

    def put(st, c, f, v):
        st.ghost['%s_%s' % (f, c.key)] = norm(v) if not isinstance(v, int) else BV(v, 64)
    m.g, m.put = g, put

    def observe(ex, st, c, f):
        """the peer acts before every look: the other side only adds room/samples"""
        n = ex.fresh(st, f + '_' + c.key, 64)
        st.assume(z3.And(z3.ULE(g(st, c, f), n), z3.ULE(n, c.cap)))
        return n

    def saw(st, c, n):
        st.ghost['zero_' + c.key] = nz(z3.Or(st.ghost['zero_' + c.key], n == 0))

    def ctor(ex, st, a, i, name):
        kind, esz = kind_of(name)
        p = a[0]
        c = Chan()
        c.obj, c.off, c.esz, c.kind, c.dir = p.obj, p.off, esz, kind, 'in'
        if not isinstance(p.off, int):
            raise Unsupported('channel at a symbolic address')
        c.req = bv(a[1], 64)
        c.key = 'in%d' % len([x for x in m.chans if x.dir == 'in'])
        m.new.append(c)
        st.assume(c.req != 0)           # (asserted by the channel's own constructor)
        ex.wr(st, p.obj, p.off, 8, Ptr(ex.global_obj(st, ex.m.globals[vtable(ex, kind)]), 16))
        st.ghost['mk'] = st.ghost.get('mk', ()) + (c,)
        return None

    def h(ex, st, a, inst, name=None):
        me = method(name)
        if me in ('C1', 'C2'):
            return ctor(ex, st, a, inst, name)
        if me in ('D0', 'D1', 'D2'):
            return None
        c = find(st, a[0])
        if c is None:
            ex.check(st, False, 'a channel operation is applied to a channel of the block', 'pre', tags=('flow',))
            st.status = 'dead'
            return 0
        ex.check(st, kind_of(name)[1] == c.esz, 'the element type is the channel\'s', 'pre', tags=('flow',))
        inp = c.dir == 'in'
        st.ghost['ops'] = st.ghost.get('ops', 0) + 1
        esz = c.esz

        def need(want):
            ex.check(st, inp == (want == 'in'), 'a block reads its inputs and writes its outputs', 'pre', tags=('flow',))
        if me in ('size', 'space'):
            if inp != (me == 'size'):
                # the other side of the channel: any value
                n = ex.fresh(st, me, 64)
                st.assume(z3.ULE(n, c.cap))
                return n
            n = observe(ex, st, c, 'av')
            put(st, c, 'av', n)
            saw(st, c, n)
            return n
        if me in ('readN', 'writeN'):
            need('in' if me == 'readN' else 'out')
            n = bv(a[2], 64)
            act = observe(ex, st, c, 'av')
            k = norm(z3.If(z3.ULE(n, act), n, act))
            saw(st, c, act)
            pos = norm(g(st, c, 'pos') * esz)
            nb = norm(bv(k, 64) * esz)
            if me == 'readN':
                ex.memcpy(st, a[1], Ptr(c.stream, pos), nb)
            else:
                ex.memcpy(st, Ptr(c.stream, pos), a[1], nb)
            put(st, c, 'pos', g(st, c, 'pos') + bv(k, 64))
            put(st, c, 'av', act - bv(k, 64))
            return k
        if me in ('push', 'pop', 'try_push', 'try_pop'):
            need('in' if me.endswith('pop') else 'out')
            if me in ('push', 'pop'):
                ex.check(st, nz(z3.UGE(g(st, c, 'av'), 1)), 'a block never waits inside a channel operation', 'pre', tags=('flow',))
                act = observe(ex, st, c, 'av')
                move1(ex, st, c, a[1])
                put(st, c, 'pos', g(st, c, 'pos') + 1)
                put(st, c, 'av', act - 1)
                return None
            act = observe(ex, st, c, 'av')
            saw(st, c, act)
            s2 = st.fork()
            s2.assume(act == 0)
            put(s2, c, 'av', act)
            st.assume(act != 0)
            move1(ex, st, c, a[1])
            put(st, c, 'pos', g(st, c, 'pos') + 1)
            put(st, c, 'av', act - 1)
            return Multi([(st, 1), (s2, 0)])
        if me in ('read_dbf', 'write_dbf'):
            need('in' if me == 'read_dbf' else 'out')
            n = observe(ex, st, c, 'av')
            put(st, c, 'av', n)
            saw(st, c, n)
            return [Ptr(c.stream, norm(g(st, c, 'pos') * esz)), n]
        if me in ('peek_read', 'peek_write'):
            need('in' if me == 'peek_read' else 'out')
            n = observe(ex, st, c, 'av')
            put(st, c, 'av', n)
            saw(st, c, n)
            k = ex.fresh(st, 'part', 64)
            st.assume(z3.And(z3.ULE(k, n), z3.Implies(n != 0, k != 0)))
            pos = g(st, c, 'pos')
            ex.wr(st, a[1].obj, a[1].off, 8, Ptr(c.stream, norm(pos * esz)))
            ex.wr(st, a[2].obj, a[2].off, 8, k)
            ex.wr(st, a[3].obj, a[3].off, 8, Ptr(c.stream, norm((pos + k) * esz)))
            ex.wr(st, a[4].obj, a[4].off, 8, norm(n - k))
            return n
        if me in ('commit_read', 'commit_write'):
            need('in' if me == 'commit_read' else 'out')
            n = bv(a[1], 64)
            ex.check(st, nz(z3.ULE(n, g(st, c, 'av'))), 'no more is committed than was offered', 'pre', tags=('flow',))
            put(st, c, 'pos', g(st, c, 'pos') + n)
            act = observe(ex, st, c, 'av')
            put(st, c, 'av', act - n)
            return None
        raise Unsupported('channel operation %s' % me)

    def move1(ex, st, c, p):
        pos = norm(g(st, c, 'pos') * c.esz)
        if c.dir == 'in':
            ex.memcpy(st, p, Ptr(c.stream, pos), c.esz)
        else:
            ex.memcpy(st, Ptr(c.stream, pos), p, c.esz)

    def access(ex, st, obj, off, n, write):
        if obj.kind != 'stream':
            return
        for c in m.chans:
            if c.stream is obj:
                if st.ghost.get('lib'):
                    return
                pos = g(st, c, 'pos') * c.esz
                end = (g(st, c, 'pos') + g(st, c, 'av')) * c.esz
                o, n_ = bv(off, 64), bv(n, 64)
                ex.check(st, nz(z3.And(z3.ULE(pos, o), z3.ULE(n_, end), z3.ULE(o, end - n_))), 'only the offered part of a channel is touched', 'pre', tags=('flow',))
                ex.check(st, (c.dir == 'out') or not write, 'input samples are not written', 'pre', tags=('flow',))
    def raw(f):
        def w(ex, st, a, i, **k):
            st.ghost['lib'] = 1
            r = f(ex, st, a, i, **k)
            for s in ([x for x, _ in r.items] if isinstance(r, Multi) else [st]):
                s.ghost['lib'] = 0
            return r
        return w
    ex.hooks_load.append(lambda ex, st, obj, off, n, o: access(ex, st, obj, off, n, False))
    ex.hooks_store.append(lambda ex, st, obj, off, n, v, o: access(ex, st, obj, off, n, True))
    ex.contract_pred.append((lambda n: re.match(r'_ZNK?4cler7ChannelI', n) is not None and method(n) is not None, None))
    for cl in ('system', 'steady'):
        ex.contracts['_ZNSt6chrono3_V212%s_clock3nowEv' % cl] = lambda ex, st, a, i: clock(ex, st)
    names = [n for n in ex.m.funcs if re.match(r'_ZNK?4cler7ChannelI', n)]
    ex.contract_pred.pop()
    for n in names:
        if method(n):
            ex.contracts[n] = (lambda n: lambda ex, st, a, i: raw(h)(ex, st, a, i, name=n))(n)

    # random numbers: any value, touching only the generator and the distribution
    def rnd(ex, st, a, i):
        return ex.fresh(st, 'random', i.ty.bits if hasattr(i.ty, 'bits') else 32)
    for n in ex.m.funcs:
        if 'normal_distributionIfEclI' in n and n.endswith('EfRT_') or 'normal_distributionIfEclI' in n and 'param_type' in n:
            ex.contracts[n] = lambda ex, st, a, i: (havoc(ex, st, a[0], 16), ex.fresh(st, 'random', 32))[1]
        if 'mersenne_twister_engine' in n and n.startswith('_ZNSt23mersenne') and re.search(r'E(4seedEm|C[12]Em|C[12]Ev)$', n):
            ex.contracts[n] = lambda ex, st, a, i: None
    ex.contracts['_ZNSt13random_device7_M_initERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE'] = lambda ex, st, a, i: None
    ex.contracts['_ZNSt13random_device9_M_getvalEv'] = lambda ex, st, a, i: ex.fresh(st, 'entropy', 32)
    ex.contracts['_ZNSt13random_device7_M_finiEv'] = lambda ex, st, a, i: None
    STR = '_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE'

    def mkstr(ex, st, a, i):
        o = ex.new_obj(st, 'text', add(a[1], 1, 64), 'heap', 1)
        ex.wr(st, a[0].obj, a[0].off, 8, Ptr(o, 0))
        ex.wr(st, a[0].obj, add(a[0].off, 8, 64), 8, a[1])
        return None
    # error texts of refused constructions: contents do not matter
    ex.contracts[STR + '12_M_constructEmc'] = mkstr
    for n in ('9_M_appendEPKcm', '10_M_replaceEmmPKcm'):
        ex.contracts[STR + n] = lambda ex, st, a, i: a[0]
    ex.contracts['_ZNSt16invalid_argumentC1ERK' + STR[4:-1] + 'E'] = lambda ex, st, a, i: None
    for n in ex.m.funcs:
        if n.startswith('_ZNSt16invalid_argumentC1ERK'):
            ex.contracts[n] = lambda ex, st, a, i: None
    ex.contracts['__mulsc3'] = lambda ex, st, a, i: [ex.uf('mulsc3_re', list(a), [32] * 4, 32), ex.uf('mulsc3_im', list(a), [32] * 4, 32)]
    def cplx(name, res):
        def h(ex, st, a, i):
            v = []
            for x in a:
                v += list(x) if isinstance(x, (list, tuple)) else [x]
            if res == 1:
                return ex.uf(name, v, [32] * len(v), 32)
            return [ex.uf(name + '_%d' % k, v, [32] * len(v), 32) for k in range(res)]
        ex.contracts[name] = h
    for n, r in (('cabsf', 1), ('cargf', 1), ('cexpf', 2)):
        cplx(n, r)
    ex.contracts['nanosleep'] = lambda ex, st, a, i: 0
    ex.contracts['user__receive'] = lambda ex, st, a, i: receive(ex, st, a)

    def receive(ex, st, a):
        """the callback's contract: it says how many samples it is done with, at most what is available"""
        c = find(st, a[0])
        ex.check(st, c is not None, 'the callback gets the block\'s input', 'pre', tags=('flow',))
        n = observe(ex, st, c, 'av')
        put(st, c, 'av', n)
        k = ex.fresh(st, 'taken', 64)
        st.assume(z3.ULE(k, n))
        st.ghost['taken'] = k
        return k
    return find


def clock(ex, st):
    v = ex.fresh(st, 'now', 64)
    st.assume(z3.ULE(v, (1 << 62)))
    return v


def havoc(ex, st, p, n):
    for k in range(0, n, 4):
        ex.wr(st, p.obj, add(p.off, k, 64), 4, ex.fresh(st, 'h', 32))


def vtable(ex, kind):
    t = {'f': 'f', 'c': 'St7complexIfE', 'z': 'St7complexIdE', 'i': 'i', 'h': 'h'}[kind]
    return '_ZTVN4cler7ChannelI%sLm0EEE' % t


# name: (element kinds of the outputs, constructor arguments, kind of value contract)
BLOCKS = {}


def build(ex, name, args, nout, outk):
    """run the real constructor for an arbitrary buffer size; returns the states with a live block"""
    st = State()
    m = M()
    m.new = []
    find = install(ex, m)
    size = Q.constant(ex, name + '__sizeof')
    m.b = ex.new_obj(st, 'block', size, 'param', 4)
    m.args = {}
    a = [Ptr(m.b, 0)]
    for k in args:
        if k == 'n':
            v = ex.fresh(st, 'buffer_size', 64)
            st.assume(z3.ULE(v, CAP))
            m.n = v
        elif isinstance(k, tuple):              # pointer to a parameter of the element type
            o = ex.new_obj(st, k[0], k[1], 'param', 4, ro=True)
            m.args[k[0]] = o
            v = Ptr(o, 0)
        elif isinstance(k, int):
            v = k
        else:
            v = ex.fresh(st, k, {'f': 32, 'd': 64, 's': 64}[k[0]])
            m.args[k] = v
        a.append(v)
    ex.frames = []
    before = len(ex.obls)
    outs = []
    for s in ex.call_function(st, name + '__ctor', a):
        if s.status == 'throw':
            continue                            # refused construction: nothing to claim
        s.ghost.pop('mk', None)
        outs.append(s)
    # channels: the ones constructed, by address
    seen = {}
    for c in m.new:
        seen[(c.obj.id, c.off)] = c
    return st, m, outs, find


def arm(ex, s, m, name, nout, outk, mk):
    """attach streams and ghost state to the block's channels, create the outputs"""
    m.chans = []
    for k, c0 in enumerate(mk):
        c = Chan()
        c.__dict__.update(c0.__dict__)
        c.key = 'in%d' % k
        c.cap = BV(CAP, 64)
        c.stream = new_stream(ex, s, 'samples_' + c.key, c.esz, True)
        m.chans.append(c)
    outp = []
    for k in range(nout):
        c = Chan()
        c.kind, c.dir, c.key = outk, 'out', 'out%d' % k
        c.esz = {'f': 4, 'i': 4, 'c': 8, 'z': 16, 'h': 1}[outk]
        c.cap = BV(CAP, 64)
        c.stream = new_stream(ex, s, 'emitted_' + c.key, c.esz, False)
        c.obj = ex.new_obj(s, 'channel_' + c.key, 8, 'param', 8, ro=True)
        c.off = 0
        s.mem[c.obj.id] = BaseUndef(c.obj.arr if hasattr(c.obj, 'arr') else None) if False else s.mem[c.obj.id]
        ex.wr(s, c.obj, 0, 8, Ptr(ex.global_obj(s, ex.m.globals[vtable(ex, outk)]), 16))
        m.chans.append(c)
        outp.append(c)
    for c in m.chans:
        s.ghost['pos_' + c.key] = BV(0, 64)
        s.ghost['av_' + c.key] = BV(0, 64)
        s.ghost['zero_' + c.key] = z3.BoolVal(False)
    s.ghost['lib'] = 0
    s.ghost['taken'] = BV(0, 64)
    return outp


def step(ex, name, s, m, outp):
    return ex.call_function(s, name + '__proc', [Ptr(m.b, 0)] + [Ptr(c.obj, 0) for c in outp])


def verify(ex, name, args, nout, outk, value=None, idle='shortage'):
    errs = {k: Q.constant(ex, 'e__' + k) for k in ('NotEnoughSamples', 'NotEnoughSpace', 'NotEnoughSpaceOrSamples')}
    st, m, outs, find = build(ex, name, args, nout, outk)
    ex.check(State(), len(outs) > 0, 'the block can be constructed', 'post', tags=('flow',))
    for s in outs:
        # which channels this construction made (by address: the constructor runs on one path here)
        mk = []
        for c in m.new:
            if s.mem.get(c.obj.id) is not None and not any(x.obj is c.obj and x.off == c.off for x in mk):
                v = ex.rd(s, s.mem[c.obj.id], c.off, 8)
                if isinstance(v, Ptr):
                    mk.append(c)
        one_state(ex, name, s, m, nout, outk, value, idle, errs, mk)


def one_state(ex, name, s, m, nout, outk, value, idle, errs, mk):
    # heap buffers: arbitrary contents; fields the procedure writes: arbitrary values
    for o in s.ghost.get('heap', ()):
        if o.id in s.mem and not any(c.obj is o for c in mk):
            o.esz = 4
            o.arr = ex.fresh_arr(o.name, 4)
            s.mem[o.id] = BaseArr(o.arr, 4)
    written = set()
    s.ghost['heap'] = ()
    s.ghost['allocs'] = 0
    for rnd in range(4):
        t = s.fork()
        t.status = 'run'
        t.frames = []
        for off, n in sorted(written):
            ex.wr(t, m.b, off, n, ex.fresh(t, 'state%d' % off, 8 * n))
        outp = arm(ex, t, m, name, nout, outk, mk)
        new = set()

        def rec(ex, st, obj, off, n, v, o):
            if obj is m.b:
                if not isinstance(off, int) or not isinstance(n, int):
                    raise Unsupported('symbolic write to the block')
                if (off, n) not in written:
                    new.add((off, n))
        ex.hooks_store.append(rec)
        ex.quiet = (ex.quiet or 0) + 1 if isinstance(ex.quiet, int) else 1
        try:
            ends = step(ex, name, t, m, outp)
        finally:
            ex.quiet -= 1
            ex.hooks_store.remove(rec)
        if not new:
            break
        written |= new
    else:
        raise Unsupported('the state of the block does not settle')
    t = s.fork()
    t.status = 'run'
    t.frames = []
    for off, n in sorted(written):
        ex.wr(t, m.b, off, n, ex.fresh(t, 'state%d' % off, 8 * n))
    outp = arm(ex, t, m, name, nout, outk, mk)
    inp = [c for c in m.chans if c.dir == 'in']
    i0 = ex.fresh(t, 'i0', 64)
    pre = t.fork()
    for e in step(ex, name, t, m, outp):
        if e.status == 'throw':
            ex.check(e, False, 'a step does not throw', 'post', tags=('flow',))
            continue
        if e.status not in ('run', 'ret', 'done'):
            if e.status in ('dead', 'ub'):
                continue
        X = m.g(e, m.chans[0], 'pos')
        ok = nz(bv(e.ret, 32) == mask(32))
        for c in m.chans[1:]:
            ex.check(e, nz(m.g(e, c, 'pos') == X), 'every input loses and every output gains the same number of samples', 'post', tags=('flow',))
        ex.check(e, nz(z3.Implies(z3.Not(bt(ok)), X == 0)), 'a step that reports an error moves no samples', 'post', tags=('flow',))
        insz = z3.Or(*[e.ghost['zero_' + c.key] for c in inp]) if inp else z3.BoolVal(False)
        outz = z3.Or(*[e.ghost['zero_' + c.key] for c in outp]) if outp else z3.BoolVal(False)
        code = bv(e.ret, 32)
        ex.check(e, nz(z3.Or(bt(ok), z3.And(code == errs['NotEnoughSamples'], insz), z3.And(code == errs['NotEnoughSpace'], outz),
                             z3.And(code == errs['NotEnoughSpaceOrSamples'], z3.Or(insz, outz)))),
                 'the only error is a shortage, and one that was there', 'post', tags=('flow',))
        if idle == 'shortage':
            ex.check(e, nz(z3.Implies(bt(ok), X != 0)), 'a step that succeeds moves samples', 'post', tags=('flow',))
        ex.check(e, nz(z3.Implies(z3.And(X == 0, z3.Not(z3.Or(insz, outz))), z3.BoolVal(idle == 'callback'))), 'a step only stands still when something is short', 'post', tags=('flow',))
        if not inp:
            z = e.fork()
            i1 = ex.fresh(z, 'i1', 64)
            z.assume(z3.And(z3.ULE(X, i1), z3.ULT(i1, BV(1 << 41, 64))))
            for o in outp:
                w = min(o.esz, 4)
                for p in range(o.esz // w):
                    ex.check(z, eq(bv(sample(ex, z, o, i1, p, w), 8 * w), bv(sample(ex, pre, o, i1, p, w), 8 * w), 8 * w), 'every sample a source makes is handed on', 'post', tags=('flow',))
        # a step that moves nothing leaves the block as it was (clocks and meters aside: they are advanced with samples)
        if ex.feasible(e, nz(X == 0)):
            z = e.fork()
            z.assume(X == 0)
            for off, n in sorted(written):
                ex.check(z, eq(ex.rd(z, z.mem[m.b.id], off, n), ex.rd(pre, pre.mem[m.b.id], off, n), 8 * n) if not isinstance(ex.rd(z, z.mem[m.b.id], off, n), Ptr) else True,
                         'a step that moves no samples leaves the block unchanged', 'post', tags=('flow',))
        if ex.feasible(e, nz(X != 0)):
            z = e.fork()
            z.assume(nz(z3.And(X != 0, z3.ULT(i0, X))))
            # frame of the outputs: nothing outside the emitted part was written (checked at every access); values
            if value:
                value(ex, z, pre, m, inp, outp, i0)


def bt(x):
    return x if z3.is_expr(x) else z3.BoolVal(bool(x))


def sample(ex, st, c, i0, part, n, stream=None):
    """component `part` (n bytes each) of element i0 of a stream"""
    return ex.rd(st, st.mem[c.stream.id], norm(bv(i0, 64) * c.esz + part * n), n)


def same(ex, z, pre, m, inp, outp, i0):
    c = inp[0]
    n = 8 if c.esz == 16 else min(4, c.esz)
    for o in outp:
        for p in range(c.esz // n):
            ex.check(z, eq(bv(sample(ex, z, o, i0, p, n), 8 * n), bv(sample(ex, pre, c, i0, p, n), 8 * n), 8 * n), 'samples arrive bit for bit, in order', 'post', tags=('flow', 'value'))


class _Float:
    k, size = 'float', 4


FLOAT = _Float()


def fpv(x):
    return z3.fpBVToFP(bv(x, 32), z3.Float32())


def feq(a, b):
    return z3.Or(z3.fpEQ(a, b), z3.And(z3.fpIsNaN(a), z3.fpIsNaN(b)))


def sum_f(ex, z, pre, m, inp, outp, i0):
    import itertools
    o = outp[0]
    for p in range(o.esz // 4):
        got = sample(ex, z, o, i0, p, 4)
        xs = [sample(ex, pre, c, i0, p, 4) for c in inp]
        if o.kind == 'i':
            ex.check(z, nz(bv(got, 32) == sum([bv(x, 32) for x in xs[1:]], bv(xs[0], 32))), 'each output is the sum of the inputs', 'post', tags=('value',))
            continue
        # the sum in any order, starting from zero or from the first input
        uf = []
        alts = []
        R = z3.RNE()
        for order in itertools.permutations(xs):
            v = fpv(order[0])
            for y in order[1:]:
                v = z3.fpAdd(R, v, fpv(y))
            alts.append(v)
            for lead in ([0], []):
                c = lead + list(order)
                t = c[0]
                for y in c[1:]:
                    t = ex.fop(z, 'fadd', [t, y], FLOAT)
                uf.append(bv(got, 32) == bv(t, 32))
        f = nz(z3.Or(*uf))
        if ex.prove(z, f):
            ex.check(z, f, 'each output is the sum of the inputs', 'post', tags=('value',))
            continue
        g_ = fpv(got)
        ex.check(z, nz(z3.Or(*[feq(g_, v) for v in alts[:max(1, len(alts) // 2 * 2)]])), 'each output is the sum of the inputs', 'post', tags=('value', 'fp'))


def by_ref(name, gain=None):
    def v(ex, z, pre, m, inp, outp, i0):
        """the reference operation on one sample, executed on the same bits"""
        c = inp[0]
        t = z.fork()
        t.frames = []
        t.status = 'run'
        t.ghost['lib'] = 1
        x = ex.new_obj(t, 'x', c.esz, 'param', 4)
        for p in range(c.esz // 4):
            ex.wr(t, x, 4 * p, 4, sample(ex, pre, c, i0, p, 4))
        rs = [ex.new_obj(t, 'r%d' % k, o.esz, 'param', 4) for k, o in enumerate(outp)]
        args = [Ptr(r, 0) for r in rs] + [Ptr(x, 0)]
        if gain is not None:
            args.append(gain(m) if callable(gain) else gain)
        for e in ex.call_function(t, name + '__ref', args):
            for r, o in zip(rs, outp):
                for p in range(o.esz // 4):
                    got, want = sample(ex, e, o, i0, p, 4), ex.rd(e, e.mem[r.id], 4 * p, 4)
                    if __import__('os').environ.get('DBG2'): print('GOT', got, 'WANT', want)
                    f = eq(bv(got, 32), bv(want, 32), 32)
                    if o.kind == 'i' or ex.prove(e, f):
                        ex.check(e, f, 'each output is the documented function of its sample', 'post', tags=('value',))
                    else:
                        ex.check(e, nz(feq(fpv(got), fpv(want))), 'each output is the documented function of its sample', 'post', tags=('value', 'fp'))
    return v


def taken(ex, z, pre, m, inp, outp, i0):
    ex.check(z, nz(m.g(z, inp[0], 'pos') == bv(z.ghost['taken'], 64)), 'exactly the samples the callback is done with are consumed', 'post', tags=('flow',))
